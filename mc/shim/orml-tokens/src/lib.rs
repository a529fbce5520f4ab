//! `orml-tokens`, following revision dc39cfd
#![allow(clippy::all)]
extern crate self as orml_tokens;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{ensure, pallet_prelude::*, traits::{tokens::{fungibles, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence}, *}};
use frame_system::pallet_prelude::*;
use orml_traits::{currency::*, GetByKey, Happened, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency};
use scale_info::TypeInfo;
use sp_runtime::{traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero}, ArithmeticError, DispatchError, FixedPointOperand};
use std::marker::PhantomData;
pub use imbalances::{NegativeImbalance, PositiveImbalance};
pub use module::*;

#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, RuntimeDebug, TypeInfo)]
pub struct BalanceLock<B> { pub id: LockIdentifier, pub amount: B }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, RuntimeDebug, TypeInfo)]
pub struct AccountData<B> { pub free: B, pub reserved: B, pub frozen: B }
impl<B: Saturating + Copy + Ord> AccountData<B> {
    pub fn frozen(&self) -> B { self.frozen }
    fn total(&self) -> B { self.free.saturating_add(self.reserved) }
}

#[frame_support::pallet]
pub mod module {
    use super::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: frame_support::dispatch::Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo + FixedPointOperand;
        type Amount;
        type CurrencyId: frame_support::dispatch::Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
        type WeightInfo;
        type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
        type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
        type MaxLocks: Get<u32>;
        type MaxReserves: Get<u32>;
        type ReserveIdentifier;
        type DustRemovalWhitelist: Contains<Self::AccountId>;
    }
    #[pallet::error]
    pub enum Error<T> { BalanceTooLow, AmountIntoBalanceFailed, LiquidityRestrictions, MaxLocksExceeded, KeepAlive, ExistentialDeposit, DeadAccount, TooManyReserves }
    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
        Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance, status: BalanceStatus },
        BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
        TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
        Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
        Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
    }
    #[pallet::storage] #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn locks)]
    pub type Locks<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn accounts)]
    pub type Accounts<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, AccountData<T::Balance>, ValueQuery>;
    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)> }
    impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { GenesisConfig { balances: vec![] } } }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            for (a, c, b) in &self.balances {
                assert!(*b >= T::ExistentialDeposits::get(c), "the balance of any account should always be more than existential deposit.");
                Pallet::<T>::mutate_account(a, *c, |x, _| x.free = *b);
                TotalIssuance::<T>::mutate(c, |t| *t = t.checked_add(b).expect("total issuance cannot overflow when building genesis"));
            }
        }
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(10_000, 0))]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
            let from = ensure_signed(origin)?; let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::from_parts(10_000, 0))]
        pub fn set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] new_free: T::Balance, #[pallet::compact] new_reserved: T::Balance) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            Self::try_mutate_account(&who, currency_id, |account, _| -> DispatchResult {
                let mut new_total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
                let (new_free, new_reserved) = if new_total < T::ExistentialDeposits::get(&currency_id) { new_total = Zero::zero(); (Zero::zero(), Zero::zero()) } else { (new_free, new_reserved) };
                let old_total = account.total();
                account.free = new_free; account.reserved = new_reserved;
                if new_total > old_total { TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_add(&(new_total - old_total)).ok_or(ArithmeticError::Overflow)?; Ok(()) })?; }
                else if new_total < old_total { TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_sub(&(old_total - new_total)).ok_or(ArithmeticError::Underflow)?; Ok(()) })?; }
                Self::deposit_event(Event::BalanceSet { currency_id, who: who.clone(), free: new_free, reserved: new_reserved });
                Ok(())
            })
        }
    }
}
type Hk<T> = <T as Config>::CurrencyHooks;
type Ai<T> = <T as frame_system::Config>::AccountId;
type Ci<T> = <T as Config>::CurrencyId;
type Ba<T> = <T as Config>::Balance;
impl<T: Config> Pallet<T> {
    pub fn try_mutate_account<R, E>(who: &T::AccountId, c: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
        Accounts::<T>::try_mutate_exists(who, c, |m| {
            let existed = m.is_some();
            let mut account = m.take().unwrap_or_default();
            f(&mut account, existed).map(|result| {
                let endowed = if !existed { Some(account.free) } else { None };
                let mut dust = None;
                let total = account.total();
                *m = if total < T::ExistentialDeposits::get(&c) {
                    if total.is_zero() { None } else { if !T::DustRemovalWhitelist::contains(who) { dust = Some(total) } Some(account) }
                } else { Some(account) };
                (endowed, existed, m.is_some(), dust, result)
            })
        }).map(|(endowed, existed, exists, dust, result)| {
            if existed && !exists { let _ = frame_system::Pallet::<T>::dec_providers(who); <Hk<T> as MutationHooks<_, _, _>>::OnKilledTokenAccount::happened(&(who.clone(), c)); }
            else if !existed && exists { frame_system::Pallet::<T>::inc_providers(who); <Hk<T> as MutationHooks<_, _, _>>::OnNewTokenAccount::happened(&(who.clone(), c)); }
            if let Some(amount) = endowed { Self::deposit_event(Event::Endowed { currency_id: c, who: who.clone(), amount }) }
            if let Some(amount) = dust { <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::OnDust::on_dust(who, c, amount); Self::deposit_event(Event::DustLost { currency_id: c, who: who.clone(), amount }) }
            result
        })
    }
    pub fn mutate_account<R>(who: &T::AccountId, c: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> R) -> R {
        match Self::try_mutate_account(who, c, |a, e| -> Result<R, ()> { Ok(f(a, e)) }) { Ok(r) => r, Err(_) => unreachable!() }
    }
    fn set_free_balance(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) { Self::mutate_account(who, c, |a, _| a.free = v) }
    fn set_reserved_balance(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) { Self::mutate_account(who, c, |a, _| a.reserved = v) }
    fn update_locks(c: T::CurrencyId, who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) -> DispatchResult {
        let b = BoundedVec::<BalanceLock<T::Balance>, T::MaxLocks>::try_from(locks.to_vec()).map_err(|_| Error::<T>::MaxLocksExceeded)?;
        Self::mutate_account(who, c, |a, _| { a.frozen = Zero::zero(); for l in locks { a.frozen = a.frozen.max(l.amount) } });
        let existed = <Locks<T>>::contains_key(who, c);
        if locks.is_empty() { <Locks<T>>::remove(who, c); if existed { frame_system::Pallet::<T>::dec_consumers(who) } }
        else { <Locks<T>>::insert(who, c, b); if !existed { let _ = frame_system::Pallet::<T>::inc_consumers(who); } }
        Ok(())
    }
    pub fn do_transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if amount.is_zero() || from == to { return Ok(()) }
        <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::PreTransfer::on_transfer(c, from, to, amount)?;
        Self::try_mutate_account(to, c, |to_account, _| -> DispatchResult {
            Self::try_mutate_account(from, c, |from_account, _| -> DispatchResult {
                from_account.free = from_account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
                to_account.free = to_account.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
                let ed = T::ExistentialDeposits::get(&c);
                ensure!(to_account.total() >= ed || T::DustRemovalWhitelist::contains(to), Error::<T>::ExistentialDeposit);
                Self::ensure_can_withdraw_(c, from, amount)?;
                let allow_death = er == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(from);
                let would_be_dead = if from_account.total() < ed { if from_account.total().is_zero() { true } else { !T::DustRemovalWhitelist::contains(from) } } else { false };
                ensure!(allow_death || !would_be_dead, Error::<T>::KeepAlive);
                Ok(())
            })
        })?;
        <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::PostTransfer::on_transfer(c, from, to, amount)?;
        Self::deposit_event(Event::Transfer { currency_id: c, from: from.clone(), to: to.clone(), amount });
        Ok(())
    }
    fn ensure_can_withdraw_(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() { return Ok(()) }
        let a = Self::accounts(who, c);
        let new = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        ensure!(new >= a.frozen(), Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    pub fn do_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, er: ExistenceRequirement, change_ti: bool) -> DispatchResult {
        if amount.is_zero() { return Ok(()) }
        Self::try_mutate_account(who, c, |account, _| -> DispatchResult {
            Self::ensure_can_withdraw_(c, who, amount)?;
            let previous_total = account.total();
            account.free = account.free - amount;
            let ed = T::ExistentialDeposits::get(&c);
            let would_be_dead = if account.total() < ed { if account.total().is_zero() { true } else { !T::DustRemovalWhitelist::contains(who) } } else { false };
            let would_kill = would_be_dead && (previous_total >= ed || !previous_total.is_zero());
            ensure!(er == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::KeepAlive);
            if change_ti { TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(amount)); }
            Self::deposit_event(Event::Withdrawn { currency_id: c, who: who.clone(), amount });
            Ok(())
        })
    }
    pub fn do_deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, require_existed: bool, change_ti: bool) -> DispatchResult {
        if amount.is_zero() { return Ok(()) }
        <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::PreDeposit::on_deposit(c, who, amount)?;
        Self::try_mutate_account(who, c, |account, existed| -> DispatchResult {
            if require_existed { ensure!(existed, Error::<T>::DeadAccount) } else { let ed = T::ExistentialDeposits::get(&c); ensure!(amount >= ed || existed, Error::<T>::ExistentialDeposit) }
            let ti = Self::total_issuance(c).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
            if change_ti { TotalIssuance::<T>::mutate(c, |v| *v = ti) }
            account.free = account.free.saturating_add(amount);
            Ok(())
        })?;
        <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::PostDeposit::on_deposit(c, who, amount)?;
        Self::deposit_event(Event::Deposited { currency_id: c, who: who.clone(), amount });
        Ok(())
    }
}
impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
    type CurrencyId = T::CurrencyId; type Balance = T::Balance;
    fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) }
    fn total_issuance(c: T::CurrencyId) -> T::Balance { Self::total_issuance(c) }
    fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).total() }
    fn free_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).free }
    fn ensure_can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::ensure_can_withdraw_(c, who, amount) }
    fn transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::do_transfer(c, from, to, amount, ExistenceRequirement::AllowDeath) }
    fn deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::do_deposit(c, who, amount, false, true) }
    fn withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult { Self::do_withdraw(c, who, amount, ExistenceRequirement::AllowDeath, true) }
    fn can_slash(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> bool { if v.is_zero() { return true } Self::accounts(who, c).free >= v }
    fn slash(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
        if amount.is_zero() { return amount }
        <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::OnSlash::on_slash(c, who, amount);
        let a = Self::accounts(who, c);
        let free = a.free.min(amount);
        let mut remaining = amount - free;
        if !free.is_zero() { Self::set_free_balance(c, who, a.free - free) }
        let mut reserved = Zero::zero();
        if !remaining.is_zero() { reserved = a.reserved.min(remaining); remaining -= reserved; Self::set_reserved_balance(c, who, a.reserved - reserved) }
        TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(amount - remaining));
        Self::deposit_event(Event::Slashed { currency_id: c, who: who.clone(), free_amount: free, reserved_amount: reserved });
        remaining
    }
}
impl<T: Config> MultiCurrencyExtended<T::AccountId> for Pallet<T> where T::Amount: TryInto<T::Balance> + Copy + Zero + PartialOrd + core::ops::Neg<Output = T::Amount> {
    type Amount = T::Amount;
    fn update_balance(c: T::CurrencyId, who: &T::AccountId, by: T::Amount) -> DispatchResult {
        if by.is_zero() { return Ok(()) }
        if by > Zero::zero() { let v = TryInto::<T::Balance>::try_into(by).map_err(|_| Error::<T>::AmountIntoBalanceFailed)?; <Self as MultiCurrency<_>>::deposit(c, who, v) }
        else { let v = TryInto::<T::Balance>::try_into(-by).map_err(|_| Error::<T>::AmountIntoBalanceFailed)?; <Self as MultiCurrency<_>>::withdraw(c, who, v) }
    }
}
impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = BlockNumberFor<T>;
    fn set_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() { return Self::remove_lock(id, c, who) }
        let mut n = Some(BalanceLock { id, amount });
        let mut locks: Vec<_> = Self::locks(who, c).into_iter().filter_map(|l| if l.id == id { n.take() } else { Some(l) }).collect();
        if let Some(l) = n { locks.push(l) }
        Self::update_locks(c, who, &locks[..])?;
        Self::deposit_event(Event::LockSet { lock_id: id, currency_id: c, who: who.clone(), amount });
        Ok(())
    }
    fn extend_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() { return Ok(()) }
        let mut n = Some(BalanceLock { id, amount });
        let mut locks: Vec<_> = Self::locks(who, c).into_iter().filter_map(|l| if l.id == id { n.take().map(|x| BalanceLock { id: l.id, amount: l.amount.max(x.amount) }) } else { Some(l) }).collect();
        if let Some(l) = n { locks.push(l) }
        Self::update_locks(c, who, &locks[..])
    }
    fn remove_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
        let mut locks = Self::locks(who, c).into_inner(); locks.retain(|l| l.id != id);
        Self::update_locks(c, who, &locks[..])?;
        Self::deposit_event(Event::LockRemoved { lock_id: id, currency_id: c, who: who.clone() });
        Ok(())
    }
}
impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> bool { if v.is_zero() { return true } Self::ensure_can_withdraw_(c, who, v).is_ok() }
    fn slash_reserved(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> T::Balance {
        if v.is_zero() { return v }
        <Hk<T> as MutationHooks<Ai<T>, Ci<T>, Ba<T>>>::OnSlash::on_slash(c, who, v);
        let reserved = Self::reserved_balance(c, who); let actual = reserved.min(v);
        Self::mutate_account(who, c, |a, _| a.reserved = reserved - actual);
        TotalIssuance::<T>::mutate(c, |x| *x = x.saturating_sub(actual));
        Self::deposit_event(Event::Slashed { currency_id: c, who: who.clone(), free_amount: Zero::zero(), reserved_amount: actual });
        v - actual
    }
    fn reserved_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).reserved }
    fn reserve(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> DispatchResult {
        if v.is_zero() { return Ok(()) }
        Self::ensure_can_withdraw_(c, who, v)?;
        Self::mutate_account(who, c, |a, _| { a.free -= v; a.reserved = a.reserved.saturating_add(v); Self::deposit_event(Event::Reserved { currency_id: c, who: who.clone(), amount: v }) });
        Ok(())
    }
    fn unreserve(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> T::Balance {
        if v.is_zero() { return v }
        let remaining = Self::mutate_account(who, c, |a, _| { let actual = a.reserved.min(v); a.reserved -= actual; a.free = a.free.saturating_add(actual); Self::deposit_event(Event::Unreserved { currency_id: c, who: who.clone(), amount: actual }); v - actual });
        remaining
    }
    fn repatriate_reserved(c: T::CurrencyId, slashed: &T::AccountId, beneficiary: &T::AccountId, v: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if v.is_zero() { return Ok(v) }
        if slashed == beneficiary { return match status { BalanceStatus::Free => Ok(Self::unreserve(c, slashed, v)), BalanceStatus::Reserved => Ok(v.saturating_sub(Self::reserved_balance(c, slashed))) } }
        let from = Self::accounts(slashed, c); let to = Self::accounts(beneficiary, c);
        let actual = from.reserved.min(v);
        match status {
            BalanceStatus::Free => Self::set_free_balance(c, beneficiary, to.free.saturating_add(actual)),
            BalanceStatus::Reserved => Self::set_reserved_balance(c, beneficiary, to.reserved.saturating_add(actual)),
        }
        Self::set_reserved_balance(c, slashed, from.reserved - actual);
        Self::deposit_event(Event::ReserveRepatriated { currency_id: c, from: slashed.clone(), to: beneficiary.clone(), amount: actual, status });
        Ok(v - actual)
    }
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
    type AssetId = T::CurrencyId; type Balance = T::Balance;
    fn total_issuance(c: T::CurrencyId) -> T::Balance { Self::total_issuance(c) }
    fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) }
    fn balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).free }
    fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).total() }
    fn reducible_balance(c: T::CurrencyId, who: &T::AccountId, preservation: Preservation, _f: Fortitude) -> T::Balance {
        let a = Self::accounts(who, c);
        let liquid = a.free.saturating_sub(a.frozen);
        if preservation == Preservation::Expendable && frame_system::Pallet::<T>::can_dec_provider(who) { liquid }
        else { let must = T::ExistentialDeposits::get(&c).saturating_sub(a.total() - liquid); liquid.saturating_sub(must) }
    }
    fn can_deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _p: Provenance) -> DepositConsequence {
        if amount.is_zero() { return DepositConsequence::Success }
        if Self::total_issuance(c).checked_add(&amount).is_none() { return DepositConsequence::Overflow }
        let a = Self::accounts(who, c);
        let n = match a.total().checked_add(&amount) { Some(x) => x, None => return DepositConsequence::Overflow };
        if n < T::ExistentialDeposits::get(&c) { return DepositConsequence::BelowMinimum }
        DepositConsequence::Success
    }
    fn can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        if amount.is_zero() { return WithdrawConsequence::Success }
        if Self::total_issuance(c).checked_sub(&amount).is_none() { return WithdrawConsequence::Underflow }
        if amount > T::Balance::max_value() { return WithdrawConsequence::Overflow }
        let a = Self::accounts(who, c);
        let n = match a.total().checked_sub(&amount) { Some(x) => x, None => return WithdrawConsequence::BalanceLow };
        let ed = T::ExistentialDeposits::get(&c);
        let success = if n < ed { if frame_system::Pallet::<T>::can_dec_provider(who) { WithdrawConsequence::ReducedToZero(n) } else { return WithdrawConsequence::WouldDie } } else { WithdrawConsequence::Success };
        match a.free.checked_sub(&amount) { Some(b) if b >= a.frozen() => success, Some(_) => WithdrawConsequence::Frozen, None => WithdrawConsequence::BalanceLow }
    }
    fn asset_exists(_: T::CurrencyId) -> bool { true }
}
mod imbalances {
    use super::*;
    macro_rules! imb { ($n:ident, $o:ident, $up:expr) => {
        pub struct $n<T: Config, G: Get<T::CurrencyId>>(pub(crate) T::Balance, PhantomData<G>);
        impl<T: Config, G: Get<T::CurrencyId>> $n<T, G> { pub fn new(a: T::Balance) -> Self { $n(a, PhantomData) } }
        impl<T: Config, G: Get<T::CurrencyId>> Default for $n<T, G> { fn default() -> Self { Self::zero() } }
        impl<T: Config, G: Get<T::CurrencyId>> TryDrop for $n<T, G> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
        impl<T: Config, G: Get<T::CurrencyId>> Imbalance<T::Balance> for $n<T, G> {
            type Opposite = $o<T, G>;
            fn zero() -> Self { Self::new(Zero::zero()) }
            fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { Ok(()) } else { Err(self) } }
            fn split(self, amount: T::Balance) -> (Self, Self) { let first = self.0.min(amount); let second = self.0 - first; core::mem::forget(self); (Self::new(first), Self::new(second)) }
            fn merge(mut self, other: Self) -> Self { self.0 = self.0.saturating_add(other.0); core::mem::forget(other); self }
            fn subsume(&mut self, other: Self) { self.0 = self.0.saturating_add(other.0); core::mem::forget(other) }
            fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> { let (a, b) = (self.0, other.0); core::mem::forget((self, other)); if a > b { SameOrOther::Same(Self::new(a - b)) } else if b > a { SameOrOther::Other($o::new(b - a)) } else { SameOrOther::None } }
            fn peek(&self) -> T::Balance { self.0 }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Drop for $n<T, G> { fn drop(&mut self) { TotalIssuance::<T>::mutate(G::get(), |v| *v = if $up { v.saturating_add(self.0) } else { v.saturating_sub(self.0) }) } }
    } }
    imb!(PositiveImbalance, NegativeImbalance, true);
    imb!(NegativeImbalance, PositiveImbalance, false);
}
pub struct CurrencyAdapter<T, G>(PhantomData<(T, G)>);
impl<T: Config, G: Get<T::CurrencyId>> Currency<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance; type PositiveImbalance = PositiveImbalance<T, G>; type NegativeImbalance = NegativeImbalance<T, G>;
    fn total_balance(who: &T::AccountId) -> T::Balance { <Pallet<T> as MultiCurrency<_>>::total_balance(G::get(), who) }
    fn can_slash(who: &T::AccountId, v: T::Balance) -> bool { <Pallet<T> as MultiCurrency<_>>::can_slash(G::get(), who, v) }
    fn total_issuance() -> T::Balance { Pallet::<T>::total_issuance(G::get()) }
    fn minimum_balance() -> T::Balance { T::ExistentialDeposits::get(&G::get()) }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance { if amount.is_zero() { return PositiveImbalance::zero() } TotalIssuance::<T>::mutate(G::get(), |i| *i = i.checked_sub(&amount).unwrap_or_else(|| { amount = *i; Zero::zero() })); PositiveImbalance::new(amount) }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance { if amount.is_zero() { return NegativeImbalance::zero() } TotalIssuance::<T>::mutate(G::get(), |i| *i = i.checked_add(&amount).unwrap_or_else(|| { amount = T::Balance::max_value() - *i; T::Balance::max_value() })); NegativeImbalance::new(amount) }
    fn free_balance(who: &T::AccountId) -> T::Balance { Pallet::<T>::accounts(who, G::get()).free }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons, _n: T::Balance) -> DispatchResult { Pallet::<T>::ensure_can_withdraw_(G::get(), who, amount) }
    fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, er: ExistenceRequirement) -> DispatchResult { Pallet::<T>::do_transfer(G::get(), s, d, v, er) }
    fn slash(who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if v.is_zero() { return (NegativeImbalance::zero(), v) }
        let c = G::get(); let a = Pallet::<T>::accounts(who, c); let free = a.free.min(v); let mut rem = v - free;
        if !free.is_zero() { Pallet::<T>::set_free_balance(c, who, a.free - free) }
        if !rem.is_zero() { let r = a.reserved.min(rem); rem -= r; Pallet::<T>::set_reserved_balance(c, who, a.reserved - r); (NegativeImbalance::new(free + r), rem) } else { (NegativeImbalance::new(v), rem) }
    }
    fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> { if v.is_zero() { return Ok(PositiveImbalance::zero()) } Pallet::<T>::do_deposit(G::get(), who, v, true, false)?; Ok(PositiveImbalance::new(v)) }
    fn deposit_creating(who: &T::AccountId, v: T::Balance) -> Self::PositiveImbalance { if v.is_zero() { return PositiveImbalance::zero() } match Pallet::<T>::do_deposit(G::get(), who, v, false, false) { Ok(()) => PositiveImbalance::new(v), Err(_) => PositiveImbalance::zero() } }
    fn withdraw(who: &T::AccountId, v: T::Balance, _r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> { if v.is_zero() { return Ok(NegativeImbalance::zero()) } Pallet::<T>::do_withdraw(G::get(), who, v, l, false)?; Ok(NegativeImbalance::new(v)) }
    fn make_free_balance_be(who: &T::AccountId, v: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        let c = G::get();
        Pallet::<T>::try_mutate_account(who, c, |a, existed| -> Result<SignedImbalance<T::Balance, Self::PositiveImbalance>, ()> {
            let ed = T::ExistentialDeposits::get(&c);
            ensure!(v.saturating_add(a.reserved) >= ed || existed, ());
            let i = if a.free <= v { SignedImbalance::Positive(PositiveImbalance::new(v - a.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(a.free - v)) };
            a.free = v;
            Ok(i)
        }).unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
    }
}
impl<T: Config, G: Get<T::CurrencyId>> ReservableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool { <Pallet<T> as MultiReservableCurrency<_>>::can_reserve(G::get(), who, v) }
    fn slash_reserved(who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) { let r = <Pallet<T> as MultiReservableCurrency<_>>::slash_reserved(G::get(), who, v); (NegativeImbalance::zero(), r) }
    fn reserved_balance(who: &T::AccountId) -> T::Balance { Pallet::<T>::accounts(who, G::get()).reserved }
    fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult { <Pallet<T> as MultiReservableCurrency<_>>::reserve(G::get(), who, v) }
    fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance { <Pallet<T> as MultiReservableCurrency<_>>::unreserve(G::get(), who, v) }
    fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> { <Pallet<T> as MultiReservableCurrency<_>>::repatriate_reserved(G::get(), s, b, v, st) }
}
impl<T: Config, G: Get<T::CurrencyId>> LockableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    type Moment = BlockNumberFor<T>; type MaxLocks = ();
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons) { let _ = <Pallet<T> as MultiLockableCurrency<_>>::set_lock(id, G::get(), who, amount); }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons) { let _ = <Pallet<T> as MultiLockableCurrency<_>>::extend_lock(id, G::get(), who, amount); }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) { let _ = <Pallet<T> as MultiLockableCurrency<_>>::remove_lock(id, G::get(), who); }
}

/// dust goes to an account
pub struct TransferDust<T, D>(PhantomData<(T, D)>);
impl<T: Config, D: Get<T::AccountId>> orml_traits::currency::OnDust<T::AccountId, T::CurrencyId, T::Balance> for TransferDust<T, D> {
    fn on_dust(who: &T::AccountId, c: T::CurrencyId, amount: T::Balance) { let _ = <Pallet<T> as MultiCurrency<_>>::transfer(c, who, &D::get(), amount); }
}

impl<T: Config, G: Get<T::CurrencyId>> frame_support::traits::tokens::fungible::Inspect<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    fn total_issuance() -> T::Balance { <Pallet<T> as fungibles::Inspect<_>>::total_issuance(G::get()) }
    fn minimum_balance() -> T::Balance { <Pallet<T> as fungibles::Inspect<_>>::minimum_balance(G::get()) }
    fn total_balance(who: &T::AccountId) -> T::Balance { <Pallet<T> as fungibles::Inspect<_>>::total_balance(G::get(), who) }
    fn balance(who: &T::AccountId) -> T::Balance { <Pallet<T> as fungibles::Inspect<_>>::balance(G::get(), who) }
    fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance { <Pallet<T> as fungibles::Inspect<_>>::reducible_balance(G::get(), who, p, f) }
    fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence { <Pallet<T> as fungibles::Inspect<_>>::can_deposit(G::get(), who, amount, p) }
    fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> { <Pallet<T> as fungibles::Inspect<_>>::can_withdraw(G::get(), who, amount) }
}
