//! `pallet-balances`, the parts the pallets' mocks use.
#![allow(clippy::all)]
extern crate self as pallet_balances;
use codec::{Codec, Decode, Encode, MaxEncodedLen};
use frame_support::{ensure, pallet_prelude::*, traits::*};
use frame_system::pallet_prelude::*;
use scale_info::TypeInfo;
use sp_runtime::{traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Saturating, StaticLookup, Zero}, ArithmeticError, DispatchError, FixedPointOperand, TokenError};
use std::fmt::Debug;
pub use imbalances::{NegativeImbalance, PositiveImbalance};
pub use pallet::*;
#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, RuntimeDebug, TypeInfo)]
pub struct BalanceLock<B> { pub id: LockIdentifier, pub amount: B, pub reasons: u8 }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, RuntimeDebug, TypeInfo)]
pub struct AccountData<B> { pub free: B, pub reserved: B, pub frozen: B, pub flags: u128 }
impl<B: Saturating + Copy> AccountData<B> { fn total(&self) -> B { self.free.saturating_add(self.reserved) } }
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    #[pallet::config]
    pub trait Config<I: 'static = ()>: frame_system::Config {
        type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type WeightInfo;
        type Balance: frame_support::dispatch::Parameter + Member + AtLeast32BitUnsigned + Codec + Default + Copy + MaybeSerializeDeserialize + Debug + MaxEncodedLen + TypeInfo + FixedPointOperand;
        type DustRemoval;
        type ExistentialDeposit: Get<Self::Balance>;
        type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
        type ReserveIdentifier;
        type RuntimeHoldReason;
        type FreezeIdentifier;
        type MaxLocks: Get<u32>;
        type MaxReserves: Get<u32>;
        type MaxHolds: Get<u32>;
        type MaxFreezes: Get<u32>;
    }
    #[pallet::pallet]
    pub struct Pallet<T, I = ()>(_);
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config<I>, I: 'static = ()> {
        Endowed { account: T::AccountId, free_balance: T::Balance }, Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
        BalanceSet { who: T::AccountId, free: T::Balance }, Reserved { who: T::AccountId, amount: T::Balance }, Unreserved { who: T::AccountId, amount: T::Balance },
        Deposit { who: T::AccountId, amount: T::Balance }, Withdraw { who: T::AccountId, amount: T::Balance }, Slashed { who: T::AccountId, amount: T::Balance },
    }
    #[pallet::error]
    pub enum Error<T, I = ()> { VestingBalance, LiquidityRestrictions, InsufficientBalance, ExistentialDeposit, Expendability, ExistingVestingSchedule, DeadAccount, TooManyReserves, TooManyHolds, TooManyFreezes }
    #[pallet::storage] #[pallet::getter(fn total_issuance_)]
    pub type TotalIssuance<T: Config<I>, I: 'static = ()> = StorageValue<_, T::Balance, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn locks)]
    pub type Locks<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;
    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config<I>, I: 'static = ()> { pub balances: Vec<(T::AccountId, T::Balance)> }
    impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> { fn default() -> Self { Self { balances: vec![] } } }
    #[pallet::genesis_build]
    impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
        fn build(&self) {
            <TotalIssuance<T, I>>::put(self.balances.iter().fold(T::Balance::zero(), |a, &(_, n)| a + n));
            for &(ref who, free) in &self.balances { frame_system::Pallet::<T>::inc_providers(who); assert!(T::AccountStore::insert(who, AccountData { free, ..Default::default() }).is_ok()); }
        }
    }
    #[pallet::call]
    impl<T: Config<I>, I: 'static> Pallet<T, I> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(10_000, 0))]
        pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as Currency<_>>::transfer(&s, &d, value, ExistenceRequirement::AllowDeath) }
        #[pallet::call_index(3)]
        #[pallet::weight(Weight::from_parts(10_000, 0))]
        pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as Currency<_>>::transfer(&s, &d, value, ExistenceRequirement::KeepAlive) }
        #[pallet::call_index(5)]
        #[pallet::weight(0)]
        pub fn force_unreserve(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, amount: T::Balance) -> DispatchResult { ensure_root(origin)?; let w = T::Lookup::lookup(who)?; let _ = <Self as ReservableCurrency<_>>::unreserve(&w, amount); Ok(()) }
        #[pallet::call_index(7)]
        #[pallet::weight(Weight::from_parts(10_000, 0))]
        pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as Currency<_>>::transfer(&s, &d, value, ExistenceRequirement::AllowDeath) }
        #[pallet::call_index(8)]
        #[pallet::weight(Weight::from_parts(10_000, 0))]
        pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
            ensure_root(origin)?; let who = T::Lookup::lookup(who)?;
            let old = Self::free_balance(&who);
            Self::try_mutate_account(&who, |a| -> DispatchResult { a.free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free }; Ok(()) })?;
            let new = Self::free_balance(&who);
            TotalIssuance::<T, I>::mutate(|t| *t = (*t + new) - old);
            Ok(())
        }
    }
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
    pub fn free_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance { T::AccountStore::get(who.borrow()).free }
    pub fn reserved_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance { T::AccountStore::get(who.borrow()).reserved }
    pub fn usable_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance { let a = T::AccountStore::get(who.borrow()); a.free.saturating_sub(a.frozen.saturating_sub(a.reserved)) }
    pub fn total_issuance() -> T::Balance { TotalIssuance::<T, I>::get() }
    pub fn account(who: &T::AccountId) -> AccountData<T::Balance> { T::AccountStore::get(who) }
    pub fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> Result<R, E>) -> Result<R, E> {
        let mut a = T::AccountStore::get(who);
        let did = a.free >= T::ExistentialDeposit::get() && !(a.free.is_zero() && a.reserved.is_zero());
        let r = f(&mut a)?;
        let does = a.free >= T::ExistentialDeposit::get() && !(a.free.is_zero() && a.reserved.is_zero());
        if !did && does { frame_system::Pallet::<T>::inc_providers(who); }
        let mut dust = T::Balance::zero();
        if did && !does { if a.reserved.is_zero() { dust = a.free; a.free = Zero::zero(); } let _ = frame_system::Pallet::<T>::dec_providers(who)?; }
        T::AccountStore::insert(who, a)?;
        if !dust.is_zero() { TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_sub(dust)) }
        Ok(r)
    }
    fn update_locks(who: &T::AccountId, locks: &Vec<BalanceLock<T::Balance>>) {
        let mut a = T::AccountStore::get(who); a.frozen = Zero::zero();
        for l in locks { a.frozen = a.frozen.max(l.amount) }
        let _ = T::AccountStore::insert(who, a);
        let existed = Locks::<T, I>::contains_key(who);
        if locks.is_empty() { Locks::<T, I>::remove(who); if existed { frame_system::Pallet::<T>::dec_consumers(who) } } else { Locks::<T, I>::insert(who, locks); if !existed { let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(who); } }
    }
}
impl<T: Config<I>, I: 'static> Currency<T::AccountId> for Pallet<T, I> {
    type Balance = T::Balance; type PositiveImbalance = PositiveImbalance<T, I>; type NegativeImbalance = NegativeImbalance<T, I>;
    fn total_balance(who: &T::AccountId) -> T::Balance { T::AccountStore::get(who).total() }
    fn can_slash(who: &T::AccountId, v: T::Balance) -> bool { Self::free_balance(who) >= v }
    fn total_issuance() -> T::Balance { Self::total_issuance() }
    fn minimum_balance() -> T::Balance { T::ExistentialDeposit::get() }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance { TotalIssuance::<T, I>::mutate(|i| *i = i.checked_sub(&amount).unwrap_or_else(|| { amount = *i; Zero::zero() })); PositiveImbalance::new(amount) }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance { TotalIssuance::<T, I>::mutate(|i| *i = i.checked_add(&amount).unwrap_or_else(|| { amount = T::Balance::max_value() - *i; T::Balance::max_value() })); NegativeImbalance::new(amount) }
    fn free_balance(who: &T::AccountId) -> T::Balance { T::AccountStore::get(who).free }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons, new: T::Balance) -> DispatchResult { if amount.is_zero() { return Ok(()) } ensure!(new >= T::AccountStore::get(who).frozen, Error::<T, I>::LiquidityRestrictions); Ok(()) }
    fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if v.is_zero() || s == d { return Ok(()) }
        let a = T::AccountStore::get(s);
        let new = a.free.checked_sub(&v).ok_or(DispatchError::Token(TokenError::FundsUnavailable))?;
        ensure!(new >= a.frozen.saturating_sub(a.reserved), DispatchError::Token(TokenError::Frozen));
        if er == ExistenceRequirement::KeepAlive { ensure!(new >= T::ExistentialDeposit::get(), DispatchError::Token(TokenError::NotExpendable)) }
        let to = T::AccountStore::get(d).free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
        ensure!(to >= T::ExistentialDeposit::get(), DispatchError::Token(TokenError::BelowMinimum));
        Self::try_mutate_account(d, |x| -> DispatchResult { x.free = to; Ok(()) })?;
        Self::try_mutate_account(s, |x| -> DispatchResult { x.free = new; Ok(()) })?;
        Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount: v });
        Ok(())
    }
    fn slash(who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let f = Self::free_balance(who).min(v);
        let _ = Self::try_mutate_account(who, |a| -> DispatchResult { a.free -= f; Ok(()) });
        (NegativeImbalance::new(f), v - f)
    }
    fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        if v.is_zero() { return Ok(PositiveImbalance::zero()) }
        ensure!(!T::AccountStore::get(who).total().is_zero(), Error::<T, I>::DeadAccount);
        Self::try_mutate_account(who, |a| -> Result<_, DispatchError> { a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?; Ok(PositiveImbalance::new(v)) })
    }
    fn deposit_creating(who: &T::AccountId, v: T::Balance) -> Self::PositiveImbalance {
        if v.is_zero() { return PositiveImbalance::zero() }
        Self::try_mutate_account(who, |a| -> Result<_, DispatchError> { ensure!(v >= T::ExistentialDeposit::get() || !a.total().is_zero(), Error::<T, I>::ExistentialDeposit); a.free = match a.free.checked_add(&v) { Some(x) => x, None => return Ok(PositiveImbalance::zero()) }; Ok(PositiveImbalance::new(v)) }).unwrap_or_else(|_| PositiveImbalance::zero())
    }
    fn withdraw(who: &T::AccountId, v: T::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
        if v.is_zero() { return Ok(NegativeImbalance::zero()) }
        let new = Self::free_balance(who).checked_sub(&v).ok_or(Error::<T, I>::InsufficientBalance)?;
        ensure!(new >= T::ExistentialDeposit::get() || l == ExistenceRequirement::AllowDeath, Error::<T, I>::Expendability);
        <Self as Currency<_>>::ensure_can_withdraw(who, v, r, new)?;
        Self::try_mutate_account(who, |a| -> Result<_, DispatchError> { a.free = new; Ok(NegativeImbalance::new(v)) })
    }
    fn make_free_balance_be(who: &T::AccountId, v: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        Self::try_mutate_account(who, |a| -> Result<_, DispatchError> {
            ensure!(v.saturating_add(a.reserved) >= T::ExistentialDeposit::get() || !a.total().is_zero(), Error::<T, I>::ExistentialDeposit);
            let i = if a.free <= v { SignedImbalance::Positive(PositiveImbalance::new(v - a.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(a.free - v)) };
            a.free = v; Ok(i)
        }).unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
    }
}
impl<T: Config<I>, I: 'static> ReservableCurrency<T::AccountId> for Pallet<T, I> {
    fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool { if v.is_zero() { return true } Self::free_balance(who).checked_sub(&v).map_or(false, |n| n >= T::AccountStore::get(who).frozen) }
    fn slash_reserved(who: &T::AccountId, v: T::Balance) -> (Self::NegativeImbalance, T::Balance) { let r = Self::reserved_balance(who).min(v); let _ = Self::try_mutate_account(who, |a| -> DispatchResult { a.reserved -= r; Ok(()) }); (NegativeImbalance::new(r), v - r) }
    fn reserved_balance(who: &T::AccountId) -> T::Balance { T::AccountStore::get(who).reserved }
    fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult {
        if v.is_zero() { return Ok(()) }
        Self::try_mutate_account(who, |a| -> DispatchResult { let n = a.free.checked_sub(&v).ok_or(Error::<T, I>::InsufficientBalance)?; ensure!(n >= a.frozen, Error::<T, I>::LiquidityRestrictions); a.free = n; a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?; Ok(()) })?;
        Self::deposit_event(Event::Reserved { who: who.clone(), amount: v });
        Ok(())
    }
    fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance {
        if v.is_zero() { return v }
        let act = Self::reserved_balance(who).min(v);
        let _ = Self::try_mutate_account(who, |a| -> DispatchResult { a.reserved -= act; a.free += act; Ok(()) });
        Self::deposit_event(Event::Unreserved { who: who.clone(), amount: act });
        v - act
    }
    fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if v.is_zero() { return Ok(v) }
        if s == b { return match st { BalanceStatus::Free => Ok(Self::unreserve(s, v)), BalanceStatus::Reserved => Ok(v.saturating_sub(Self::reserved_balance(s))) } }
        ensure!(!T::AccountStore::get(b).total().is_zero(), Error::<T, I>::DeadAccount);
        let act = Self::reserved_balance(s).min(v);
        Self::try_mutate_account(b, |a| -> DispatchResult { match st { BalanceStatus::Free => a.free += act, BalanceStatus::Reserved => a.reserved += act } Ok(()) })?;
        Self::try_mutate_account(s, |a| -> DispatchResult { a.reserved -= act; Ok(()) })?;
        Ok(v - act)
    }
}
impl<T: Config<I>, I: 'static> LockableCurrency<T::AccountId> for Pallet<T, I> {
    type Moment = BlockNumberFor<T>; type MaxLocks = T::MaxLocks;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if amount.is_zero() || reasons.is_empty() { return }
        let mut n = Some(BalanceLock { id, amount, reasons: reasons.bits() });
        let mut ls: Vec<_> = Self::locks(who).into_iter().filter_map(|l| if l.id == id { n.take() } else { Some(l) }).collect();
        if let Some(l) = n { ls.push(l) }
        Self::update_locks(who, &ls)
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if amount.is_zero() || reasons.is_empty() { return }
        let mut n = Some(BalanceLock { id, amount, reasons: reasons.bits() });
        let mut ls: Vec<_> = Self::locks(who).into_iter().filter_map(|l| if l.id == id { n.take().map(|x| BalanceLock { id, amount: l.amount.max(x.amount), reasons: l.reasons | x.reasons }) } else { Some(l) }).collect();
        if let Some(l) = n { ls.push(l) }
        Self::update_locks(who, &ls)
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) { let mut ls = Self::locks(who); ls.retain(|l| l.id != id); Self::update_locks(who, &ls) }
}
mod imbalances {
    use super::*;
    macro_rules! imb { ($n:ident, $o:ident, $up:expr) => {
        pub struct $n<T: Config<I>, I: 'static = ()>(pub(crate) T::Balance);
        impl<T: Config<I>, I: 'static> $n<T, I> { pub fn new(a: T::Balance) -> Self { $n(a) } }
        impl<T: Config<I>, I: 'static> Default for $n<T, I> { fn default() -> Self { Self::zero() } }
        impl<T: Config<I>, I: 'static> TryDrop for $n<T, I> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
        impl<T: Config<I>, I: 'static> Imbalance<T::Balance> for $n<T, I> {
            type Opposite = $o<T, I>;
            fn zero() -> Self { Self::new(Zero::zero()) }
            fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { Ok(()) } else { Err(self) } }
            fn split(self, amount: T::Balance) -> (Self, Self) { let first = self.0.min(amount); let second = self.0 - first; core::mem::forget(self); (Self::new(first), Self::new(second)) }
            fn merge(mut self, other: Self) -> Self { self.0 = self.0.saturating_add(other.0); core::mem::forget(other); self }
            fn subsume(&mut self, other: Self) { self.0 = self.0.saturating_add(other.0); core::mem::forget(other) }
            fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> { let (a, b) = (self.0, other.0); core::mem::forget((self, other)); if a > b { SameOrOther::Same(Self::new(a - b)) } else if b > a { SameOrOther::Other($o::new(b - a)) } else { SameOrOther::None } }
            fn peek(&self) -> T::Balance { self.0 }
        }
        impl<T: Config<I>, I: 'static> Drop for $n<T, I> { fn drop(&mut self) { TotalIssuance::<T, I>::mutate(|v| *v = if $up { v.saturating_add(self.0) } else { v.saturating_sub(self.0) }) } }
    } }
    imb!(PositiveImbalance, NegativeImbalance, true);
    imb!(NegativeImbalance, PositiveImbalance, false);
}
