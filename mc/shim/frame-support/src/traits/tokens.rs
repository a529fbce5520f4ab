use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use std::fmt::Debug;
use crate::dispatch::{DispatchError, DispatchResult};
use sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize, Zero, Saturating};
use sp_runtime::{ArithmeticError, TokenError, FixedPointOperand};

pub type LockIdentifier = [u8; 8];
#[derive(Copy, Clone, PartialEq, Eq, Debug)] pub enum Preservation { Expendable, Protect, Preserve }
#[derive(Copy, Clone, PartialEq, Eq, Debug)] pub enum Fortitude { Polite, Force }
#[derive(Copy, Clone, PartialEq, Eq, Debug)] pub enum Precision { Exact, BestEffort }
#[derive(Copy, Clone, PartialEq, Eq, Debug)] pub enum Restriction { Free, OnHold }
#[derive(Copy, Clone, PartialEq, Eq, Debug)] pub enum Provenance { Minted, Extant }
#[derive(Copy, Clone, PartialEq, Eq, Debug)] pub enum ExistenceRequirement { KeepAlive, AllowDeath }
#[derive(Copy, Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)] pub enum BalanceStatus { Free, Reserved }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
impl<B: Zero> WithdrawConsequence<B> {
    pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
        use WithdrawConsequence::*;
        match self { BalanceLow => Err(TokenError::FundsUnavailable.into()), WouldDie => Err(TokenError::OnlyProvider.into()), UnknownAsset => Err(TokenError::UnknownAsset.into()), Underflow => Err(ArithmeticError::Underflow.into()), Overflow => Err(ArithmeticError::Overflow.into()), Frozen => Err(TokenError::Frozen.into()), ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()), ReducedToZero(r) => Ok(r), Success => Ok(Zero::zero()) }
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
impl DepositConsequence {
    pub fn into_result(self) -> DispatchResult { use DepositConsequence::*; Err(match self { BelowMinimum => TokenError::BelowMinimum.into(), CannotCreate => TokenError::CannotCreate.into(), UnknownAsset => TokenError::UnknownAsset.into(), Overflow => ArithmeticError::Overflow.into(), Blocked => TokenError::Blocked.into(), Success => return Ok(()) }) }
}
bitflags::bitflags! {
    #[derive(Encode, Decode, MaxEncodedLen, TypeInfo)]
    pub struct WithdrawReasons: u8 { const TRANSACTION_PAYMENT = 1; const TRANSFER = 2; const RESERVE = 4; const FEE = 8; const TIP = 16; }
}
impl WithdrawReasons { pub fn except(one: WithdrawReasons) -> Self { let mut f = Self::all(); f.toggle(one); f } }

pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + MaybeSerializeDeserialize + FixedPointOperand + 'static {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + MaybeSerializeDeserialize + FixedPointOperand + 'static> Balance for T {}

pub mod imbalance {
    use super::*;
    pub trait TryDrop: Sized { fn try_drop(self) -> Result<(), Self>; }
    pub enum SameOrOther<A, B> { None, Same(A), Other(B) }
    impl<A, B> SameOrOther<A, B> { pub fn same(self) -> Result<A, B> where A: Default { match self { SameOrOther::Same(a) => Ok(a), SameOrOther::None => Ok(A::default()), SameOrOther::Other(b) => Err(b) } } }
    impl<A: TryDrop, B: TryDrop> TryDrop for SameOrOther<A, B> { fn try_drop(self) -> Result<(), Self> { match self { SameOrOther::None => Ok(()), SameOrOther::Same(x) => x.try_drop().map_err(SameOrOther::Same), SameOrOther::Other(x) => x.try_drop().map_err(SameOrOther::Other) } } }
    #[must_use]
    pub trait Imbalance<B: Zero>: Sized + TryDrop + Default {
        type Opposite: Imbalance<B>;
        fn zero() -> Self;
        fn drop_zero(self) -> Result<(), Self>;
        fn split(self, amount: B) -> (Self, Self);
        fn merge(self, other: Self) -> Self;
        fn subsume(&mut self, other: Self);
        fn merge_into(self, other: &mut Self) { other.subsume(self) }
        fn maybe_merge(self, other: Option<Self>) -> Self { if let Some(o) = other { self.merge(o) } else { self } }
        fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
        fn peek(&self) -> B;
        fn ration(self, first: u32, second: u32) -> (Self, Self) where B: From<u32> + Saturating + core::ops::Div<Output = B> { let total: u32 = first.saturating_add(second); if total == 0 { return (Self::zero(), Self::zero()) } let a1 = self.peek().saturating_mul(first.into()) / total.into(); self.split(a1) }
    }
    pub enum SignedImbalance<B, P: Imbalance<B>> where B: Zero { Positive(P), Negative(P::Opposite) }
    impl<P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>, B: Zero> SignedImbalance<B, P> { pub fn zero() -> Self { SignedImbalance::Positive(P::zero()) } }
    pub trait OnUnbalanced<I: TryDrop> {
        fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>) where I: Imbalance<B>, B: Zero { Self::on_unbalanced(amounts.fold(I::zero(), |i, x| x.merge(i))) }
        fn on_unbalanced(amount: I) { amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced) }
        fn on_nonzero_unbalanced(amount: I) { drop(amount) }
    }
    impl<I: TryDrop> OnUnbalanced<I> for () {}
}
pub mod currency {
    use super::*; use super::imbalance::*;
    pub trait Currency<A> {
        type Balance: Balance;
        type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
        type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
        fn total_balance(who: &A) -> Self::Balance;
        fn can_slash(who: &A, value: Self::Balance) -> bool;
        fn total_issuance() -> Self::Balance;
        fn active_issuance() -> Self::Balance { Self::total_issuance() }
        fn deactivate(_: Self::Balance) {}
        fn reactivate(_: Self::Balance) {}
        fn minimum_balance() -> Self::Balance;
        fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
        fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
        fn pair(amount: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) { (Self::burn(amount), Self::issue(amount)) }
        fn free_balance(who: &A) -> Self::Balance;
        fn ensure_can_withdraw(who: &A, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
        fn transfer(source: &A, dest: &A, value: Self::Balance, er: ExistenceRequirement) -> DispatchResult;
        fn slash(who: &A, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
        fn deposit_into_existing(who: &A, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
        fn resolve_into_existing(who: &A, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> { let v = value.peek(); match Self::deposit_into_existing(who, v) { Ok(opposite) => { let _ = value.offset(opposite); Ok(()) } _ => Err(value) } }
        fn deposit_creating(who: &A, value: Self::Balance) -> Self::PositiveImbalance;
        fn resolve_creating(who: &A, value: Self::NegativeImbalance) { let v = value.peek(); let _ = value.offset(Self::deposit_creating(who, v)); }
        fn withdraw(who: &A, value: Self::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
        fn settle(who: &A, value: Self::PositiveImbalance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<(), Self::PositiveImbalance> { let v = value.peek(); match Self::withdraw(who, v, reasons, liveness) { Ok(opposite) => { let _ = value.offset(opposite); Ok(()) } _ => Err(value) } }
        fn make_free_balance_be(who: &A, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
    }
    pub trait ReservableCurrency<A>: Currency<A> {
        fn can_reserve(who: &A, value: Self::Balance) -> bool;
        fn slash_reserved(who: &A, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
        fn reserved_balance(who: &A) -> Self::Balance;
        fn reserve(who: &A, value: Self::Balance) -> DispatchResult;
        fn unreserve(who: &A, value: Self::Balance) -> Self::Balance;
        fn repatriate_reserved(slashed: &A, beneficiary: &A, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
    }
    pub trait NamedReservableCurrency<A>: ReservableCurrency<A> { type ReserveIdentifier; }
    pub trait LockableCurrency<A>: Currency<A> {
        type Moment; type MaxLocks: crate::traits::Get<u32>;
        fn set_lock(id: LockIdentifier, who: &A, amount: Self::Balance, reasons: WithdrawReasons);
        fn extend_lock(id: LockIdentifier, who: &A, amount: Self::Balance, reasons: WithdrawReasons);
        fn remove_lock(id: LockIdentifier, who: &A);
    }
}
pub mod fungible {
    use super::*;
    pub trait Inspect<A>: Sized {
        type Balance: super::Balance;
        fn total_issuance() -> Self::Balance;
        fn active_issuance() -> Self::Balance { Self::total_issuance() }
        fn minimum_balance() -> Self::Balance;
        fn total_balance(who: &A) -> Self::Balance;
        fn balance(who: &A) -> Self::Balance;
        fn reducible_balance(who: &A, preservation: Preservation, force: Fortitude) -> Self::Balance;
        fn can_deposit(who: &A, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
        fn can_withdraw(who: &A, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
    }
}
pub mod fungibles {
    use super::*;
    pub trait Inspect<A>: Sized {
        type AssetId: AssetId; type Balance: Balance;
        fn total_issuance(asset: Self::AssetId) -> Self::Balance;
        fn active_issuance(asset: Self::AssetId) -> Self::Balance { Self::total_issuance(asset) }
        fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
        fn total_balance(asset: Self::AssetId, who: &A) -> Self::Balance;
        fn balance(asset: Self::AssetId, who: &A) -> Self::Balance;
        fn reducible_balance(asset: Self::AssetId, who: &A, preservation: Preservation, force: Fortitude) -> Self::Balance;
        fn can_deposit(asset: Self::AssetId, who: &A, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
        fn can_withdraw(asset: Self::AssetId, who: &A, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
        fn asset_exists(asset: Self::AssetId) -> bool;
    }
}
