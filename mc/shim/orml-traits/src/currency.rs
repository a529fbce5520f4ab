use codec::{Codec, FullCodec, MaxEncodedLen};
use frame_support::dispatch::{DispatchError, DispatchResult};
pub use frame_support::traits::{BalanceStatus, LockIdentifier};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize};
use std::fmt::Debug;
pub trait MultiCurrency<A> {
    type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + Debug + TypeInfo + MaxEncodedLen;
    type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + TypeInfo + MaxEncodedLen;
    fn minimum_balance(c: Self::CurrencyId) -> Self::Balance;
    fn total_issuance(c: Self::CurrencyId) -> Self::Balance;
    fn total_balance(c: Self::CurrencyId, who: &A) -> Self::Balance;
    fn free_balance(c: Self::CurrencyId, who: &A) -> Self::Balance;
    fn ensure_can_withdraw(c: Self::CurrencyId, who: &A, amount: Self::Balance) -> DispatchResult;
    fn transfer(c: Self::CurrencyId, from: &A, to: &A, amount: Self::Balance) -> DispatchResult;
    fn deposit(c: Self::CurrencyId, who: &A, amount: Self::Balance) -> DispatchResult;
    fn withdraw(c: Self::CurrencyId, who: &A, amount: Self::Balance) -> DispatchResult;
    fn can_slash(c: Self::CurrencyId, who: &A, v: Self::Balance) -> bool;
    fn slash(c: Self::CurrencyId, who: &A, amount: Self::Balance) -> Self::Balance;
}
pub trait MultiCurrencyExtended<A>: MultiCurrency<A> { type Amount; fn update_balance(c: Self::CurrencyId, who: &A, by: Self::Amount) -> DispatchResult; }
pub trait MultiLockableCurrency<A>: MultiCurrency<A> {
    type Moment;
    fn set_lock(id: LockIdentifier, c: Self::CurrencyId, who: &A, amount: Self::Balance) -> DispatchResult;
    fn extend_lock(id: LockIdentifier, c: Self::CurrencyId, who: &A, amount: Self::Balance) -> DispatchResult;
    fn remove_lock(id: LockIdentifier, c: Self::CurrencyId, who: &A) -> DispatchResult;
}
pub trait MultiReservableCurrency<A>: MultiCurrency<A> {
    fn can_reserve(c: Self::CurrencyId, who: &A, v: Self::Balance) -> bool;
    fn slash_reserved(c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
    fn reserved_balance(c: Self::CurrencyId, who: &A) -> Self::Balance;
    fn reserve(c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
    fn unreserve(c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(c: Self::CurrencyId, slashed: &A, beneficiary: &A, v: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait OnDust<A, C, B> { fn on_dust(who: &A, c: C, amount: B); }
impl<A, C, B> OnDust<A, C, B> for () { fn on_dust(_: &A, _: C, _: B) {} }
pub trait OnSlash<A, C, B> { fn on_slash(c: C, who: &A, amount: B); }
impl<A, C, B> OnSlash<A, C, B> for () { fn on_slash(_: C, _: &A, _: B) {} }
pub trait OnDeposit<A, C, B> { fn on_deposit(c: C, who: &A, amount: B) -> DispatchResult; }
impl<A, C, B> OnDeposit<A, C, B> for () { fn on_deposit(_: C, _: &A, _: B) -> DispatchResult { Ok(()) } }
pub trait OnTransfer<A, C, B> { fn on_transfer(c: C, from: &A, to: &A, amount: B) -> DispatchResult; }
impl<A, C, B> OnTransfer<A, C, B> for () { fn on_transfer(_: C, _: &A, _: &A, _: B) -> DispatchResult { Ok(()) } }
pub trait MutationHooks<A, C, B> {
    type OnDust: OnDust<A, C, B>; type OnSlash: OnSlash<A, C, B>;
    type PreDeposit: OnDeposit<A, C, B>; type PostDeposit: OnDeposit<A, C, B>;
    type PreTransfer: OnTransfer<A, C, B>; type PostTransfer: OnTransfer<A, C, B>;
    type OnNewTokenAccount: crate::Happened<(A, C)>; type OnKilledTokenAccount: crate::Happened<(A, C)>;
}
impl<A, C, B> MutationHooks<A, C, B> for () { type OnDust = (); type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = (); type OnKilledTokenAccount = (); }
#[allow(unused)] fn _u<T: Codec>() {}
