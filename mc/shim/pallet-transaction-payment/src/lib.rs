//! `pallet-transaction-payment`: fee computation, the signed extension and the `Currency` adapter.
#![allow(clippy::all)]
extern crate self as pallet_transaction_payment;
use codec::{Decode, Encode, FullCodec};
use core::marker::PhantomData;
use frame_support::{
    dispatch::{DispatchClass, DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo},
    traits::{Currency, ExistenceRequirement, Get, Imbalance, OnUnbalanced, WithdrawReasons},
    weights::{Weight, WeightToFee},
};
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, DispatchInfoOf, Dispatchable, MaybeSerializeDeserialize, PostDispatchInfoOf, SaturatedConversion, Saturating, SignedExtension, Zero, Convert},
    transaction_validity::{InvalidTransaction, TransactionValidity, TransactionValidityError, ValidTransaction},
    DispatchResult, FixedPointNumber, FixedPointOperand, FixedU128, Perquintill,
};
pub use pallet::*;
pub type Multiplier = FixedU128;
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
/// Only the neutral update is modelled.
pub struct TargetedFeeAdjustment<T, S, V, M, X>(PhantomData<(T, S, V, M, X)>);
impl<T, S, V, M, X> Convert<Multiplier, Multiplier> for TargetedFeeAdjustment<T, S, V, M, X> { fn convert(p: Multiplier) -> Multiplier { p } }
pub trait OnChargeTransaction<T: Config> {
    type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + core::fmt::Debug + Default + scale_info::TypeInfo;
    type LiquidityInfo: Default;
    fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
    fn correct_and_deposit_fee(who: &T::AccountId, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, post_info: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
type NegativeImbalanceOf<C, T> = <C as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
    T: Config,
    C: Currency<<T as frame_system::Config>::AccountId>,
    C::PositiveImbalance: Imbalance<<C as Currency<<T as frame_system::Config>::AccountId>>::Balance, Opposite = C::NegativeImbalance>,
    C::NegativeImbalance: Imbalance<<C as Currency<<T as frame_system::Config>::AccountId>>::Balance, Opposite = C::PositiveImbalance>,
    OU: OnUnbalanced<NegativeImbalanceOf<C, T>>,
{
    type LiquidityInfo = Option<NegativeImbalanceOf<C, T>>;
    type Balance = <C as Currency<<T as frame_system::Config>::AccountId>>::Balance;
    fn withdraw_fee(who: &T::AccountId, _call: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError> {
        if fee.is_zero() { return Ok(None) }
        let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
        match C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive) { Ok(i) => Ok(Some(i)), Err(_) => Err(InvalidTransaction::Payment.into()) }
    }
    fn correct_and_deposit_fee(who: &T::AccountId, _d: &DispatchInfoOf<T::RuntimeCall>, _p: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError> {
        if let Some(paid) = already_withdrawn {
            let refund_amount = paid.peek().saturating_sub(corrected_fee);
            let refund = C::deposit_into_existing(who, refund_amount).unwrap_or_else(|_| C::PositiveImbalance::zero());
            let adjusted = paid.offset(refund).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
            let (tip, fee) = adjusted.split(tip);
            OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
        }
        Ok(())
    }
}
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type OnChargeTransaction: OnChargeTransaction<Self>;
        type OperationalFeeMultiplier: Get<u8>;
        type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
        type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
        type FeeMultiplierUpdate: Convert<Multiplier, Multiplier>;
    }
    #[pallet::type_value]
    pub fn NextFeeMultiplierOnEmpty() -> Multiplier { Multiplier::from_u32(1) }
    #[pallet::storage]
    pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, NextFeeMultiplierOnEmpty>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> { TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> } }
}
impl<T: Config> Pallet<T> where BalanceOf<T>: FixedPointOperand, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
    fn raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> BalanceOf<T> {
        if pays != Pays::Yes { return tip }
        let mult = NextFeeMultiplier::<T>::get();
        let unadjusted = Self::weight_to_fee(weight);
        let adjusted = mult.saturating_mul_int(unadjusted);
        let len_fee = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
        let base_fee = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
        base_fee.saturating_add(len_fee).saturating_add(adjusted).saturating_add(tip)
    }
    pub fn weight_to_fee(weight: Weight) -> BalanceOf<T> { T::WeightToFee::weight_to_fee(&weight.min(T::BlockWeights::get().max_block)) }
    pub fn compute_fee(len: u32, info: &DispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> { Self::raw(len, info.weight, tip, info.pays_fee, info.class) }
    pub fn compute_actual_fee(len: u32, info: &DispatchInfo, post: &PostDispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
        Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class)
    }
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, scale_info::TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>);
impl<T: Config> core::fmt::Debug for ChargeTransactionPayment<T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "ChargeTransactionPayment<{:?}>", self.0) } }
impl<T: Config> ChargeTransactionPayment<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, BalanceOf<T>: Send + Sync + FixedPointOperand {
    pub fn from(fee: BalanceOf<T>) -> Self { Self(fee) }
    pub fn tip(&self) -> BalanceOf<T> { self.0 }
    fn withdraw_fee(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<(BalanceOf<T>, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
        let fee = Pallet::<T>::compute_fee(len as u32, info, self.0);
        T::OnChargeTransaction::withdraw_fee(who, call, info, fee, self.0).map(|i| (fee, i))
    }
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where BalanceOf<T>: Send + Sync + From<u64> + FixedPointOperand, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
    const IDENTIFIER: &'static str = "ChargeTransactionPayment";
    type AccountId = T::AccountId;
    type Call = T::RuntimeCall;
    type AdditionalSigned = ();
    type Pre = (BalanceOf<T>, Self::AccountId, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
    fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
    fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity {
        self.withdraw_fee(who, call, info, len)?;
        Ok(ValidTransaction::default())
    }
    fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
        let (_fee, imbalance) = self.withdraw_fee(who, call, info, len)?;
        Ok((self.0, who.clone(), imbalance))
    }
    fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Self::Call>, post_info: &PostDispatchInfoOf<Self::Call>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
        if let Some((tip, who, imbalance)) = pre {
            let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post_info, tip);
            T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post_info, actual, tip, imbalance)?;
            Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee: actual, tip });
        }
        Ok(())
    }
}
