#![allow(dead_code, unused_imports, ambiguous_glob_reexports, deprecated)]
mod stubs;
mod xcmini;
/// what the runtimes' `use` lines bring into scope
mod prelude {
    pub use crate::stubs::*;
    pub use crate::xcmini::{xcm, xcm_builder, xcm_executor};
    pub mod cumulus_primitives_core { pub mod relay_chain { pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024; } }
    pub use crate::{names, runtime_common, fp_self_contained, hex_literal};
    pub use codec::{self, Decode, Encode};
    pub use frame_support::{construct_runtime, parameter_types, PalletId, dispatch::{DispatchClass, DispatchError, DispatchResult}, weights::{constants::{RocksDbWeight, WEIGHT_REF_TIME_PER_SECOND}, Weight, ConstantMultiplier, IdentityFee}};
    pub use frame_support::traits::{OnRuntimeUpgrade, OnFinalize, ConstBool, ConstU32, Contains, Currency as PalletCurrency, EitherOfDiverse, EnsureOrigin, EnsureOriginWithArg, EqualPrivilegeOnly, ExistenceRequirement, Imbalance, InstanceFilter, OnUnbalanced, Everything, Get, LockIdentifier, Nothing};
    pub use frame_system::{EnsureRoot, RawOrigin};
    pub use loans::{OnSlashHook, PostDeposit, PostTransfer, PreDeposit, PreTransfer};
    pub use crate::stubs::orml_asset_registry::{SequentialId, AssetMetadata};
    pub use orml_traits::{currency::MutationHooks, parameter_type_with_key};
    pub use pallet_transaction_payment::{Multiplier, TargetedFeeAdjustment};
    pub use sp_core::{H256, H160, U256};
    pub use sp_runtime::{self, generic, traits::{AccountIdConversion, BlakeTwo256, Block as BlockT, Bounded, Convert, IdentityLookup, Zero, DispatchInfoOf, Dispatchable, PostDispatchInfoOf, UniqueSaturatedInto}, transaction_validity::{TransactionSource, TransactionValidity, InvalidTransaction, TransactionValidityError}, FixedPointNumber, Perquintill, FixedU128, Perbill, Permill};
    pub use sp_std::{marker::PhantomData, prelude::*};
    pub use crate::stubs::pallet_ethereum::{Transaction as EthereumTransaction, TransactionAction};
    pub use btc_relay::TARGET_SPACING;
    pub use bitcoin::{self, types::H256Le};
    pub use currency::Amount;
    pub use primitives::{self, AccountId, Balance, BlockNumber, CurrencyId::{ForeignAsset, LendToken, Token}, CurrencyInfo, Hash, Liquidity, Moment, Nonce, Rate, Ratio, Shortfall, Signature, SignedFixedPoint, SignedInner, StablePoolId, UnsignedFixedPoint, UnsignedInner};
    pub use crate::stubs::pallet_xcm::{EnsureXcm, IsMajorityOfBody};
    pub use crate::xcmini::xcm::opaque::latest::BodyId;
    pub use crate::keys::{AuraId, SessionKeys};
}
pub mod names {
    pub mod xcm_config {
        pub use crate::stubs::parachain_info::ParaId;
        pub use crate::runtime_common::Transactless;
        pub use crate::xcmini::xcm::latest::{prelude::*, Weight};
        pub use crate::xcmini::xcm_builder::*;
        pub use orml_traits::MultiCurrency;
        pub use primitives::CurrencyId::{self, ForeignAsset, Token};
    }
    pub mod dex {
        pub use dex_general::{AssetBalance, GenerateLpAssetId, PairInfo, ValidateAsset};
        pub use dex_stable::traits::{StablePoolLpCurrencyIdGenerate, ValidateCurrency};
        pub use orml_traits::MultiCurrency;
    }
    pub mod evm {
        pub use crate::stubs::pallet_ethereum::PostLogContent;
        pub use frame_support::traits::FindAuthor;
    }
    pub mod contracts {
        pub use btc_relay::FullTransactionProof;
        pub use frame_support::traits::{fungible::Inspect, tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence}, Randomness, ReservableCurrency, SignedImbalance, WithdrawReasons};
        pub use orml_traits::BalanceStatus;
        pub use sp_core::crypto::UncheckedFrom;
        pub use crate::stubs::pallet_contracts::chain_extension::*;
    }
    pub mod common {
        pub use core::marker::PhantomData;
        pub use currency::Amount;
        pub use frame_support::{pallet_prelude::Get, traits::{Currency, OnTimestampSet, OnUnbalanced, ProcessMessageError, TryDrop}};
        pub use primitives::{Balance, BlockNumber, Nonce, UnsignedFixedPoint};
        pub use sp_runtime::{DispatchError, FixedPointNumber};
        pub use sp_std::prelude::*;
        pub use crate::xcmini::xcm_executor::traits::{Properties, ShouldExecute};
        pub use crate::xcmini::xcm::latest::{Instruction, MultiLocation, Weight};
        pub use currency::CurrencyId;
    }
    pub mod common_evm {
        pub mod precompiles { pub struct InterBtcPrecompiles<R>(core::marker::PhantomData<R>); }
        pub struct BaseFeeThreshold;
        pub use frame_support::{traits::OnRuntimeUpgrade, weights::{constants::WEIGHT_REF_TIME_PER_SECOND, Weight}};
        pub use crate::stubs::{pallet_ethereum::{Transaction, TransactionAction}, parachain_info, pallet_evm_chain_id};
        pub use sp_core::Get;
        pub use sp_runtime::Permill;
        pub use core::marker::PhantomData;
    }
}
pub mod fp_self_contained {
    use sp_runtime::{traits::*, transaction_validity::*};
    pub trait SelfContainedCall: Dispatchable {
        fn apply_self_contained(self, info: Self::SignedInfo) -> Option<sp_runtime::DispatchResultWithInfo<PostDispatchInfoOf<Self>>>;
        type SignedInfo;
        fn is_self_contained(&self) -> bool;
        fn check_self_contained(&self) -> Option<Result<Self::SignedInfo, TransactionValidityError>>;
        fn validate_self_contained(&self, info: &Self::SignedInfo, d: &DispatchInfoOf<Self>, len: usize) -> Option<TransactionValidity>;
        fn pre_dispatch_self_contained(&self, info: &Self::SignedInfo, d: &DispatchInfoOf<Self>, len: usize) -> Option<Result<(), TransactionValidityError>>;
    }
}
mod keys {
    pub type AuraId = sp_runtime::testing::UintAuthorityId;
    pub use sp_runtime::testing::UintAuthorityId as SessionKeys;
    pub type Keys = SessionKeys;
    pub struct Handler;
    impl pallet_session::SessionHandler<primitives::AccountId> for Handler {
        const KEY_TYPE_IDS: &'static [sp_runtime::KeyTypeId] = &[sp_runtime::testing::UintAuthorityId::ID];
        fn on_genesis_session<K: sp_runtime::traits::OpaqueKeys>(_: &[(primitives::AccountId, K)]) {}
        fn on_new_session<K: sp_runtime::traits::OpaqueKeys>(_: bool, _: &[(primitives::AccountId, K)], _: &[(primitives::AccountId, K)]) {}
        fn on_disabled(_: u32) {}
    }
    use sp_runtime::RuntimeAppPublic;
}
pub mod runtime_common { include!(concat!(env!("OUT_DIR"), "/common.rs")); }
macro_rules! host { ($n:ident, $f:literal, { $($u:item)* }) => {
    pub mod $n {
        use crate::prelude::*;
        $($u)*
        include!(concat!(env!("OUT_DIR"), $f));
        pub use constants::{currency::*, time::*};
        pub type UncheckedExtrinsic = sp_runtime::testing::TestXt<RuntimeCall, ()>;
        impl From<pallet_ethereum::RawOrigin> for RuntimeOrigin { fn from(_: pallet_ethereum::RawOrigin) -> Self { RuntimeOrigin::none() } }
        parameter_types! { pub MaximumSchedulerWeight: Weight = Weight::MAX; }
        pub type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<u32, BlakeTwo256>, frame_system::mocking::MockUncheckedExtrinsic<Runtime>>;
        impl pallet_sudo::Config for Runtime {} impl pallet_multisig::Config for Runtime {} impl pallet_identity::Config for Runtime {} impl orml_vesting::Config for Runtime {}
        impl pallet_membership::Config for Runtime {} impl cumulus_pallet_parachain_system::Config for Runtime {} impl cumulus_pallet_xcmp_queue::Config for Runtime {} impl cumulus_pallet_xcm::Config for Runtime {}
        impl cumulus_pallet_dmp_queue::Config for Runtime {} impl cumulus_pallet_aura_ext::Config for Runtime {} impl orml_xtokens::Config for Runtime {} impl orml_unknown_tokens::Config for Runtime {}
        impl pallet_base_fee::Config for Runtime {} impl pallet_evm::Config for Runtime {} impl pallet_xcm::Config for Runtime {} impl pallet_collective::Config<pallet_collective::Instance1> for Runtime {}
        impl pallet_ethereum::Config for Runtime {} impl pallet_evm_chain_id::Config for Runtime {} impl parachain_info::Config for Runtime {}
        pub mod filters { use super::*; include!("filters.rs"); }
        pub mod economy { use super::*; include!("economy.rs"); }
        pub mod transfer { use super::*; include!("transfer.rs"); }
        impl orml_asset_registry::Config for Runtime { type AssetId = primitives::ForeignAssetId; type CustomMetadata = primitives::CustomMetadata; type Balance = Balance; type AuthorityOrigin = AssetAuthority; type AssetProcessor = (); type WeightInfo = (); }
    } } }
host!(interlay, "/interlay.rs", {});
host!(kintsugi, "/kintsugi.rs", { use frame_support::traits::fungible::Inspect; pub mod contract { use super::*; include!("contract.rs"); } });
impl stubs::pallet_contracts::Config for kintsugi::Runtime {}
fn t02(ctx: &mut kit::Ctx) {
    interlay::filters::filters("interlay", ctx);
    kintsugi::filters::filters("kintsugi", ctx);
}
fn t01(ctx: &mut kit::Ctx) {
    interlay::economy::economy("interlay", ctx);
    kintsugi::economy::economy("kintsugi", ctx);
}
fn t03(ctx: &mut kit::Ctx) {
    use primitives::{CurrencyId::Token, TokenSymbol::*};
    let base = |w: u128, unit: u128| 1_000_000_000_000 / w * unit;
    interlay::transfer::transfer("interlay", interlay::transfer::Known { relay: Token(DOT), native: Token(INTR), wrapped: Token(IBTC) }, base(interlay::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time() as u128, 10_000_000_000 / 5706), [(4, 3), (1, 226_600)], true, ctx);
    kintsugi::transfer::transfer("kintsugi", kintsugi::transfer::Known { relay: Token(KSM), native: Token(KINT), wrapped: Token(KBTC) }, base(kintsugi::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time() as u128, 1_000_000_000_000 / 50_000), [(4, 3), (1, 1_500_000)], false, ctx);
}
fn main() { kit::main_with(&[("T01", t01), ("T02", t02), ("T03", t03), ("T04", kintsugi::contract::contract)]) }
pub mod hex_literal {
    pub fn parse<const N: usize>(s: &str) -> [u8; N] { let mut o = [0; N]; for i in 0..N { o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap() } o }
    macro_rules! hex { ($s:literal) => { crate::hex_literal::parse::<{ $s.len() / 2 }>($s) } }
    pub(crate) use hex;
}
