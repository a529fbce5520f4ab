//! The fee payment of interbtc: pallet-transaction-payment (shim) charging through multi-transaction-payment and dex-general from
//! /repo, configured as in the Kintsugi runtime.
use dex_general::GenerateLpAssetId;
use frame_support::{
    parameter_types,
    traits::{ConstU32, Currency as CurrencyTrait, Everything, Imbalance, OnUnbalanced},
    weights::{ConstantMultiplier, IdentityFee},
    PalletId,
};
use orml_tokens::{CurrencyAdapter, NegativeImbalance};
use orml_traits::parameter_type_with_key;
use pallet_transaction_payment::{Multiplier, TargetedFeeAdjustment};
pub use primitives::{CurrencyId, CurrencyId::*, TokenSymbol::*};
use sp_arithmetic::{FixedI128, FixedPointNumber, FixedU128, Perquintill};
use sp_core::H256;
pub use sp_runtime::{traits::Dispatchable, BuildStorage, DispatchError, DispatchResult};
use sp_runtime::traits::{AccountIdConversion, BlakeTwo256, Bounded, IdentityLookup};

type Block = frame_system::mocking::MockBlock<Test>;
pub type AccountId = u128;
pub type Balance = u128;
pub const NATIVE: CurrencyId = Token(KINT);
frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Utility: pallet_utility::{Pallet, Call, Event},
        Tokens: orml_tokens::{Pallet, Call, Storage, Config<T>, Event<T>},
        Currency: currency::{Pallet},
        DexGeneral: dex_general::{Pallet, Call, Storage, Config<T>, Event<T>},
        MultiTransactionPayment: multi_transaction_payment::{Pallet, Call, Storage},
        TransactionPayment: pallet_transaction_payment::{Pallet, Storage, Event<T>},
        Probe: probe::{Pallet, Call, Storage},
    }
);
/// calls whose weight, outcome and fee override are chosen by the caller and which record who ran them
#[frame_support::pallet]
pub mod probe {
    use frame_support::{dispatch::{DispatchClass, DispatchErrorWithPostInfo, PostDispatchInfo}, pallet_prelude::*};
    use frame_system::pallet_prelude::*;
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::config]
    pub trait Config: frame_system::Config<AccountId = u128> {}
    #[pallet::error]
    pub enum Error<T> { Fail }
    /// per origin (0: root, 1: none) the number of runs
    #[pallet::storage]
    pub type Runs<T: Config> = StorageMap<_, Blake2_128Concat, u128, u32, ValueQuery>;
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight((*_expected, DispatchClass::Normal, if *_annotated { Pays::Yes } else { Pays::No }))]
        #[frame_support::transactional]
        pub fn run(origin: OriginFor<T>, _expected: Weight, _annotated: bool, actual: Option<Weight>, fail: bool, pays_fee: Pays) -> DispatchResultWithPostInfo {
            let who = match origin.into() { Ok(frame_system::RawOrigin::Signed(a)) => a, Ok(frame_system::RawOrigin::Root) => 0, _ => 1 };
            Runs::<T>::mutate(who, |n| *n += 1);
            let post_info = PostDispatchInfo { actual_weight: actual, pays_fee };
            if fail { Err(DispatchErrorWithPostInfo { error: Error::<T>::Fail.into(), post_info }) } else { Ok(post_info) }
        }
        #[pallet::call_index(1)]
        #[pallet::weight((Weight::from_parts(1000, 0), DispatchClass::Operational))]
        pub fn operate(origin: OriginFor<T>) -> DispatchResult {
            ensure_signed(origin.clone())?;
            let who = match origin.into() { Ok(frame_system::RawOrigin::Signed(a)) => a, _ => 1 };
            Runs::<T>::mutate(who, |n| *n += 1);
            Ok(())
        }
    }
}
pub struct DealWithFees;
impl OnUnbalanced<NegativeImbalance<Test, NativeId>> for DealWithFees {
    fn on_unbalanceds<B>(mut fees_then_tips: impl Iterator<Item = NegativeImbalance<Test, NativeId>>) {
        if let Some(mut fees) = fees_then_tips.next() {
            if let Some(tips) = fees_then_tips.next() { tips.merge_into(&mut fees); }
            CurrencyAdapter::<Test, NativeId>::resolve_creating(&Treasury::get(), fees);
        }
    }
}
pub struct PairLpIdentity;
impl GenerateLpAssetId<CurrencyId> for PairLpIdentity { fn generate_lp_asset_id(a: CurrencyId, b: CurrencyId) -> Option<CurrencyId> { CurrencyId::join_lp_token(a, b) } }
pub struct VerifyPairAsset;
impl dex_general::ValidateAsset<CurrencyId> for VerifyPairAsset { fn validate_asset(c: &CurrencyId) -> bool { c.is_lp_token() } }
pub struct CurrencyConvert;
impl currency::CurrencyConversion<currency::Amount<Test>, CurrencyId> for CurrencyConvert {
    fn convert(_a: &currency::Amount<Test>, _to: CurrencyId) -> Result<currency::Amount<Test>, DispatchError> { Err(DispatchError::Other("no conversion")) }
}
parameter_types! {
    pub const BlockHashCount: u64 = 250;
    pub const SS58Prefix: u8 = 42;
    pub const DexGeneralPalletId: PalletId = PalletId(*b"dex/genr");
    pub const ByteFee: Balance = 3;
    pub const Operational: u8 = 5;
    pub const TargetFullness: Perquintill = Perquintill::from_percent(25);
    pub Variable: Multiplier = Multiplier::saturating_from_rational(3, 100_000);
    pub Minimum: Multiplier = Multiplier::saturating_from_rational(1u128, 1_000_000u128);
    pub Maximum: Multiplier = Bounded::max_value();
    pub const NativeId: CurrencyId = NATIVE;
    pub const RelayId: CurrencyId = Token(KSM);
    pub const WrappedId: CurrencyId = Token(KBTC);
    pub Treasury: AccountId = PalletId(*b"treasury").into_account_truncating();
}
impl multi_transaction_payment::Config for Test {
    type Currency = CurrencyAdapter<Test, NativeId>;
    type DexWeightInfo = ();
    type Dex = DexGeneral;
    type OnUnbalanced = DealWithFees;
    type RuntimeCall = RuntimeCall;
}
impl pallet_transaction_payment::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnChargeTransaction = MultiTransactionPayment;
    type LengthToFee = ConstantMultiplier<Balance, ByteFee>;
    type WeightToFee = IdentityFee<Balance>;
    type FeeMultiplierUpdate = TargetedFeeAdjustment<Self, TargetFullness, Variable, Minimum, Maximum>;
    type OperationalFeeMultiplier = Operational;
}
impl pallet_utility::Config for Test { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
impl probe::Config for Test {}
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = pallet_balances::AccountData<Balance>;
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
parameter_type_with_key! { pub ExistentialDeposits: |_c: CurrencyId| -> Balance { 0 }; }
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<50>;
    type DustRemovalWhitelist = Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = Balance;
    type GetNativeCurrencyId = NativeId;
    type GetRelayChainCurrencyId = RelayId;
    type GetWrappedCurrencyId = WrappedId;
    type CurrencyConversion = CurrencyConvert;
}
impl dex_general::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type PalletId = DexGeneralPalletId;
    type AssetId = CurrencyId;
    type EnsurePairAsset = VerifyPairAsset;
    type LpGenerate = PairLpIdentity;
    type WeightInfo = ();
    type MaxBootstrapRewards = ConstU32<1000>;
    type MaxBootstrapLimits = ConstU32<1000>;
}
pub fn genesis(tokens: &[(AccountId, CurrencyId, Balance)]) -> mcstore::Map {
    let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances: tokens.to_vec() }.assimilate_storage(&mut s).unwrap();
    sp_io::TestExternalities::from(s).map
}
