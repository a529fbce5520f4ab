//! The bridge half of interbtc as one runtime on the FRAME shim, with every pallet built from /repo.
use frame_support::{parameter_types, traits::{ConstU32, Everything}, PalletId};
use frame_system::EnsureRoot;
use orml_traits::parameter_type_with_key;
pub use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol::*, VaultCurrencyPair, VaultId};
pub use sp_arithmetic::{FixedI128, FixedPointNumber, FixedU128};
pub use sp_core::{H160, H256};
use sp_runtime::{testing::TestXt, traits::{BlakeTwo256, Convert, IdentityLookup, Zero}};
pub use sp_runtime::BuildStorage;

pub mod btc;
pub use currency::{self, Amount};
pub mod genesis;
pub use genesis::*;

type TestExtrinsic = TestXt<RuntimeCall, ()>;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        CapacityRewards: reward::<Instance1>::{Pallet, Call, Storage, Event<T>},
        VaultRewards: reward::<Instance2>::{Pallet, Call, Storage, Event<T>},
        VaultStaking: staking::{Pallet, Storage, Event<T>},
        BTCRelay: btc_relay::{Pallet, Call, Config<T>, Storage, Event<T>},
        Security: security::{Pallet, Call, Storage, Event<T>},
        VaultRegistry: vault_registry::{Pallet, Call, Config<T>, Storage, Event<T>},
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>},
        Issue: issue::{Pallet, Call, Config<T>, Storage, Event<T>},
        Redeem: redeem::{Pallet, Call, Config<T>, Storage, Event<T>},
        Replace: replace::{Pallet, Call, Config<T>, Storage, Event<T>},
        Fee: fee::{Pallet, Call, Config<T>, Storage},
        Currency: currency::{Pallet},
        Nomination: nomination::{Pallet, Call, Storage, Config<T>, Event<T>},
        Loans: loans::{Pallet, Call, Storage, Event<T>, Config<T>},
    }
);

pub type AccountId = u128;
pub type Balance = u128;
pub type BlockNumber = u64;
pub type SignedFixedPoint = FixedI128;
pub type UnsignedFixedPoint = FixedU128;
pub type Vid = VaultId<AccountId, CurrencyId>;
pub type Pair = VaultCurrencyPair<CurrencyId>;

parameter_types! { pub const BlockHashCount: u64 = 250; pub const SS58Prefix: u8 = 42; }

impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}

pub const COL: CurrencyId = Token(DOT);
pub const COL2: CurrencyId = Token(KSM);
pub const NATIVE: CurrencyId = Token(INTR);
pub const WRAPPED: CurrencyId = Token(IBTC);

parameter_types! {
    pub const GetCollateralCurrencyId: CurrencyId = COL;
    pub const GetNativeCurrencyId: CurrencyId = NATIVE;
    pub const GetWrappedCurrencyId: CurrencyId = WRAPPED;
    pub const MaxLocks: u32 = 50;
}
parameter_type_with_key! { pub ExistentialDeposits: |_c: CurrencyId| -> Balance { Zero::zero() }; }

impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = MaxLocks;
    type DustRemovalWhitelist = Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}

impl<C> frame_system::offchain::SendTransactionTypes<C> for Test where RuntimeCall: From<C> {
    type OverarchingCall = RuntimeCall;
    type Extrinsic = TestExtrinsic;
}
parameter_types! {
    pub const VaultPalletId: PalletId = PalletId(*b"mod/vreg");
    pub const FeePalletId: PalletId = PalletId(*b"mod/fees");
    pub const TreasuryPalletId: PalletId = PalletId(*b"mod/trsy");
    pub const LoansPalletId: PalletId = PalletId(*b"par/loan");
    pub const MaxExpectedValue: UnsignedFixedPoint = UnsignedFixedPoint::from_inner(<UnsignedFixedPoint as FixedPointNumber>::DIV);
    pub const ParachainBlocksPerBitcoinBlock: BlockNumber = 5;
    pub const MinimumPeriod: u64 = 5;
}
impl vault_registry::Config for Test {
    type PalletId = VaultPalletId;
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type GetGriefingCollateralCurrencyId = GetNativeCurrencyId;
}
impl nomination::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); }
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = SignedFixedPoint;
    type UnsignedFixedPoint = UnsignedFixedPoint;
    type Balance = Balance;
    type GetNativeCurrencyId = GetNativeCurrencyId;
    type GetRelayChainCurrencyId = GetCollateralCurrencyId;
    type GetWrappedCurrencyId = GetWrappedCurrencyId;
    type CurrencyConversion = currency::CurrencyConvert<Test, Oracle, Loans>;
}
pub type CapacityRewardsInstance = reward::Instance1;
pub type VaultRewardsInstance = reward::Instance2;
impl reward::Config<CapacityRewardsInstance> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type PoolId = ();
    type StakeId = CurrencyId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl reward::Config<VaultRewardsInstance> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type PoolId = CurrencyId;
    type StakeId = Vid;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl staking::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type SignedInner = i128;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = GetNativeCurrencyId;
}
impl btc_relay::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type ParachainBlocksPerBitcoinBlock = ParachainBlocksPerBitcoinBlock;
    type WeightInfo = ();
}
impl security::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); }
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
impl oracle::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = vault_registry::PoolManager<Test>;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl fee::Config for Test {
    type FeePalletId = FeePalletId;
    type WeightInfo = ();
    type SignedFixedPoint = SignedFixedPoint;
    type SignedInner = i128;
    type CapacityRewards = CapacityRewards;
    type VaultRewards = VaultRewards;
    type VaultStaking = VaultStaking;
    type OnSweep = currency::SweepFunds<Test, TreasuryAccount>;
    type MaxExpectedValue = MaxExpectedValue;
    type NominationApi = Nomination;
}
pub struct TreasuryAccount;
impl frame_support::traits::Get<AccountId> for TreasuryAccount { fn get() -> AccountId { Issue::treasury_account_id() } }
impl loans::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<AccountId>;
    type UpdateOrigin = EnsureRoot<AccountId>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = GetNativeCurrencyId;
    type ReferenceAssetId = GetWrappedCurrencyId;
    type OnExchangeRateChange = vault_registry::PoolManager<Test>;
}
pub struct BlockNumberToBalance;
impl Convert<BlockNumber, Balance> for BlockNumberToBalance { fn convert(a: BlockNumber) -> Balance { a.into() } }
impl issue::Config for Test {
    type TreasuryPalletId = TreasuryPalletId;
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = BlockNumberToBalance;
    type WeightInfo = ();
}
impl redeem::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); }
impl replace::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); }

pub fn vid(a: AccountId) -> Vid { VaultId::new(a, COL, WRAPPED) }
pub fn signed(a: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(a) }
pub fn root() -> RuntimeOrigin { RuntimeOrigin::root() }

/// Run `f` as an extrinsic: state changes are kept only when it succeeds.
pub fn tx<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
    mcstore::begin();
    let r = f();
    if r.is_ok() { mcstore::commit() } else { mcstore::rollback() }
    r
}
pub fn free(c: CurrencyId, a: AccountId) -> Balance { Tokens::accounts(a, c).free }
pub fn reserved(c: CurrencyId, a: AccountId) -> Balance { Tokens::accounts(a, c).reserved }
pub fn err_name<E: std::fmt::Debug>(e: &E) -> String {
    let s = format!("{:?}", e);
    if let Some(i) = s.find("message: Some(\"") { let r = &s[i + 15..]; return r[..r.find('"').unwrap_or(r.len())].to_string() }
    s
}

/// A plain-function view of a pallet's RewardsApi (its inherent functions take fixed point values and would shadow it).
#[macro_export]
macro_rules! rewards_api {
    ($name:ident, $pallet:ty, $pool:ty, $stake:ty) => {
        pub struct $name;
        #[allow(dead_code)]
        impl $name {
            pub fn deposit_stake(p: &$pool, s: &$stake, a: u128) -> frame_support::dispatch::DispatchResult { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::deposit_stake(p, s, a) }
            pub fn withdraw_stake(p: &$pool, s: &$stake, a: u128) -> frame_support::dispatch::DispatchResult { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::withdraw_stake(p, s, a) }
            pub fn set_stake(p: &$pool, s: &$stake, a: u128) -> frame_support::dispatch::DispatchResult { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::set_stake(p, s, a) }
            pub fn withdraw_all_stake(p: &$pool, s: &$stake) -> Result<u128, frame_support::dispatch::DispatchError> { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::withdraw_all_stake(p, s) }
            pub fn get_stake(p: &$pool, s: &$stake) -> Result<u128, frame_support::dispatch::DispatchError> { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::get_stake(p, s) }
            pub fn get_total_stake(p: &$pool) -> Result<u128, frame_support::dispatch::DispatchError> { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::get_total_stake(p) }
            pub fn distribute_reward(p: &$pool, c: $crate::CurrencyId, a: u128) -> frame_support::dispatch::DispatchResult { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::distribute_reward(p, c, a) }
            pub fn compute_reward(p: &$pool, s: &$stake, c: $crate::CurrencyId) -> Result<u128, frame_support::dispatch::DispatchError> { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::compute_reward(p, s, c) }
            pub fn withdraw_reward(p: &$pool, s: &$stake, c: $crate::CurrencyId) -> Result<u128, frame_support::dispatch::DispatchError> { <$pallet as reward::RewardsApi<$pool, $stake, u128>>::withdraw_reward(p, s, c) }
        }
    };
}
