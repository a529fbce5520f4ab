//! The exchanges of interbtc: constant-product pools, stable pools and the router, from /repo on the FRAME shim, configured as
//! in the Kintsugi runtime.
use frame_support::{parameter_types, traits::{ConstU32, ConstU64, Everything}, PalletId};
use orml_traits::parameter_type_with_key;
pub use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol::*};
use sp_core::H256;
use sp_runtime::traits::{BlakeTwo256, IdentityLookup};
pub use sp_runtime::{DispatchError, DispatchResult};
pub use sp_runtime::BuildStorage;

type Block = frame_system::mocking::MockBlock<Test>;
pub type AccountId = u128;
pub type Balance = u128;
pub type BlockNumber = u64;
frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        DexGeneral: dex_general::{Pallet, Call, Storage, Config<T>, Event<T>},
        DexStable: dex_stable::{Pallet, Call, Storage, Event<T>},
        Router: dex_swap_router::{Pallet, Call, Event<T>},
    }
);
parameter_types! { pub const BlockHashCount: u64 = 250; pub const SS58Prefix: u8 = 42; }
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = pallet_balances::AccountData<Balance>;
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<5>;
    type WeightInfo = ();
}
parameter_type_with_key! { pub ExistentialDeposits: |_c: CurrencyId| -> Balance { 0 }; }
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<50>;
    type DustRemovalWhitelist = Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
parameter_types! {
    pub const DexGeneralPalletId: PalletId = PalletId(*b"dex/genr");
    pub const DexStablePalletId: PalletId = PalletId(*b"dex/stbl");
}
pub struct PairLpIdentity;
impl dex_general::GenerateLpAssetId<CurrencyId> for PairLpIdentity { fn generate_lp_asset_id(a: CurrencyId, b: CurrencyId) -> Option<CurrencyId> { CurrencyId::join_lp_token(a, b) } }
pub struct VerifyPairAsset;
impl dex_general::ValidateAsset<CurrencyId> for VerifyPairAsset { fn validate_asset(c: &CurrencyId) -> bool { c.is_lp_token() } }
impl dex_general::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type PalletId = DexGeneralPalletId;
    type AssetId = CurrencyId;
    type EnsurePairAsset = VerifyPairAsset;
    type LpGenerate = PairLpIdentity;
    type WeightInfo = ();
    type MaxBootstrapRewards = ConstU32<1000>;
    type MaxBootstrapLimits = ConstU32<1000>;
}
pub struct PoolLpGenerate;
impl dex_stable::traits::StablePoolLpCurrencyIdGenerate<CurrencyId, u32> for PoolLpGenerate { fn generate_by_pool_id(i: u32) -> CurrencyId { CurrencyId::StableLpToken(i) } }
pub struct VerifyPoolAsset;
impl dex_stable::traits::ValidateCurrency<CurrencyId> for VerifyPoolAsset {
    fn validate_pooled_currency(_: &[CurrencyId]) -> bool { true }
    fn validate_pool_lp_currency(c: CurrencyId) -> bool { orml_tokens::Pallet::<Test>::total_issuance(c) == 0 }
}
impl dex_stable::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type CurrencyId = CurrencyId;
    type MultiCurrency = Tokens;
    type PoolId = u32;
    type TimeProvider = Timestamp;
    type EnsurePoolAsset = VerifyPoolAsset;
    type LpGenerate = PoolLpGenerate;
    type PoolCurrencyLimit = ConstU32<10>;
    type PoolCurrencySymbolLimit = ConstU32<50>;
    type PalletId = DexStablePalletId;
    type WeightInfo = ();
}
impl dex_swap_router::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type StablePoolId = u32;
    type Balance = Balance;
    type CurrencyId = CurrencyId;
    type GeneralAmm = DexGeneral;
    type StableAmm = DexStable;
    type GeneralWeightInfo = ();
    type StableWeightInfo = ();
    type WeightInfo = ();
}
pub fn signed(a: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(a) }
pub fn root() -> RuntimeOrigin { RuntimeOrigin::root() }
pub fn bal(c: CurrencyId, a: AccountId) -> u128 { <Tokens as orml_traits::MultiCurrency<AccountId>>::free_balance(c, &a) }
pub fn issued(c: CurrencyId) -> u128 { <Tokens as orml_traits::MultiCurrency<AccountId>>::total_issuance(c) }
/// all balances of the listed accounts
pub fn ledger(accounts: &[AccountId], currencies: &[CurrencyId]) -> std::collections::BTreeMap<(AccountId, CurrencyId), u128> {
    accounts.iter().flat_map(|a| currencies.iter().map(move |c| ((*a, *c), bal(*c, *a)))).collect()
}
/// an extrinsic: all or nothing
pub fn tx<T>(f: impl FnOnce() -> Result<T, DispatchError>) -> Result<T, String> {
    mcstore::begin();
    match f() { Ok(v) => { mcstore::commit(); Ok(v) } Err(e) => { mcstore::rollback(); Err(format!("{:?}", e)) } }
}
pub fn done(r: DispatchResult) -> Result<(), DispatchError> { r }
pub fn genesis(tokens: &[(AccountId, CurrencyId, Balance)]) -> mcstore::Map {
    let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances: tokens.to_vec() }.assimilate_storage(&mut s).unwrap();
    sp_io::TestExternalities::from(s).map
}
