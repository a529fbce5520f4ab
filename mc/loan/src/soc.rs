//! The lending pallet of /repo with its token hooks, wired as in the runtimes; prices are set by the checker.
use frame_support::{parameter_types, traits::{ConstU32, Everything}, PalletId};
use frame_system::EnsureRoot;
use orml_traits::{currency::MutationHooks, parameter_type_with_key};
pub use primitives::{CurrencyId, CurrencyId::*, Rate, Ratio, TokenSymbol::*};
use sp_core::H256;
pub use sp_runtime::{BuildStorage, DispatchError, DispatchResult};
use sp_runtime::{traits::{BlakeTwo256, IdentityLookup}, FixedI128, FixedU128};
use std::marker::PhantomData;

type Block = frame_system::mocking::MockBlock<Test>;
pub type AccountId = u128;
pub type Balance = u128;
pub type Amt = currency::Amount<Test>;
pub const NATIVE: CurrencyId = Token(INTR);
frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Call, Storage, Config<T>, Event<T>},
        Currency: currency::{Pallet},
        Loans: loans::{Pallet, Call, Storage, Event<T>, Config<T>},
    }
);
pub struct CurrencyHooks<T>(PhantomData<T>);
impl<T: orml_tokens::Config + loans::Config> MutationHooks<T::AccountId, T::CurrencyId, <T as currency::Config>::Balance> for CurrencyHooks<T> {
    type OnDust = ();
    type OnSlash = loans::OnSlashHook<T>;
    type PreDeposit = loans::PreDeposit<T>;
    type PostDeposit = loans::PostDeposit<T>;
    type PreTransfer = loans::PreTransfer<T>;
    type PostTransfer = loans::PostTransfer<T>;
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
parameter_types! {
    pub const BlockHashCount: u64 = 250;
    pub const SS58Prefix: u8 = 42;
    pub const NativeId: CurrencyId = NATIVE;
    pub const RelayId: CurrencyId = Token(DOT);
    pub const WrappedId: CurrencyId = Token(IBTC);
    pub const LoansPalletId: PalletId = PalletId(*b"par/loan");
    pub const MinimumPeriod: u64 = 1;
}
fn price_key(c: CurrencyId) -> Vec<u8> { let mut k = b"price".to_vec(); k.extend(codec::Encode::encode(&c)); k }
/// price of one unit in units of the reference currency
pub fn set_price(c: CurrencyId, p: Option<(u128, u128)>) { match p { Some(p) => mcstore::put(&price_key(c), &codec::Encode::encode(&p)), None => mcstore::kill(&price_key(c)) } }
fn price(c: CurrencyId) -> Result<(u128, u128), DispatchError> { mcstore::get(&price_key(c)).and_then(|v| codec::Decode::decode(&mut &v[..]).ok()).ok_or(DispatchError::Other("no price")) }
pub struct Prices;
impl traits::OracleApi<Amt, CurrencyId> for Prices {
    fn convert(a: &Amt, to: CurrencyId) -> Result<Amt, DispatchError> {
        let reference = Token(IBTC);
        if a.currency() == to { return Ok(a.clone()) }
        let v = if a.currency() == reference { a.amount() } else { let (n, d) = price(a.currency())?; a.amount() * n / d };
        Ok(Amt::new(if to == reference { v } else { let (n, d) = price(to)?; v * d / n }, to))
    }
}
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
parameter_type_with_key! { pub ExistentialDeposits: |_c: CurrencyId| -> Balance { 0 }; }
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = CurrencyHooks<Test>;
    type MaxLocks = ConstU32<50>;
    type DustRemovalWhitelist = Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = Balance;
    type GetNativeCurrencyId = NativeId;
    type GetRelayChainCurrencyId = RelayId;
    type GetWrappedCurrencyId = WrappedId;
    type CurrencyConversion = currency::CurrencyConvert<Test, Prices, Loans>;
}
impl loans::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<AccountId>;
    type UpdateOrigin = EnsureRoot<AccountId>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = NativeId;
    type ReferenceAssetId = WrappedId;
    type OnExchangeRateChange = ();
}
pub fn signed(a: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(a) }
pub fn root() -> RuntimeOrigin { RuntimeOrigin::root() }
pub use rt::{err_name, tx};
pub const MIN_RATE: u128 = 20_000_000_000_000_000;
pub const MAX_RATE: u128 = 1_000_000_000_000_000_000;
pub fn genesis(tokens: &[(AccountId, CurrencyId, Balance)], min: u128) -> mcstore::Map {
    let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> { balances: tokens.to_vec() }.assimilate_storage(&mut s).unwrap();
    loans::GenesisConfig::<Test> { max_exchange_rate: Rate::from_inner(MAX_RATE), min_exchange_rate: Rate::from_inner(min), _marker: Default::default() }.assimilate_storage(&mut s).unwrap();
    sp_io::TestExternalities::from(s).map
}
