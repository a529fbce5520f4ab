//! The token half of interbtc: native balances, inflation, annuities, escrow and farming, from /repo on the FRAME shim.
use frame_support::{parameter_types, traits::{ConstU128, ConstU32, ConstU64, Everything, Currency, ExistenceRequirement, Get}, PalletId};
use orml_traits::parameter_type_with_key;
pub use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol::*};
pub use sp_arithmetic::{FixedI128, FixedPointNumber, FixedU128};
use sp_core::H256;
use sp_runtime::{traits::{AccountIdConversion, BlakeTwo256, Convert, IdentityLookup}, DispatchError, DispatchResult};
pub use sp_runtime::BuildStorage;

type Block = frame_system::mocking::MockBlock<Test>;
pub type AccountId = u128;
pub type Balance = u128;
pub type BlockNumber = u64;
frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Balances: pallet_balances::{Pallet, Call, Storage, Event<T>},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        EscrowRewards: reward::<Instance1>::{Pallet, Call, Storage, Event<T>},
        VaultCapacity: reward::<Instance2>::{Pallet, Call, Storage, Event<T>},
        FarmingRewards: reward::<Instance3>::{Pallet, Call, Storage, Event<T>},
        Escrow: escrow::{Pallet, Call, Storage, Event<T>},
        EscrowAnnuity: annuity::<Instance1>::{Pallet, Call, Storage, Event<T>},
        VaultAnnuity: annuity::<Instance2>::{Pallet, Call, Storage, Event<T>},
        Supply: supply::{Pallet, Call, Storage, Config<T>, Event<T>},
        Farming: farming::{Pallet, Call, Storage, Event<T>},
    }
);
parameter_types! { pub const BlockHashCount: u64 = 250; pub const SS58Prefix: u8 = 42; }
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = pallet_balances::AccountData<Balance>;
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl pallet_balances::Config for Test {
    type Balance = Balance;
    type DustRemoval = ();
    type RuntimeEvent = RuntimeEvent;
    type ExistentialDeposit = ConstU128<1>;
    type AccountStore = System;
    type WeightInfo = ();
    type MaxLocks = ();
    type MaxReserves = ();
    type ReserveIdentifier = [u8; 8];
    type RuntimeHoldReason = ();
    type FreezeIdentifier = ();
    type MaxFreezes = ();
    type MaxHolds = ();
}
parameter_type_with_key! { pub ExistentialDeposits: |_c: CurrencyId| -> Balance { 0 }; }
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<50>;
    type DustRemovalWhitelist = Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
pub const NATIVE: CurrencyId = Token(INTR);
macro_rules! rewards { ($($i:ident $pool:ty, $stake:ty;)*) => { $(impl reward::Config<reward::$i> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = $pool;
    type StakeId = $stake;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
})* } }
rewards! { Instance1 (), AccountId; Instance2 (), CurrencyId; Instance3 CurrencyId, AccountId; }
pub const SPAN: u64 = 4;
pub const MAX_PERIOD: u64 = 12;
pub struct ToBalance;
impl Convert<BlockNumber, Balance> for ToBalance { fn convert(a: BlockNumber) -> Balance { a.into() } }
impl escrow::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = ToBalance;
    type Currency = Balances;
    type Span = ConstU64<SPAN>;
    type MaxPeriod = ConstU64<MAX_PERIOD>;
    type EscrowRewards = EscrowRewards;
    type WeightInfo = ();
}
/// The two providers of the runtime: the escrow annuity pays when rewards are withdrawn, the vault annuity pays into the fee
/// pool every block.
pub struct EscrowProvider;
impl annuity::BlockRewardProvider<AccountId> for EscrowProvider {
    type Currency = Balances;
    fn distribute_block_reward(_from: &AccountId, amount: Balance) -> DispatchResult { <EscrowRewards as reward::RewardsApi<(), AccountId, Balance>>::distribute_reward(&(), NATIVE, amount) }
    fn withdraw_reward(who: &AccountId) -> Result<Balance, DispatchError> { <EscrowRewards as reward::RewardsApi<(), AccountId, Balance>>::withdraw_reward(&(), who, NATIVE) }
}
pub const FEE_ACCOUNT: AccountId = 777;
pub struct VaultProvider;
impl annuity::BlockRewardProvider<AccountId> for VaultProvider {
    type Currency = Balances;
    fn distribute_block_reward(from: &AccountId, amount: Balance) -> DispatchResult {
        <Balances as Currency<_>>::transfer(from, &FEE_ACCOUNT, amount, ExistenceRequirement::KeepAlive)?;
        <VaultCapacity as reward::RewardsApi<(), CurrencyId, Balance>>::distribute_reward(&(), NATIVE, amount)
    }
    fn withdraw_reward(_: &AccountId) -> Result<Balance, DispatchError> { Err(DispatchError::Other("Unsupported")) }
}
parameter_types! {
    pub const EscrowAnnuityPalletId: PalletId = PalletId(*b"esc/annu");
    pub const VaultAnnuityPalletId: PalletId = PalletId(*b"vlt/annu");
    pub const SupplyPalletId: PalletId = PalletId(*b"mod/supl");
    pub const FarmingPalletId: PalletId = PalletId(*b"mod/farm");
    pub TreasuryAccountId: AccountId = PalletId(*b"mod/trsy").into_account_truncating();
}
pub struct TotalWrapped;
impl Get<Balance> for TotalWrapped { fn get() -> Balance { orml_tokens::Pallet::<Test>::total_issuance(Token(IBTC)) } }
pub const EMISSION: u64 = 4;
macro_rules! annuities { ($($i:ident $id:ident $p:ident;)*) => { $(impl annuity::Config<annuity::$i> for Test {
    type AnnuityPalletId = $id;
    type RuntimeEvent = RuntimeEvent;
    type Currency = Balances;
    type BlockRewardProvider = $p;
    type BlockNumberToBalance = ToBalance;
    type EmissionPeriod = ConstU64<EMISSION>;
    type TotalWrapped = TotalWrapped;
    type WeightInfo = ();
})* } }
annuities! { Instance1 EscrowAnnuityPalletId EscrowProvider; Instance2 VaultAnnuityPalletId VaultProvider; }
pub const INFLATION_PERIOD: u64 = 4;
/// as in the runtime: shares to the annuities, the rest to the treasury
pub struct DealWithRewards;
pub fn vault_share(x: Balance) -> Balance { x * 30 / 100 }
pub fn escrow_share(x: Balance) -> Balance { x * 5 / 100 }
impl supply::OnInflation<AccountId> for DealWithRewards {
    type Currency = Balances;
    fn on_inflation(from: &AccountId, amount: Balance) {
        let _ = <Balances as Currency<_>>::transfer(from, &VaultAnnuity::account_id(), vault_share(amount), ExistenceRequirement::KeepAlive);
        VaultAnnuity::update_reward_per_block();
        let _ = <Balances as Currency<_>>::transfer(from, &EscrowAnnuity::account_id(), escrow_share(amount), ExistenceRequirement::KeepAlive);
        EscrowAnnuity::update_reward_per_block();
        let _ = <Balances as Currency<_>>::transfer(from, &TreasuryAccountId::get(), amount - vault_share(amount) - escrow_share(amount), ExistenceRequirement::KeepAlive);
    }
}
impl supply::Config for Test {
    type SupplyPalletId = SupplyPalletId;
    type RuntimeEvent = RuntimeEvent;
    type UnsignedFixedPoint = FixedU128;
    type Currency = Balances;
    type InflationPeriod = ConstU64<INFLATION_PERIOD>;
    type OnInflation = DealWithRewards;
    type WeightInfo = ();
}
pub const REWARD_PERIOD: u64 = 2;
impl farming::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type FarmingPalletId = FarmingPalletId;
    type TreasuryAccountId = TreasuryAccountId;
    type RewardPeriod = ConstU64<REWARD_PERIOD>;
    type RewardPools = FarmingRewards;
    type MultiCurrency = Tokens;
    type WeightInfo = ();
}
pub fn signed(a: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(a) }
pub fn root() -> RuntimeOrigin { RuntimeOrigin::root() }
pub use rt::{err_name, tx};
pub fn genesis(native: &[(AccountId, Balance)], tokens: &[(AccountId, CurrencyId, Balance)]) -> mcstore::Map {
    let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> { balances: native.to_vec() }.assimilate_storage(&mut s).unwrap();
    orml_tokens::GenesisConfig::<Test> { balances: tokens.to_vec() }.assimilate_storage(&mut s).unwrap();
    sp_io::TestExternalities::from(s).map
}
