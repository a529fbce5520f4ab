//! The governance half of interbtc: voting power, democracy, collators, paused transactions and client releases, from /repo on the FRAME shim.
use frame_support::{parameter_types, traits::{ConstU128, ConstU32, ConstU64, Contains, EqualPrivilegeOnly, FindAuthor, InstanceFilter}, weights::Weight, PalletId, RuntimeDebug};
use frame_system::EnsureRoot;
use codec::{Decode, Encode, MaxEncodedLen};
use sp_core::H256;
use sp_runtime::{testing::UintAuthorityId, traits::{BlakeTwo256, Convert, IdentityLookup, OpaqueKeys}};
pub use sp_arithmetic::{FixedI128, FixedPointNumber};
pub use sp_runtime::BuildStorage;

type Block = frame_system::mocking::MockBlock<Test>;
pub type AccountId = u128;
pub type Balance = u128;
pub type BlockNumber = u64;
frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Utility: pallet_utility::{Pallet, Call, Event},
        Proxy: pallet_proxy::{Pallet, Call, Storage, Event<T>},
        Preimage: pallet_preimage::{Pallet, Call, Storage, Event<T>},
        Scheduler: pallet_scheduler::{Pallet, Storage, Event<T>},
        Balances: pallet_balances::{Pallet, Call, Storage, Event<T>},
        EscrowRewards: reward::<Instance1>::{Pallet, Call, Storage, Event<T>},
        Escrow: escrow::{Pallet, Call, Storage, Event<T>},
        Democracy: democracy::{Pallet, Call, Storage, Config<T>, Event<T>},
        Authorship: pallet_authorship::{Pallet, Storage},
        CollatorSelection: collator_selection::{Pallet, Call, Storage, Config<T>, Event<T>},
        Session: pallet_session::{Pallet, Call, Storage, Event, Config<T>},
        TxPause: tx_pause::{Pallet, Call, Storage, Event<T>},
        ClientsInfo: clients_info::{Pallet, Call, Storage, Event<T>},
    }
);
parameter_types! { pub const BlockHashCount: u64 = 250; pub const SS58Prefix: u8 = 42; }
impl frame_system::Config for Test {
    type BaseCallFilter = TxPause;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = u64;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = pallet_balances::AccountData<Balance>;
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<1>;
    type WeightInfo = ();
}
pub const ED: Balance = 1;
impl pallet_balances::Config for Test {
    type Balance = Balance;
    type DustRemoval = ();
    type RuntimeEvent = RuntimeEvent;
    type ExistentialDeposit = ConstU128<ED>;
    type AccountStore = System;
    type WeightInfo = ();
    type MaxLocks = ();
    type MaxReserves = ();
    type ReserveIdentifier = [u8; 8];
    type RuntimeHoldReason = ();
    type FreezeIdentifier = ();
    type MaxFreezes = ();
    type MaxHolds = ();
}
impl pallet_utility::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type RuntimeCall = RuntimeCall;
    type PalletsOrigin = OriginCaller;
    type WeightInfo = ();
}
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, RuntimeDebug, MaxEncodedLen, scale_info::TypeInfo, Default)]
pub enum ProxyType { #[default] Any }
impl InstanceFilter<RuntimeCall> for ProxyType {
    fn filter(&self, _: &RuntimeCall) -> bool { true }
    fn is_superset(&self, _: &Self) -> bool { true }
}
impl pallet_proxy::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type RuntimeCall = RuntimeCall;
    type Currency = Balances;
    type ProxyType = ProxyType;
    type ProxyDepositBase = ConstU128<1>;
    type ProxyDepositFactor = ConstU128<1>;
    type MaxProxies = ConstU32<4>;
    type WeightInfo = ();
    type CallHasher = BlakeTwo256;
    type MaxPending = ConstU32<2>;
    type AnnouncementDepositBase = ConstU128<1>;
    type AnnouncementDepositFactor = ConstU128<1>;
}
impl pallet_preimage::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type Currency = Balances;
    type ManagerOrigin = EnsureRoot<AccountId>;
    type BaseDeposit = ConstU128<3>;
    type ByteDeposit = ConstU128<0>;
}
parameter_types! { pub MaximumSchedulerWeight: Weight = Weight::from_parts(u64::MAX, u64::MAX); }
impl pallet_scheduler::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type RuntimeOrigin = RuntimeOrigin;
    type PalletsOrigin = OriginCaller;
    type RuntimeCall = RuntimeCall;
    type MaximumWeight = MaximumSchedulerWeight;
    type ScheduleOrigin = EnsureRoot<AccountId>;
    type MaxScheduledPerBlock = ConstU32<30>;
    type OriginPrivilegeCmp = EqualPrivilegeOnly;
    type WeightInfo = ();
    type Preimages = Preimage;
}
impl reward::Config<reward::Instance1> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = AccountId;
    type CurrencyId = u8;
    type MaxRewardCurrencies = ConstU32<10>;
}
pub struct ToBalance;
impl Convert<BlockNumber, Balance> for ToBalance { fn convert(a: BlockNumber) -> Balance { a.into() } }
pub const SPAN: u64 = 5;
pub const MAX_PERIOD: u64 = 50;
impl escrow::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = ToBalance;
    type Currency = Balances;
    type Span = ConstU64<SPAN>;
    type MaxPeriod = ConstU64<MAX_PERIOD>;
    type EscrowRewards = EscrowRewards;
    type WeightInfo = ();
}
pub const ENACT: u64 = 2;
pub const VOTING: u64 = 4;
pub const FAST: u64 = 2;
pub const MIN_DEPOSIT: Balance = 2;
pub const MAX_VOTES: u32 = 2;
pub const MAX_PROPOSALS: u32 = 3;
pub const MAX_DEPOSITS: u32 = 3;
/// seconds
pub const LAUNCH: u64 = 30;
pub const TREASURY: AccountId = 900;
parameter_types! { pub const TreasuryAccount: AccountId = TREASURY; }
impl democracy::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Scheduler = Scheduler;
    type Preimages = Preimage;
    type Currency = Escrow;
    type EnactmentPeriod = ConstU64<ENACT>;
    type VotingPeriod = ConstU64<VOTING>;
    type FastTrackVotingPeriod = ConstU64<FAST>;
    type MinimumDeposit = ConstU128<MIN_DEPOSIT>;
    type MaxVotes = ConstU32<MAX_VOTES>;
    type MaxProposals = ConstU32<MAX_PROPOSALS>;
    type MaxDeposits = ConstU32<MAX_DEPOSITS>;
    type FastTrackOrigin = EnsureRoot<AccountId>;
    type PalletsOrigin = OriginCaller;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type LaunchPeriod = ConstU64<LAUNCH>;
    type TreasuryAccount = TreasuryAccount;
    type TreasuryCurrency = Balances;
}
std::thread_local! { pub static AUTHOR: std::cell::Cell<Option<AccountId>> = const { std::cell::Cell::new(None) }; }
pub struct TheAuthor;
impl FindAuthor<AccountId> for TheAuthor {
    fn find_author<'a, I>(_: I) -> Option<AccountId> where I: 'a + IntoIterator<Item = (frame_support::ConsensusEngineId, &'a [u8])> { AUTHOR.with(|a| a.get()) }
}
impl pallet_authorship::Config for Test {
    type FindAuthor = TheAuthor;
    type EventHandler = CollatorSelection;
}
sp_runtime::impl_opaque_keys! { pub struct Keys { pub aura: UintAuthorityId, } }
pub struct Handler;
impl pallet_session::SessionHandler<AccountId> for Handler {
    const KEY_TYPE_IDS: &'static [sp_runtime::KeyTypeId] = &[UintAuthorityId::ID];
    fn on_genesis_session<Ks: OpaqueKeys>(_: &[(AccountId, Ks)]) {}
    fn on_new_session<Ks: OpaqueKeys>(_: bool, _: &[(AccountId, Ks)], _: &[(AccountId, Ks)]) {}
    fn on_disabled(_: u32) {}
}
use sp_runtime::RuntimeAppPublic;
pub const PERIOD: u64 = 3;
impl pallet_session::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type ValidatorId = AccountId;
    type ValidatorIdOf = collator_selection::IdentityCollator;
    type ShouldEndSession = pallet_session::PeriodicSessions<ConstU64<PERIOD>, ConstU64<0>>;
    type NextSessionRotation = ();
    type SessionManager = CollatorSelection;
    type SessionHandler = Handler;
    type Keys = Keys;
    type WeightInfo = ();
}
parameter_types! { pub const PotId: PalletId = PalletId(*b"PotStake"); }
pub const MAX_CANDIDATES: u32 = 3;
pub const MIN_CANDIDATES: u32 = 1;
pub const MAX_INVULNERABLES: u32 = 2;
impl collator_selection::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type StakingCurrency = Escrow;
    type RewardsCurrency = Balances;
    type UpdateOrigin = EnsureRoot<AccountId>;
    type PotId = PotId;
    type MaxCandidates = ConstU32<MAX_CANDIDATES>;
    type MinCandidates = ConstU32<MIN_CANDIDATES>;
    type MaxInvulnerables = ConstU32<MAX_INVULNERABLES>;
    type KickThreshold = ConstU64<PERIOD>;
    type ValidatorId = AccountId;
    type ValidatorIdOf = collator_selection::IdentityCollator;
    type ValidatorRegistration = Session;
    type WeightInfo = ();
}
/// `Balances::transfer_keep_alive` and the whole of `Escrow` cannot be paused
#[derive(Copy, Clone, Encode, Decode, RuntimeDebug, MaxEncodedLen, scale_info::TypeInfo)]
pub struct Whitelist;
pub fn whitelisted(pallet: &[u8], call: Option<&[u8]>) -> bool { pallet == b"Escrow" || pallet == b"Balances" && call == Some(b"transfer_keep_alive") }
impl Contains<tx_pause::FullNameOf<Test>> for Whitelist { fn contains(n: &tx_pause::FullNameOf<Test>) -> bool { whitelisted(&n.0, n.1.as_ref().map(|c| &c[..])) } }
std::thread_local! { pub static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub struct TooLong;
impl frame_support::traits::Get<bool> for TooLong { fn get() -> bool { LONG.with(|l| l.get()) } }
pub const NAME_LEN: u32 = 22;
impl tx_pause::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type RuntimeCall = RuntimeCall;
    type PauseOrigin = EnsureRoot<AccountId>;
    type UnpauseOrigin = EnsureRoot<AccountId>;
    type WhitelistCallNames = Whitelist;
    type MaxNameLen = ConstU32<NAME_LEN>;
    type PauseTooLongNames = TooLong;
    type WeightInfo = ();
}
impl clients_info::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<8>;
    type MaxUriLength = ConstU32<8>;
}
pub fn signed(a: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(a) }
pub fn root() -> RuntimeOrigin { RuntimeOrigin::root() }
pub use rt::{err_name, tx};
pub fn genesis(native: &[(AccountId, Balance)]) -> mcstore::Map {
    let mut s = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> { balances: native.to_vec() }.assimilate_storage(&mut s).unwrap();
    sp_io::TestExternalities::from(s).map
}
