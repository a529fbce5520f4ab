//! `frame-system` on `mcstore`: origins, accounts, block number, events.
#![allow(clippy::all)]
extern crate self as frame_system;
use codec::{Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use frame_support::{pallet_prelude::*, traits::*, dispatch::Parameter};
use scale_info::TypeInfo;
use sp_runtime::traits::{self, AtLeast32Bit, AtLeast32BitUnsigned, Bounded, CheckEqual, Dispatchable, Hash, MaybeDisplay, MaybeSerializeDeserialize, Member, One, SimpleBitOps, StaticLookup, Zero};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;
pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;

pub type ConsumedWeight = Weight;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, Data> { pub nonce: Nonce, pub consumers: u32, pub providers: u32, pub sufficients: u32, pub data: Data }
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum Phase { ApplyExtrinsic(u32), Finalization, Initialization }
#[derive(Clone, PartialEq, Debug)]
pub struct EventRecord<E, H> { pub phase: Phase, pub event: E, pub topics: Vec<H> }
#[derive(Copy, Clone, Eq, PartialEq, Debug)] pub enum DecRefStatus { Reaped, Exists }
#[derive(Copy, Clone, Eq, PartialEq, Debug)] pub enum IncRefStatus { Created, Existed }

pub trait BlockInfo: traits::Block { type Number: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + AtLeast32BitUnsigned + Default + Bounded + Copy + std::hash::Hash + std::str::FromStr + MaxEncodedLen + TypeInfo + EncodeLike; }
impl<N, H, E: serde::Serialize> BlockInfo for sp_runtime::generic::Block<sp_runtime::generic::Header<N, H>, E> where
    Self: traits::Block, sp_runtime::generic::Header<N, H>: traits::Header, N: Copy + Into<sp_core::U256> + TryFrom<sp_core::U256>, H: Hash,
    N: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + AtLeast32BitUnsigned + Default + Bounded + Copy + std::hash::Hash + std::str::FromStr + MaxEncodedLen + TypeInfo + EncodeLike { type Number = N; }

pub mod mocking {
    use super::*;
    #[derive(Encode, Decode, serde::Serialize, serde::Deserialize)]
    #[codec(encode_bound())] #[codec(decode_bound())] #[serde(bound = "")]
    pub struct MockUncheckedExtrinsic<T>(Vec<u8>, #[serde(skip)] PhantomData<fn() -> T>);
    impl<T> Clone for MockUncheckedExtrinsic<T> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
    impl<T> PartialEq for MockUncheckedExtrinsic<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<T> Eq for MockUncheckedExtrinsic<T> {}
    impl<T> Debug for MockUncheckedExtrinsic<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "xt") } }
    impl<T> traits::Extrinsic for MockUncheckedExtrinsic<T> { type Call = (); type SignaturePayload = (); }
    impl<T: 'static> TypeInfo for MockUncheckedExtrinsic<T> { type Identity = (); fn type_info() -> scale_info::Type { <()>::type_info() } }
    pub type MockBlock<T> = sp_runtime::generic::Block<sp_runtime::generic::Header<u64, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
    pub type MockBlockU32<T> = sp_runtime::generic::Block<sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod limits {
    use super::*;
    #[derive(Clone, Debug, Default)] pub struct BlockLength;
    #[derive(Clone, Debug)] pub struct WeightsPerClass { pub base_extrinsic: Weight, pub max_extrinsic: Option<Weight>, pub max_total: Option<Weight>, pub reserved: Option<Weight> }
    #[derive(Clone, Debug)] pub struct BlockWeights { pub base_block: Weight, pub max_block: Weight, pub base_extrinsic: Weight }
    impl Default for BlockWeights { fn default() -> Self { Self::simple_max(Weight::from_parts(2_000_000_000_000, u64::MAX)) } }
    impl BlockWeights { pub fn simple_max(w: Weight) -> Self { BlockWeights { base_block: Weight::from_parts(1, 0), max_block: w, base_extrinsic: Weight::from_parts(0, 0) } }
        pub fn get(&self, _c: frame_support::dispatch::DispatchClass) -> WeightsPerClass { WeightsPerClass { base_extrinsic: self.base_extrinsic, max_extrinsic: None, max_total: Some(self.max_block), reserved: None } } }
    pub struct Defaults;
}
impl From<()> for limits::BlockLength { fn from(_: ()) -> Self { Self } }
pub mod offchain {
    pub trait SendTransactionTypes<LocalCall> { type OverarchingCall: From<LocalCall>; type Extrinsic: sp_runtime::traits::Extrinsic<Call = Self::OverarchingCall> + codec::Encode; }
    pub struct SubmitTransaction<T, C>(std::marker::PhantomData<(T, C)>);
    thread_local! { pub static SUBMITTED: std::cell::RefCell<Vec<Vec<u8>>> = Default::default(); }
    impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
        pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> {
            let xt = <T::Extrinsic as sp_runtime::traits::Extrinsic>::new(call, None).ok_or(())?;
            SUBMITTED.with(|s| s.borrow_mut().push(codec::Encode::encode(&xt)));
            Ok(())
        }
    }
}

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    #[pallet::config]
    pub trait Config: 'static + Eq + Clone {
        type BaseCallFilter: Contains<Self::RuntimeCall>;
        type BlockWeights: Get<limits::BlockWeights>;
        type BlockLength;
        type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
        type Nonce: Parameter + codec::HasCompact + Member + MaybeSerializeDeserialize + Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
        type Hash: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + SimpleBitOps + Ord + Default + Copy + CheckEqual + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
        type Hashing: Hash<Output = Self::Hash> + TypeInfo;
        type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen;
        type Lookup: StaticLookup<Target = Self::AccountId>;
        type Block: Parameter + Member + traits::Block<Hash = Self::Hash> + BlockInfo;
        type RuntimeEvent: Member + From<Event<Self>> + Debug;
        type BlockHashCount: Get<BlockNumberFor<Self>>;
        type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
        type Version;
        type PalletInfo: PalletInfo;
        type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
        type OnNewAccount: OnNewAccount<Self::AccountId>;
        type OnKilledAccount: OnKilledAccount<Self::AccountId>;
        type SystemWeightInfo;
        type SS58Prefix: Get<u16>;
        type OnSetCode;
        type MaxConsumers: Get<u32>;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(1_000_000, 0))]
        pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::call_index(1)]
        #[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
        pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo { ensure_root(origin)?; Ok(().into()) }
        #[pallet::call_index(2)]
        #[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
        pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo { ensure_root(origin)?; Ok(().into()) }
        #[pallet::call_index(3)]
        #[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
        pub fn kill_prefix(origin: OriginFor<T>, prefix: Vec<u8>, subkeys: u32) -> DispatchResultWithPostInfo { ensure_root(origin)?; frame_support::storage::unhashed::kill_prefix(&prefix, Some(subkeys)); Ok(().into()) }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::from_parts(1_000_000, 0))]
        pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let who = ensure_signed(origin)?; Self::deposit_event(Event::Remarked { sender: who, hash: T::Hashing::hash(&remark) }); Ok(().into()) }
        #[pallet::call_index(5)]
        #[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
        pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo { ensure_root(origin)?; for (k, v) in &items { frame_support::storage::unhashed::put_raw(k, v) } Ok(().into()) }
    }
    #[pallet::event]
    pub enum Event<T: Config> { NewAccount { account: T::AccountId }, KilledAccount { account: T::AccountId }, Remarked { sender: T::AccountId, hash: T::Hash } }
    #[pallet::error]
    pub enum Error<T> { InvalidSpecName, SpecVersionNeedsToIncrease, FailedToExtractRuntimeVersion, NonDefaultComposite, NonZeroRefCount, CallFiltered }
    #[pallet::storage] #[pallet::getter(fn account)]
    pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn block_number)]
    pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn parent_hash)]
    pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
    #[pallet::storage]
    pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
    #[pallet::storage]
    pub type DigestStore<T: Config> = StorageValue<_, sp_runtime::generic::Digest, ValueQuery>;
    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config> { pub _config: PhantomData<T>, pub code: Vec<u8> }
    impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { _config: PhantomData, code: vec![] } } }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) { <Number<T>>::put(BlockNumberFor::<T>::zero()); } }
}
pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type BlockNumberFor<T> = <<T as crate::Config>::Block as crate::BlockInfo>::Number;
    pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
    pub type HeaderFor<T> = <<T as crate::Config>::Block as sp_runtime::traits::Block>::Header;
}
use pallet_prelude::{BlockNumberFor, OriginFor};

pub type OriginForO<O, A> = Result<RawOrigin<A>, O>;
pub fn ensure_signed<O, A>(o: O) -> Result<A, sp_runtime::traits::BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Signed(t)) => Ok(t), _ => Err(sp_runtime::traits::BadOrigin) } }
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, sp_runtime::traits::BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(t)) => Ok(Some(t)), _ => Err(sp_runtime::traits::BadOrigin) } }
pub fn ensure_root<O, A>(o: O) -> Result<(), sp_runtime::traits::BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(sp_runtime::traits::BadOrigin) } }
pub fn ensure_none<O, A>(o: O) -> Result<(), sp_runtime::traits::BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(sp_runtime::traits::BadOrigin) } }

pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }) } }
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(w) => Ok(w), r => Err(O::from(r)) }) } }
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<W, A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(ref who) if W::contains(who) => Ok(who.clone()), r => Err(O::from(r)) }) } }
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::None => Ok(()), r => Err(O::from(r)) }) } }

impl<T: Config> Pallet<T> {
    pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
        if Self::block_number().is_zero() { return }
        mcstore::push_event(Rc::new(EventRecord::<T::RuntimeEvent, T::Hash> { phase: Phase::Initialization, event: event.into(), topics: vec![] }));
    }
    pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> { mcstore::events().into_iter().filter_map(|e| e.downcast_ref::<EventRecord<T::RuntimeEvent, T::Hash>>().cloned()).collect() }
    pub fn event_count() -> u32 { Self::events().len() as u32 }
    pub fn reset_events() { mcstore::clear_events() }
    pub fn assert_has_event(event: T::RuntimeEvent) { assert!(Self::events().iter().any(|r| r.event == event), "expected event {:?} not found in events {:?}", event, Self::events().iter().map(|r| r.event.clone()).collect::<Vec<_>>()) }
    pub fn assert_last_event(event: T::RuntimeEvent) { assert_eq!(Self::events().last().map(|r| r.event.clone()), Some(event)) }
    pub fn set_block_number(n: BlockNumberFor<T>) { <Number<T>>::put(n) }
    pub fn set_parent_hash(n: T::Hash) { <ParentHash<T>>::put(n) }
    pub fn block_hash(n: BlockNumberFor<T>) -> T::Hash { <BlockHash<T>>::get(n) }
    pub fn digest() -> sp_runtime::generic::Digest { <DigestStore<T>>::get() }
    pub fn register_extra_weight_unchecked(_w: Weight, _c: DispatchClass) {}
    pub fn account_exists(who: &T::AccountId) -> bool { <Account<T>>::contains_key(who) }
    pub fn account_nonce(who: impl EncodeLike<T::AccountId>) -> T::Nonce { <Account<T>>::get(who).nonce }
    pub fn inc_account_nonce(who: impl EncodeLike<T::AccountId>) { <Account<T>>::mutate(who, |a| a.nonce += T::Nonce::one()) }
    pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
        <Account<T>>::mutate(who, |a| if a.providers == 0 && a.sufficients == 0 { a.providers = 1; Self::on_created_account(who.clone()); IncRefStatus::Created } else { a.providers = a.providers.saturating_add(1); IncRefStatus::Existed })
    }
    pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
        <Account<T>>::try_mutate_exists(who, |m| {
            if let Some(mut a) = m.take() {
                if a.providers == 0 { a.providers = 1 }
                match (a.providers, a.consumers, a.sufficients) {
                    (1, 0, 0) => { Self::on_killed_account(who.clone()); Ok(DecRefStatus::Reaped) }
                    (1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
                    (x, _, _) => { a.providers = x - 1; *m = Some(a); Ok(DecRefStatus::Exists) }
                }
            } else { Ok(DecRefStatus::Reaped) }
        })
    }
    pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus { <Account<T>>::mutate(who, |a| if a.providers + a.sufficients == 0 { a.sufficients = 1; Self::on_created_account(who.clone()); IncRefStatus::Created } else { a.sufficients += 1; IncRefStatus::Existed }) }
    pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
        <Account<T>>::try_mutate(who, |a| if a.providers > 0 { if a.consumers < T::MaxConsumers::get() { a.consumers += 1; Ok(()) } else { Err(DispatchError::TooManyConsumers) } } else { Err(DispatchError::NoProviders) })
    }
    pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> { <Account<T>>::try_mutate(who, |a| if a.providers > 0 { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::NoProviders) }) }
    pub fn dec_consumers(who: &T::AccountId) { <Account<T>>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1)) }
    pub fn providers(who: &T::AccountId) -> u32 { <Account<T>>::get(who).providers }
    pub fn consumers(who: &T::AccountId) -> u32 { <Account<T>>::get(who).consumers }
    pub fn can_dec_provider(who: &T::AccountId) -> bool { let a = <Account<T>>::get(who); a.consumers == 0 || a.providers > 1 }
    pub fn can_inc_consumer(who: &T::AccountId) -> bool { let a = <Account<T>>::get(who); a.providers > 0 && a.consumers < T::MaxConsumers::get() }
    fn on_created_account(who: T::AccountId) { T::OnNewAccount::on_new_account(&who); Self::deposit_event(Event::NewAccount { account: who }) }
    fn on_killed_account(who: T::AccountId) { T::OnKilledAccount::on_killed_account(&who); Self::deposit_event(Event::KilledAccount { account: who }) }
}
impl<T: Config> BlockNumberProvider for Pallet<T> { type BlockNumber = BlockNumberFor<T>; fn current_block_number() -> Self::BlockNumber { Self::block_number() } }
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> { fn created(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::inc_providers(t); Ok(()) } fn killed(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::dec_providers(t).map(|_| ()) } }
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
    fn get(k: &T::AccountId) -> T::AccountData { <Account<T>>::get(k).data }
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
        let a = <Account<T>>::get(k);
        let is_default = a.data == T::AccountData::default();
        let mut some = if is_default { None } else { Some(a.data) };
        let r = f(&mut some)?;
        if Self::providers(k) > 0 || Self::account_exists(k) && <Account<T>>::get(k).sufficients > 0 { <Account<T>>::mutate(k, |a| a.data = some.unwrap_or_default()) } else { <Account<T>>::mutate(k, |a| a.data = some.unwrap_or_default()) }
        Ok(r)
    }
}
#[derive(Clone, Default)] pub struct ChainContext<T>(PhantomData<T>);
impl<T: Config> traits::Lookup for ChainContext<T> { type Source = <T::Lookup as StaticLookup>::Source; type Target = <T::Lookup as StaticLookup>::Target; fn lookup(&self, s: Self::Source) -> Result<Self::Target, sp_runtime::traits::LookupError> { T::Lookup::lookup(s) } }
