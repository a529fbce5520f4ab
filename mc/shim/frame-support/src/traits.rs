use crate::dispatch::{DispatchResultWithPostInfo, DispatchResult, DispatchError, RawOrigin};
use codec::{Codec, Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_weights::Weight;
use std::fmt::Debug;
use std::marker::PhantomData;
pub use sp_core::{Get, TypedGet, GetDefault};
pub use sp_runtime::traits::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, BlockNumberProvider, Dispatchable};
pub use sp_runtime::traits::{TrailingZeroInput, Morph, TryMorph};
pub mod tokens;
pub use tokens::currency::*;
pub use tokens::{BalanceStatus, ExistenceRequirement, WithdrawReasons, imbalance::*, LockIdentifier};
pub mod schedule;
pub mod preimages;
pub use preimages::{Bounded, QueryPreimage, StorePreimage};
pub use preimages::*;

// ---- metadata
pub trait PalletInfo { fn index<P: 'static>() -> Option<usize>; fn name<P: 'static>() -> Option<&'static str>; fn module_name<P: 'static>() -> Option<&'static str>; fn name_hash<P: 'static>() -> Option<[u8; 16]> { Self::name::<P>().map(|n| sp_core::twox_128(n.as_bytes())) } }
impl PalletInfo for () { fn index<P: 'static>() -> Option<usize> { Some(0) } fn name<P: 'static>() -> Option<&'static str> { Some("test") } fn module_name<P: 'static>() -> Option<&'static str> { Some("test") } }
pub trait PalletInfoAccess { fn index() -> usize; fn name() -> &'static str; fn name_hash() -> [u8; 16] { sp_core::twox_128(Self::name().as_bytes()) } }
pub trait StorageInstance { const STORAGE_PREFIX: &'static str; fn pallet_prefix() -> &'static str; fn prefix_hash() -> [u8; 32] { let mut r = [0u8; 32]; r[..16].copy_from_slice(&sp_core::twox_128(Self::pallet_prefix().as_bytes())); r[16..].copy_from_slice(&sp_core::twox_128(Self::STORAGE_PREFIX.as_bytes())); r } }
pub trait StorageInfoTrait {}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Encode, Decode, Default, TypeInfo)]
pub struct StorageVersion(u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self { Self(v) }
    fn key<P: PalletInfoAccess>() -> Vec<u8> { let mut k = P::name_hash().to_vec(); k.extend(sp_core::twox_128(b":__STORAGE_VERSION__:")); k }
    pub fn get<P: PalletInfoAccess>() -> Self { crate::storage::unhashed::get_or_default(&Self::key::<P>()) }
    pub fn put<P: PalletInfoAccess>(&self) { crate::storage::unhashed::put(&Self::key::<P>(), self) }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { Some(self.0.cmp(o)) } }
pub trait GetStorageVersion { fn current_storage_version() -> StorageVersion; fn on_chain_storage_version() -> StorageVersion; }
#[derive(Clone, Eq, PartialEq, Debug, Default)] pub struct CallMetadata { pub function_name: &'static str, pub pallet_name: &'static str }
pub trait GetCallName { fn get_call_names() -> &'static [&'static str]; fn get_call_name(&self) -> &'static str; }
pub trait GetCallMetadata { fn get_module_names() -> &'static [&'static str]; fn get_call_names(module: &str) -> &'static [&'static str]; fn get_call_metadata(&self) -> CallMetadata; }
pub trait PalletError: Encode + Decode { const MAX_ENCODED_SIZE: usize; }
pub trait BuildGenesisConfig: Default { fn build(&self); }
pub trait Callable<T> { type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq; }
pub trait IsType<T>: Into<T> + From<T> { fn from_ref(t: &T) -> &Self; fn into_ref(&self) -> &T; fn from_mut(t: &mut T) -> &mut Self; fn into_mut(&mut self) -> &mut T; }
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &Self { t } fn into_ref(&self) -> &T { self } fn from_mut(t: &mut T) -> &mut Self { t } fn into_mut(&mut self) -> &mut T { self } }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; }
pub trait ExtrinsicCall: sp_runtime::traits::Extrinsic { fn call(&self) -> &Self::Call; }

// ---- hooks
pub trait Hooks<N> {
    fn on_finalize(_n: N) {}
    fn on_idle(_n: N, _w: Weight) -> Weight { Weight::zero() }
    fn on_initialize(_n: N) -> Weight { Weight::zero() }
    fn on_runtime_upgrade() -> Weight { Weight::zero() }
    fn offchain_worker(_n: N) {}
    fn integrity_test() {}
}
pub trait OnInitialize<N> { fn on_initialize(_n: N) -> Weight { Weight::zero() } }
pub trait OnFinalize<N> { fn on_finalize(_n: N) {} }
pub trait OnIdle<N> { fn on_idle(_n: N, _w: Weight) -> Weight { Weight::zero() } }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
pub trait OffchainWorker<N> { fn offchain_worker(_n: N) {} }
pub trait OnGenesis { fn on_genesis() {} }
macro_rules! tup { ($($a:ident),*) => {
    impl<N: Clone, $($a: OnInitialize<N>),*> OnInitialize<N> for ($($a,)*) { #[allow(unused)] fn on_initialize(n: N) -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($a::on_initialize(n.clone()));)* w } }
    impl<N: Clone, $($a: OnFinalize<N>),*> OnFinalize<N> for ($($a,)*) { #[allow(unused)] fn on_finalize(n: N) { $($a::on_finalize(n.clone());)* } }
    impl<N: Clone, $($a: OnIdle<N>),*> OnIdle<N> for ($($a,)*) { #[allow(unused)] fn on_idle(n: N, r: Weight) -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($a::on_idle(n.clone(), r.saturating_sub(w)));)* w } }
    impl<$($a: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($a,)*) { #[allow(unused)] fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($a::on_runtime_upgrade());)* w } }
} }
tup!(); tup!(A); tup!(A, B); tup!(A, B, C); tup!(A, B, C, D); tup!(A, B, C, D, E); tup!(A, B, C, D, E, F); tup!(A, B, C, D, E, F, G); tup!(A, B, C, D, E, F, G, H);
pub trait OnTimestampSet<M> { fn on_timestamp_set(m: M); }
impl<M> OnTimestampSet<M> for () { fn on_timestamp_set(_: M) {} }
pub trait Time { type Moment: sp_runtime::traits::AtLeast32Bit + codec::FullCodec + Clone + Copy; fn now() -> Self::Moment; }
pub trait UnixTime { fn now() -> core::time::Duration; }

// ---- origins
pub trait CallerTrait<A>: Codec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {
    fn into_system(self) -> Option<RawOrigin<A>>;
    fn as_system_ref(&self) -> Option<&RawOrigin<A>>;
    fn as_signed(&self) -> Option<&A> { self.as_system_ref().and_then(|x| match x { RawOrigin::Signed(a) => Some(a), _ => None }) }
    fn is_root(&self) -> bool { self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::Root)) }
    fn is_none(&self) -> bool { self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::None)) }
}
pub trait OriginTrait: Sized {
    type Call; type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen; type AccountId;
    fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
    fn reset_filter(&mut self);
    fn set_caller_from(&mut self, other: impl Into<Self>);
    fn filter_call(&self, call: &Self::Call) -> bool;
    fn caller(&self) -> &Self::PalletsOrigin;
    fn into_caller(self) -> Self::PalletsOrigin;
    fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
    fn none() -> Self;
    fn root() -> Self;
    fn signed(by: Self::AccountId) -> Self;
    fn as_signed(self) -> Option<Self::AccountId>;
    fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
}
pub trait AsSystemOriginSigner<A> { fn as_system_origin_signer(&self) -> Option<&A>; }
pub trait EnsureOrigin<O> {
    type Success;
    fn ensure_origin(o: O) -> Result<Self::Success, sp_runtime::traits::BadOrigin> { Self::try_origin(o).map_err(|_| sp_runtime::traits::BadOrigin) }
    fn try_origin(o: O) -> Result<Self::Success, O>;
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
pub type EitherOf<L, R> = EitherOfDiverse<L, R>;
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
    type Success = sp_runtime::Either<L::Success, R::Success>;
    fn try_origin(o: O) -> Result<Self::Success, O> { L::try_origin(o).map_or_else(|o| R::try_origin(o).map(sp_runtime::Either::Right), |o| Ok(sp_runtime::Either::Left(o))) }
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
pub trait PrivilegeCmp<O> { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering>; }
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> { (l == r).then(|| std::cmp::Ordering::Equal) } }

// ---- members
pub trait Contains<T> { fn contains(t: &T) -> bool; }
macro_rules! cont { ($($a:ident),*) => { impl<T, $($a: Contains<T>),*> Contains<T> for ($($a,)*) { #[allow(unused)] fn contains(t: &T) -> bool { $(if $a::contains(t) { return true })* false } } } }
cont!(A); cont!(A, B); cont!(A, B, C);
pub enum Everything {} pub enum Nothing {}
impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
impl<T> Contains<T> for () { fn contains(_: &T) -> bool { false } }
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> { fn contains(t: &T) -> bool { A::contains(t) && B::contains(t) } }
pub struct EverythingBut<A>(PhantomData<A>);
impl<T, A: Contains<T>> Contains<T> for EverythingBut<A> { fn contains(t: &T) -> bool { !A::contains(t) } }
pub trait SortedMembers<T: Ord> { fn contains(t: &T) -> bool { Self::sorted_members().binary_search(t).is_ok() } fn sorted_members() -> Vec<T>; fn count() -> usize { Self::sorted_members().len() } }
pub trait InstanceFilter<T>: Sized + Send + Sync { fn filter(&self, _: &T) -> bool; fn is_superset(&self, _o: &Self) -> bool { false } }
impl<T> InstanceFilter<T> for () { fn filter(&self, _: &T) -> bool { true } fn is_superset(&self, _: &Self) -> bool { true } }

// ---- authorship & sessions
pub trait FindAuthor<A> { fn find_author<'a, I>(digests: I) -> Option<A> where I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])>; }
impl<A> FindAuthor<A> for () { fn find_author<'a, I>(_: I) -> Option<A> where I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])> { None } }
pub trait ValidatorSet<A> { type ValidatorId; type ValidatorIdOf; fn session_index() -> u32; fn validators() -> Vec<Self::ValidatorId>; }
pub trait ValidatorRegistration<V> { fn is_registered(id: &V) -> bool; }
pub trait OneSessionHandler<V>: sp_runtime::BoundToRuntimeAppPublic {}
pub trait Randomness<O, N> { fn random(subject: &[u8]) -> (O, N); }
pub trait OnNewAccount<A> { fn on_new_account(who: &A); }
pub trait OnKilledAccount<A> { fn on_killed_account(who: &A); }
impl<A> OnNewAccount<A> for () { fn on_new_account(_: &A) {} }
impl<A> OnKilledAccount<A> for () { fn on_killed_account(_: &A) {} }
pub trait HandleLifetime<T> { fn created(_t: &T) -> Result<(), DispatchError> { Ok(()) } fn killed(_t: &T) -> Result<(), DispatchError> { Ok(()) } }
impl<T> HandleLifetime<T> for () {}
pub trait StoredMap<K, T: Default> {
    fn get(k: &K) -> T;
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
    fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> { Self::mutate_exists(k, |m| match m { Some(x) => f(x), None => { let mut d = Default::default(); let r = f(&mut d); *m = Some(d); r } }) }
    fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> { Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) }) }
    fn insert(k: &K, t: T) -> Result<(), DispatchError> { Self::mutate(k, |i| *i = t) }
    fn remove(k: &K) -> Result<(), DispatchError> { Self::mutate_exists(k, |x| *x = None) }
}
pub trait Len { fn len(&self) -> usize; }
pub trait Defensive<T> { fn defensive_unwrap_or_default(self) -> T where T: Default; }
pub trait OnSetCode<T> {}
impl<T> OnSetCode<T> for () {}
pub trait DefensiveSaturating { fn defensive_saturating_accrue(&mut self, o: Self); }
pub type AccountTouch = ();
#[allow(unused)] fn _u<T: FullCodec>(_: DispatchResult) {}

/// what goes wrong with a message
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
pub enum ProcessMessageError { BadFormat, Corrupt, Unsupported, Overweight(crate::weights::Weight), Yield }
pub trait EnsureOriginWithArg<O, A> {
    type Success;
    fn ensure_origin(o: O, a: &A) -> Result<Self::Success, sp_runtime::traits::BadOrigin> { Self::try_origin(o, a).map_err(|_| sp_runtime::traits::BadOrigin) }
    fn try_origin(o: O, a: &A) -> Result<Self::Success, O>;
}
pub use tokens::fungible;
