//! `pallet-session`: validators of the current session, queued keys, rotation.
#![allow(clippy::all)]
extern crate self as pallet_session;
use frame_support::{dispatch::Parameter, traits::{Get, ValidatorRegistration}};
use frame_system::pallet_prelude::BlockNumberFor;
use sp_runtime::{traits::{Convert, Member, OpaqueKeys, Zero}, KeyTypeId};
pub use sp_staking::SessionIndex;
use std::marker::PhantomData;
pub use pallet::*;
pub trait ShouldEndSession<N> { fn should_end_session(now: N) -> bool; }
pub struct PeriodicSessions<Period, Offset>(PhantomData<(Period, Offset)>);
impl<N: std::ops::Rem<Output = N> + std::ops::Sub<Output = N> + Zero + PartialOrd, P: Get<N>, O: Get<N>> ShouldEndSession<N> for PeriodicSessions<P, O> { fn should_end_session(now: N) -> bool { let o = O::get(); now >= o && ((now - o) % P::get()).is_zero() } }
pub trait SessionManager<V> { fn new_session(i: SessionIndex) -> Option<Vec<V>>; fn new_session_genesis(i: SessionIndex) -> Option<Vec<V>> { Self::new_session(i) } fn end_session(i: SessionIndex); fn start_session(i: SessionIndex); }
impl<V> SessionManager<V> for () { fn new_session(_: SessionIndex) -> Option<Vec<V>> { None } fn end_session(_: SessionIndex) {} fn start_session(_: SessionIndex) {} }
pub trait SessionHandler<V> {
    const KEY_TYPE_IDS: &'static [KeyTypeId];
    fn on_genesis_session<K: OpaqueKeys>(v: &[(V, K)]);
    fn on_new_session<K: OpaqueKeys>(changed: bool, v: &[(V, K)], q: &[(V, K)]);
    fn on_before_session_ending() {}
    fn on_disabled(i: u32);
}
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::{pallet_prelude::*, traits::IsType};
    use frame_system::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type ValidatorId: Member + Parameter + MaybeSerializeDeserialize + MaxEncodedLen;
        type ValidatorIdOf: Convert<Self::AccountId, Option<Self::ValidatorId>>;
        type ShouldEndSession: ShouldEndSession<BlockNumberFor<Self>>;
        type NextSessionRotation;
        type SessionManager: SessionManager<Self::ValidatorId>;
        type SessionHandler: SessionHandler<Self::ValidatorId>;
        type Keys: OpaqueKeys + Member + Parameter + MaybeSerializeDeserialize;
        type WeightInfo;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage] #[pallet::getter(fn validators)]
    pub type Validators<T: Config> = StorageValue<_, Vec<T::ValidatorId>, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn current_index)]
    pub type CurrentIndex<T> = StorageValue<_, SessionIndex, ValueQuery>;
    #[pallet::storage]
    pub type QueuedChanged<T> = StorageValue<_, bool, ValueQuery>;
    #[pallet::storage] #[pallet::getter(fn queued_keys)]
    pub type QueuedKeys<T: Config> = StorageValue<_, Vec<(T::ValidatorId, T::Keys)>, ValueQuery>;
    #[pallet::storage]
    pub type NextKeys<T: Config> = StorageMap<_, Twox64Concat, T::ValidatorId, T::Keys>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event { NewSession { session_index: SessionIndex } }
    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> { pub keys: Vec<(T::AccountId, T::ValidatorId, T::Keys)> }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            for (_, v, k) in &self.keys { NextKeys::<T>::insert(v, k) }
            let v0 = T::SessionManager::new_session_genesis(0).unwrap_or_else(|| self.keys.iter().map(|x| x.1.clone()).collect());
            let v1 = T::SessionManager::new_session_genesis(1).unwrap_or_else(|| v0.clone());
            let q: Vec<_> = v1.into_iter().filter_map(|v| NextKeys::<T>::get(&v).map(|k| (v, k))).collect();
            T::SessionHandler::on_genesis_session::<T::Keys>(&q);
            Validators::<T>::put(v0); QueuedKeys::<T>::put(q);
            T::SessionManager::start_session(0);
        }
    }
    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_initialize(n: BlockNumberFor<T>) -> Weight { if T::ShouldEndSession::should_end_session(n) { Self::rotate_session() } Weight::zero() }
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(0)]
        pub fn set_keys(origin: OriginFor<T>, keys: T::Keys, proof: Vec<u8>) -> DispatchResult { let _ = proof; let who = ensure_signed(origin)?; let v = T::ValidatorIdOf::convert(who).ok_or(DispatchError::Other("no validator id"))?; NextKeys::<T>::insert(v, keys); Ok(()) }
    }
}
impl<T: Config> Pallet<T> {
    pub fn rotate_session() {
        let i = CurrentIndex::<T>::get(); let changed = QueuedChanged::<T>::get();
        T::SessionHandler::on_before_session_ending();
        T::SessionManager::end_session(i);
        let keys = QueuedKeys::<T>::get();
        Validators::<T>::put(keys.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        let i = i + 1; CurrentIndex::<T>::put(i);
        T::SessionManager::start_session(i);
        let (next, id_changed) = match T::SessionManager::new_session(i + 1) { Some(v) => (v, true), None => (Validators::<T>::get(), false) };
        let mut now = keys.iter(); let mut ch = id_changed;
        let q: Vec<_> = next.into_iter().filter_map(|v| NextKeys::<T>::get(&v).map(|k| { if !ch { match now.next() { Some((_, o)) if *o == k => {}, _ => ch = true } } (v, k) })).collect();
        QueuedKeys::<T>::put(&q); QueuedChanged::<T>::put(ch);
        Self::deposit_event(Event::NewSession { session_index: i });
        T::SessionHandler::on_new_session::<T::Keys>(changed, &keys, &q);
    }
}
impl<T: Config> ValidatorRegistration<T::ValidatorId> for Pallet<T> { fn is_registered(id: &T::ValidatorId) -> bool { NextKeys::<T>::contains_key(id) } }

/// the author is the account behind the index of the slot's authority
pub struct FindAccountFromAuthorIndex<T, Inner>(PhantomData<(T, Inner)>);
impl<T: Config, Inner: frame_support::traits::FindAuthor<u32>> frame_support::traits::FindAuthor<T::ValidatorId> for FindAccountFromAuthorIndex<T, Inner> {
    fn find_author<'a, I>(digests: I) -> Option<T::ValidatorId> where I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])> { let i = Inner::find_author(digests)?; Validators::<T>::get().get(i as usize).cloned() }
}
