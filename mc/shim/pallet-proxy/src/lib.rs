//! `pallet-proxy` (adding, removing and using undelayed proxies)
#![allow(clippy::all)]
extern crate self as pallet_proxy;
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::{dispatch::{Dispatchable, GetDispatchInfo, PostDispatchInfo}, pallet_prelude::*, traits::{Currency, InstanceFilter, IsSubType, IsType, OriginTrait, ReservableCurrency}};
    use frame_system::{pallet_prelude::*, RawOrigin};
    use sp_runtime::traits::StaticLookup;
    pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
        type Currency: ReservableCurrency<Self::AccountId>;
        type ProxyType: Parameter + Member + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen;
        type ProxyDepositBase: Get<BalanceOf<Self>>;
        type ProxyDepositFactor: Get<BalanceOf<Self>>;
        type MaxProxies: Get<u32>;
        type WeightInfo;
        type CallHasher;
        type MaxPending: Get<u32>;
        type AnnouncementDepositBase: Get<BalanceOf<Self>>;
        type AnnouncementDepositFactor: Get<BalanceOf<Self>>;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, Vec<(T::AccountId, T::ProxyType, BlockNumberFor<T>)>, ValueQuery>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> { ProxyExecuted { result: DispatchResult }, ProxyAdded { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> } }
    #[pallet::error]
    pub enum Error<T> { TooMany, NotFound, NotProxy, Unproxyable, Duplicate, NoPermission, Unannounced, NoSelfProxy }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(0)]
        pub fn proxy(origin: OriginFor<T>, real: <T::Lookup as StaticLookup>::Source, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
            let who = ensure_signed(origin)?;
            let real = T::Lookup::lookup(real)?;
            let def = Proxies::<T>::get(&real).into_iter().find(|d| d.0 == who && force_proxy_type.as_ref().map_or(true, |y| &d.1 == y)).ok_or(Error::<T>::NotProxy)?;
            ensure!(def.2 == Default::default(), Error::<T>::Unannounced);
            let mut o: T::RuntimeOrigin = RawOrigin::Signed(real).into();
            let ty = def.1.clone();
            o.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
                let c = <T as Config>::RuntimeCall::from_ref(c);
                match c.is_sub_type() { Some(Call::add_proxy { ref proxy_type, .. }) if !ty.is_superset(proxy_type) => false, _ => ty.filter(c) }
            });
            let e = call.dispatch(o);
            Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
            Ok(())
        }
        #[pallet::call_index(1)]
        #[pallet::weight(0)]
        pub fn add_proxy(origin: OriginFor<T>, delegate: <T::Lookup as StaticLookup>::Source, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
            let who = ensure_signed(origin)?;
            let delegate = T::Lookup::lookup(delegate)?;
            ensure!(delegate != who, Error::<T>::NoSelfProxy);
            let mut p = Proxies::<T>::get(&who);
            ensure!((p.len() as u32) < T::MaxProxies::get(), Error::<T>::TooMany);
            let def = (delegate, proxy_type, delay);
            ensure!(!p.contains(&def), Error::<T>::Duplicate);
            let mut d = T::ProxyDepositFactor::get(); if p.is_empty() { d = d + T::ProxyDepositBase::get() }
            T::Currency::reserve(&who, d)?;
            p.push(def.clone()); p.sort();
            Proxies::<T>::insert(&who, p);
            Self::deposit_event(Event::ProxyAdded { delegator: who, delegatee: def.0, proxy_type: def.1, delay: def.2 });
            Ok(())
        }
    }
}
