//! `pallet-preimage`: noted and requested preimages with reference counts (deposits are reserved through the currency).
#![allow(clippy::all)]
extern crate self as pallet_preimage;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::traits::{Currency, PreimageHash, QueryPreimage, ReservableCurrency, StorePreimage, Get};
use sp_runtime::DispatchError;
use std::borrow::Cow;
pub use pallet::*;
#[derive(Clone, Eq, PartialEq, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen, Debug)]
pub enum RequestStatus<A, B> { Unrequested { deposit: (A, B), len: u32 }, Requested { deposit: Option<(A, B)>, count: u32, len: Option<u32> } }
pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::{pallet_prelude::*, traits::IsType};
    use frame_system::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type WeightInfo;
        type Currency: ReservableCurrency<Self::AccountId>;
        type ManagerOrigin: EnsureOrigin<Self::RuntimeOrigin>;
        type BaseDeposit: Get<BalanceOf<Self>>;
        type ByteDeposit: Get<BalanceOf<Self>>;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type StatusFor<T: Config> = StorageMap<_, Identity, PreimageHash, RequestStatus<T::AccountId, BalanceOf<T>>>;
    #[pallet::storage]
    pub type PreimageFor<T: Config> = StorageMap<_, Identity, PreimageHash, Vec<u8>>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> { Noted { hash: T::Hash }, Requested { hash: T::Hash }, Cleared { hash: T::Hash } }
    #[pallet::error]
    pub enum Error<T> { TooBig, AlreadyNoted, NotAuthorized, NotNoted, Requested, NotRequested }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(0)]
        pub fn note_preimage(origin: OriginFor<T>, bytes: Vec<u8>) -> DispatchResult { let who = ensure_signed(origin)?; Self::note_bytes(&bytes, Some(who))?; Ok(()) }
        #[pallet::call_index(1)]
        #[pallet::weight(0)]
        pub fn unnote_preimage(origin: OriginFor<T>, hash: PreimageHash) -> DispatchResult { let who = ensure_signed(origin)?; Self::do_unnote(&hash, Some(who)) }
    }
}
impl<T: Config> Pallet<T> {
    pub fn note_bytes(bytes: &[u8], who: Option<T::AccountId>) -> Result<PreimageHash, DispatchError> {
        let hash = PreimageHash::from(sp_core::blake2_256(bytes)); let len = bytes.len() as u32;
        let s = match (StatusFor::<T>::get(hash), who) {
            (Some(RequestStatus::Requested { count, deposit, .. }), _) => RequestStatus::Requested { count, deposit, len: Some(len) },
            (Some(RequestStatus::Unrequested { .. }), Some(_)) => return Err(Error::<T>::AlreadyNoted.into()),
            (Some(RequestStatus::Unrequested { len, deposit }), None) => RequestStatus::Requested { deposit: Some(deposit), count: 1, len: Some(len) },
            (None, None) => RequestStatus::Requested { count: 1, deposit: None, len: Some(len) },
            (None, Some(d)) => { let a = T::BaseDeposit::get(); T::Currency::reserve(&d, a)?; RequestStatus::Unrequested { deposit: (d, a), len } }
        };
        StatusFor::<T>::insert(hash, s); PreimageFor::<T>::insert(hash, bytes.to_vec());
        Ok(hash)
    }
    fn do_unnote(hash: &PreimageHash, who: Option<T::AccountId>) -> Result<(), DispatchError> {
        match StatusFor::<T>::get(hash).ok_or(Error::<T>::NotNoted)? {
            RequestStatus::Requested { deposit: Some((o, a)), count, len } => { if who.map_or(false, |w| w != o) { return Err(Error::<T>::NotAuthorized.into()) } T::Currency::unreserve(&o, a); StatusFor::<T>::insert(hash, RequestStatus::Requested { deposit: None, count, len }); Ok(()) }
            RequestStatus::Requested { deposit: None, .. } => { if who.is_some() { return Err(Error::<T>::NotAuthorized.into()) } Self::do_unrequest(hash) }
            RequestStatus::Unrequested { deposit: (o, a), .. } => { if who.map_or(false, |w| w != o) { return Err(Error::<T>::NotAuthorized.into()) } T::Currency::unreserve(&o, a); StatusFor::<T>::remove(hash); PreimageFor::<T>::remove(hash); Ok(()) }
        }
    }
    fn do_request(hash: &PreimageHash) {
        let s = match StatusFor::<T>::get(hash) {
            Some(RequestStatus::Requested { count, deposit, len }) => RequestStatus::Requested { count: count + 1, deposit, len },
            Some(RequestStatus::Unrequested { deposit, len }) => RequestStatus::Requested { count: 1, deposit: Some(deposit), len: Some(len) },
            None => RequestStatus::Requested { count: 1, deposit: None, len: None },
        };
        StatusFor::<T>::insert(hash, s)
    }
    fn do_unrequest(hash: &PreimageHash) -> Result<(), DispatchError> {
        match StatusFor::<T>::get(hash).ok_or(Error::<T>::NotRequested)? {
            RequestStatus::Requested { count, deposit, len } if count > 1 => StatusFor::<T>::insert(hash, RequestStatus::Requested { count: count - 1, deposit, len }),
            RequestStatus::Requested { deposit: None, .. } => { PreimageFor::<T>::remove(hash); StatusFor::<T>::remove(hash) }
            RequestStatus::Requested { deposit: Some(d), len: Some(len), .. } => StatusFor::<T>::insert(hash, RequestStatus::Unrequested { deposit: d, len }),
            RequestStatus::Requested { .. } => StatusFor::<T>::remove(hash),
            RequestStatus::Unrequested { .. } => return Err(Error::<T>::NotRequested.into()),
        }
        Ok(())
    }
    /// How often a preimage is currently requested
    pub fn requests(hash: &PreimageHash) -> u32 { match StatusFor::<T>::get(hash) { Some(RequestStatus::Requested { count, .. }) => count, _ => 0 } }
}
impl<T: Config> QueryPreimage for Pallet<T> {
    fn len(hash: &PreimageHash) -> Option<u32> { match StatusFor::<T>::get(hash) { Some(RequestStatus::Requested { len, .. }) => len, Some(RequestStatus::Unrequested { len, .. }) => Some(len), None => None } }
    fn fetch(hash: &PreimageHash, _len: Option<u32>) -> Result<Cow<'static, [u8]>, DispatchError> { PreimageFor::<T>::get(hash).map(Cow::Owned).ok_or(DispatchError::Unavailable) }
    fn is_requested(hash: &PreimageHash) -> bool { matches!(StatusFor::<T>::get(hash), Some(RequestStatus::Requested { .. })) }
    fn request(hash: &PreimageHash) { Self::do_request(hash) }
    fn unrequest(hash: &PreimageHash) { let _ = Self::do_unrequest(hash); }
}
impl<T: Config> StorePreimage for Pallet<T> {
    const MAX_LENGTH: usize = 4 * 1024 * 1024;
    fn note(bytes: Cow<[u8]>) -> Result<PreimageHash, DispatchError> { Self::note_bytes(&bytes, None) }
}
