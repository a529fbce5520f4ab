//! `pallet-authorship`
#![allow(clippy::all)]
extern crate self as pallet_authorship;
use frame_support::traits::FindAuthor;
use frame_system::pallet_prelude::BlockNumberFor;
pub trait EventHandler<Author, BlockNumber> { fn note_author(author: Author); }
impl<A, B> EventHandler<A, B> for () { fn note_author(_: A) {} }
impl<A: Clone, B, X: EventHandler<A, B>> EventHandler<A, B> for (X,) { fn note_author(a: A) { X::note_author(a) } }
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config { type FindAuthor: FindAuthor<Self::AccountId>; type EventHandler: EventHandler<Self::AccountId, BlockNumberFor<Self>>; }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type Author<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;
    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_initialize(_: BlockNumberFor<T>) -> Weight { if let Some(a) = Self::author() { T::EventHandler::note_author(a) } Weight::zero() }
        fn on_finalize(_: BlockNumberFor<T>) { Author::<T>::kill() }
    }
}
impl<T: Config> Pallet<T> {
    pub fn author() -> Option<T::AccountId> {
        if let Some(a) = Author::<T>::get() { return Some(a) }
        let d = frame_system::Pallet::<T>::digest();
        T::FindAuthor::find_author(d.logs.iter().filter_map(|x| x.as_pre_runtime())).map(|a| { Author::<T>::put(&a); a })
    }
}
