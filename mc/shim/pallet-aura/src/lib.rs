//! `pallet-aura`: present in mock runtimes only
#![allow(clippy::all)]
extern crate self as pallet_aura;
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: pallet_timestamp::Config { type AuthorityId; type MaxAuthorities: Get<u32>; type DisabledValidators; type AllowMultipleBlocksPerSlot: Get<bool>; }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
}
impl<T: Config> frame_support::traits::OnTimestampSet<T::Moment> for Pallet<T> { fn on_timestamp_set(_: T::Moment) {} }

/// the slot of the block, in its digest, picks the authority
impl<T: Config> frame_support::traits::FindAuthor<u32> for Pallet<T> {
    fn find_author<'a, I>(digests: I) -> Option<u32> where I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])> {
        digests.into_iter().find_map(|(id, d)| if &id == b"aura" { d.get(..4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])) } else { None })
    }
}
