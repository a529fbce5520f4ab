use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
use std::fmt::Debug;
use sp_runtime::DispatchError;
pub type Period<N> = (N, u32);
pub type Priority = u8;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)] pub enum DispatchTime<N> { At(N), After(N) }
pub const HIGHEST_PRIORITY: Priority = 0; pub const HARD_DEADLINE: Priority = 63; pub const LOWEST_PRIORITY: Priority = 255;
pub mod v3 {
    use super::*; use crate::traits::Bounded;
    pub type TaskName = [u8; 32];
    pub trait Named<N, Call, Origin> {
        type Address: Codec + MaxEncodedLen + Clone + Eq + EncodeLike + Debug;
        fn schedule_named(id: TaskName, when: DispatchTime<N>, maybe_periodic: Option<Period<N>>, priority: Priority, origin: Origin, call: Bounded<Call>) -> Result<Self::Address, DispatchError>;
        fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
        fn reschedule_named(id: TaskName, when: DispatchTime<N>) -> Result<Self::Address, DispatchError>;
        fn next_dispatch_time(id: TaskName) -> Result<N, DispatchError>;
    }
}
