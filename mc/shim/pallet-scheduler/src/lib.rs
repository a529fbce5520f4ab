//! `pallet-scheduler`: named one-shot tasks, executed at their block in order of priority and scheduling.
#![allow(clippy::all)]
extern crate self as pallet_scheduler;
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{dispatch::{Dispatchable, GetDispatchInfo, Parameter}, traits::{schedule::{self, v3::TaskName, DispatchTime}, Bounded, OriginTrait, QueryPreimage, StorePreimage}};
use frame_system::{pallet_prelude::BlockNumberFor, RawOrigin};
use sp_runtime::{traits::{One, Saturating}, DispatchError};
pub use pallet::*;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, scale_info::TypeInfo)]
pub struct Scheduled<Call, Origin> { pub id: Option<TaskName>, pub priority: u8, pub call: Call, pub origin: Origin }
pub type BoundedCallOf<T> = Bounded<<T as Config>::RuntimeCall>;
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::{pallet_prelude::*, traits::IsType};
    use frame_system::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
        type PalletsOrigin: From<RawOrigin<Self::AccountId>> + codec::Codec + codec::EncodeLike + Clone + Eq + scale_info::TypeInfo + MaxEncodedLen + std::fmt::Debug;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin> + GetDispatchInfo + From<frame_system::Call<Self>>;
        type MaximumWeight: Get<Weight>;
        type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
        type OriginPrivilegeCmp;
        type MaxScheduledPerBlock: Get<u32>;
        type WeightInfo;
        type Preimages: QueryPreimage + StorePreimage;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<Scheduled<BoundedCallOf<T>, T::PalletsOrigin>>>, ValueQuery>;
    #[pallet::storage]
    pub type Lookup<T: Config> = StorageMap<_, Twox64Concat, TaskName, BlockNumberFor<T>>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> { Scheduled { when: BlockNumberFor<T>, index: u32 }, Dispatched { task: BlockNumberFor<T>, id: Option<TaskName>, result: DispatchResult }, CallUnavailable { task: BlockNumberFor<T>, id: Option<TaskName> } }
    #[pallet::error]
    pub enum Error<T> { FailedToSchedule, NotFound, TargetBlockNumberInPast, RescheduleNoChange, Named }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        /// anonymous, after a delay
        #[pallet::call_index(4)]
        #[pallet::weight(0)]
        pub fn schedule_after(origin: OriginFor<T>, after: BlockNumberFor<T>, maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>, priority: schedule::Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
            T::ScheduleOrigin::ensure_origin(origin.clone())?;
            let _ = maybe_periodic;
            let origin = <T as Config>::RuntimeOrigin::from_ref(&origin).caller().clone();
            let when = frame_system::Pallet::<T>::block_number().saturating_add(after).saturating_add(One::one());
            let call = T::Preimages::bound(*call)?;
            Agenda::<T>::append(when, Some(Scheduled { id: None::<TaskName>, priority, call, origin }));
            Ok(())
        }
    }
    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_initialize(now: BlockNumberFor<T>) -> Weight {
            let mut tasks: Vec<_> = Agenda::<T>::take(now).into_iter().flatten().collect();
            tasks.sort_by_key(|t| t.priority);
            for t in tasks {
                if let Some(id) = &t.id { Lookup::<T>::remove(id) }
                match T::Preimages::peek(&t.call) {
                    Ok((call, _)) => {
                        let o: <T as Config>::RuntimeOrigin = t.origin.into();
                        let result = call.dispatch(o).map(|_| ()).map_err(|e| e.error);
                        T::Preimages::drop(&t.call);
                        Self::deposit_event(Event::Dispatched { task: now, id: t.id, result });
                    }
                    Err(_) => Self::deposit_event(Event::CallUnavailable { task: now, id: t.id }),
                }
            }
            Weight::zero()
        }
    }
}
impl<T: Config> schedule::v3::Named<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
    type Address = (BlockNumberFor<T>, u32);
    fn schedule_named(id: TaskName, when: DispatchTime<BlockNumberFor<T>>, _p: Option<schedule::Period<BlockNumberFor<T>>>, priority: u8, origin: T::PalletsOrigin, call: BoundedCallOf<T>) -> Result<Self::Address, DispatchError> {
        if Lookup::<T>::contains_key(&id) { return Err(Error::<T>::FailedToSchedule.into()) }
        let now = frame_system::Pallet::<T>::block_number();
        let when = match when { DispatchTime::At(x) => x, DispatchTime::After(x) => now.saturating_add(x).saturating_add(One::one()) };
        if when <= now { return Err(Error::<T>::TargetBlockNumberInPast.into()) }
        let mut a = Agenda::<T>::get(when);
        if a.len() as u32 >= <T::MaxScheduledPerBlock as frame_support::traits::Get<u32>>::get() { return Err(DispatchError::Exhausted) }
        a.push(Some(Scheduled { id: Some(id), priority, call, origin }));
        let i = a.len() as u32 - 1;
        Agenda::<T>::insert(when, a); Lookup::<T>::insert(id, when);
        Self::deposit_event(Event::Scheduled { when, index: i });
        Ok((when, i))
    }
    fn cancel_named(id: TaskName) -> Result<(), DispatchError> {
        let when = Lookup::<T>::take(&id).ok_or(Error::<T>::NotFound)?;
        Agenda::<T>::mutate(when, |a| for t in a.iter_mut() { if t.as_ref().map_or(false, |t| t.id == Some(id)) { T::Preimages::drop(&t.take().unwrap().call) } });
        Ok(())
    }
    fn reschedule_named(_id: TaskName, _when: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> { Err(Error::<T>::NotFound.into()) }
    fn next_dispatch_time(id: TaskName) -> Result<BlockNumberFor<T>, DispatchError> { Lookup::<T>::get(id).ok_or(Error::<T>::NotFound.into()) }
}
