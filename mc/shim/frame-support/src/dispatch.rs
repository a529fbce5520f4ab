use codec::{Decode, Encode, MaxEncodedLen, EncodeLike};
use scale_info::TypeInfo;
use std::fmt::Debug;
pub use codec::Codec;
pub use sp_runtime::traits::Dispatchable;
pub use sp_runtime::{DispatchError, DispatchResult, DispatchErrorWithPostInfo as GenericDispatchErrorWithPostInfo};
pub use crate::traits::{CallMetadata, GetCallMetadata, GetCallName, UnfilteredDispatchable, GetStorageVersion, Callable, IsSubType};
use sp_weights::Weight;

pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;

pub trait Parameter: Codec + EncodeLike + Clone + Eq + Debug + TypeInfo {}
impl<T> Parameter for T where T: Codec + EncodeLike + Clone + Eq + Debug + TypeInfo {}

#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> { Root, Signed(AccountId), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(s: Option<A>) -> Self { match s { Some(w) => RawOrigin::Signed(w), None => RawOrigin::None } } }
impl<A> RawOrigin<A> { pub fn as_signed(&self) -> Option<&A> { match self { RawOrigin::Signed(a) => Some(a), _ => None } } }

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum Pays { Yes, No }
impl Default for Pays { fn default() -> Self { Pays::Yes } }
impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { PostDispatchInfo { actual_weight: None, pays_fee: p } } }
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum DispatchClass { Normal, Operational, Mandatory }
impl Default for DispatchClass { fn default() -> Self { DispatchClass::Normal } }
impl DispatchClass { pub fn all() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory] } }
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl PostDispatchInfo {
    pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight { info.weight - self.calc_actual_weight(info) }
    pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight { if let Some(w) = self.actual_weight { w.min(info.weight) } else { info.weight } }
    pub fn pays_fee(&self, info: &DispatchInfo) -> Pays { if info.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } }
}
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Default::default() } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(w: Option<Weight>) -> Self { Self { actual_weight: w, pays_fee: Default::default() } } }
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from(w: (Option<Weight>, Pays)) -> Self { Self { actual_weight: w.0, pays_fee: w.1 } } }
impl sp_runtime::traits::Printable for PostDispatchInfo { fn print(&self) {} }
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight { match r { Ok(p) => p, Err(e) => &e.post_info }.calc_actual_weight(info) }

pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
pub trait WeighData<T> { fn weigh_data(&self, target: T) -> Weight; }
pub trait ClassifyDispatch<T> { fn classify_dispatch(&self, target: T) -> DispatchClass; }
pub trait PaysFee<T> { fn pays_fee(&self, _target: T) -> Pays; }
impl<T> WeighData<T> for Weight { fn weigh_data(&self, _: T) -> Weight { *self } }
impl<T> PaysFee<T> for Weight { fn pays_fee(&self, _: T) -> Pays { Pays::Yes } }
impl<T> ClassifyDispatch<T> for Weight { fn classify_dispatch(&self, _: T) -> DispatchClass { DispatchClass::default() } }
impl<T> WeighData<T> for u64 { fn weigh_data(&self, _: T) -> Weight { Weight::from_parts(*self, 0) } }
impl<T> PaysFee<T> for u64 { fn pays_fee(&self, _: T) -> Pays { Pays::Yes } }
impl<T> ClassifyDispatch<T> for u64 { fn classify_dispatch(&self, _: T) -> DispatchClass { DispatchClass::default() } }
pub trait IntoWeight { fn w(&self) -> Weight; }
impl IntoWeight for Weight { fn w(&self) -> Weight { *self } }
impl IntoWeight for u64 { fn w(&self) -> Weight { Weight::from_parts(*self, 0) } }
macro_rules! tup { ($a:ty) => {
    impl<T> WeighData<T> for ($a, DispatchClass, Pays) { fn weigh_data(&self, _: T) -> Weight { self.0.w() } }
    impl<T> ClassifyDispatch<T> for ($a, DispatchClass, Pays) { fn classify_dispatch(&self, _: T) -> DispatchClass { self.1 } }
    impl<T> PaysFee<T> for ($a, DispatchClass, Pays) { fn pays_fee(&self, _: T) -> Pays { self.2 } }
    impl<T> WeighData<T> for ($a, DispatchClass) { fn weigh_data(&self, _: T) -> Weight { self.0.w() } }
    impl<T> ClassifyDispatch<T> for ($a, DispatchClass) { fn classify_dispatch(&self, _: T) -> DispatchClass { self.1 } }
    impl<T> PaysFee<T> for ($a, DispatchClass) { fn pays_fee(&self, _: T) -> Pays { Pays::Yes } }
    impl<T> WeighData<T> for ($a, Pays) { fn weigh_data(&self, _: T) -> Weight { self.0.w() } }
    impl<T> ClassifyDispatch<T> for ($a, Pays) { fn classify_dispatch(&self, _: T) -> DispatchClass { DispatchClass::Normal } }
    impl<T> PaysFee<T> for ($a, Pays) { fn pays_fee(&self, _: T) -> Pays { self.1 } }
} }
tup!(Weight); tup!(u64);
pub fn info_from<W, T>(w: &W, t: impl Fn() -> T) -> DispatchInfo where W: WeighData<T> + ClassifyDispatch<T> + PaysFee<T> {
    DispatchInfo { weight: w.weigh_data(t()), class: w.classify_dispatch(t()), pays_fee: w.pays_fee(t()) }
}

/// Type that returns the weight of a failed or succeeded dispatch
pub trait WithPostDispatchInfo { fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo; }
impl<T: Into<DispatchError>> WithPostDispatchInfo for T { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo { sp_runtime::DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() } } }
