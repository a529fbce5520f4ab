//! The parts of `orml-traits` in use.
#![allow(clippy::all)]
pub mod currency;
pub use currency::*;
pub use frame_support;
pub trait GetByKey<K, V> { fn get(k: &K) -> V; }
pub trait Happened<T> { fn happened(t: &T); }
impl<T> Happened<T> for () { fn happened(_: &T) {} }
pub trait Handler<T> { fn handle(t: &T) -> frame_support::dispatch::DispatchResult; }
#[macro_export]
macro_rules! parameter_type_with_key {
    ($(#[$a:meta])* $v:vis $n:ident: |$k:ident: $kt:ty| -> $vt:ty $b:block;) => {
        $(#[$a])* $v struct $n;
        impl $crate::GetByKey<$kt, $vt> for $n { #[allow(unused_variables)] fn get($k: &$kt) -> $vt { $b } }
    };
    ($(#[$a:meta])* $v:vis $n:ident: |$k:ident: $kt:ty| -> $vt:ty $b:block; $($rest:tt)+) => {
        $crate::parameter_type_with_key! { $(#[$a])* $v $n: |$k: $kt| -> $vt $b; }
        $crate::parameter_type_with_key! { $($rest)+ }
    };
}
