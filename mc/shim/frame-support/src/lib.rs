//! A small reimplementation of the parts of `frame-support` (polkadot v1.0.0) the interBTC pallets use, on `mcstore`.
#![allow(clippy::all)]
extern crate self as frame_support;
pub use codec;
pub use scale_info;
pub use serde;
pub use sp_core;
pub use sp_core::Void;
pub use sp_io;
pub use sp_runtime;
pub use sp_std;
pub use mcstore;
pub use log;
pub use sp_runtime::{self as runtime, RuntimeDebug, ConsensusEngineId, BoundedVec, BoundedBTreeMap, WeakBoundedVec, bounded_vec, bounded_btree_map, print, DispatchError};
pub use sp_core::bounded::{BoundedBTreeSet, BoundedSlice};
pub use frame_support_procedural::{pallet, construct_runtime, transactional, require_transactional, storage_alias, CloneNoBound, PartialEqNoBound, EqNoBound, DebugNoBound, RuntimeDebugNoBound, DefaultNoBound, PalletError};
pub mod hash;
pub mod once;
pub mod storage;
pub mod traits;
pub mod dispatch;
pub mod weights;
pub use hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat, StorageHasher, ReversibleStorageHasher};
pub use storage::migration;

#[derive(Clone, Copy, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub enum Never {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, codec::Encode, codec::Decode, scale_info::TypeInfo, codec::MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct PalletId(pub [u8; 8]);
impl sp_core::TypeId for PalletId { const TYPE_ID: [u8; 4] = *b"modl"; }

pub mod error { pub use sp_runtime::traits::{BadOrigin, LookupError}; }
pub mod unsigned {
    pub use sp_runtime::traits::ValidateUnsigned;
    pub use sp_runtime::transaction_validity::{TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction};
}
pub mod instances {
    macro_rules! inst { ($($n:ident)*) => { $(#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::codec::Encode, crate::codec::Decode, crate::scale_info::TypeInfo)] pub struct $n;)* } }
    inst!(Instance1 Instance2 Instance3 Instance4 Instance5 Instance6 Instance7 Instance8);
}

#[doc(hidden)] pub fn __type_of_state() {}

#[macro_export]
macro_rules! ensure { ($x:expr, $y:expr $(,)?) => {{ if !$x { return Err(($y).into()); } }}; }
#[macro_export]
macro_rules! fail { ($y:expr) => {{ return Err($y.into()); }}; }
#[macro_export]
macro_rules! assert_ok {
    ($x:expr $(,)?) => { let is = $x; match is { Ok(_) => (), _ => assert!(false, "Expected Ok(_). Got {:#?}", is) } };
    ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Ok($y)); };
}
#[macro_export]
macro_rules! assert_err { ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Err($y.into())); }; }
#[macro_export]
macro_rules! assert_noop {
    ($x:expr, $y:expr $(,)?) => {
        let h = $crate::mcstore::fingerprint(|_| true);
        $crate::assert_err!($x, $y);
        assert_eq!(h, $crate::mcstore::fingerprint(|_| true), "storage has been mutated");
    };
}
#[macro_export]
macro_rules! assert_storage_noop { ($x:expr) => { let h = $crate::mcstore::fingerprint(|_| true); $x; assert_eq!(h, $crate::mcstore::fingerprint(|_| true)); }; }
#[macro_export]
macro_rules! runtime_print { ($($arg:tt)+) => {{ let _ = || { let _ = format!($($arg)+); }; }}; }

#[macro_export]
macro_rules! parameter_types {
    () => {};
    ($(#[$a:meta])* $v:vis const $n:ident $(< $($tp:ident $(: $tb:path)?),* >)? : $t:ty = $e:expr; $($rest:tt)*) => {
        $(#[$a])* #[allow(dead_code)] $v struct $n $(<$($tp),*>($(::core::marker::PhantomData<$tp>),*))?;
        impl $(<$($tp $(: $tb)?),*>)? $n $(<$($tp),*>)? { #[allow(dead_code)] pub const fn get() -> $t { $e } }
        impl<_I: From<$t> $(, $($tp $(: $tb)?),*)?> $crate::traits::Get<_I> for $n $(<$($tp),*>)? { fn get() -> _I { _I::from(Self::get()) } }
        impl $(<$($tp $(: $tb)?),*>)? $crate::traits::TypedGet for $n $(<$($tp),*>)? { type Type = $t; fn get() -> $t { Self::get() } }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $(#[$a])* #[allow(dead_code)] $v struct $n;
        #[allow(dead_code)]
        impl $n {
            fn __cell<R>(f: impl FnOnce(&::std::cell::RefCell<$t>) -> R) -> R { ::std::thread_local! { static X: ::std::cell::RefCell<$t> = ::std::cell::RefCell::new($e); } X.with(|x| f(x)) }
            pub fn get() -> $t { Self::__cell(|x| x.borrow().clone()) }
            pub fn set(t: $t) { Self::__cell(|x| *x.borrow_mut() = t) }
            pub fn mutate<R>(f: impl FnOnce(&mut $t) -> R) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
            pub fn take() -> $t { let c = Self::get(); Self::set($e); c }
        }
        impl<_I: From<$t>> $crate::traits::Get<_I> for $n { fn get() -> _I { _I::from(Self::get()) } }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis storage $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $(#[$a])* #[allow(dead_code)] $v struct $n;
        #[allow(dead_code)]
        impl $n {
            fn key() -> [u8; 16] { $crate::sp_core::twox_128(concat!(":", stringify!($n), ":").as_bytes()) }
            pub fn get() -> $t { $crate::storage::unhashed::get(&Self::key()).unwrap_or_else(|| $e) }
            pub fn set(t: &$t) { $crate::storage::unhashed::put(&Self::key(), t) }
        }
        impl<_I: From<$t>> $crate::traits::Get<_I> for $n { fn get() -> _I { _I::from(Self::get()) } }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis $n:ident $(< $($tp:ident $(: $tb:path)?),* >)? : $t:ty = $e:expr; $($rest:tt)*) => {
        $(#[$a])* #[allow(dead_code)] $v struct $n $(<$($tp),*>($(::core::marker::PhantomData<$tp>),*))?;
        impl $(<$($tp $(: $tb)?),*>)? $n $(<$($tp),*>)? { #[allow(dead_code)] pub fn get() -> $t { $e } }
        impl<_I: From<$t> $(, $($tp $(: $tb)?),*)?> $crate::traits::Get<_I> for $n $(<$($tp),*>)? { fn get() -> _I { _I::from(Self::get()) } }
        $crate::parameter_types!($($rest)*);
    };
}
#[macro_export]
macro_rules! ord_parameter_types {
    ($($v:vis const $n:ident : $t:ty = $e:expr;)*) => { $( $crate::parameter_types! { $v const $n: $t = $e; }
        impl $crate::traits::SortedMembers<$t> for $n { fn contains(t: &$t) -> bool { &$e == t } fn sorted_members() -> Vec<$t> { vec![$e] } fn count() -> usize { 1 } }
        impl $crate::traits::Contains<$t> for $n { fn contains(t: &$t) -> bool { &$e == t } } )* };
}
#[macro_export]
macro_rules! match_types { ($($v:vis type $n:ident: impl Contains<$t:ty> = { $p:pat };)*) => { $($v struct $n; impl $crate::traits::Contains<$t> for $n { fn contains(l: &$t) -> bool { matches!(l, $p) } })* } }

pub mod pallet_prelude {
    pub use crate::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays, DispatchErrorWithPostInfo};
    pub use crate::{ensure, RuntimeDebug, RuntimeDebugNoBound, EqNoBound, PartialEqNoBound, CloneNoBound, DebugNoBound, DefaultNoBound, storage, transactional};
    pub use crate::hash::*;
    pub use crate::storage::types::{CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery};
    pub use crate::traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet};
    pub use crate::weights::Weight;
    pub use codec::{Decode, Encode, MaxEncodedLen};
    pub use scale_info::TypeInfo;
    pub use sp_std::marker::PhantomData;
    pub use sp_runtime::{traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned}, transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction}};
    pub use crate::{Blake2_128Concat, BoundedVec};
    pub use sp_std;
    pub use frame_support_procedural::pallet;
}
