use codec::{Codec, Decode, MaxEncodedLen};
pub trait StorageHasher: 'static { type Output: AsRef<[u8]>; fn hash(x: &[u8]) -> Self::Output; fn max_len<K: MaxEncodedLen>() -> usize { 0 } }
pub trait ReversibleStorageHasher: StorageHasher { fn reverse(x: &[u8]) -> &[u8]; }
macro_rules! h { ($n:ident, $o:ty, |$x:ident| $e:expr) => { #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct $n; impl StorageHasher for $n { type Output = $o; fn hash($x: &[u8]) -> $o { $e } } impl $n { pub fn hash($x: &[u8]) -> $o { $e } } } }
h!(Identity, Vec<u8>, |x| x.to_vec());
h!(Twox64Concat, Vec<u8>, |x| { let mut v = Vec::with_capacity(8 + x.len()); v.extend_from_slice(&sp_core::twox_64(x)); v.extend_from_slice(x); v });
h!(Blake2_128Concat, Vec<u8>, |x| { let mut v = Vec::with_capacity(16 + x.len()); v.extend_from_slice(&sp_core::blake2_128(x)); v.extend_from_slice(x); v });
h!(Blake2_128, [u8; 16], |x| sp_core::blake2_128(x));
h!(Blake2_256, [u8; 32], |x| sp_core::blake2_256(x));
h!(Twox128, [u8; 16], |x| sp_core::twox_128(x));
h!(Twox256, [u8; 32], |x| sp_core::twox_256(x));
impl ReversibleStorageHasher for Identity { fn reverse(x: &[u8]) -> &[u8] { x } }
impl ReversibleStorageHasher for Twox64Concat { fn reverse(x: &[u8]) -> &[u8] { &x[8..] } }
impl ReversibleStorageHasher for Blake2_128Concat { fn reverse(x: &[u8]) -> &[u8] { &x[16..] } }
pub trait Hashable: Sized { fn twox_64_concat(&self) -> Vec<u8>; fn blake2_128_concat(&self) -> Vec<u8>; fn identity(&self) -> Vec<u8>; }
impl<T: Codec> Hashable for T { fn twox_64_concat(&self) -> Vec<u8> { self.using_encoded(Twox64Concat::hash) } fn blake2_128_concat(&self) -> Vec<u8> { self.using_encoded(Blake2_128Concat::hash) } fn identity(&self) -> Vec<u8> { self.encode() } }
#[allow(unused)] fn _u<T: Decode>() {}
