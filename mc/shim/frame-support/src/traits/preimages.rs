use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::{H256, ConstU32};
use sp_runtime::{DispatchError, traits::Hash as _, BoundedVec};
use std::borrow::Cow;
pub type Hash = H256; pub type PreimageHash = H256;
pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;
#[derive(Encode, Decode, MaxEncodedLen, Clone, Eq, PartialEq, TypeInfo, Debug)]
#[codec(mel_bound())] #[scale_info(skip_type_params(T))]
pub enum Bounded<T> { Legacy { hash: H256, dummy: std::marker::PhantomData<T> }, Inline(BoundedInline), Lookup { hash: H256, len: u32 } }
impl<T> Bounded<T> {
    pub fn hash(&self) -> H256 { match self { Self::Legacy { hash, .. } => *hash, Self::Inline(x) => H256(sp_core::blake2_256(x)), Self::Lookup { hash, .. } => *hash } }
    pub fn lookup_hash(&self) -> Option<H256> { match self { Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => Some(*hash), Self::Inline(_) => None } }
    pub fn lookup_len(&self) -> Option<u32> { match self { Self::Lookup { len, .. } => Some(*len), _ => None } }
    pub fn lookup_needed(&self) -> bool { !matches!(self, Self::Inline(..)) }
    pub fn len(&self) -> Option<u32> { match self { Self::Legacy { .. } => None, Self::Inline(i) => Some(i.len() as u32), Self::Lookup { len, .. } => Some(*len) } }
    pub fn transmute<S: Encode>(self) -> Bounded<S> { match self { Self::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: Default::default() }, Self::Inline(x) => Bounded::Inline(x), Self::Lookup { hash, len } => Bounded::Lookup { hash, len } } }
    pub fn from_legacy_hash(hash: impl Into<H256>) -> Self { Self::Legacy { hash: hash.into(), dummy: Default::default() } }
    pub fn unrequested(hash: H256, len: u32) -> Self { Self::Lookup { hash, len } }
}
pub trait QueryPreimage {
    fn len(hash: &Hash) -> Option<u32>;
    fn fetch(hash: &Hash, len: Option<u32>) -> Result<Cow<'static, [u8]>, DispatchError>;
    fn is_requested(hash: &Hash) -> bool;
    fn request(hash: &Hash);
    fn unrequest(hash: &Hash);
    fn hold<T>(b: &Bounded<T>) { match b { Bounded::Inline(..) => {}, Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::request(hash) } }
    fn drop<T>(b: &Bounded<T>) { match b { Bounded::Inline(..) => {}, Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::unrequest(hash) } }
    fn have<T>(b: &Bounded<T>) -> bool { match b { Bounded::Inline(..) => true, Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::len(hash).is_some() } }
    fn pick(hash: Hash, len: u32) -> Bounded<()> where Self: Sized { Self::request(&hash); Bounded::Lookup { hash, len } }
    fn peek<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> where Self: Sized {
        match b {
            Bounded::Inline(d) => T::decode(&mut &d[..]).ok().map(|x| (x, None)).ok_or(DispatchError::Corruption),
            Bounded::Lookup { hash, len } => { let d = Self::fetch(hash, Some(*len))?; T::decode(&mut &d[..]).ok().map(|x| (x, Some(d.len() as u32))).ok_or(DispatchError::Corruption) }
            Bounded::Legacy { hash, .. } => { let d = Self::fetch(hash, None)?; T::decode(&mut &d[..]).ok().map(|x| (x, Some(d.len() as u32))).ok_or(DispatchError::Corruption) }
        }
    }
    fn realize<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> where Self: Sized { let r = Self::peek(b)?; Self::drop(b); Ok(r) }
}
pub trait StorePreimage: QueryPreimage {
    const MAX_LENGTH: usize;
    fn note(bytes: Cow<[u8]>) -> Result<Hash, DispatchError>;
    fn unnote(hash: &Hash) { Self::unrequest(hash) }
    fn bound<T: Encode>(t: T) -> Result<Bounded<T>, DispatchError> where Self: Sized {
        let data = t.encode(); let len = data.len() as u32;
        Ok(match BoundedInline::try_from(data) { Ok(b) => Bounded::Inline(b), Err(d) => Bounded::Lookup { hash: Self::note(d.into())?, len } })
    }
}
impl QueryPreimage for () {
    fn len(_: &Hash) -> Option<u32> { None } fn fetch(_: &Hash, _: Option<u32>) -> Result<Cow<'static, [u8]>, DispatchError> { Err(DispatchError::Unavailable) } fn is_requested(_: &Hash) -> bool { false } fn request(_: &Hash) {} fn unrequest(_: &Hash) {}
}
impl StorePreimage for () { const MAX_LENGTH: usize = 4096; fn note(_: Cow<[u8]>) -> Result<Hash, DispatchError> { Err(DispatchError::Exhausted) } }
#[allow(unused)] fn _u() { let _ = sp_runtime::traits::BlakeTwo256::hash(&[]); }
