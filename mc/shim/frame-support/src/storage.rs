use codec::{Decode, Encode, EncodeLike, FullCodec, FullEncode};
use std::marker::PhantomData;
use crate::traits::{Get, StorageInstance};
use crate::hash::{ReversibleStorageHasher, StorageHasher};
pub use sp_runtime::TransactionOutcome;
use sp_runtime::DispatchError;
pub mod bounded_btree_map { pub use sp_core::bounded::bounded_btree_map::BoundedBTreeMap; }
pub mod bounded_vec { pub use sp_core::bounded::bounded_vec::BoundedVec; }

/// v1.0.0 allows at most 255 nested transactional layers
const TRANSACTIONAL_LIMIT: usize = 255;
pub fn is_transactional() -> bool { mcstore::depth() > 0 }
struct Guard(bool);
impl Drop for Guard { fn drop(&mut self) { if self.0 { mcstore::rollback() } } }
pub fn with_transaction<T, E, F>(f: F) -> Result<T, E> where E: From<DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>> {
    if mcstore::depth() >= TRANSACTIONAL_LIMIT { return Err(DispatchError::Transactional(sp_runtime::TransactionalError::LimitReached).into()) }
    mcstore::begin();
    let mut g = Guard(true);
    let r = f();
    g.0 = false;
    match r { TransactionOutcome::Commit(r) => { mcstore::commit(); r } TransactionOutcome::Rollback(r) => { mcstore::rollback(); r } }
}
pub fn with_transaction_unchecked<R>(f: impl FnOnce() -> TransactionOutcome<R>) -> R {
    mcstore::begin();
    match f() { TransactionOutcome::Commit(r) => { mcstore::commit(); r } TransactionOutcome::Rollback(r) => { mcstore::rollback(); r } }
}
pub fn with_storage_layer<T, E, F>(f: F) -> Result<T, E> where E: From<DispatchError>, F: FnOnce() -> Result<T, E> {
    with_transaction(|| { let r = f(); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } })
}
pub fn in_storage_layer<T, E, F>(f: F) -> Result<T, E> where E: From<DispatchError>, F: FnOnce() -> Result<T, E> { if is_transactional() { f() } else { with_storage_layer(f) } }

pub mod unhashed {
    use super::*;
    pub fn get<T: Decode>(k: &[u8]) -> Option<T> { mcstore::get(k).and_then(|v| Decode::decode(&mut &v[..]).map(Some).unwrap_or_else(|_| { crate::storage::corrupt(k); None })) }
    pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T { get(k).unwrap_or_default() }
    pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) { v.using_encoded(|b| mcstore::put(k, b)) }
    pub fn take<T: Decode>(k: &[u8]) -> Option<T> { let v = get(k); if v.is_some() { mcstore::kill(k) } v }
    pub fn kill(k: &[u8]) { mcstore::kill(k) }
    pub fn exists(k: &[u8]) -> bool { mcstore::exists(k) }
    pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> { mcstore::get(k).map(|v| v.to_vec()) }
    pub fn put_raw(k: &[u8], v: &[u8]) { mcstore::put(k, v) }
    pub fn kill_prefix(p: &[u8], limit: Option<u32>) -> u32 { let ks = mcstore::keys_with_prefix(p); let mut n = 0; for k in ks { if limit.map_or(false, |l| n >= l) { break } mcstore::kill(&k); n += 1 } n }
}
fn corrupt(_k: &[u8]) {}

pub mod migration {
    use super::*;
    fn base(module: &[u8], item: &[u8]) -> Vec<u8> { let mut k = sp_core::twox_128(module).to_vec(); k.extend(sp_core::twox_128(item)); k }
    fn key(module: &[u8], item: &[u8], hash: &[u8]) -> Vec<u8> { let mut k = base(module, item); k.extend_from_slice(hash); k }
    pub fn get_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::get(&key(m, i, h)) }
    pub fn have_storage_value(m: &[u8], i: &[u8], h: &[u8]) -> bool { mcstore::exists(&key(m, i, h)) }
    pub fn take_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::take(&key(m, i, h)) }
    pub fn put_storage_value<T: Encode>(m: &[u8], i: &[u8], h: &[u8], v: T) { unhashed::put(&key(m, i, h), &v) }
    pub fn clear_storage_prefix(m: &[u8], i: &[u8], h: &[u8], limit: Option<u32>, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { let n = unhashed::kill_prefix(&key(m, i, h), limit); sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n } }
}

pub mod types {
    use super::*;
    pub trait QueryKindTrait<Value, OnEmpty> { type Query: 'static; fn from_optional_value_to_query(v: Option<Value>) -> Self::Query; fn from_query_to_optional_value(v: Self::Query) -> Option<Value>; }
    pub struct OptionQuery; pub struct ValueQuery; pub struct ResultQuery<E>(PhantomData<E>);
    impl<V: 'static> QueryKindTrait<V, crate::traits::GetDefault> for OptionQuery { type Query = Option<V>; fn from_optional_value_to_query(v: Option<V>) -> Option<V> { v } fn from_query_to_optional_value(v: Option<V>) -> Option<V> { v } }
    impl<V: 'static, O: Get<V>> QueryKindTrait<V, O> for ValueQuery { type Query = V; fn from_optional_value_to_query(v: Option<V>) -> V { v.unwrap_or_else(O::get) } fn from_query_to_optional_value(v: V) -> Option<V> { Some(v) } }
    type Q<V, QK, O> = <QK as QueryKindTrait<V, O>>::Query;

    pub struct StorageValue<P, V, QK = OptionQuery, O = crate::traits::GetDefault>(PhantomData<(P, V, QK, O)>);
    pub struct StorageMap<P, H, K, V, QK = OptionQuery, O = crate::traits::GetDefault>(PhantomData<(P, H, K, V, QK, O)>);
    pub struct CountedStorageMap<P, H, K, V, QK = OptionQuery, O = crate::traits::GetDefault>(PhantomData<(P, H, K, V, QK, O)>);
    pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, QK = OptionQuery, O = crate::traits::GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, QK, O)>);
    pub struct StorageNMap<P, Ks, V, QK = OptionQuery, O = crate::traits::GetDefault>(PhantomData<(P, Ks, V, QK, O)>);
    pub struct Key<H, K>(PhantomData<(H, K)>);
    pub trait KeyGenerator { type Arg: Encode; fn make(a: &Self::Arg) -> Vec<u8>; }
    impl<H: StorageHasher, K: FullCodec> KeyGenerator for Key<H, K> { type Arg = (K,); fn make(a: &(K,)) -> Vec<u8> { a.0.using_encoded(|b| H::hash(b).as_ref().to_vec()) } }
    macro_rules! kg { ($($h:ident $k:ident $i:tt),*) => { impl<$($h: StorageHasher, $k: FullCodec),*> KeyGenerator for ($(Key<$h, $k>,)*) { type Arg = ($($k,)*); fn make(a: &Self::Arg) -> Vec<u8> { let mut v = vec![]; $(v.extend_from_slice(a.$i.using_encoded(|b| $h::hash(b)).as_ref());)* v } } } }
    kg!(H0 K0 0, H1 K1 1); kg!(H0 K0 0, H1 K1 1, H2 K2 2);

    fn q_get<V: Decode, QK: QueryKindTrait<V, O>, O>(k: &[u8]) -> Q<V, QK, O> { QK::from_optional_value_to_query(unhashed::get(k)) }
    fn q_try_mutate<V: FullCodec, QK: QueryKindTrait<V, O>, O, R, E>(k: &[u8], f: impl FnOnce(&mut Q<V, QK, O>) -> Result<R, E>) -> Result<R, E> {
        let mut v = q_get::<V, QK, O>(k);
        let r = f(&mut v);
        if r.is_ok() { match QK::from_query_to_optional_value(v) { Some(v) => unhashed::put(k, &v), None => mcstore::kill(k) } }
        r
    }
    fn q_try_mutate_exists<V: FullCodec, R, E>(k: &[u8], f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
        let mut v = unhashed::get::<V>(k);
        let r = f(&mut v);
        if r.is_ok() { match v { Some(v) => unhashed::put(k, &v), None => mcstore::kill(k) } }
        r
    }
    fn q_take<V: Decode, QK: QueryKindTrait<V, O>, O>(k: &[u8]) -> Q<V, QK, O> { let v = unhashed::take::<V>(k); QK::from_optional_value_to_query(v) }
    enum No {}
    fn un<R>(r: Result<R, No>) -> R { match r { Ok(r) => r, Err(e) => match e {} } }
    fn append_raw<I: Encode>(k: &[u8], item: I) {
        // the same result as StorageAppend: length prefix of the vector grows by one; broken data is replaced
        let mut v = mcstore::get(k).map(|v| v.to_vec()).unwrap_or_else(|| codec::Compact(0u32).encode());
        let mut s = &v[..];
        let body = match codec::Compact::<u32>::decode(&mut s) { Ok(n) => { let rest = s.to_vec(); let mut o = codec::Compact(n.0 + 1).encode(); o.extend(rest); o } Err(_) => codec::Compact(1u32).encode() };
        v = body; v.extend(item.encode());
        mcstore::put(k, &v)
    }

    impl<P: StorageInstance, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> StorageValue<P, V, QK, O> {
        pub fn hashed_key() -> [u8; 32] { P::prefix_hash() }
        pub fn exists() -> bool { mcstore::exists(&Self::hashed_key()) }
        pub fn get() -> Q<V, QK, O> { q_get::<V, QK, O>(&Self::hashed_key()) }
        pub fn try_get() -> Result<V, ()> { unhashed::get(&Self::hashed_key()).ok_or(()) }
        pub fn put<A: EncodeLike<V>>(v: A) { unhashed::put(&Self::hashed_key(), &v) }
        pub fn set(v: Q<V, QK, O>) { match QK::from_query_to_optional_value(v) { Some(v) => Self::put(v), None => Self::kill() } }
        pub fn mutate<R>(f: impl FnOnce(&mut Q<V, QK, O>) -> R) -> R { un(Self::try_mutate(|v| Ok(f(v)))) }
        pub fn try_mutate<R, E>(f: impl FnOnce(&mut Q<V, QK, O>) -> Result<R, E>) -> Result<R, E> { q_try_mutate::<V, QK, O, R, E>(&Self::hashed_key(), f) }
        pub fn mutate_exists<R>(f: impl FnOnce(&mut Option<V>) -> R) -> R { un(Self::try_mutate_exists(|v| Ok(f(v)))) }
        pub fn try_mutate_exists<R, E>(f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> { q_try_mutate_exists(&Self::hashed_key(), f) }
        pub fn kill() { mcstore::kill(&Self::hashed_key()) }
        pub fn take() -> Q<V, QK, O> { q_take::<V, QK, O>(&Self::hashed_key()) }
        pub fn append<I: Encode>(item: I) { append_raw(&Self::hashed_key(), item) }
        pub fn decode_len() -> Option<usize> { mcstore::get(&Self::hashed_key()).and_then(|v| codec::Compact::<u32>::decode(&mut &v[..]).ok()).map(|x| x.0 as usize) }
        pub fn translate<A: Decode, F: FnOnce(Option<A>) -> Option<V>>(f: F) -> Result<Option<V>, ()> { let k = Self::hashed_key(); let old = match mcstore::get(&k) { Some(v) => Some(A::decode(&mut &v[..]).map_err(|_| ())?), None => None }; let n = f(old); match &n { Some(v) => unhashed::put(&k, v), None => mcstore::kill(&k) } Ok(n) }
        pub fn try_append<T: Encode>(item: T) -> Result<(), ()> where V: TryAppend { let b = V::bound(); let n = Self::decode_len().unwrap_or(0); if n < b { append_raw(&Self::hashed_key(), item); Ok(()) } else { Err(()) } }
    }
    pub trait TryAppend { fn bound() -> usize; }
    impl<T, S: Get<u32>> TryAppend for crate::BoundedVec<T, S> { fn bound() -> usize { S::get() as usize } }

    /// as `PrefixIterator`: walks the live keys in order
    pub struct Iter<T> { prefix: Vec<u8>, previous: std::sync::Arc<[u8]>, f: fn(&[u8], &[u8]) -> Option<T>, drain: bool }
    impl<T> Iterator for Iter<T> { type Item = T; fn next(&mut self) -> Option<T> {
        loop {
            let k = mcstore::next_key(&self.previous)?;
            if !k.starts_with(&self.prefix) { return None }
            self.previous = k.clone();
            let v = mcstore::get(&k)?;
            if self.drain { mcstore::kill(&k) }
            if let Some(x) = (self.f)(&k[self.prefix.len()..], &v) { return Some(x) }
        }
    } }
    fn iter<T>(prefix: Vec<u8>, f: fn(&[u8], &[u8]) -> Option<T>, drain: bool) -> Iter<T> { let previous = prefix[..].into(); Iter { prefix, previous, f, drain } }
    impl<T> Iter<T> { pub fn drain(mut self) -> Self { self.drain = true; self } }

    macro_rules! map_common { ($t:ident) => {
        impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> $t<P, H, K, V, QK, O> {
            pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { let mut r = P::prefix_hash().to_vec(); k.using_encoded(|b| r.extend_from_slice(H::hash(b).as_ref())); r }
            pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { mcstore::exists(&Self::hashed_key_for(k)) }
            pub fn get<A: EncodeLike<K>>(k: A) -> Q<V, QK, O> { q_get::<V, QK, O>(&Self::hashed_key_for(k)) }
            pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(k)).ok_or(()) }
            pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
            pub fn set<A: EncodeLike<K>>(k: A, v: Q<V, QK, O>) { let k = Self::hashed_key_for(k); match QK::from_query_to_optional_value(v) { Some(v) => unhashed::put(&k, &v), None => mcstore::kill(&k) } }
            pub fn remove<A: EncodeLike<K>>(k: A) { mcstore::kill(&Self::hashed_key_for(k)) }
            pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q<V, QK, O>) -> R>(k: A, f: F) -> R { un(Self::try_mutate(k, |v| Ok(f(v)))) }
            pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Q<V, QK, O>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { q_try_mutate::<V, QK, O, R, E>(&Self::hashed_key_for(k), f) }
            pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { un(Self::try_mutate_exists(k, |v| Ok(f(v)))) }
            pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { q_try_mutate_exists(&Self::hashed_key_for(k), f) }
            pub fn take<A: EncodeLike<K>>(k: A) -> Q<V, QK, O> { q_take::<V, QK, O>(&Self::hashed_key_for(k)) }
            pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) { let (ka, kb) = (Self::hashed_key_for(a), Self::hashed_key_for(b)); let (va, vb) = (mcstore::get(&ka), mcstore::get(&kb)); match vb { Some(v) => mcstore::put(&ka, &v), None => mcstore::kill(&ka) } match va { Some(v) => mcstore::put(&kb, &v), None => mcstore::kill(&kb) } }
            pub fn append<A: EncodeLike<K>, I: Encode>(k: A, item: I) { append_raw(&Self::hashed_key_for(k), item) }
            pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize> { mcstore::get(&Self::hashed_key_for(k)).and_then(|v| codec::Compact::<u32>::decode(&mut &v[..]).ok()).map(|x| x.0 as usize) }
            pub fn remove_all(limit: Option<u32>) -> u32 { unhashed::kill_prefix(&P::prefix_hash(), limit) }
            pub fn clear(limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { let n = unhashed::kill_prefix(&P::prefix_hash(), Some(limit)); sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n } }
            pub fn iter_values() -> Iter<V> { iter(P::prefix_hash().to_vec(), |_, v| V::decode(&mut &v[..]).ok(), false) }
        }
        impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> $t<P, H, K, V, QK, O> {
            pub fn iter() -> Iter<(K, V)> { iter(P::prefix_hash().to_vec(), |k, v| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)), false) }
            pub fn iter_from(start: Vec<u8>) -> Iter<(K, V)> { let mut i = Self::iter(); i.previous = start[..].into(); i }
            pub fn iter_keys() -> Iter<K> { iter(P::prefix_hash().to_vec(), |k, _| K::decode(&mut H::reverse(k)).ok(), false) }
            pub fn drain() -> Iter<(K, V)> { Self::iter().drain() }
            pub fn translate<W: Decode, F: FnMut(K, W) -> Option<V>>(mut f: F) { for k in mcstore::keys_with_prefix(&P::prefix_hash()) { let v = mcstore::get(&k).unwrap(); let w = match W::decode(&mut &v[..]) { Ok(w) => w, Err(_) => continue }; let key = match K::decode(&mut H::reverse(&k[32..])) { Ok(w) => w, Err(_) => continue }; match f(key, w) { Some(n) => unhashed::put(&k, &n), None => mcstore::kill(&k) } } }
            pub fn translate_values<W: Decode, F: FnMut(W) -> Option<V>>(mut f: F) { Self::translate(|_, w| f(w)) }
        }
    } }
    map_common!(StorageMap);
    map_common!(CountedStorageMap);
    impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> CountedStorageMap<P, H, K, V, QK, O> { pub fn count() -> u32 { mcstore::keys_with_prefix(&P::prefix_hash()).len() as u32 } }
    impl<P: StorageInstance, H: StorageHasher, K: FullCodec, T: FullCodec + 'static, S: Get<u32> + 'static, QK: QueryKindTrait<crate::BoundedVec<T, S>, O>, O: 'static> StorageMap<P, H, K, crate::BoundedVec<T, S>, QK, O> {
        pub fn try_append<A: EncodeLike<K> + Clone, I: EncodeLike<T>>(k: A, item: I) -> Result<(), ()> { let n = Self::decode_len(k.clone()).unwrap_or(0); if n < S::get() as usize { append_raw(&Self::hashed_key_for(k), item); Ok(()) } else { Err(()) } }
    }

    impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> StorageDoubleMap<P, H1, K1, H2, K2, V, QK, O> {
        pub fn prefix_for<A: EncodeLike<K1>>(a: A) -> Vec<u8> { let mut r = P::prefix_hash().to_vec(); a.using_encoded(|b| r.extend_from_slice(H1::hash(b).as_ref())); r }
        pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> { let mut r = Self::prefix_for(a); b.using_encoded(|b| r.extend_from_slice(H2::hash(b).as_ref())); r }
        pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool { mcstore::exists(&Self::hashed_key_for(a, b)) }
        pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q<V, QK, O> { q_get::<V, QK, O>(&Self::hashed_key_for(a, b)) }
        pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(a, b)).ok_or(()) }
        pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) { unhashed::put(&Self::hashed_key_for(a, b), &v) }
        pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) { mcstore::kill(&Self::hashed_key_for(a, b)) }
        pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q<V, QK, O> { q_take::<V, QK, O>(&Self::hashed_key_for(a, b)) }
        pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, v: Q<V, QK, O>) { let k = Self::hashed_key_for(a, b); match QK::from_query_to_optional_value(v) { Some(v) => unhashed::put(&k, &v), None => mcstore::kill(&k) } }
        pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q<V, QK, O>) -> R>(a: A, b: B, f: F) -> R { un(Self::try_mutate(a, b, |v| Ok(f(v)))) }
        pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q<V, QK, O>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> { q_try_mutate::<V, QK, O, R, E>(&Self::hashed_key_for(a, b), f) }
        pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R { un(Self::try_mutate_exists(a, b, |v| Ok(f(v)))) }
        pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> { q_try_mutate_exists(&Self::hashed_key_for(a, b), f) }
        pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, I: Encode>(a: A, b: B, item: I) { append_raw(&Self::hashed_key_for(a, b), item) }
        pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) -> u32 { unhashed::kill_prefix(&Self::prefix_for(a), limit) }
        pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { let n = unhashed::kill_prefix(&Self::prefix_for(a), Some(limit)); sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n } }
        pub fn clear(limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { let n = unhashed::kill_prefix(&P::prefix_hash(), Some(limit)); sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n } }
        pub fn remove_all(limit: Option<u32>) -> u32 { unhashed::kill_prefix(&P::prefix_hash(), limit) }
        pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> Iter<V> { iter(Self::prefix_for(a), |_, v| V::decode(&mut &v[..]).ok(), false) }
        pub fn iter_values() -> Iter<V> { iter(P::prefix_hash().to_vec(), |_, v| V::decode(&mut &v[..]).ok(), false) }
    }
    impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> StorageDoubleMap<P, H1, K1, H2, K2, V, QK, O> {
        pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> Iter<(K2, V)> { iter(Self::prefix_for(a), |k, v| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)), false) }
        pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> Iter<K2> { iter(Self::prefix_for(a), |k, _| K2::decode(&mut H2::reverse(k)).ok(), false) }
        pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> Iter<(K2, V)> { Self::iter_prefix(a).drain() }
        pub fn iter() -> Iter<(K1, K2, V)> { iter(P::prefix_hash().to_vec(), |k, v| { let mut r = H1::reverse(k); let k1 = K1::decode(&mut r).ok()?; Some((k1, K2::decode(&mut H2::reverse(r)).ok()?, V::decode(&mut &v[..]).ok()?)) }, false) }
        pub fn iter_keys() -> Iter<(K1, K2)> { iter(P::prefix_hash().to_vec(), |k, _| { let mut r = H1::reverse(k); let k1 = K1::decode(&mut r).ok()?; Some((k1, K2::decode(&mut H2::reverse(r)).ok()?)) }, false) }
        pub fn drain() -> Iter<(K1, K2, V)> { Self::iter().drain() }
    }
    impl<P: StorageInstance, Ks: KeyGenerator, V: FullCodec + 'static, QK: QueryKindTrait<V, O>, O: 'static> StorageNMap<P, Ks, V, QK, O> {
        pub fn hashed_key_for(a: Ks::Arg) -> Vec<u8> { let mut r = P::prefix_hash().to_vec(); r.extend(Ks::make(&a)); r }
        pub fn get(a: Ks::Arg) -> Q<V, QK, O> { q_get::<V, QK, O>(&Self::hashed_key_for(a)) }
        pub fn contains_key(a: Ks::Arg) -> bool { mcstore::exists(&Self::hashed_key_for(a)) }
        pub fn insert<C: EncodeLike<V>>(a: Ks::Arg, v: C) { unhashed::put(&Self::hashed_key_for(a), &v) }
        pub fn remove(a: Ks::Arg) { mcstore::kill(&Self::hashed_key_for(a)) }
        pub fn take(a: Ks::Arg) -> Q<V, QK, O> { q_take::<V, QK, O>(&Self::hashed_key_for(a)) }
        pub fn mutate<R>(a: Ks::Arg, f: impl FnOnce(&mut Q<V, QK, O>) -> R) -> R { un(Self::try_mutate(a, |v| Ok(f(v)))) }
        pub fn try_mutate<R, E>(a: Ks::Arg, f: impl FnOnce(&mut Q<V, QK, O>) -> Result<R, E>) -> Result<R, E> { q_try_mutate::<V, QK, O, R, E>(&Self::hashed_key_for(a), f) }
    }
    #[allow(unused)] fn _u<T: FullEncode>() {}
}
