//! Thread-local key/value state with nested transactions, cheap snapshots and an event log.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;

pub type Map = BTreeMap<Arc<[u8]>, Arc<[u8]>>;

#[derive(Default)]
struct Store {
    map: Map,
    undo: Vec<(Arc<[u8]>, Option<Arc<[u8]>>)>,
    layers: Vec<(usize, usize)>,
    events: Vec<Rc<dyn Any>>,
    reads: u64,
    writes: u64,
}
thread_local! { static S: RefCell<Store> = RefCell::new(Store::default()); }

fn with<R>(f: impl FnOnce(&mut Store) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }

pub fn get(k: &[u8]) -> Option<Arc<[u8]>> { with(|s| { s.reads += 1; s.map.get(k).cloned() }) }
pub fn exists(k: &[u8]) -> bool { with(|s| s.map.contains_key(k)) }
pub fn put(k: &[u8], v: &[u8]) {
    with(|s| {
        s.writes += 1;
        let v: Arc<[u8]> = v.into();
        if s.layers.is_empty() {
            if let Some(x) = s.map.get_mut(k) { *x = v } else { s.map.insert(k.into(), v); }
        } else {
            let (key, old) = match s.map.get_mut(k) {
                Some(x) => (Arc::from(k), Some(std::mem::replace(x, v))),
                None => { let key: Arc<[u8]> = k.into(); s.map.insert(key.clone(), v); (key, None) }
            };
            s.undo.push((key, old));
        }
    })
}
pub fn kill(k: &[u8]) {
    with(|s| {
        s.writes += 1;
        if let Some((key, old)) = s.map.remove_entry(k) { if !s.layers.is_empty() { s.undo.push((key, Some(old))); } }
    })
}
/// the first key strictly greater than `k`
pub fn next_key(k: &[u8]) -> Option<Arc<[u8]>> {
    with(|s| s.map.range::<[u8], _>((Bound::Excluded(k), Bound::Unbounded)).next().map(|x| x.0.clone()))
}
pub fn keys_with_prefix(p: &[u8]) -> Vec<Arc<[u8]>> {
    with(|s| s.map.range::<[u8], _>((Bound::Included(p), Bound::Unbounded)).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect())
}
pub fn begin() { with(|s| { let l = (s.undo.len(), s.events.len()); s.layers.push(l) }) }
pub fn commit() { with(|s| { s.layers.pop().expect("no transaction"); if s.layers.is_empty() { s.undo.clear() } }) }
pub fn rollback() {
    with(|s| {
        let (u, e) = s.layers.pop().expect("no transaction");
        while s.undo.len() > u {
            let (k, v) = s.undo.pop().unwrap();
            match v { Some(v) => { s.map.insert(k, v); } None => { s.map.remove(&k); } }
        }
        s.events.truncate(e);
    })
}
pub fn depth() -> usize { with(|s| s.layers.len()) }
pub fn push_event(e: Rc<dyn Any>) { with(|s| s.events.push(e)) }
pub fn events() -> Vec<Rc<dyn Any>> { with(|s| s.events.clone()) }
pub fn event_count() -> usize { with(|s| s.events.len()) }
pub fn clear_events() { with(|s| { s.events.clear(); for l in &mut s.layers { l.1 = 0 } }) }

/// Replace the whole state (drops transactions and events).
pub fn load(m: Map) { with(|s| { s.map = m; s.undo.clear(); s.layers.clear(); s.events.clear(); }) }
pub fn snapshot() -> Map { with(|s| s.map.clone()) }
pub fn len() -> usize { with(|s| s.map.len()) }
pub fn reads_writes() -> (u64, u64) { with(|s| (s.reads, s.writes)) }
/// Fingerprint of the current state
pub fn fingerprint(filter: impl Fn(&[u8]) -> bool) -> u128 {
    with(|s| {
        let (mut a, mut b) = (0x9E3779B97F4A7C15u64, 0xD1B54A32D192ED03u64);
        let mut mix = |x: u64| { a = (a ^ x).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29); b = (b.rotate_left(31) ^ x).wrapping_mul(0xc4ceb9fe1a85ec53) ^ a; };
        let mut bytes = |v: &[u8]| { mix(v.len() as u64 ^ 0x55); for c in v.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); mix(u64::from_le_bytes(w)) } };
        for (k, v) in &s.map { if filter(k) { bytes(k); bytes(v) } }
        ((a as u128) << 64) | b as u128
    })
}
/// Run `f` on another state, returning its state afterwards; the current one is kept.
pub fn isolated<R>(m: Map, f: impl FnOnce() -> R) -> (R, Map) {
    let saved = with(|s| std::mem::replace(s, Store { map: m, ..Default::default() }));
    struct Restore(Option<Store>);
    impl Drop for Restore { fn drop(&mut self) { let st = self.0.take(); S.with(|s| { if let (Ok(mut s), Some(st)) = (s.try_borrow_mut(), st) { *s = st } }) } }
    let mut g = Restore(Some(saved));
    let r = f();
    let out = with(|s| std::mem::take(&mut s.map));
    let st = g.0.take().unwrap();
    with(|s| *s = st);
    (r, out)
}
