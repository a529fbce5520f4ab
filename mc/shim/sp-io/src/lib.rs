//! sp-io with the storage host functions backed by `mcstore`.
pub use real::*;
use std::sync::Arc;

pub mod storage {
    pub fn get(k: &[u8]) -> Option<Vec<u8>> { mcstore::get(k).map(|v| v.to_vec()) }
    pub fn set(k: &[u8], v: &[u8]) { mcstore::put(k, v) }
    pub fn clear(k: &[u8]) { mcstore::kill(k) }
    pub fn exists(k: &[u8]) -> bool { mcstore::exists(k) }
    pub fn next_key(k: &[u8]) -> Option<Vec<u8>> { mcstore::next_key(k).map(|v| v.to_vec()) }
    pub fn start_transaction() { mcstore::begin() }
    pub fn commit_transaction() { mcstore::commit() }
    pub fn rollback_transaction() { mcstore::rollback() }
    pub fn read(key: &[u8], value_out: &mut [u8], offset: u32) -> Option<u32> {
        mcstore::get(key).map(|v| {
            let off = (offset as usize).min(v.len());
            let d = &v[off..];
            let n = d.len().min(value_out.len());
            value_out[..n].copy_from_slice(&d[..n]);
            d.len() as u32
        })
    }
}

#[derive(Default, Clone)]
pub struct TestExternalities { pub map: mcstore::Map }
impl TestExternalities {
    pub fn new(s: sp_core::storage::Storage) -> Self { s.into() }
    pub fn new_empty() -> Self { Self::default() }
    pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let (r, m) = mcstore::isolated(std::mem::take(&mut self.map), f);
        self.map = m;
        r
    }
    pub fn register_extension<E>(&mut self, _e: E) {}
    pub fn commit_all(&mut self) -> Result<(), String> { Ok(()) }
}
impl From<sp_core::storage::Storage> for TestExternalities {
    fn from(s: sp_core::storage::Storage) -> Self { TestExternalities { map: s.top.into_iter().map(|(k, v)| (Arc::from(&k[..]), Arc::from(&v[..]))).collect() } }
}
/// run a genesis builder on a storage value
pub fn assimilate(storage: &mut sp_core::storage::Storage, f: impl FnOnce()) {
    let m = std::mem::take(&mut storage.top).into_iter().map(|(k, v)| (Arc::from(&k[..]), Arc::from(&v[..]))).collect();
    let (_, out) = mcstore::isolated(m, f);
    storage.top = out.into_iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
}
