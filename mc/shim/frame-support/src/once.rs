use std::cell::UnsafeCell;
/// twox128 of a name, computed once
pub struct Once { o: std::sync::Once, v: UnsafeCell<[u8; 16]> }
unsafe impl Sync for Once {}
impl Once {
    pub const fn new() -> Self { Once { o: std::sync::Once::new(), v: UnsafeCell::new([0; 16]) } }
    pub fn get(&'static self, name: &str) -> [u8; 16] {
        self.o.call_once(|| unsafe { *self.v.get() = sp_core::twox_128(name.as_bytes()) });
        unsafe { *self.v.get() }
    }
}
