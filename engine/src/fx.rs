//! Small fast hasher.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a));
        }
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64)
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64)
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
    #[inline]
    fn write_i64(&mut self, x: i64) {
        self.add(x as u64)
    }
    #[inline]
    fn write_u128(&mut self, x: u128) {
        self.add(x as u64);
        self.add((x >> 64) as u64)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
