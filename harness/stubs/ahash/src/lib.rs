//! Stand-in for `ahash` with the same interface.
//!
//! Hash maps: seed 0 gives every key the same hash (maps then probe linearly
//! and equality decides, which keeps symbolic keys cheap); any other seed
//! gives a small multiplicative hash, so the iteration order of hash maps is
//! an explored input instead of an accident of the process.
//!
//! One-letter strings the harness registered (application keys) hash to the
//! registered value, so that the hash is an arbitrary function of the key.
#![no_std]

use core::hash::{BuildHasher, Hasher};
use core::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(0);
static KEYS: [AtomicU64; 8] = [const { AtomicU64::new(u64::MAX) }; 8];

pub fn set_seed(s: u64) {
    SEED.store(s, Ordering::Relaxed)
}
/// Hash of the one-letter string `b'a' + i`.
pub fn set_key_hash(i: usize, hash: u32) {
    KEYS[i].store(hash as u64, Ordering::Relaxed)
}

#[derive(Clone, Debug)]
pub struct RandomState(u64);

impl RandomState {
    pub fn new() -> Self {
        RandomState(SEED.load(Ordering::Relaxed))
    }
    pub fn with_seed(_: usize) -> Self {
        Self::new()
    }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self {
        Self::new()
    }
    pub fn hash_one<T: core::hash::Hash>(&self, x: T) -> u64 {
        let mut h = self.build_hasher();
        x.hash(&mut h);
        h.finish()
    }
}
impl Default for RandomState {
    fn default() -> Self {
        Self::new()
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher { s: self.0, state: if self.0 == 0 { CONSTANT } else { MIXING } }
    }
}

const CONSTANT: u8 = 0;
const MIXING: u8 = 1;
const DONE: u8 = 2;

#[derive(Clone, Debug)]
pub struct AHasher {
    s: u64,
    state: u8,
}
impl Default for AHasher {
    fn default() -> Self {
        RandomState::new().build_hasher()
    }
}
impl AHasher {
    fn mix(&mut self, v: u64) {
        if self.state == MIXING {
            self.s = (self.s ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        }
    }
}
impl Hasher for AHasher {
    fn write(&mut self, b: &[u8]) {
        if self.state != DONE && b.len() == 1 && b[0] >= b'a' && b[0] < b'a' + 8 {
            let k = KEYS[(b[0] - b'a') as usize].load(Ordering::Relaxed);
            if k != u64::MAX {
                self.s = k;
                self.state = DONE; // the terminator does not count
                return;
            }
        }
        for x in b {
            self.mix(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.mix(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.mix(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.mix(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.mix(v as u64)
    }
    fn finish(&self) -> u64 {
        match self.state {
            CONSTANT => 0,
            DONE => self.s,
            _ => self.s ^ (self.s >> 32),
        }
    }
}
