//! Stand-in for rand: randomness the code draws is symbolic, the timeouts
//! raft-rs draws are the smallest ones.
#![no_std]

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
}

pub mod rngs {
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            sym::any_u32("OsRng")
        }
        fn next_u64(&mut self) -> u64 {
            sym::any_u64("OsRng")
        }
    }
}

pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub trait Rng {
    fn gen_range<T>(&mut self, range: core::ops::Range<T>) -> T {
        range.start
    }
}
impl Rng for ThreadRng {}
