//! Stand-in for oak_time.
#![no_std]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant {
    millis: i64,
}
impl Instant {
    pub const fn from_unix_millis(millis: i64) -> Self {
        Instant { millis }
    }
    pub const fn into_unix_millis(&self) -> i64 {
        self.millis
    }
}
pub const UNIX_EPOCH: Instant = Instant::from_unix_millis(0);
pub trait Clock: Send + Sync {
    fn get_time(&self) -> Instant;
}
