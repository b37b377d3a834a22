//! Shared by the harnesses of the runtime.
pub use prost::{bytes::Bytes, Message};
pub use std::collections::{BTreeMap, BTreeSet};
pub use sym::*;

pub fn logger() -> slog::Logger {
    slog::Logger::root(slog::Discard, slog::o!())
}
