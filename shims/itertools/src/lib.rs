//! Offline stand-in for `itertools` 0.10: re-exported from the cached 0.13.
pub use real::*;
