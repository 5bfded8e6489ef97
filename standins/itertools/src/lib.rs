//! itertools 0.8 is not available offline; the methods the repository uses are unchanged in 0.13.
pub use real::*;
