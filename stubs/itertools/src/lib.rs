//! itertools 0.10 by way of the cached 0.13.
pub use it13::*;
