//! Stand-in: Reveaal only names this crate.
