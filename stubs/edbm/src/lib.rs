//! Stand-in for the EDBM library (github.com/Ecdar/EDBM), which is not available offline.
//! Exact federation semantics over clock zones; same public names as the original.
pub mod util;
pub mod zones;
