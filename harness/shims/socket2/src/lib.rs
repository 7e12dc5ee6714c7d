//! Stand-in for `socket2` 0.5 (only 0.6 is in the offline cache); what is used of it is the same.
pub use newer::*;
