//! Offline stand-in: `mock!` only declares the mock type; mocks are never used by the harness.
pub use mockall_derive::{automock, mock};
pub mod predicate {}
