//! Builds what generated code depends on.

pub use {rowan, token};
