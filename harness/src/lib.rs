//! Property checks for the gif crate: generated inputs and call histories against explicit oracles.
pub mod alloc;
pub mod checks;
pub mod enc;
pub mod engine;
pub mod jobs;
pub mod stream;
pub mod util;
pub mod wild;
