//! Reference components for checking a GIF codec, written from the GIF89a specification.
//! Nothing in here depends on the code under test.
pub mod tape;
pub mod lzw;
pub mod parse;
pub mod refdec;
pub mod spec;
pub mod gen;
