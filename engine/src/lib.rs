//! Bounded search for failing inputs of the properties on the real crates, and their replay.
//!
//!   BIN run PROP OUT.json PROGRESS SEED CASES SECS
//!   BIN replay PROP FAMILY SEED CASE
pub mod chunks;
pub mod driver;
pub mod world;

pub use chunks::*;
pub use driver::*;
pub use world::*;
