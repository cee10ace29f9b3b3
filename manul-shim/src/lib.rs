//! A stand-in for the part of `manul` (rev d23fcb8) that synedrion is written against, plus an execution engine
//! (`engine`) whose network is under the control of a test: every message can be observed, changed, withheld and
//! reordered. Nothing here knows anything about synedrion.
pub mod combinators;
pub mod dev;
pub mod engine;
pub mod protocol;
pub mod session;
pub mod utils;
pub use signature;
