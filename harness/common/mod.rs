pub mod big;
pub mod ecref;
pub mod fixtures;
pub mod gens;
pub mod keys;
pub mod leak;
pub mod masks;
pub mod runner;
pub mod util;
pub mod wipe;
