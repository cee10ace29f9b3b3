//! Checks of the parts of the crate that do not need the protocol framework.
pub mod common;
pub mod curve;
pub mod masks;
pub mod misc;
pub mod paillier;
pub mod sampling;
pub mod uints;
pub mod wipe;
pub mod zk;
pub mod zkc;
pub use common::{ecref, fixtures, keys, util};

pub fn main() {
    common::big::self_test();
    common::runner::main_with(&[
        ("C01", paillier::c01),
        ("C02", paillier::c02),
        ("C03", paillier::c03),
        ("C04", paillier::c04),
        ("C05", uints::c05),
        ("C06", sampling::c06),
        ("C07", curve::c07),
        ("C08", curve::c08),
        ("C09", curve::c09),
        ("C10", zkc::c10),
        ("C11", zkc::c11),
        ("C12", zkc::c12),
        ("C13", zkc::c13),
        ("C14", zkc::c14),
        ("C15", zkc::c15),
        ("C16", misc::c16),
        ("C17", misc::c17),
        ("C18", curve::c18),
        ("C19", misc::c19),
        ("C20", wipe::c20),
        ("C21", masks::c21),
        ("E02", misc::e02),
    ]);
}
