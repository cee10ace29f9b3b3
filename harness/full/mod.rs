//! Checks of the protocols, run on the whole crate with `manul` replaced by /verif/manul-shim.
pub mod common;
pub mod entities;
pub mod frame;
pub mod fresh;
pub mod keygen;
pub mod net;
pub mod replay;
pub mod reshare;
pub mod sign;
pub mod tamper;
pub use common::{ecref, fixtures, keys, util};

pub fn main() {
    common::big::self_test();
    common::runner::main_with(&[("P01", keygen::p01), ("P02", keygen::p02), ("P03", keygen::p03), ("P04", sign::p04), ("P05", reshare::p05), ("P06", tamper::p06), ("P07", frame::p07), ("P08", replay::p08), ("P09", reshare::p09), ("P10", entities::p10), ("P11", tamper::p11), ("P12", fresh::p12), ("P13", tamper::p13), ("E01", entities::e01), ("E03", entities::e03)]);
}
