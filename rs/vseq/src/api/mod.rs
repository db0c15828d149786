//! What C03 needs of the lattice: left out of the build when the lattice's
//! interface has changed (see run.py).
#[cfg(feature = "nodes")]
mod nodes;
#[cfg(feature = "nodes")]
pub use nodes::*;

#[cfg(not(feature = "nodes"))]
pub fn nodes(_: &tokengeex::Model, _: &[u8], _: f64) -> Vec<(usize, u32)> {
    panic!("{} lattice", vcommon::ABSENT)
}
