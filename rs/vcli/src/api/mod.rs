//! What the harness needs of the command-line crate, one file per part: a part
//! whose interface has changed is left out of the build (see run.py).
#[cfg(feature = "filter")]
mod filter;
#[cfg(feature = "filter")]
pub use filter::*;
#[cfg(feature = "patterns")]
mod patterns;
#[cfg(feature = "patterns")]
pub use patterns::*;
#[cfg(not(feature = "patterns"))]
mod shown;
#[cfg(not(feature = "patterns"))]
pub use shown::*;

#[cfg(not(feature = "filter"))]
pub fn filter(_: usize, _: Option<f64>, _: bool, _: &mut tokengeex::Model) {
    panic!("{} filter", vcommon::ABSENT)
}

/// A named pattern with its documented examples and counter-examples.
pub struct Pattern {
    pub name: &'static str,
    pub regex: ::regex::Regex,
    pub yes: Vec<&'static str>,
    pub no: Vec<&'static str>,
}
