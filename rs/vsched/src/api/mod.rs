//! Everything the harness needs of the training steps, one file per step: a
//! step whose interface has changed is left out of the build (see run.py) and
//! the others are explored all the same.
#[cfg(feature = "gen")]
mod gen;
#[cfg(feature = "merge")]
mod merge;
#[cfg(feature = "mine")]
mod mine;
#[cfg(feature = "prune")]
mod prune;
#[cfg(feature = "task")]
mod task;

#[cfg(feature = "gen")]
pub use gen::*;
#[cfg(feature = "merge")]
pub use merge::*;
#[cfg(feature = "mine")]
pub use mine::*;
#[cfg(feature = "prune")]
pub use prune::*;
#[cfg(feature = "task")]
pub use task::*;

#[cfg(not(all(feature = "gen", feature = "merge", feature = "mine", feature = "prune", feature = "task")))]
mod absent;
#[cfg(not(all(feature = "gen", feature = "merge", feature = "mine", feature = "prune", feature = "task")))]
pub use absent::*;
