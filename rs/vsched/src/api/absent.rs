//! Stand-ins: a case that gets here is not counted (vcommon::ABSENT).
#![allow(dead_code, unused_imports)]
use crate::ex::*;
use crate::train::*;

fn absent(part: &str) -> ! {
    panic!("{} {}", vcommon::ABSENT, part)
}

#[cfg(not(feature = "gen"))]
pub fn produce(_: &Gen, _: f64, _: &[&[String]], _: usize) -> Vec<ScoredToken> {
    absent("generate")
}

#[cfg(not(feature = "merge"))]
pub fn merge(_: &Merge, _: &[T], _: &[String]) -> (Vec<ScoredToken>, Vec<Option<u32>>) {
    absent("merge")
}

#[cfg(not(feature = "prune"))]
pub fn prune(_: &Prune, _: f64, _: &[T], _: &[String]) -> std::result::Result<Vec<ScoredToken>, String> {
    absent("prune")
}

#[cfg(not(feature = "mine"))]
pub fn mine(_: usize, _: &str, _: &[String]) -> Vec<(String, usize)> {
    absent("mine")
}

#[cfg(not(feature = "task"))]
#[derive(Clone)]
pub struct Progress;
#[cfg(not(feature = "task"))]
pub struct Local;
#[cfg(not(feature = "task"))]
impl Progress {
    pub fn start(_: usize) -> Progress {
        absent("progress")
    }
    pub fn local(&self, _: usize) -> Local {
        Local
    }
    pub fn finish(&self) {}
}
#[cfg(not(feature = "task"))]
impl Local {
    pub fn record(&mut self, _: usize) {}
    pub fn finish(self) {}
}
