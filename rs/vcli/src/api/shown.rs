//! The named patterns as the program shows them, and the regex as it writes it.
use super::Pattern;
use ::regex::Regex;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

static AT: OnceLock<(String, String)> = OnceLock::new();

fn run(args: &[&str]) -> Vec<u8> {
    let o = Command::new(&AT.get().unwrap().0).args(args).stdin(Stdio::null()).output().unwrap();
    assert!(o.status.success(), "{:?} failed: {}", args, String::from_utf8_lossy(&o.stderr));
    o.stdout
}

pub fn load(cli: Option<&str>, scratch: &str) -> Vec<Pattern> {
    let _ = AT.set((cli.expect("the command-line program is missing").to_string(), scratch.to_string()));
    String::from_utf8_lossy(&run(&["regex"]))
        .lines()
        .filter_map(|l| l.split_once(": "))
        .map(|(n, re)| Pattern { name: String::leak(n.to_string()), regex: Regex::new(re).unwrap(), yes: vec![], no: vec![] })
        .collect()
}

/// The regex built from a list of pattern names and patterns.
pub fn allow(list: &[&str], _: impl Fn(&str) -> Regex) -> Regex {
    if list.iter().any(|p| p.is_empty()) {
        // not an argument the program takes
        panic!("{} patterns", vcommon::ABSENT)
    }
    let f = format!("{}/shown", AT.get().unwrap().1);
    let mut args = vec!["regex", "-o", &f];
    for p in list {
        args.extend(["-p", p]);
    }
    let _ = std::fs::remove_file(&f);
    run(&args);
    Regex::new(&std::fs::read_to_string(&f).unwrap()).unwrap()
}
