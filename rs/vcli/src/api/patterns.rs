use super::Pattern;
use ::regex::Regex;
use tgcli::{build_allow_regex, PATTERNS};

pub fn load(_cli: Option<&str>, _scratch: &str) -> Vec<Pattern> {
    PATTERNS.iter().map(|(name, re, yes, no)| Pattern { name, regex: re(), yes: yes.to_vec(), no: no.to_vec() }).collect()
}

/// The regex built from a list of pattern names and patterns.
pub fn allow(list: &[&str], regex_of: impl Fn(&str) -> Regex) -> Regex {
    build_allow_regex(list.iter().map(|p| regex_of(p)))
}
