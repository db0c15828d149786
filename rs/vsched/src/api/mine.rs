pub fn mine(n: usize, p: &str, samples: &[String]) -> Vec<(String, usize)> {
    let r: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    tgcli::IdiomMiner::new(n, regex::Regex::new(p).unwrap()).mine(&r)
}
