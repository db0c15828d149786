//! The training properties observed through the real program: its options,
//! its files and its own pool of threads.
mod ex;
mod real;
#[path = "../../vsched/src/train.rs"]
#[allow(dead_code)]
mod train;
fn main() {
    let mut h = vcommon::H::from_args();
    let h = &mut h;
    match h.prop.clone().as_str() {
        "C12" => real::processors(h),
        "C13" => real::generate(h),
        "C14" => real::threads(h),
        "C15" => real::prune_invariants(h),
        "C16" => real::prune(h),
        "C17" => real::filter(h),
        "C18" => real::merge(h),
        "C19" => real::mine(h),
        "C24" => real::ends(h),
        p => {
            eprintln!("no harness for {}", p);
            std::process::exit(2);
        }
    }
    h.finish()
}
