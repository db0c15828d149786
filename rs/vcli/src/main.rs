#[path = "../../vseq/src/util.rs"]
#[allow(dead_code)]
mod util;
mod api;
mod c17;
mod c20;
fn main() {
    let mut h = vcommon::H::from_args();
    let h = &mut h;
    match h.prop.clone().as_str() {
        "C17" => c17::run(h),
        "C20" => c20::run(h),
        p => {
            eprintln!("no harness for {}", p);
            std::process::exit(2);
        }
    }
    h.finish()
}
