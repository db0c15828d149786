mod api;
mod ex;
mod train;
mod big;
mod c09;
mod c13;
mod c14;
mod c15;
mod c16;
mod c18;
mod c19;
mod c24;
fn main() {
    let mut h = vcommon::H::from_args();
    let h = &mut h;
    match h.prop.clone().as_str() {
        "C09" => c09::run_all(h),
        "C13" => c13::run_all(h),
        "C14" => c14::run_all(h),
        "C15" => c15::run_all(h),
        "C16" => c16::run_all(h),
        "C24" => c24::run_all(h),
        "C18" => c18::run_all(h),
        "C19" => c19::run_all(h),
        p => {
            eprintln!("no harness for {}", p);
            std::process::exit(2);
        }
    }
    h.finish()
}
