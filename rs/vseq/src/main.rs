mod api;
mod util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod fault;
mod c07;
mod c08;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
mod c12;
fn main() {
    let mut h = vcommon::H::from_args();
    let h = &mut h;
    match h.prop.clone().as_str() {
        "C01" => c01::run(h),
        "C02" => c02::run(h),
        "C03" => c03::run(h),
        "C04" => c04::run(h),
        "C05" => c05::run(h),
        "C06" => c06::run(h),
        "C07" => c07::run(h),
        "C08" => c08::run(h),
        #[cfg(feature = "c11")]
        "C11" => c11::run(h),
        "C12" => c12::run(h),
        #[cfg(feature = "c10")]
        "C10" => c10::run(h),
        p => {
            eprintln!("no harness for {}", p);
            std::process::exit(2);
        }
    }
    h.finish()
}
