mod sym;
mod util;
#[cfg(feature = "c01")]
mod c01;
#[cfg(any(feature = "c02", feature = "c03"))]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(any(feature = "c23", feature = "c24"))]
mod mstd;
#[cfg(any(feature = "c23", feature = "c24"))]
#[allow(dead_code, unused)]
mod mlog;
#[cfg(any(feature = "c23", feature = "c24"))]
#[macro_export]
macro_rules! program_fails { ($($t:tt)*) => { crate::mstd::program::ends(false) } }
#[cfg(any(feature = "c23", feature = "c24"))]
#[allow(dead_code, unused)]
mod facade;
#[cfg(any(feature = "c23", feature = "c24"))]
#[allow(dead_code, unused)]
mod bins;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c19")]
mod c19;

extern "C" {
    fn sym_native_init(replay: *const u8, obs: *const u8);
    fn sym_native_done();
}
type H = (&'static str, extern "C" fn());
fn main() {
    let mut table: Vec<H> = Vec::new();
    #[cfg(feature = "c01")]
    table.extend_from_slice(c01::TABLE);
    #[cfg(feature = "c02")]
    table.extend_from_slice(c02::TABLE);
    #[cfg(feature = "c03")]
    table.extend_from_slice(c03::TABLE);
    #[cfg(feature = "c04")]
    table.extend_from_slice(c04::TABLE);
    #[cfg(feature = "c05")]
    table.extend_from_slice(c05::TABLE);
    #[cfg(feature = "c06")]
    table.extend_from_slice(c06::TABLE);
    #[cfg(feature = "c07")]
    table.extend_from_slice(c07::TABLE);
    #[cfg(feature = "c08")]
    table.extend_from_slice(c08::TABLE);
    #[cfg(feature = "c09")]
    table.extend_from_slice(c09::TABLE);
    #[cfg(feature = "c10")]
    table.extend_from_slice(c10::TABLE);
    #[cfg(feature = "c11")]
    table.extend_from_slice(c11::TABLE);
    #[cfg(feature = "c12")]
    table.extend_from_slice(c12::TABLE);
    #[cfg(feature = "c13")]
    table.extend_from_slice(c13::TABLE);
    #[cfg(feature = "c14")]
    table.extend_from_slice(c14::TABLE);
    #[cfg(feature = "c15")]
    table.extend_from_slice(c15::TABLE);
    #[cfg(feature = "c16")]
    table.extend_from_slice(c16::TABLE);
    #[cfg(feature = "c17")]
    table.extend_from_slice(c17::TABLE);
    #[cfg(feature = "c18")]
    table.extend_from_slice(c18::TABLE);
    #[cfg(feature = "c20")]
    table.extend_from_slice(c20::TABLE);
    #[cfg(feature = "c21")]
    table.extend_from_slice(c21::TABLE);
    #[cfg(feature = "c23")]
    table.extend_from_slice(c23::TABLE);
    #[cfg(feature = "c24")]
    table.extend_from_slice(c24::TABLE);
    #[cfg(feature = "c22")]
    table.extend_from_slice(c22::TABLE);
    #[cfg(feature = "c19")]
    table.extend_from_slice(c19::TABLE);
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { for (n, _) in &table { println!("{}", n); } return; }
    let r = a[2].clone() + "\0";
    let o = a[3].clone() + "\0";
    unsafe { sym_native_init(r.as_ptr(), o.as_ptr()); }
    for (n, f) in &table { if *n == a[1] { f(); unsafe { sym_native_done(); } std::process::exit(0); } }
    std::process::exit(5);
}
