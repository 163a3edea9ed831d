#![allow(clippy::all)]
mod common;
#[macro_use]
mod sym;
mod digital;
mod analog;
mod serial;
mod coupler;
mod layout;
mod tables;
mod params;
mod counter;
mod config;
mod panic;

macro_rules! table {
    ($($name:ident => $path:path),* $(,)?) => {
        $(
            #[unsafe(no_mangle)]
            #[inline(never)]
            pub extern "C" fn $name(case: u32) {
                $path(case as usize)
            }
        )*
        fn dispatch(name: &str, case: u32) -> bool {
            match name {
                $(stringify!($name) => { $name(case); true })*
                _ => false,
            }
        }
    };
}

table! {
    h_c01b => panic::c01b,
    h_c01v => panic::c01v,
    h_c01t => panic::c01t,
    h_c01d => panic::c01d,
    h_c01p => panic::c01p,
    h_c01m => panic::c01m,
    h_c01c => panic::c01c,
    h_c01o => panic::c01o,
    h_c01h => panic::c01h,
    h_c01w => panic::c01w,
    h_c02 => digital::c02,
    h_c03 => analog::c03,
    h_c04 => analog::c04,
    h_c04s => analog::c04s,
    h_c05a => analog::c05a,
    h_c06 => serial::c06,
    h_c05 => coupler::c05,
    h_c12 => coupler::c12,
    h_c18 => coupler::c18,
    h_c19 => coupler::c19,
    h_c19h => coupler::c19h,
    h_c20 => coupler::c20,
    h_c10p => layout::c10p,
    h_c10a => layout::c10a,
    h_c10k => layout::c10k,
    h_c10s => layout::c10s,
    h_c11p => layout::c11p,
    h_c11k => layout::c11k,
    h_c11a => layout::c11a,
    h_c13i => tables::c13i,
    h_c13n => tables::c13n,
    h_c13m => tables::c13m,
    h_c13s => tables::c13s,
    h_c13x => tables::c13x,
    h_c13c => tables::c13c,
    h_c15 => tables::c15,
    h_c15b => tables::c15b,
    h_c21 => tables::c21,
    h_c21o => tables::c21o,
    h_c22 => tables::c22,
    h_c22l => tables::c22l,
    h_c23 => tables::c23,
    h_c14 => params::c14,
    h_c14s => params::c14s,
    h_c16i => counter::c16i,
    h_c16o => counter::c16o,
    h_c16d => counter::c16d,
    h_c16h => counter::c16h,
    h_c17v => config::c17v,
    h_c17p => config::c17p,
    h_c17i => config::c17i,
    h_c07 => serial::c07,
    h_c08 => serial::c08,
    h_c09 => serial::c09,
}

#[cfg(feature = "native")]
fn setup(args: &[String]) {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("PANIC {l}");
        println!("MSG {}", i.to_string().replace('\n', " "));
        std::process::exit(11);
    }));
    sym::load(&args[3]);
}

#[cfg(not(feature = "native"))]
fn setup(_: &[String]) {}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    setup(&args);
    if !dispatch(&args[1], args[2].parse().unwrap_or(0)) {
        println!("UNKNOWN");
        std::process::exit(5);
    }
    println!("DONE");
}
