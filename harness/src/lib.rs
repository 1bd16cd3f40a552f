//! Harnesses: each drives real hydra code with symbolic inputs and schedules and asserts a property.
#![allow(dead_code, unused_imports)]
#[macro_use]
pub mod util;
#[cfg(any(feature = "p01", feature = "p02", feature = "net"))]
pub mod frames;

pub mod agent;
#[cfg(feature = "sup")]
pub mod sup;
#[cfg(feature = "net")]
pub mod net;

macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, extern "C" fn())> {
            let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::TABLE);)*
            v
        }
    };
}
modules! {
    smoke "smoke", p01 "p01", p02 "p02", p23 "p23",
    p03 "p03", p04 "p04", p05 "p05", p06 "p06", p07 "p07", p08 "p08", p09 "p09", p10 "p10", p11 "p11", p24 "p24", p12 "p12", p13 "p13", p14 "p14", p15 "p15", p16 "p16", p17 "p17", p18 "p18", p25 "p25", p19 "p19", p20 "p20", p21 "p21", p22 "p22", p26 "p26",
}
