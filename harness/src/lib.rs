#![allow(non_snake_case)]
pub mod symx;
#[macro_use]
pub mod util;
macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut t: Vec<(&'static str, fn())> = vec![];
            $(#[cfg(feature = $f)] t.extend_from_slice($m::TABLE);)*
            t
        }
    };
}
modules!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28", c29 "c29", c30 "c30");
