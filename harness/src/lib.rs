#![allow(unused_imports, dead_code)]
#[macro_use]
pub mod vp;
pub mod util;

macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn lookup(name: &str) -> Option<extern "C-unwind" fn()> {
            $(#[cfg(feature = $f)] for (n, f) in $m::TABLE { if *n == name { return Some(*f); } })*
            let _ = name;
            None
        }
    };
}
modules! {
    probe "probe",
    shape "shape",
    misc "misc",
    text "text",
    coll "coll",
    geo "geo",
    val "val",
    filt "filt",
    spat "spat",
    bbox "bbox",
    idx "idx",
    mesh "mesh",
}
