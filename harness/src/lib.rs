#![allow(unexpected_cfgs)]
#![allow(non_snake_case)]
//! Checking harnesses: each is one symbolic test over keride's real code.

/// declares harnesses: exported entry points for the symbolic executor, and a table for native replay
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        #[cfg(not(symex))]
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n) ),* ];
    };
}

pub mod spec;

macro_rules! modules {
    ($($f:literal $m:ident)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(symex))]
        pub fn find(name: &str) -> Option<extern "C" fn()> {
            let tables: &[&[(&str, extern "C" fn())]] = &[ $( #[cfg(feature = $f)] $m::TABLE, )* ];
            tables.iter().flat_map(|t| t.iter()).find(|x| x.0 == name).map(|x| x.1)
        }
    };
}

modules! {
    "poc" poc
    "mcodec" mcodec
    "icodec" icodec
    "small" small
    "prims" prims
    "path" path
    "thold" thold
    "vers" vers
    "digs" digs
    "sign" sign
    "prefix" prefix
    "salt" salt
    "json" json
    "event" event
    "msg" msg
}
