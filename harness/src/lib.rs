//! Contracts of ssbh_lib / ssbh_write / ssbh_data, one module (and cargo feature) per property.
#![allow(clippy::all)]
#![cfg_attr(kani, feature(allocator_api))]
pub mod env;
#[cfg(all(not(kani), any(feature = "a02", feature = "a03", feature = "a04", feature = "a05", feature = "a06")))]
pub mod anim;
#[cfg(not(kani))]
pub mod mem;
#[cfg(all(not(kani), any(feature = "m01", feature = "m02", feature = "m03", feature = "m04", feature = "m05", feature = "g01", feature = "g02")))]
pub mod mesh;
pub mod nd;
#[cfg(feature = "c07")]
pub mod tables;
#[cfg(not(kani))]
pub mod walk;

/// Declares contracts. `kani` contracts are Kani proof harnesses (and replayable natively);
/// `native` contracts are only executed on generated inputs (bounded stand-ins).
macro_rules! contracts {
    (kani { $( $(#[$m:meta])* fn $name:ident() $body:block )* } native { $( $(#[$nm:meta])* fn $nname:ident() $nbody:block )* }) => {
        $( #[cfg_attr(kani, kani::proof)] $(#[$m])* pub fn $name() $body )*
        $( #[cfg(not(kani))] $(#[$nm])* pub fn $nname() $nbody )*
        #[cfg(not(kani))]
        #[allow(unused_doc_comments)]
        pub const LIST: &[(&str, &str, fn())] = &[
            $( $(#[$m])* ("kani", concat!(module_path!(), "::", stringify!($name)), $name as fn()), )*
            $( $(#[$nm])* ("native", concat!(module_path!(), "::", stringify!($nname)), $nname as fn()), )*
        ];
    };
}
pub(crate) use contracts;

macro_rules! modules {
    ($($m:ident = $f:literal),*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub const CONTRACTS: &[&[(&str, &str, fn())]] = &[ $( #[cfg(feature = $f)] $m::LIST, )* ];
    };
}
modules!(c01 = "c01", c02 = "c02", c03 = "c03", c04 = "c04", c05 = "c05", c06 = "c06", c07 = "c07", a01 = "a01", a02 = "a02", a03 = "a03", a04 = "a04", a05 = "a05", a06 = "a06", m01 = "m01", m02 = "m02", m03 = "m03", m04 = "m04", m05 = "m05", t01 = "t01", k01 = "k01", g01 = "g01", g02 = "g02", s01 = "s01", j01 = "j01", f01 = "f01");
