#![feature(try_trait_v2)]
#![cfg_attr(kani, feature(try_trait_v2_residual))]
#![recursion_limit = "1024"]
//! Contract harnesses. One module per property (cargo feature of the same name).
#![allow(dead_code, unused_imports)]
#[macro_use]
pub mod nd;
#[macro_use]
pub mod cx;
#[macro_use]
pub mod rec;
pub mod contracts;
pub mod spy;

macro_rules! props { ($($f:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn registry() -> Vec<(&'static str, fn())> {
        let mut v: Vec<(&'static str, fn())> = Vec::new();
        $( #[cfg(feature = $f)] v.extend_from_slice($m::REGISTRY); )*
        v
    }
} }
props!("p01" p01, "p02" p02, "p03" p03, "p04" p04, "p05" p05, "p06" p06, "p07" p07, "p08" p08, "p09" p09, "p10" p10, "p11" p11, "p12" p12, "p13" p13, "p14" p14, "p15" p15, "p16" p16, "p17" p17, "p18" p18, "p19" p19, "p20" p20, "p21" p21, "p22" p22, "p23" p23, "p24" p24, "p25" p25, "p26" p26, "p27" p27);
