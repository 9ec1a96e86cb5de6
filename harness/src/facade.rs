//! The library, its module that starts other programs being a copy whose `std` is `mstd`.
pub use osmgraphing::*;
#[path = "../../build/gen/multi_ch_constructor/mod.rs"]
pub mod multi_ch_constructor;
