//! Copies of the programs made by build.sh, `std` being `mstd`, and `osmgraphing` being `facade`.
#[path = "../../build/gen/osmgraphing/mod.rs"]
pub mod osmgraphing_bin;
#[path = "../../build/gen/multi_ch.rs"]
pub mod multi_ch_bin;
