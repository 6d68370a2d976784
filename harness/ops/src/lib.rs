#![allow(dead_code, unused_imports)]
#[path = "../../core/src/util.rs"]
mod util;
pub mod geom;
pub mod filt;
pub mod noise;
pub mod tone;
pub mod names;
