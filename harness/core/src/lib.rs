#![allow(dead_code, unused_imports)]
mod util;
pub mod adjust;
pub mod geom;
pub mod colour;
