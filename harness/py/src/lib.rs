#![allow(dead_code, unused_imports, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/py/lib.rs"));
#[path = "../../core/src/util.rs"]
mod util;
#[path = "../../app/src/fs.rs"]
pub mod fs;
#[path = "../../app/src/disk.rs"]
pub mod disk;
pub mod hx;
pub mod array;
pub mod colors;
