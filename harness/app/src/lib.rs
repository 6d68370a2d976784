#![allow(dead_code, unused_imports)]
#[path = "../../core/src/util.rs"]
mod util;
pub mod fs;
pub mod disk;
pub mod fake;
pub mod cmd;
pub mod cli;
pub mod facade;
