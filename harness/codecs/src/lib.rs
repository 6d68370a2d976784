#![allow(dead_code, unused_imports)]
#[path = "../../core/src/util.rs"]
mod util;
pub mod enc;
pub mod dec;
pub mod fmt;
pub mod io;
