//! What the command line program gets from the system.
pub mod std {
    pub use ::std::*;
    pub use super::{env, process};
}
pub mod env {
    use ::std::ffi::OsString;
    pub use ::std::env::*;
    pub static mut ARGS: Vec<OsString> = Vec::new();
    #[allow(static_mut_refs)]
    pub fn args_os() -> ::std::vec::IntoIter<OsString> { unsafe { ARGS.clone().into_iter() } }
    #[allow(static_mut_refs)]
    pub fn args() -> ::std::vec::IntoIter<String> {
        unsafe { ARGS.clone() }.into_iter().map(|s| s.into_string().unwrap()).collect::<Vec<_>>().into_iter()
    }
}
pub mod process {
    pub use ::std::process::*;
    pub static mut AT_EXIT: fn(i32) = nothing;
    fn nothing(_: i32) {}
    pub fn exit(code: i32) -> ! {
        unsafe { AT_EXIT(code) };
        nd::done()
    }
    /// what main may return
    pub trait Code {
        fn code(self) -> i32;
    }
    impl Code for () {
        fn code(self) -> i32 { 0 }
    }
    impl Code for ExitCode {
        fn code(self) -> i32 { if self == ExitCode::SUCCESS { 0 } else { 1 } }
    }
    impl<T: Code, E> Code for Result<T, E> {
        fn code(self) -> i32 { self.map_or(1, |v| v.code()) }
    }
}
