//! The C library's file functions, over one file held in memory.  The symbols below take the
//! place of libc's when the harness library is linked (the executor resolves them here too).
use std::ffi::{c_char, c_int, c_void};

pub const FD: c_int = 1000;
pub const EIO: i32 = 5;
pub const EINTR: i32 = 4;
pub const ENOENT: i32 = 2;
pub struct Fs {
    pub exists: bool,
    pub data: Vec<u8>,
    pub pos: usize,
    pub is_open: bool,
    pub opened: u32,
    pub created: u32,
    pub closed: u32,
    /// calls of open, read, write and lseek so far; the one that fails, how
    pub calls: u32,
    pub fail_at: u32,
    pub failed: bool,
    pub intr_at: u32,
    /// reads and writes that may transfer less than asked
    pub short: u32,
    pub wrong_name: bool,
    pub name: &'static [u8],
    pub save_name: &'static [u8],
    pub printed: u32,
}
pub static mut FS: Fs = Fs { exists: false, data: Vec::new(), pos: 0, is_open: false, opened: 0, created: 0, closed: 0, calls: 0,
    fail_at: 0, failed: false, intr_at: 0, short: 0, wrong_name: false, name: b"", save_name: b"", printed: 0 };
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs { unsafe { &mut FS } }
extern "C" { fn __errno_location() -> *mut c_int; }
fn err(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
impl Fs {
    fn step(&mut self) -> Option<isize> {
        self.calls += 1;
        if self.calls == self.fail_at {
            self.failed = true;
            return Some(err(EIO));
        }
        if self.calls == self.intr_at {
            self.intr_at = 0;
            return Some(err(EINTR));
        }
        None
    }
    fn part(&mut self, n: usize) -> usize {
        if self.short > 0 && n > 1 {
            self.short -= 1;
            return nd::pick(1, n as u32) as usize;
        }
        n
    }
}
unsafe fn is(p: *const c_char, s: &[u8]) -> bool {
    for i in 0..s.len() {
        if *p.add(i) as u8 != s[i] {
            return false;
        }
    }
    *p.add(s.len()) == 0
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let f = fs();
    f.opened += 1;
    if let Some(e) = f.step() {
        return e as c_int;
    }
    let create = flags & 0o100 != 0;
    if !is(path, if create { f.save_name } else { f.name }) {
        f.wrong_name = true;
        return err(ENOENT) as c_int;
    }
    if !create && !f.exists {
        return err(ENOENT) as c_int;
    }
    if create {
        f.created += 1;
        f.exists = true;
    }
    if flags & 0o1000 != 0 {
        f.data = Vec::new();
    }
    f.pos = 0;
    f.is_open = true;
    FD
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let f = fs();
    if fd != FD || !f.is_open {
        return err(9);
    }
    if let Some(e) = f.step() {
        return e;
    }
    let left = if f.pos < f.data.len() { f.data.len() - f.pos } else { 0 };
    let n = f.part(left.min(n));
    for i in 0..n {
        *(buf as *mut u8).add(i) = f.data[f.pos + i];
    }
    f.pos += n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let f = fs();
    if fd == 1 || fd == 2 {
        if fd == 1 {
            f.printed += 1;
        }
        return n as isize;
    }
    if fd != FD || !f.is_open {
        return err(9);
    }
    if let Some(e) = f.step() {
        return e;
    }
    let n = f.part(n);
    for i in 0..n {
        let b = *(buf as *const u8).add(i);
        if f.pos + i < f.data.len() {
            f.data[f.pos + i] = b;
        } else {
            f.data.push(b);
        }
    }
    f.pos += n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let f = fs();
    if fd != FD || !f.is_open {
        return err(9) as i64;
    }
    let i = std::mem::take(&mut f.intr_at); // (a seek is never interrupted)
    let e = f.step();
    if f.calls != i {
        f.intr_at = i;
    }
    if let Some(e) = e {
        return e as i64;
    }
    f.pos = match whence { 0 => off, 1 => f.pos as i64 + off, _ => f.data.len() as i64 + off } as usize;
    f.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let f = fs();
    if fd == FD {
        f.is_open = false;
        f.closed += 1;
    }
    0
}
/// called by the executor in place of std's print machinery
#[no_mangle]
pub extern "C" fn hx_printed() { fs().printed += 1; }
/// (several uses keep the print functions from being inlined, where the executor could not see them)
#[no_mangle]
pub extern "C" fn keep_print() {
    println!("{}", nd::u32());
    eprintln!("{}", nd::u32());
}
#[no_mangle]
pub extern "C" fn keep_print2() {
    println!("{} {}", nd::u32(), nd::u32());
    eprintln!("{} {}", nd::u32(), nd::u32());
}
/// the text of an error is of no interest
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: c_int, buf: *mut c_char, len: usize) -> c_int {
    if len > 0 {
        *buf = 0;
    }
    0
}
