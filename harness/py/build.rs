//! A copy of the python module's source, compiled with stand-ins of pyo3 and numpy.
use std::{env, fs, path::Path};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap().path();
        let there = to.join(e.file_name().unwrap());
        if e.is_dir() {
            copy(&e, &there);
        } else {
            let mut out = String::new();
            for l in fs::read_to_string(&e).unwrap().lines() {
                let t = l.trim_start();
                if !t.starts_with("//!") && !t.starts_with("#![") {
                    out += l;
                }
                out.push('\n');
            }
            fs::write(there, out).unwrap();
        }
    }
}

fn main() {
    println!("cargo:rustc-link-arg=-Wl,-Bsymbolic");
    println!("cargo:rerun-if-changed=/repo/d10-python/src");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("py");
    let _ = fs::remove_dir_all(&to);
    copy(Path::new("/repo/d10-python/src"), &to);
    // the modules of the crate root are found beside the copy
    let root = to.join("lib.rs");
    let mut text = String::new();
    for l in fs::read_to_string(&root).unwrap().lines() {
        let t = l.trim_start();
        let m = t.strip_prefix("pub(crate) ").or(t.strip_prefix("pub ")).unwrap_or(t);
        if let Some(m) = m.strip_prefix("mod ").and_then(|m| m.trim_end().strip_suffix(';')) {
            for n in [format!("{}.rs", m), format!("{}/mod.rs", m)] {
                if to.join(&n).exists() {
                    text += &format!("#[path = \"{}\"] ", to.join(&n).display());
                }
            }
        }
        text += l;
        text.push('\n');
    }
    fs::write(root, text).unwrap();
}
