//! A copy of the command line program whose arguments and exit code the harness supplies.
use std::{env, fs, path::Path};

fn word(c: Option<char>) -> bool { c.map_or(false, |c| c.is_alphanumeric() || c == '_') }

/// `from::` at the beginning of a path becomes `to::`
fn root(l: &str, from: &str, to: &str) -> String {
    let from = format!("{}::", from);
    let mut out = String::new();
    let mut rest = l;
    while let Some(i) = rest.find(&from) {
        let before = rest[..i].chars().last();
        out += &rest[..i];
        if word(before) || before == Some(':') && !out.trim_end_matches(':').is_empty() && word(out.trim_end_matches(':').chars().last()) {
            out += &from;
        } else {
            while out.ends_with(':') {
                out.pop();
            }
            out += to;
            out += "::";
        }
        rest = &rest[i + from.len()..];
    }
    out + rest
}

fn copy(from: &Path, to: &Path, top: bool) {
    let mut out = String::new();
    for l in fs::read_to_string(from).unwrap().lines() {
        let t = l.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        let l = root(&root(l, "std", "crate::fake::std"), "crate", "crate::cli::program");
        let l = l.replace("crate::cli::program::fake::std", "crate::fake::std");
        let t = l.trim_start();
        if t.starts_with("mod ") || t.starts_with("pub mod ") || t.starts_with("pub(crate) mod ") {
            if let Some(m) = l.trim_end().strip_suffix(';') {
                let m = m.rsplit(' ').next().unwrap().to_string();
                let here = if top || from.ends_with("mod.rs") { from.parent().unwrap().to_path_buf() } else { from.with_extension("") };
                let there = if top || to.ends_with("mod.rs") { to.parent().unwrap().to_path_buf() } else { to.with_extension("") };
                for n in [format!("{}.rs", m), format!("{}/mod.rs", m)] {
                    if here.join(&n).exists() {
                        fs::create_dir_all(there.join(&n).parent().unwrap()).unwrap();
                        copy(&here.join(&n), &there.join(&n), false);
                        if top {
                            out += &format!("#[path = \"{}\"] ", there.join(&n).display());
                        }
                    }
                }
            }
        }
        out += &l;
        out.push('\n');
    }
    fs::write(to, out).unwrap();
}

fn main() {
    println!("cargo:rustc-link-arg=-Wl,-Bsymbolic");
    println!("cargo:rerun-if-changed=/repo/d10-cli/src");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    copy(Path::new("/repo/d10-cli/src/main.rs"), &Path::new(&out).join("main.rs"), true);
}
