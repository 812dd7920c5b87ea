//! Runs the command-line tool. An input is one byte for the shape of the argument list, then the
//! contents of the file.
use crate::api;
use crate::rng::Rng;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::process::{Command, Output};
use std::sync::OnceLock;

pub const CLI: &str = "cli";
pub const SHAPES: u8 = 20;
pub static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

const VALID: &[u8] = b"\0asm\x01\0\0\0";

/// work/ptarget next to work/starget
pub fn tool() -> PathBuf {
    let me = std::env::current_exe().unwrap();
    me.parent().unwrap().parent().unwrap().parent().unwrap().join("ptarget/release/parser")
}

/// A directory of this process, made anew.
pub fn scratch() -> PathBuf {
    let base = SCRATCH.get().cloned().unwrap_or_else(std::env::temp_dir);
    let d = base.join(format!("cli.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn run(dir: &PathBuf, args: &[OsString]) -> Output {
    Command::new(tool()).args(args).current_dir(dir).stdin(std::process::Stdio::null()).output().expect("the tool runs")
}

/// The argument list, and whether its status depends on the file `name` or has to be non-zero.
fn shape(k: u8, valid: bool, dir: &PathBuf) -> (Vec<&'static str>, &'static str, bool) {
    // a second file whose verdict is the opposite
    let _ = std::fs::write(dir.join("other"), if valid { &b"junk"[..] } else { VALID });
    match k {
        0 => (vec!["f"], "f", true),
        1 => (vec!["-p", "f"], "f", true),
        2 => (vec!["f", "-p"], "f", true),
        3 => (vec!["--print", "f"], "f", true),
        4 => (vec!["f", "--print"], "f", true),
        5 => (vec!["-p", "f", "--print", "-p"], "f", true),
        6 => (vec![], "f", false),
        7 => (vec!["-p"], "f", false),
        8 => (vec![""], "f", false),
        9 => (vec!["-p", ""], "f", false),
        10 => (vec!["missing"], "f", false),
        11 => (vec!["missing", "--print"], "f", false),
        12 => (vec!["."], "f", false),
        13 => (vec!["other", "f"], "f", true),
        14 => (vec!["other", "-p", "f"], "f", true),
        15 => (vec!["-print"], "-print", true),
        16 => (vec!["-P"], "-P", true),
        17 => (vec!["./-p"], "-p", true),
        18 => (vec!["a b.wasm", "-p"], "a b.wasm", true),
        _ => (vec!["-p", "\u{e9}\u{1F600}"], "\u{e9}\u{1F600}", true),
    }
}

/// None: as it should be.
pub fn judge(b: &[u8]) -> (bool, Option<String>) {
    let (k, c) = match b.split_first() { Some((k, c)) => (k % SHAPES, c), None => return (false, None) };
    let r = api::reference::run("module", c);
    if r.panic { return (false, None) } // run-length expansion
    let valid = r.ok && matches!(api::reference::validate(c), Some((_, o)) if o.ok);
    let d = scratch();
    let (args, name, depends) = shape(k, valid, &d);
    std::fs::write(d.join(name), c).unwrap();
    let want = depends && valid;
    let o = run(&d, &args.iter().map(|a| OsString::from(*a)).collect::<Vec<_>>());
    let _ = std::fs::remove_dir_all(&d);
    let what = || format!("arguments {:?}, {} file", args, if valid { "valid" } else { "invalid" });
    if want != o.status.success() { return (want, Some(format!("{}: {}", what(), o.status))) }
    if !want && o.stdout.is_empty() && o.stderr.is_empty() { return (want, Some(format!("{}: {}, but no message", what(), o.status))) }
    (want, None)
}

/// A valid file whose name is not Unicode.
pub fn bytes_name() -> bool {
    let d = scratch();
    let name = OsString::from_vec(vec![b'f', 0xFF]);
    std::fs::write(d.join(&name), VALID).unwrap();
    let o = run(&d, &[name]);
    let _ = std::fs::remove_dir_all(&d);
    o.status.success()
}

/// A valid file.
pub fn accepts(c: &[u8]) -> bool {
    let d = scratch();
    std::fs::write(d.join("f"), c).unwrap();
    let o = run(&d, &["f".into()]);
    let _ = std::fs::remove_dir_all(&d);
    o.status.success()
}

pub fn with_shape(c: &[u8], k: u8) -> Vec<u8> {
    let mut b = vec![k];
    b.extend_from_slice(c);
    b
}

/// File contents of different classes: cut off, followed by junk, long, and so on.
pub fn contents(modules: &[Vec<u8>], r: &mut Rng) -> Vec<Vec<u8>> {
    let mut v = vec![vec![], VALID.to_vec(), VALID[..4].to_vec(), VALID[..7].to_vec(), b"junk".to_vec(), vec![0xFF; 40]];
    for n in [4095usize, 4096, 8191, 8192, 32768, 65535, 65536, 1 << 20] {
        let mut b = VALID.to_vec();
        b.push(0);
        crate::enc::uleb(n as u64, &mut b);
        b.push(1);
        b.extend(vec![0x61; n - 1]);
        v.push(b.clone());
        v.push([&b[..], &[1, 1, 0]].concat());
        b.push(0xFF);
        v.push(b);
    }
    // a valid module cut to a round length
    for m in modules {
        v.push(m.clone());
        v.push(m[..m.len() - 1 - r.below(m.len() - 8)].to_vec());
        v.push([&m[..], &[0x0C][..]].concat());
        v.push([&m[..], &[0, 1, 0][..]].concat());
    }
    v
}
