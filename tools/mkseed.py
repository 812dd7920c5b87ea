#!/usr/bin/env python3
"""mkseed.py BUGFILE [ID...]: tries planted bugs in a scratch copy and writes seeded/<id>/.

A bug file is python: BUGS = [dict(id, property, file, edits=[(old, new)...], needs, breaks, demo)].
"""
import json, os, shutil, subprocess, sys, runpy
V = os.environ.get('VOUT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$PWD/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
whasm = { path = "$PWD/whasm" }
[workspace]
T
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH"
cargo run --quiet --offline --manifest-path "$tmp/Cargo.toml" --target-dir "$tmp/target"
'''
TOOL = '''#!/bin/bash
# Builds the tool in the current directory and runs it on files in a scratch directory.
set -u
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH"
cargo build --quiet --offline --manifest-path "$PWD/parser/Cargo.toml" --target-dir "$tmp/target" || exit 2
tool="$tmp/target/debug/parser"
mkdir "$tmp/files" && cd "$tmp/files" || exit 2
# wasm NAME [ESCAPES]: a module with these bytes after the preamble
wasm() { printf '\\0asm\\1\\0\\0\\0%b' "${2:-}" > "./$1"; }
# accepts ARGS... / rejects ARGS...
accepts() { "$tool" "$@" > out 2>&1 || { echo "status $? for $*"; exit 1; }; }
rejects() { "$tool" "$@" > out 2>&1 && { echo "status 0 for $*"; exit 1; }; [ -s out ] || { echo "no message for $*"; exit 1; }; }
'''
HEAD = '''#![allow(unused)]
use whasm::binary::{Byte, CompactVec, Consume, Sized as Sz, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
use whasm::structure::{idx, instr::*, module, ty};
use whasm::validation::{module::result::External, ValidationEntry};

fn parses(b: &[u8]) -> bool { b.iter().copied().parse::<module::Module>().is_ok() }
fn valid(b: &[u8]) -> bool { b.iter().copied().parse::<module::Module>().expect("parses").validate().is_ok() }
fn sec(id: u8, body: &[u8]) -> Vec<u8> { assert!(body.len() < 128); let mut v = vec![id, body.len() as u8]; v.extend_from_slice(body); v }
fn wasm(secs: &[Vec<u8>]) -> Vec<u8> { let mut v = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]; for s in secs { v.extend_from_slice(s) } v }
/// one code entry
fn code(locals: &[u8], body: &[u8]) -> Vec<u8> { let mut v = locals.to_vec(); v.extend_from_slice(body); v.push(0x0b); assert!(v.len() < 128); let mut o = vec![v.len() as u8]; o.extend(v); o }
'''
scratch = '/tmp/seedscratch'
if os.path.exists(scratch):
    shutil.rmtree(scratch)
subprocess.check_call(['cp', '-a', '/repo', scratch])
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
orig = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
def run(cmd, cwd=scratch):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return p.returncode, p.stdout.decode('utf8', 'replace')
for b in bugs:
    if only and b['id'] not in only:
        continue
    subprocess.check_call(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
    files = {}
    ok = True
    for e in b['edits']:
        f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
        p = os.path.join(scratch, f if f.startswith('parser/') else 'whasm/src/' + f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT MATCHES', s.count(old), repr(old)); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        continue
    diff = subprocess.check_output(['git', '-C', scratch, 'diff']).decode()
    # lines removed have to be lines of the original repository
    for l in diff.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            rc, o = run(['git', 'grep', '-qF', '--', l[1:].strip(), orig], '/repo')
            if rc: print(b['id'], 'NOT AN ORIGINAL LINE', l)
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(TOOL + b['tooldemo'].strip('\n') + '\n' if 'tooldemo' in b else DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    if 'demo' in b:
        open(d + '/main.rs', 'w').write(HEAD + '\nfn main() {\n' + b['demo'].strip('\n') + '\n}\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    rc, o = run(['cargo', 'test', '--workspace', '--offline', '--quiet'])
    tests = 'tests ok' if rc == 0 else 'TESTS FAIL'
    rc1, o1 = run(['bash', d + '/demo.sh'])
    rc0, o0 = run(['bash', d + '/demo.sh'], '/repo')
    good = rc == 0 and rc1 != 0 and rc0 == 0
    print(b['id'], b['property'], 'OK' if good else 'BAD', tests, 'patched', rc1, 'clean', rc0)
    if not good:
        print(o[-1200:] if rc else ''); print(o0[-1500:] if rc0 else ''); shutil.rmtree(d)
    elif 'demo' in b and 'panicked' not in o1: print(o1[-500:])
shutil.rmtree(scratch)
