//! Looks for an input on which the tree under check disagrees with the proved reference.
//!
//! search run PROP SECONDS SEED WORKERS DIR     the parent; prints one json object
//! search worker PROP SECONDS SEED START STEP STATE OUT
//! search one PROP KIND FILE                    judge a single input; exit 10 on a disagreement
//! search dump SEED COUNT                       inputs and what the tree under check makes of them
mod api;
mod cases;
mod cli;
mod enc;
mod gen;
mod rng;

use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

const LIMIT: usize = 64 << 20;
static ARMED: AtomicBool = AtomicBool::new(false);
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static STATE: OnceLock<std::fs::File> = OnceLock::new();

struct Counting;
fn note(size: usize) {
    if ARMED.load(Relaxed) {
        let c = CUR.fetch_add(size, Relaxed) + size;
        PEAK.fetch_max(c, Relaxed);
        if size > LIMIT {
            ARMED.store(false, Relaxed);
            if let Some(f) = STATE.get() { let _ = f.write_at(&[1], 9); }
            std::process::abort();
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(Relaxed) { let _ = CUR.fetch_update(Relaxed, Relaxed, |c| Some(c.saturating_sub(l.size()))); }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n.saturating_sub(l.size())); System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
}
#[global_allocator]
static A: Counting = Counting;

pub fn arm() { CUR.store(0, Relaxed); PEAK.store(0, Relaxed); ARMED.store(true, Relaxed) }
pub fn disarm() -> usize { ARMED.store(false, Relaxed); PEAK.load(Relaxed) }

/// the phase is visible to the parent if this process dies
fn phase(p: u8) { if let Some(f) = STATE.get() { let _ = f.write_at(&[p, 0], 8); } }

const STRICT: &[&str] = &["C05", "C06", "C07", "C08", "C12", "C14"];
const NOT_LOCAL: &[&str] = &["module", "consume", "name_consume", "arr0"];

enum Verdict { Same(bool), Differs(String) }

fn cut(s: &str) -> String { s.chars().take(600).collect() }

fn judge(prop: &str, kind: &str, b: &[u8]) -> Verdict {
    if kind == cli::CLI {
        return match cli::judge(b) { (_, Some(w)) => Verdict::Differs(w), (ok, None) => Verdict::Same(ok) }
    }
    if kind == cases::VALIDATE {
        phase(1);
        let r = match std::panic::catch_unwind(|| api::reference::validate(b)) { Ok(r) => r, Err(_) => return Verdict::Same(false) };
        phase(2);
        let n = api::new::validate(b);
        let ((rm, ro), (nm, no)) = match (r, n) { (Some(r), Some(n)) => (r, n), _ => return Verdict::Same(false) };
        if no.panic && !ro.panic { return Verdict::Differs("validation panics".into()) }
        if prop == "C04" { return Verdict::Same(ro.ok) }
        if rm != nm { return Verdict::Same(false) } // a parsing matter
        if ro.ok != no.ok { return Verdict::Differs(format!("the module is {} but validation {} it", if ro.ok { "valid" } else { "invalid" }, if no.ok { "accepts" } else { "rejects" })) }
        if ro.ok && ro.text != no.text { return Verdict::Differs(format!("external types: expected {} got {}", cut(&ro.text), cut(&no.text))) }
        return Verdict::Same(ro.ok)
    }
    phase(1);
    let r = api::reference::run(kind, b);
    if r.panic { return Verdict::Same(false) } // run-length expansion limit
    phase(2);
    let n = api::new::run(kind, b);
    if n.panic && !r.panic { return Verdict::Differs("reading panics".into()) }
    if prop == "C03" {
        if n.peak > 4 * r.peak + (64 << 10) { return Verdict::Differs(format!("reading reserves {} bytes for {} bytes of input (reference: {})", n.peak, b.len(), r.peak)) }
        return Verdict::Same(r.ok)
    }
    // whether the value is the right one is not a matter of locality
    if prop == "C15" && r.ok && !n.ok && !NOT_LOCAL.contains(&kind) && api::new::run(kind, &b[..b.len() - r.rest]).ok { return Verdict::Differs("without the bytes after it, the item is read".into()) }
    if prop == "C15" && (r.ok != n.ok || r.text != n.text) && (NOT_LOCAL.contains(&kind) || !n.ok) { return Verdict::Same(r.ok) }
    if prop != "C15" && r.ok != n.ok { return Verdict::Differs(format!("expected {} {} got {} {}", if r.ok { "success" } else { "error" }, cut(&r.text), if n.ok { "success" } else { "error" }, cut(&n.text))) }
    if prop != "C15" && r.ok && (r.text != n.text) { return Verdict::Differs(format!("expected value {} got {}", cut(&r.text), cut(&n.text))) }
    if r.ok && n.ok && r.rest != n.rest { return Verdict::Differs(format!("expected {} bytes left, got {}", r.rest, n.rest)) }
    if !r.ok && r.text != n.text && STRICT.contains(&prop) { return Verdict::Differs(format!("expected error {} got {}", cut(&r.text), cut(&n.text))) }
    if prop == "C15" && n.ok && !NOT_LOCAL.contains(&kind) {
        let used = b.len() - n.rest;
        if used == 0 && !kind.starts_with("arr0") && kind != "sized_arr0" { return Verdict::Differs("a successful read consumed nothing".into()) }
        for tail in [&[][..], &[0x00][..], &[0x80, 0xFF, 0x0B, 0x05, 0x00, 0x7F][..], &[0x0B, 0x0B, 0x00][..]] {
            let mut c = b[..used].to_vec();
            c.extend_from_slice(tail);
            let m = api::new::run(kind, &c);
            if !m.ok || m.text != n.text || m.rest != tail.len() { return Verdict::Differs(format!("followed by {:02x?} instead, the read gives {} with {} bytes left", tail, cut(&m.text), m.rest)) }
        }
    }
    Verdict::Same(r.ok)
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn q(s: &str) -> String { format!("{:?}", s.chars().filter(|c| !c.is_control() && c.is_ascii()).collect::<String>()) }

fn shrink(prop: &str, kind: &str, mut b: Vec<u8>) -> Vec<u8> {
    let t = Instant::now();
    let bad = |b: &[u8]| matches!(judge(prop, kind, b), Verdict::Differs(_));
    let mut step = (b.len() / 2).max(1);
    while step > 0 && t.elapsed() < Duration::from_secs(5) {
        let mut i = 0;
        let mut any = false;
        while i + step <= b.len() {
            let mut c = b.clone();
            c.drain(i..i + step);
            if bad(&c) { b = c; any = true } else { i += step }
        }
        if !any || step > 1 { step /= 2 }
    }
    b
}

fn worker(a: &[String]) -> i32 {
    let (prop, secs, seed, start, step) = (&a[0], a[1].parse::<f64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let st = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&a[5]).unwrap();
    let _ = STATE.set(st);
    let st = STATE.get().unwrap();
    if let Some(d) = std::path::Path::new(&a[5]).parent() { let _ = cli::SCRATCH.set(d.to_path_buf()); }
    std::panic::set_hook(Box::new(|_| ()));
    let sys = cases::systematic(prop);
    let t0 = Instant::now();
    let (mut n, mut ok) = (0u64, 0u64);
    let mut i = start;
    let mut kinds: std::collections::BTreeSet<&'static str> = Default::default();
    while t0.elapsed().as_secs_f64() < secs {
        phase(0);
        let (kind, b) = if i % 2 == 0 && ((i / 2) as usize) < sys.len() {
            sys[(i / 2) as usize].clone()
        } else {
            let mut r = Rng::new(seed, i);
            cases::random(prop, &mut r)
        };
        kinds.insert(kind);
        let mut rec = i.to_le_bytes().to_vec();
        rec.extend([0u8, 0]);
        let k = kind.as_bytes();
        rec.push(k.len() as u8);
        rec.extend_from_slice(k);
        rec.extend((b.len() as u32).to_le_bytes());
        rec.extend_from_slice(&b);
        let _ = st.write_at(&rec, 0);
        match judge(prop, kind, &b) {
            Verdict::Same(o) => { n += 1; if o { ok += 1 } }
            Verdict::Differs(_) => {
                let b = shrink(prop, kind, b);
                let why = match judge(prop, kind, &b) { Verdict::Differs(w) => w, _ => "not reproducible".into() };
                std::fs::write(&a[6], format!("{{\"kind\": {}, \"input\": {}, \"why\": {}}}", q(kind), q(&hex(&b)), q(&why))).unwrap();
                println!("{} {} {}", n, ok, kinds.len());
                return 10
            }
        }
        i += step;
    }
    println!("{} {} {} {}", n, ok, kinds.len(), (sys.len() as u64).min((n * step) / 2));
    0
}

fn read_state(path: &str) -> Option<(u64, u8, u8, String, Vec<u8>)> {
    let d = std::fs::read(path).ok()?;
    if d.len() < 11 { return None }
    let i = u64::from_le_bytes(d[..8].try_into().ok()?);
    // it may be in the middle of being written
    let kl = d[10] as usize;
    let kind = String::from_utf8(d.get(11..11 + kl)?.to_vec()).ok()?;
    let p = 11 + kl;
    let n = u32::from_le_bytes(d.get(p..p + 4)?.try_into().ok()?) as usize;
    Some((i, d[8], d[9], kind, d.get(p + 4..p + 4 + n)?.to_vec()))
}

struct W { child: std::process::Child, state: String, out: String, last: u64, since: Instant }

fn run(a: &[String]) -> i32 {
    let (prop, secs, seed, workers, dir) = (&a[0], a[1].parse::<f64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), &a[4]);
    let me = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let spawn = |w: u64, start: u64| -> W {
        let state = format!("{}/state.{}", dir, w);
        let out = format!("{}/out.{}", dir, w);
        let left = (secs - t0.elapsed().as_secs_f64()).max(0.0);
        let child = std::process::Command::new(&me).args(["worker", prop, &left.to_string(), &seed.to_string(), &start.to_string(), &workers.to_string(), &state, &out])
            .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
        W { child, state, out, last: u64::MAX, since: Instant::now() }
    };
    let mut ws: Vec<Option<W>> = (0..workers).map(|w| Some(spawn(w, w))).collect();
    let (mut n, mut ok, mut kinds, mut sys, mut skipped) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut found: Option<String> = None;
    while ws.iter().any(|w| w.is_some()) && found.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for wi in 0..workers {
            let Some(w) = &mut ws[wi as usize] else { continue };
            let st = w.child.try_wait().unwrap();
            let mut dead = false;
            let mut stalled = false;
            match st {
                Some(s) => {
                    let mut o = String::new();
                    use std::io::Read;
                    let _ = w.child.stdout.take().unwrap().read_to_string(&mut o);
                    let v: Vec<u64> = o.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    if v.len() >= 3 { n += v[0]; ok += v[1]; kinds = kinds.max(v[2]) }
                    if v.len() >= 4 { sys = sys.max(v[3]) }
                    if s.code() == Some(10) { found = std::fs::read_to_string(&w.out).ok(); break }
                    if s.code() == Some(0) { ws[wi as usize] = None; continue }
                    dead = true;
                }
                None => {
                    if let Some((i, ..)) = read_state(&w.state) {
                        if i != w.last { w.last = i; w.since = Instant::now() } else if w.since.elapsed() > Duration::from_secs(15) { stalled = true; let _ = w.child.kill(); let _ = w.child.wait(); }
                    }
                }
            }
            if dead || stalled {
                let s = read_state(&w.state);
                match s {
                    Some((i, ph, alloc, kind, b)) => {
                        // a machine short of time or memory is not a fault of the program: once more on its own
                        let again = |me: &std::path::Path| {
                            let f = format!("{}/stalled", dir);
                            let _ = std::fs::write(&f, hex(&b));
                            let Ok(mut c) = std::process::Command::new(me).args(["one", prop, &kind, &f]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() else { return true };
                            let t = Instant::now();
                            while t.elapsed() < Duration::from_secs(60) {
                                if let Ok(Some(s)) = c.try_wait() { return s.code() != Some(0) }
                                std::thread::sleep(Duration::from_millis(50));
                            }
                            let _ = c.kill();
                            let _ = c.wait();
                            true
                        };
                        if ph == 2 && (alloc == 1 || again(&me)) {
                            let why = if alloc == 1 { "more than 64 MiB is reserved at once" } else if stalled { "does not finish within 60 s" } else { "the process is killed (stack overflow or abort)" };
                            if alloc == 0 || prop == "C03" || prop == "C01" || (prop == "C08" && kind.starts_with("cvec")) {
                                found = Some(format!("{{\"kind\": {}, \"input\": {}, \"why\": {}}}", q(&kind), q(&hex(&b)), q(why)));
                                break
                            }
                        }
                        skipped += 1;
                        if t0.elapsed().as_secs_f64() < secs { ws[wi as usize] = Some(spawn(wi, i + workers)) } else { ws[wi as usize] = None }
                    }
                    None => { ws[wi as usize] = None }
                }
            }
        }
    }
    for w in ws.iter_mut().flatten() { let _ = w.child.kill(); let _ = w.child.wait(); }
    println!("{{\"cases\": {}, \"accepted\": {}, \"kinds\": {}, \"systematic\": {}, \"skipped\": {}, \"seconds\": {:.2}, \"found\": {}}}", n, ok, kinds, sys, skipped, t0.elapsed().as_secs_f64(), found.clone().unwrap_or("null".into()));
    if found.is_some() { 10 } else { 0 }
}

/// One line per input: kind, bytes, and what the tree under check makes of them.
fn dump(a: &[String]) -> i32 {
    let (seed, count) = (a[0].parse::<u64>().unwrap(), a[1].parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    for p in 1..=24 {
        let prop = format!("C{:02}", p);
        let sys = cases::systematic(&prop);
        let mut v: Vec<_> = sys.iter().step_by(sys.len() / count + 1).cloned().collect();
        v.extend((0..count as u64).map(|i| cases::random(&prop, &mut Rng::new(seed, i))));
        for (kind, b) in v {
            // run-length expansion limit
            if b.len() > 1 << 16 || std::panic::catch_unwind(|| if kind == cases::VALIDATE { api::reference::run("module", &b) } else { api::reference::run(kind, &b) }).map_or(true, |o| o.panic) { continue }
            println!("{}\t{}\t{}", kind, hex(&b), api::new::line(kind, &b));
        }
    }
    0
}

fn return_if(ok: bool) {
    if !ok { std::process::exit(1) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = match a[1].as_str() {
        "run" => run(&a[2..]),
        "worker" => std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(&a[2..])).unwrap().join().unwrap_or(11),
        "dump" => std::thread::Builder::new().stack_size(256 << 20).spawn(move || dump(&a[2..])).unwrap().join().unwrap_or(11),
        "one" => {
            let b = unhex(std::fs::read_to_string(&a[4]).unwrap().trim());
            match judge(&a[2], &a[3], &b) { Verdict::Differs(w) => { println!("{}", w); 10 } Verdict::Same(_) => 0 }
        }
        // the recorded findings: killed by a signal while they last
        "finding" => {
            let _ = cli::SCRATCH.set(std::env::current_dir().unwrap());
            let nest = |n: usize| {
                let mut c = vec![];
                for _ in 0..n { c.extend([0x02, 0x40]) }
                for _ in 0..n { c.push(0x0B) }
                c
            };
            match a[2].as_str() {
                "nest-parse" => { let mut b = nest(300_000); b.push(0x0B); let _ = api::new::run("expr", &b); }
                "nest-validate" => {
                    // parsed with a large stack, validated with the usual one
                    let m = cases::one_func(&[], nest(300_000));
                    std::thread::Builder::new().stack_size(4 << 30).spawn(move || api::new::validate_on_small_stack(&m)).unwrap().join().unwrap();
                }
                "cli-nest" => return_if(cli::accepts(&cases::one_func(&[], nest(300_000)))),
                "cli-name" => return_if(cli::bytes_name()),
                _ => { arm(); let _ = api::new::run("cvec_u8", &[1, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 7]); disarm(); }
            }
            0
        }
        _ => 2,
    };
    std::process::exit(r);
}
