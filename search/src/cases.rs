//! The inputs tried for each property: a systematic part by index, then random ones.
use crate::enc::*;
use crate::gen::*;
use crate::rng::Rng;

pub type Case = (&'static str, Vec<u8>);

pub const VALIDATE: &str = "validate";

fn leb_kinds(signed: bool) -> [(&'static str, u32); 4] {
    if signed { [("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64)] } else { [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)] }
}

fn leb_systematic(signed: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for (k, bits) in leb_kinds(signed) {
        v.push((k, vec![]));
        for a in 0..=255u8 {
            v.push((k, vec![a]));
            if bits <= 16 { for b in 0..=255u8 { v.push((k, vec![a, b])); } }
        }
        let full = ((bits + 6) / 7) as usize;
        for fill in [0x80u8, 0xFF, 0xAA, 0xC0, 0xBF] {
            for n in [full.saturating_sub(2), full - 1, full, full + 1, full + 5, 18, 19, 20, 37, 40, 73, 74, 75, 150] {
                for last in 0..=255u8 {
                    let mut b = vec![fill; n];
                    b.push(last);
                    v.push((k, b.clone()));
                    b.push(0x7F);
                    v.push((k, b.clone()));
                    *b.last_mut().unwrap() = 0x00;
                    v.push((k, b));
                }
            }
        }
        for s in 0..bits {
            for d in [-1i128, 0, 1] {
                let x: i128 = (1i128 << s) + d;
                for neg in [false, true] {
                    let x = if neg { -x } else { x };
                    let mut b = vec![];
                    if signed { if x < i64::MIN as i128 || x > i64::MAX as i128 { continue } sleb(x as i64, &mut b) } else { if x < 0 || x > u64::MAX as i128 { continue } uleb(x as u64, &mut b) }
                    for p in [0usize, 1, 2, 9, 20, 64, 140] {
                        let mut c = b.clone();
                        if signed { pad_s(&mut c, p) } else { pad_u(&mut c, 0, p) }
                        v.push((k, c.clone()));
                        let l = c.len();
                        v.push((k, c[..l - 1].to_vec()));
                        c.extend_from_slice(&[0x80, 0x55]);
                        v.push((k, c));
                    }
                }
            }
        }
    }
    v
}
fn leb_random(signed: bool, r: &mut Rng) -> Case {
    let (k, _) = r.pick(&leb_kinds(signed));
    if r.chance(1, 4) {
        let mut b = vec![];
        let v = r.edge();
        if signed { sleb(v as i64, &mut b); let n = if r.chance(1, 2) { r.large().min(5000) } else { r.below(12) }; pad_s(&mut b, n) } else { uleb(v, &mut b); let n = if r.chance(1, 2) { r.large().min(5000) } else { r.below(12) }; pad_u(&mut b, 0, n) }
        if r.chance(1, 4) { let i = r.below(b.len()); b[i] ^= 1 << r.below(8) }
        return (k, b)
    }
    let n = r.below(14);
    let style = r.below(4);
    let mut b: Vec<u8> = (0..n).map(|_| match style { 0 => r.byte() | 0x80, 1 => 0x80, 2 => 0xFF, _ => r.pick(&[0x80, 0xFF, 0xC0, 0xBF, 0x81, 0xFE]) }).collect();
    b.push(r.byte() & 0x7F);
    if r.chance(1, 6) { let i = r.below(b.len()); b[i] = r.byte() }
    if r.chance(1, 6) { b.push(r.byte()) }
    if r.chance(1, 10) { b.pop(); }
    (k, b)
}

fn float_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for n in 0..=9usize { for f in [0u8, 0x80, 0xFF, 0x7F] { v.push(("f32", vec![f; n])); v.push(("f64", vec![f; n])); } }
    for i in 0..8usize { for x in 0..=255u8 { for base in [0u8, 0xFF] {
        let mut b = vec![base; 8]; b[i] = x; v.push(("f64", b.clone()));
        if i < 4 { v.push(("f32", b[..4].to_vec())); }
        v.push(("f32", b)); }}}
    for hi in [0x7F80u32, 0x7FC0, 0xFF80, 0xFFC0, 0x7FA0, 0xFFA0, 0x0000, 0x8000] { for lo in 0..=300u32 { v.push(("f32", ((hi << 16) | lo).to_le_bytes().to_vec())); } }
    v
}

/// A well-formed encoding of an item of this kind (as far as the generator knows).
pub fn item(kind: &str, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let val = |r: &mut Rng| r.pick(&VALS);
    match kind {
        "byte" => o.push(r.byte()),
        "u8" | "u16" | "u32" | "u64" => { let w: u32 = kind[1..].parse().unwrap(); let x = if r.chance(1, 5) { r.edge() << (64 - w) >> (64 - w) } else { r.next() >> (64 - w) >> r.below(w as usize) }; u(x, r, &mut o); if r.1 > 0 && r.chance(1, 4) { let n = r.large().min(5000); pad_u(&mut o, 0, n) } }
        "i8" | "i16" | "i32" | "i64" => { let w: u32 = kind[1..].parse().unwrap(); let x = if r.chance(1, 5) { (r.edge() as i64) << (64 - w) >> (64 - w) } else { (r.next() as i64) >> (64 - w) >> r.below(w as usize) }; sleb(x, &mut o); if r.1 > 0 && r.chance(1, 4) { let n = r.large().min(5000); pad_s(&mut o, n) } if r.chance(1, 10) { pad_s(&mut o, 2) } }
        "f32" => for _ in 0..4 { o.push(r.byte()) },
        "f64" => for _ in 0..8 { o.push(r.byte()) },
        "arr0" => (),
        "arr1" | "arr2" | "arr3" | "arr4" | "arr5" | "arr6" | "arr7" | "arr8" => { let n: usize = kind[3..].parse().unwrap(); for _ in 0..n { o.push(r.byte()) } }
        "arr3_u32" => for _ in 0..3 { o.extend(item("u32", r)) },
        "arr8_u32" => for _ in 0..8 { o.extend(item("u32", r)) },
        "arr5_i64" => for _ in 0..5 { o.extend(item("i64", r)) },
        "arr4_vec" => for _ in 0..4 { o.extend(item("vec_u8", r)) },
        "vec_byte" | "uvec_byte" => return counted("byte", r),
        "vec_u8" => return counted("u8", r),
        "vec_u32" => return counted("u32", r),
        "vec_i64" => return counted("i64", r),
        "vec_f32" => return counted("f32", r),
        "vec_val" => return counted("val", r),
        "vec_func" => return counted("functy", r),
        "vec_vec" => return counted("vec_u8", r),
        "vec_string" => return counted("string", r),
        "vec_instr" => return counted("instr", r),
        "uvec_sized" => return counted("sized_vec_u32", r),
        "uvec_sized_func" => return counted("sized_func", r),
        "cvec_u8" | "cvec_val" | "cvec_byte" | "cvec_i32" => {
            let n = r.count(5);
            u(n as u64, r, &mut o);
            for i in 0..n {
                let c = match r.below(8) { 0 => 0, 1 => r.below(300) as u64, _ => r.count(5) as u64 };
                // a run long enough to make the total reach 2^32 is refused before it is expanded
                let c = if i == 1 && r.chance(1, 10) { 0xFFFF_FFFF - r.below(3) as u64 } else { c };
                u(c, r, &mut o);
                o.extend(item(match kind { "cvec_u8" => "u8", "cvec_val" => "val", "cvec_byte" => "u16", _ => "i32" }, r));
            }
        }
        "string" => {
            if r.chance(1, 6) { let s = text(r); bytes(&s, r, &mut o); return o }
            let n = r.count(6);
            let s: String = (0..n).map(|_| loop {
                let c = match r.below(6) { 0 => r.below(0x80), 1 => r.below(0x800), 2 => r.below(0x10000), 3 => 0x10000 + r.below(0x100000), _ => 0x61 + r.below(26) };
                if let Some(c) = char::from_u32(c as u32) { break c }
            }).collect();
            bytes(s.as_bytes(), r, &mut o)
        }
        "consume" => { let n = r.count(6); for _ in 0..n { o.push(r.byte()) } }
        "name_consume" => { o.extend(item("string", r)); o.extend(item("consume", r)) }
        "idx_type" | "idx_func" | "idx_table" | "idx_mem" | "idx_global" | "idx_local" | "idx_label" | "mstart" => return item("u32", r),
        "limits" | "memty" | "mmem" => return lim(&gen_lim(r, 3, false), r),
        "val" => o.push(val(r)),
        "elemty" => o.push(0x70),
        "retval" => if r.chance(1, 2) { o.push(0x40) } else { o.push(val(r)) },
        "functy" => { let a = (0..r.count(4)).map(|_| val(r)).collect(); let b = (0..r.below(3)).map(|_| val(r)).collect(); return functy(&FuncTy { params: a, results: b }, r) }
        "tablety" | "mtable" => return tablety(&gen_lim(r, 3, false), r),
        "mut" => o.push(r.below(2) as u8),
        "globalty" => { o.push(val(r)); o.push(r.below(2) as u8) }
        "instr" => return instr(r, 3),
        "expr" => { let n = r.count(5); for _ in 0..n { o.extend(instr(r, 3)) } o.push(0x0B) }
        "constexpr" => { let v = val(r); konst(v, r, &mut o); if r.chance(1, 4) { o.extend(instr(r, 2)) } o.push(0x0B) }
        "mfunc" => { let l: Vec<(u32, u8)> = (0..r.below(4)).map(|_| (r.count(4) as u32, val(r))).collect(); let mut c = item("expr", r); c.pop(); return body(&Body { ty: 0, locals: l, code: c }, r) }
        "mglobal" => { o.extend(item("globalty", r)); o.extend(item("constexpr", r)) }
        "melem" => { o.extend(item("u32", r)); o.extend(item("constexpr", r)); o.extend(item("vec_u32", r)) }
        "mdata" => { o.extend(item("u32", r)); o.extend(item("constexpr", r)); o.extend(item("vec_byte", r)) }
        "dimport" => { let k = r.below(4); o.push(k as u8); o.extend(item(["u32", "tablety", "memty", "globalty"][k], r)) }
        "dexport" => { o.push(r.below(4) as u8); o.extend(item("u32", r)) }
        "mimport" => { o.extend(item("string", r)); o.extend(item("string", r)); o.extend(item("dimport", r)) }
        "mexport" => { o.extend(item("string", r)); o.extend(item("dexport", r)) }
        "module" => { let op = Opt { eps: 30, funcs: 3, budget: 8, depth: 3 }; let m = gen_module(r, &op); return module(&m, r) }
        k if k.starts_with("sized_") => {
            let inner = match &k[6..] {
                "byte" => item("byte", r), "u32" => item("u32", r), "vec" => item("vec_u8", r), "arr2" => item("arr2", r), "arr0" => vec![],
                "consume" => item("consume", r), "sized" => item("sized_vecbyte", r), "vecbyte" => item("vec_byte", r), "string" => item("string", r),
                "func" => item("mfunc", r), "pair" => item("name_consume", r), "vec_import" => counted("mimport", r), "vec_u32" => item("vec_u32", r), x => panic!("{}", x),
            };
            let n = inner.len() as i64 + if r.chance(1, 5) { r.pick(&[-1, 1, -2, 2, 5, 1000]) } else { 0 };
            u(n.max(0) as u64, r, &mut o);
            o.extend(inner)
        }
        k => panic!("item {}", k),
    }
    o
}
fn counted(elem: &str, r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) { 0 => 0, 1 => 130, _ => r.count(5) };
    let n = if elem == "instr" || elem == "mimport" || elem == "sized_func" || elem == "functy" { n.min(6) } else { n };
    let mut o = vec![];
    u(n as u64, r, &mut o);
    for _ in 0..n { o.extend(item(elem, r)) }
    if r.chance(1, 8) { o[0] = o[0].wrapping_add(1) & 0x7F }
    o
}
/// any instruction with well-formed immediates
pub fn instr(r: &mut Rng, depth: usize) -> Vec<u8> {
    let mut o = vec![];
    let op = loop {
        let b = match r.below(3) { 0 => r.below(0x45) as u8, 1 => r.below(0x12) as u8, _ => r.below(0xC0) as u8 };
        match b { 0x05 | 0x06..=0x0B | 0x12..=0x19 | 0x1C..=0x1F | 0x25..=0x27 => continue, 2..=4 if depth == 0 => continue, _ => break b }
    };
    o.push(op);
    match op {
        0x02 | 0x03 | 0x04 => {
            o.extend(item("retval", r));
            for _ in 0..r.count(3) { o.extend(instr(r, depth - 1)) }
            if op == 4 && r.chance(1, 2) { o.push(5); for _ in 0..r.below(3) { o.extend(instr(r, depth - 1)) } }
            o.push(0x0B)
        }
        0x0C | 0x0D | 0x10 | 0x20..=0x24 => o.extend(item("u32", r)),
        0x0E => { o.extend(item("vec_u32", r)); o.extend(item("u32", r)) }
        0x11 => { o.extend(item("u32", r)); o.extend(item("u32", r)) }
        0x28..=0x3E => { o.extend(item("u32", r)); o.extend(item("u32", r)) }
        0x3F | 0x40 => o.extend(item("u32", r)),
        0x41 => o.extend(item("i32", r)),
        0x42 => o.extend(item("i64", r)),
        0x43 => o.extend(item("f32", r)),
        0x44 => o.extend(item("f64", r)),
        _ => (),
    }
    o
}

fn tweak(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..1 + r.below(2) {
        match r.below(7) {
            0 | 1 if !b.is_empty() => { let i = r.below(b.len()); b[i] = r.byte() }
            2 if !b.is_empty() => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8) }
            3 if !b.is_empty() => { let n = r.below(b.len()); b.truncate(n) }
            4 => { let i = r.below(b.len() + 1); let x = r.byte(); b.insert(i, x) }
            5 if !b.is_empty() => { let i = r.below(b.len()); b.remove(i); }
            _ => for _ in 0..1 + r.below(3) { let x = r.byte(); b.push(x) },
        }
    }
}
fn random_item(kinds: &[&'static str], r: &mut Rng) -> Case {
    let k = r.pick(kinds);
    let mut b = item(k, r);
    match r.below(4) { 0 => (), 1 => for _ in 0..r.below(4) { let x = r.byte(); b.push(x) }, 2 => { let n = r.below(b.len() + 1); if r.chance(1, 2) { b.truncate(n) } else { tweak(&mut b, r) } } _ => tweak(&mut b, r) }
    (k, b)
}
fn short_all(kinds: &[&'static str]) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for k in kinds {
        v.push((k, vec![]));
        for a in 0..=255u8 {
            v.push((k, vec![a]));
            for tail in [&[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0][..], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[0x7F, 0x7E, 0x0B, 0, 0x0B, 1, 0, 0x0B], &[0x40, 0x0B, 0x0B, 0x0B, 0x0B], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[0x80, 0x00, 0x80, 0x80, 0x00, 0x41, 0x00, 0x0B, 0x00]] {
                let mut b = vec![a];
                b.extend_from_slice(tail);
                v.push((k, b));
            }
            for b in 0..=255u8 { v.push((k, vec![a, b, 0x7F, 1, 0, 0x0B])) }
        }
    }
    v
}

// ---- framing

fn framing(r: &mut Rng, op: &Opt) -> Vec<u8> {
    let m = gen_module(r, op);
    let mut s = sections(&m, r);
    for _ in 0..r.below(3) {
        let n = s.len();
        match r.below(9) {
            0 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); s.swap(i, j) }
            1 if n > 0 => { let i = r.below(n); s.remove(i); }
            2 if n > 0 => { let i = r.below(n); let x = s[i].clone(); let j = r.below(n + 1); s.insert(j, x) }
            3 | 4 | 5 => {
                let mut c = item("string", r);
                c.extend(item("consume", r));
                if r.chance(1, 6) { tweak(&mut c, r) }
                let j = r.below(n + 1);
                s.insert(j, (0, c))
            }
            6 if n > 0 => { let i = r.below(n); s[i].0 = r.below(16) as u8 }
            7 if n > 0 => { let i = r.below(n); tweak(&mut s[i].1, r) }
            8 if n > 0 => { let i = r.below(n); if let Some(x) = s[i].1.first_mut() { *x = x.wrapping_add(r.pick(&[1, 255])) & 0x7F } }
            _ => (),
        }
    }
    let mut b = frame(&s, r);
    match r.below(30) {
        0 => { let i = r.below(8); b[i] = r.byte() }
        1 => { let i = r.below(8); b[i] ^= 1 << r.below(8) }
        2 => { let n = r.below(b.len() + 1); b.truncate(n) }
        3 => { let x = r.byte(); b.push(x) }
        4 => tweak(&mut b, r),
        5 => { b.push(0); b.push(0) }
        _ => (),
    }
    b
}
fn framing_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let pre = [0u8, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    for n in 0..=8 { v.push(("module", pre[..n].to_vec())) }
    for i in 0..8 { for x in 0..=255u8 { let mut b = pre.to_vec(); b[i] = x; v.push(("module", b)) } }
    // short section bodies that are well-formed for their id
    let sec = |id: u8| -> Vec<u8> { match id { 0 => vec![0, 1, 0], 8 => vec![8, 1, 0], _ => vec![id, 1, 0] } };
    for a in 0..=255u8 { let mut b = pre.to_vec(); b.extend([a, 1, 0]); v.push(("module", b.clone())); b.extend([0, 2, 1, 0x61]); v.push(("module", b)); }
    for a in 0..=12u8 { for c in 0..=12u8 { for e in 0..=13u8 {
        let mut b = pre.to_vec();
        b.extend(sec(a)); b.extend(sec(c));
        if e < 13 { b.extend(sec(e)) }
        v.push(("module", b));
    }}}
    for sz in 0..6u8 { for nm in 0..6u8 { for fill in [0x61u8, 0xC3, 0xFF, 0x00] { for n in 0..6usize {
        let mut b = pre.to_vec(); b.extend([0, sz, nm]); b.extend(vec![fill; n]); v.push(("module", b)) }}}}
    // function and code section counts
    for f in 0..4u8 { for c in 0..4u8 { for z in 0..4u8 {
        let mut b = pre.to_vec();
        b.extend([1, 4, 1, 0x60, 0, 0]);
        if z & 1 == 0 { b.push(3); b.push(1 + f); b.push(f); for i in 0..f { b.push(i * 3 + 1) } }
        if z & 2 == 0 { b.push(10); b.push(1 + c * 4); b.push(c); for i in 0..c { b.extend([3, 0, [0x01, 0x0F, 0x00][(i % 3) as usize], 0x0B]) } }
        v.push(("module", b.clone()));
        b.extend([11, 1, 0]);
        v.push(("module", b));
    }}}
    v
}

// ---- validation

fn wrap(types: Vec<FuncTy>, f: impl FnOnce(&mut M)) -> Vec<u8> {
    let mut m = M::default();
    m.types = types;
    f(&mut m);
    let mut r = Rng::new(1, 1);
    module(&m, &mut r)
}
fn ft(p: &[u8], q: &[u8]) -> FuncTy { FuncTy { params: p.to_vec(), results: q.to_vec() } }
fn results() -> Vec<Vec<u8>> { let mut v = vec![vec![]]; for t in VALS { v.push(vec![t]) } v }
pub fn one_func(res: &[u8], code: Vec<u8>) -> Vec<u8> {
    wrap(vec![ft(&[], res), ft(&[I, L], &[F]), ft(&[D], &[])], |m| {
        m.funcs.push(Body { ty: 0, locals: vec![(1, I), (1, L), (1, F), (1, D)], code });
        m.funcs.push(Body { ty: 1, locals: vec![], code: vec![0x00] });
        m.funcs.push(Body { ty: 2, locals: vec![], code: vec![] });
        m.tables.push(Lim { min: 1, max: None });
        m.mems.push(Lim { min: 1, max: None });
        for t in VALS { for mt in 0..2 { let mut e = vec![]; small_konst(t, &mut e); m.globals.push((t, mt, e)) } }
    })
}
fn env_ops() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![0x1A], vec![0x1B], vec![0x01], vec![0x10, 1], vec![0x10, 2], vec![0x11, 1, 0], vec![0x11, 2, 0]];
    for i in 0..5 { for k in [0x20, 0x21, 0x22] { v.push(vec![k, i]) } }
    for i in 0..9 { for k in [0x23, 0x24] { v.push(vec![k, i]) } }
    v
}
fn signatures_systematic(dead: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut ops: Vec<Vec<u8>> = vec![];
    for op in 0x28..=0xBFu8 { let mut o = vec![]; plain_op(op, &mut o); ops.push(o) }
    ops.extend(env_ops());
    let mut stacks: Vec<Vec<u8>> = vec![vec![]];
    for a in VALS { stacks.push(vec![a]); for b in VALS { stacks.push(vec![a, b]); for c in VALS { stacks.push(vec![a, b, c]) } } }
    for o in &ops { for s in &stacks {
        if s.len() == 3 && o[0] >= 0x28 { continue }
        for q in results() {
            let mut c = vec![];
            if dead { c.push(0x00) }
            for t in s { small_konst(*t, &mut c) }
            c.extend_from_slice(o);
            v.push((VALIDATE, one_func(&q, c.clone())));
            if s.len() == 2 || o[0] < 0x28 { c.push(0x1A); v.push((VALIDATE, one_func(&q, c))); }
        }
    }}
    v
}
/// operands of unknown type: every short sequence after `unreachable`
fn unknown_systematic() -> Vec<Case> {
    let toks: [&[u8]; 6] = [&[0x1B], &[0x41, 0], &[0x43, 0, 0, 0, 0], &[0x8C], &[0x45], &[0x1A]];
    let mut v: Vec<Case> = vec![];
    for len in 0..=6u32 { for n in 0..6usize.pow(len) {
        let (mut c, mut k) = (vec![0x00], n);
        for _ in 0..len { c.extend_from_slice(toks[k % 6]); k /= 6 }
        if len == 6 && c[1..].iter().filter(|x| **x == 0x1B).count() < 2 { continue }
        v.push((VALIDATE, one_func(if n % 2 == 0 { &[] } else { &[I] }, c)));
    }}
    v
}
fn control_systematic() -> Vec<Case> {
    let toks: Vec<Vec<u8>> = vec![
        vec![0x02, 0x40], vec![0x02, I], vec![0x03, 0x40], vec![0x03, I], vec![0x04, 0x40], vec![0x04, I], vec![0x05], vec![0x0B],
        vec![0x0C, 0], vec![0x0C, 1], vec![0x0D, 0], vec![0x0D, 1], vec![0x0E, 1, 0, 1], vec![0x0E, 0, 0], vec![0x0F], vec![0x00],
        vec![0x41, 0], vec![0x42, 0], vec![0x1A], vec![0x6A], vec![0x1B],
    ];
    let mut v: Vec<Case> = vec![];
    let n = toks.len();
    let mut todo: Vec<Vec<usize>> = vec![vec![]];
    for len in 0..=4usize {
        let mut next = vec![];
        for t in &todo {
            // balance
            let mut depth = 0i32;
            let mut bad = false;
            let mut c = vec![];
            for k in t {
                match *k { 0..=5 => depth += 1, 7 => { depth -= 1; if depth < 0 { bad = true } } 6 => if depth == 0 { bad = true }, _ => () }
                c.extend_from_slice(&toks[*k]);
            }
            if bad { continue }
            for _ in 0..depth { c.push(0x0B) }
            for q in [&[][..], &[I][..]] { v.push((VALIDATE, one_func(q, c.clone()))) }
            if len < 4 { for k in 0..n { let mut x = t.clone(); x.push(k); next.push(x) } }
        }
        todo = next;
    }
    // branch depths
    for nest in 0..4usize { for kind in [0x02u8, 0x03, 0x04] { for bt in [0x40u8, I, L] { for d in 0..6u8 { for br in [0x0Cu8, 0x0D] { for q in results() {
        let mut c = vec![];
        for _ in 0..nest { if kind == 4 { c.extend([0x41, 0]) } c.push(kind); c.push(bt) }
        for val in 0..3 {
            let mut c = c.clone();
            match val { 1 => c.extend([0x41, 0]), 2 => c.extend([0x42, 0]), _ => () }
            if br == 0x0D { c.extend([0x41, 0]) }
            c.extend([br, d]);
            for _ in 0..nest { if kind == 4 && bt != 0x40 { c.push(5); c.push(0) } c.push(0x0B) }
            v.push((VALIDATE, one_func(&q, c)));
        }
    }}}}}}
    v
}
fn index_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let tys = vec![ft(&[], &[]), ft(&[I], &[]), ft(&[], &[I]), ft(&[], &[L]), ft(&[F], &[D])];
    for ni in 0..3usize { for nd in 0..3usize { for idx in 0..6u32 { for what in 0..12 {
        let push = what;
        let b = wrap(tys.clone(), |m| {
            // interleave other kinds so that positions within a space differ from positions among the imports
            for i in 0..ni {
                m.imports.push((vec![], vec![], Imp::Global(VALS[i % 4], (i % 2) as u8)));
                m.imports.push((vec![b'a'], vec![], Imp::Func(2 + i as u32)));
                if i == 0 { m.imports.push((vec![], vec![], Imp::Table(Lim { min: 3, max: None }))) }
                if i == 1 { m.imports.push((vec![], vec![], Imp::Mem(Lim { min: 7, max: None }))) }
            }
            for i in 0..nd {
                let mut e = vec![];
                small_konst(VALS[(i + 2) % 4], &mut e);
                m.globals.push((VALS[(i + 2) % 4], ((i + 1) % 2) as u8, e));
            }
            if ni == 0 && nd > 0 { m.tables.push(Lim { min: 4, max: None }) }
            if ni < 2 && nd > 1 { m.mems.push(Lim { min: 5, max: None }) }
            let mut code = vec![];
            match push {
                0 => { code.push(0x10); uleb(idx as u64, &mut code); code.push(0x1A) }
                1 => { code.push(0x10); uleb(idx as u64, &mut code) }
                2 => { code.push(0x23); uleb(idx as u64, &mut code); code.push(0x1A) }
                3 | 4 => { small_konst(VALS[idx as usize % 4], &mut code); code.push(0x24); uleb(idx as u64, &mut code) }
                5 => { code.extend([0x41, 0, 0x11]); uleb(idx as u64, &mut code); code.push(0); code.push(0x1A) }
                6 => m.exports.push((vec![], 0, idx)),
                7 => m.exports.push((vec![], 1, idx)),
                8 => m.exports.push((vec![], 2, idx)),
                9 => m.exports.push((vec![], 3, idx)),
                10 => m.elems.push((0, vec![0x41, 0], vec![idx])),
                _ => m.start = Some(idx),
            }
            m.funcs.push(Body { ty: 0, locals: vec![], code });
            for i in 0..nd { m.funcs.push(Body { ty: (i as u32 + 1) % 5, locals: vec![], code: vec![0x00] }) }
        });
        v.push((VALIDATE, b));
    }}}}
    for np in 0..4usize { for l in 0..4u32 { for idx in 0..9u64 { for q in results() { for k in [0x20u8, 0x21, 0x22] { for x in VALS {
        if k == 0x20 && x != I { continue }
        let b = wrap(vec![ft(&VALS[..np], &q)], |m| {
            let mut c = vec![];
            if k != 0x20 { small_konst(x, &mut c) }
            c.push(k);
            uleb(idx, &mut c);
            if k == 0x21 { if let Some(t) = q.first() { small_konst(*t, &mut c) } }
            m.funcs.push(Body { ty: 0, locals: vec![(l, D), (1, L), (0, I), (2, F)], code: c });
        });
        v.push((VALIDATE, b));
    }}}}}}
    for ty in 0..4u32 { for k in 0..2 { v.push((VALIDATE, wrap(vec![ft(&[], &[]), ft(&[I], &[])], |m| if k == 0 { m.funcs.push(Body { ty, locals: vec![], code: vec![0x00] }) } else { m.imports.push((vec![], vec![], Imp::Func(ty))) }))) } }
    v
}
fn const_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut atoms: Vec<Vec<u8>> = vec![vec![], vec![0x01], vec![0x00], vec![0x1A], vec![0x6A], vec![0x7C], vec![0x3F, 0], vec![0x20, 0], vec![0x10, 0], vec![0x0F], vec![0x0C, 0], vec![0x02, 0x40, 0x0B], vec![0x02, I, 0x41, 0, 0x0B], vec![0x45], vec![0x1B], vec![0x24, 1], vec![0x28, 0, 0], vec![0x40, 0]];
    for t in VALS { let mut e = vec![]; small_konst(t, &mut e); atoms.push(e) }
    for i in 0..16u8 { atoms.push(vec![0x23, i]) }
    let mut exprs: Vec<Vec<u8>> = vec![];
    for a in &atoms { exprs.push(a.clone()); for b in &atoms { if !a.is_empty() && !b.is_empty() { let mut x = a.clone(); x.extend_from_slice(b); exprs.push(x) } } }
    for a in &atoms { for b in [&atoms[18], &atoms[22]] { let mut x = a.clone(); x.extend_from_slice(b); x.extend_from_slice(b); x.push(0x6A); exprs.push(x) } }
    for e in &exprs { for where_ in 0..6 {
        let b = wrap(vec![ft(&[], &[])], |m| {
            for t in VALS { for mt in 0..2 { m.imports.push((vec![], vec![], Imp::Global(t, mt))) } }
            m.tables.push(Lim { min: 1, max: None });
            m.mems.push(Lim { min: 1, max: None });
            for t in [I, L] { for mt in 0..2 { let mut k = vec![]; small_konst(t, &mut k); m.globals.push((t, mt, k)) } }
            m.funcs.push(Body { ty: 0, locals: vec![(1, I)], code: vec![] });
            match where_ {
                0..=3 => m.globals.push((VALS[where_], 0, e.clone())),
                4 => m.elems.push((0, e.clone(), vec![0])),
                _ => m.datas.push((0, e.clone(), vec![1])),
            }
        });
        v.push((VALIDATE, b));
    }}
    // a global reading itself, an earlier and a later one
    for t in VALS { for n in 0..4u8 { for at in 0..3 { let b = wrap(vec![], |m| { for j in 0..3 { let mut k = vec![]; if j == at { k.extend([0x23, n]) } else { small_konst(t, &mut k) } m.globals.push((t, 0, k)) } }); v.push((VALIDATE, b)) } } }
    v
}
fn limits_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let g = [0u32, 1, 2, 3, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
    for min in g { for k in 0..g.len() + 1 { for w in 0..5 {
        let l = Lim { min, max: g.get(k).copied() };
        v.push((VALIDATE, wrap(vec![], |m| match w {
            0 => m.tables.push(l), 1 => m.mems.push(l),
            2 => m.imports.push((vec![], vec![], Imp::Table(l))), 3 => m.imports.push((vec![], vec![], Imp::Mem(l))),
            _ => { m.mems.push(l); m.tables.push(Lim { min: 1, max: Some(1) }) }
        })));
    }}}
    v
}
fn module_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let l = || Lim { min: 1, max: None };
    for it in 0..3 { for im in 0..3 { for t in 0..3 { for mm in 0..3 { for f in 0..2 {
        v.push((VALIDATE, wrap(vec![ft(&[], &[])], |m| {
            for _ in 0..it { m.imports.push((vec![], vec![], Imp::Table(l()))) }
            if f == 1 { m.imports.push((vec![], vec![], Imp::Func(0))) }
            for _ in 0..im { m.imports.push((vec![], vec![], Imp::Mem(l()))) }
            for _ in 0..t { m.tables.push(l()) }
            for _ in 0..mm { m.mems.push(l()) }
        })))
    }}}}}
    for pos in 0..3 { for np in 0..3 { for nr in 0..5 { for used in 0..2 {
        v.push((VALIDATE, wrap((0..3).map(|i| if i == pos { ft(&VALS[..np], &VALS[..nr.min(4)]) } else { ft(&[], &[I]) }).collect(), |m| if used == 1 { m.funcs.push(Body { ty: pos as u32, locals: vec![], code: vec![0x00] }) })))
    }}}}
    let names: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), b"b".to_vec(), b"ab".to_vec(), b"A".to_vec(), b"aa".to_vec(), "é".as_bytes().to_vec()];
    for a in &names { for b in &names { for c in &names { for k in 0..4u8 { for d in 0..2u8 {
        v.push((VALIDATE, wrap(vec![ft(&[], &[])], |m| {
            m.funcs.push(Body { ty: 0, locals: vec![], code: vec![] });
            m.tables.push(l());
            m.mems.push(l());
            m.globals.push((I, 0, vec![0x41, 0]));
            m.exports.push((a.clone(), k, 0));
            m.exports.push((b.clone(), (k + d) % 4, 0));
            m.exports.push((c.clone(), k, 0));
        })))
    }}}}}
    for np in 0..3 { for nr in 0..2 { for imp in 0..2 { for s in 0..3u32 {
        v.push((VALIDATE, wrap(vec![ft(&VALS[..np], &VALS[..nr]), ft(&[], &[])], |m| {
            if imp == 1 { m.imports.push((vec![], vec![], Imp::Func(0))) }
            m.funcs.push(Body { ty: 0, locals: vec![], code: vec![0x00] });
            m.funcs.push(Body { ty: 1, locals: vec![], code: vec![0x00] });
            m.start = Some(s);
        })))
    }}}}
    v
}
fn memory_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for op in 0x28..=0x40u8 { for mem in 0..3 { for a in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 29, 30, 31, 32, 33, 34, 35, 63, 64, 65, 96, 128, 255, 256, 1 << 16, 1 << 31, u32::MAX - 1, u32::MAX] { for o in [0u32, 1, 8, u32::MAX] {
        if op >= 0x3F && (o != 0 || a > 2) { continue }
        let b = wrap(vec![ft(&[], &[])], |m| {
            if mem == 1 { m.mems.push(Lim { min: 0, max: None }) }
            if mem == 2 { m.imports.push((vec![], vec![], Imp::Mem(Lim { min: 0, max: None }))) }
            let (p, q) = sig(op).unwrap();
            let mut c = vec![];
            for t in p { small_konst(t, &mut c) }
            c.push(op);
            if op < 0x3F { uleb(a as u64, &mut c); uleb(o as u64, &mut c) } else { c.push(a as u8) }
            if !q.is_empty() { c.push(0x1A) }
            m.funcs.push(Body { ty: 0, locals: vec![], code: c });
        });
        v.push((VALIDATE, b));
    }}}}
    v
}
fn external_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for s in 0..400u64 {
        let mut r = Rng::new(77, s);
        let m = gen_module(&mut r, &Opt { eps: 0, funcs: 3, budget: 0, depth: 0 });
        v.push((VALIDATE, module(&m, &mut r)));
    }
    v
}
fn independence_systematic() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let bodies: Vec<(u32, Vec<u8>)> = vec![
        (0, vec![]), (0, vec![0x41, 0]), (0, vec![0x41, 0, 0x1A]), (0, vec![0x1A]), (0, vec![0x00]), (0, vec![0x20, 0, 0x1A]), (0, vec![0x20, 1, 0x1A]),
        (0, vec![0x0C, 0]), (0, vec![0x0C, 1]), (0, vec![0x0F]), (0, vec![0x02, 0x40, 0x0C, 1, 0x0B]), (0, vec![0x02, 0x40, 0x00, 0x0B]), (0, vec![0x02, 0x40, 0x0B, 0x1A]),
        (1, vec![]), (1, vec![0x41, 0]), (1, vec![0x20, 0]), (1, vec![0x20, 1, 0x1A, 0x41, 0]), (1, vec![0x00]), (1, vec![0x41, 0, 0x0F]), (1, vec![0x0F]), (1, vec![0x41, 0, 0x0C, 0]), (1, vec![0x41, 0, 0x41, 0]),
        (2, vec![0x42, 0]), (2, vec![0x41, 0]), (2, vec![0x20, 0]), (2, vec![0x42, 0, 0x0F]),
    ];
    let n = bodies.len();
    for i in 0..n { for j in 0..n { for l in 0..2 { for seg in 0..4 {
        v.push((VALIDATE, wrap(vec![ft(&[], &[]), ft(&[I], &[I]), ft(&[L], &[L])], |m| {
            m.tables.push(Lim { min: 1, max: None });
            m.mems.push(Lim { min: 1, max: None });
            m.funcs.push(Body { ty: bodies[i].0, locals: if l == 1 { vec![(1, L)] } else { vec![] }, code: bodies[i].1.clone() });
            m.funcs.push(Body { ty: bodies[j].0, locals: vec![], code: bodies[j].1.clone() });
            match seg { 1 => m.elems.push((0, vec![0x41, 0], vec![0])), 2 => m.datas.push((0, vec![], vec![0])), 3 => { m.datas.push((0, vec![0x41, 0], vec![0])); m.elems.push((0, vec![], vec![0])) } _ => () }
        })))
    }}}}
    let es: Vec<Vec<u8>> = vec![vec![], vec![0x41, 0], vec![0x42, 0], vec![0x41, 0, 0x41, 0], vec![0x23, 0]];
    for a in &es { for b in &es { for c in &es { for w in 0..4 {
        v.push((VALIDATE, wrap(vec![], |m| {
            m.imports.push((vec![], vec![], Imp::Global(I, 0)));
            m.tables.push(Lim { min: 1, max: None });
            m.mems.push(Lim { min: 1, max: None });
            match w {
                0 => for e in [a, b, c] { m.globals.push((I, 0, e.clone())) },
                1 => for e in [a, b, c] { m.elems.push((0, e.clone(), vec![])) },
                2 => for e in [a, b, c] { m.datas.push((0, e.clone(), vec![])) },
                _ => { m.globals.push((I, 0, a.clone())); m.elems.push((0, b.clone(), vec![])); m.datas.push((0, c.clone(), vec![])) }
            }
        })))
    }}}}
    v
}
fn nest_systematic() -> Vec<Case> {
    let toks: Vec<Vec<u8>> = vec![vec![0x02, 0x40], vec![0x03, I], vec![0x04, 0x40], vec![0x05], vec![0x0B], vec![0x01], vec![0x41, 3]];
    let mut v: Vec<Case> = vec![];
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    for len in 0..=6 {
        let mut next = vec![];
        for t in &todo {
            v.push(("expr", t.clone()));
            if len <= 5 { v.push(("instr", t.clone())); if len <= 4 { v.push(("constexpr", t.clone())); } for k in &toks { let mut x = t.clone(); x.extend_from_slice(k); next.push(x) } }
        }
        todo = next;
    }
    for v0 in v.clone() { if v0.0 == "expr" && v0.1.len() <= 8 { let mut m = v0.1.clone(); m.push(0x0B); v.push((VALIDATE_PARSE, one_func(&[], m))) } }
    v
}
pub const VALIDATE_PARSE: &str = "module";

/// lengths around the powers of two a narrower counter would wrap at
fn long_systematic(kinds: &[&'static str]) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for n in [127usize, 128, 129, 255, 256, 257, 300, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000] {
        for k in kinds {
            let mut o = vec![];
            match *k {
                "sized_consume" | "vec_byte" | "uvec_byte" | "string" | "vec_u8" => { uleb(n as u64, &mut o); o.extend(vec![0x41; n]); o.extend([1, 2, 3]) }
                "sized_vecbyte" | "sized_sized" => { let mut i = vec![]; uleb(n as u64, &mut i); i.extend(vec![0x41; n]); if *k == "sized_sized" { let mut j = vec![]; uleb(i.len() as u64, &mut j); j.extend(i); i = j } uleb(i.len() as u64, &mut o); o.extend(i) }
                "cvec_u8" => { uleb(2, &mut o); uleb(n as u64, &mut o); o.push(3); uleb(n as u64 + 1, &mut o); o.push(4) }
                "cvec_val" => { uleb(n as u64, &mut o); for _ in 0..n { o.extend([1, 0x7F]) } }
                "vec_u32" => { uleb(n as u64, &mut o); for i in 0..n { uleb(i as u64, &mut o) } }
                "vec_vec" => { uleb(n as u64, &mut o); o.extend(vec![0; n]) }
                "expr" => { o.extend(vec![0x01; n]); o.push(0x0B) }
                "module" => { o.extend([0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 0]); uleb(n as u64, &mut o); o.push(1); o.extend(vec![0x61; n - 1]); o.extend([1, 1, 0]) }
                "functys" => {
                    let m = wrap((0..n.min(16384)).map(|i| ft(if i % 2 == 0 { &[I] } else { &[L] }, &[])).collect(), |m| for i in 0..n.min(16384) { m.funcs.push(Body { ty: i as u32, locals: vec![], code: vec![] }) });
                    v.push(("module", m.clone()));
                    continue
                }
                _ => continue,
            }
            v.push((k, o));
        }
    }
    v
}

fn cli_systematic() -> Vec<Case> {
    let mut r = Rng::new(1, 25);
    let mut ms: Vec<Vec<u8>> = vec![];
    for f in [module_systematic, limits_systematic, memory_systematic, index_systematic, const_systematic, control_systematic] {
        let v = f();
        for i in 0..6 { ms.push(v[i * (v.len() - 1) / 5].1.clone()) }
    }
    ms.push(wrap(vec![], |_| ()));
    let cs = crate::cli::contents(&ms, &mut r);
    let mut v: Vec<Case> = vec![];
    for k in 0..crate::cli::SHAPES { for c in cs.iter().take(6) { v.push((crate::cli::CLI, crate::cli::with_shape(c, k))) } }
    for c in cs.iter().skip(6) { for k in [0, 1] { v.push((crate::cli::CLI, crate::cli::with_shape(c, k))) } }
    for c in cs.iter().skip(6) { for k in 2..crate::cli::SHAPES { if c.len() < 60000 { v.push((crate::cli::CLI, crate::cli::with_shape(c, k))) } } }
    v
}

pub fn systematic(prop: &str) -> Vec<Case> {
    let mut v = match prop {
        "C01" | "C03" | "C15" => long_systematic(&["sized_consume", "vec_byte", "uvec_byte", "string", "cvec_u8", "cvec_val", "vec_u32", "vec_vec", "expr", "module", "functys"]),
        "C08" => long_systematic(C08),
        "C09" => long_systematic(&["sized_consume", "sized_sized"]),
        "C10" | "C11" => long_systematic(&["module", "functys"]),
        "C13" => long_systematic(&["expr"]),
        _ => vec![],
    };
    v.extend(match prop {
        "C05" => leb_systematic(false),
        "C06" => leb_systematic(true),
        "C07" => float_systematic(),
        "C08" => short_all(C08),
        "C09" => short_all(C09),
        "C10" | "C11" => framing_systematic(),
        "C12" => short_all(C12),
        "C13" => nest_systematic(),
        "C14" => short_all(C14),
        "C01" => { let mut v = framing_systematic(); v.extend(nest_systematic()); v.extend(short_all(&["instr"])); v }
        "C03" | "C15" => { let mut v = leb_systematic(false); v.extend(leb_systematic(true)); v.extend(float_systematic()); v.extend(framing_systematic()); v.extend(short_all(&["string", "cvec_u8", "vec_u32", "sized_vec", "instr"])); v }
        "C16" => { let mut v = signatures_systematic(false); v.extend(signatures_systematic(true)); v.extend(unknown_systematic()); v }
        "C17" => { let mut v = control_systematic(); v.extend(signatures_systematic(true)); v.extend(unknown_systematic()); v }
        "C18" => { let mut v = index_systematic(); v.extend(external_systematic()); v }
        "C19" => const_systematic(),
        "C20" => limits_systematic(),
        "C21" => module_systematic(),
        "C22" => memory_systematic(),
        "C23" => { let mut v = external_systematic(); v.extend(index_systematic()); v }
        "C24" => independence_systematic(),
        "C02" | "C04" => { let mut v = module_systematic(); v.extend(limits_systematic()); v.extend(memory_systematic()); v.extend(index_systematic()); v.extend(const_systematic()); v.extend(independence_systematic()); v.extend(signatures_systematic(false)); v.extend(control_systematic()); v.extend(unknown_systematic()); v }
        "C25" => cli_systematic(),
        _ => vec![],
    });
    if prop == "C08" {
        for n in [0u64, 1, 2, 3, 0xFFFF_FFFF, 0xFFFF_FFFE, 0x8000_0000] { for a in [1u64, 2, 3] {
            let mut o = vec![];
            uleb(2, &mut o); uleb(a, &mut o); o.push(7);
            // only when the total is refused
            if a + n >= 1 << 32 || n < 9 { uleb(n, &mut o); o.push(8); v.push(("cvec_u8", o)); }
        }}
        for a in 0..=255u8 { for b in [0u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF] { v.push(("string", vec![2, a, b])); for c in [0x7Fu8, 0x80, 0xBF, 0xC0] { v.push(("string", vec![3, a, b, c])); v.push(("string", vec![4, a, b, c, 0x80])); v.push(("string", vec![4, a, b, c, 0xC0])) } } }
    }
    v
}

const C08: &[&str] = &["vec_byte", "vec_u8", "vec_u32", "vec_i64", "vec_f32", "vec_val", "vec_func", "vec_vec", "vec_string", "vec_instr", "cvec_u8", "cvec_val", "cvec_byte", "cvec_i32", "uvec_byte", "uvec_sized", "string", "arr0", "arr1", "arr2", "arr3", "arr4", "arr5", "arr6", "arr7", "arr8", "arr3_u32", "arr8_u32", "arr5_i64", "arr4_vec"];
const C09: &[&str] = &["sized_byte", "sized_u32", "sized_vec", "sized_arr2", "sized_arr0", "sized_consume", "sized_sized", "sized_string", "sized_func", "sized_pair", "sized_vec_import", "uvec_sized", "consume", "name_consume"];
const C12: &[&str] = &["instr", "idx_type", "idx_func", "idx_table", "idx_mem", "idx_global", "idx_local", "idx_label"];
const C14: &[&str] = &["limits", "val", "elemty", "retval", "functy", "tablety", "memty", "mut", "globalty", "mtable", "mmem", "mglobal", "melem", "mdata", "mstart", "mimport", "mexport", "dimport", "dexport", "mfunc"];
const ITEMS: &[&str] = &["byte", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "arr1", "arr2", "arr4", "arr8", "arr3_u32", "arr5_i64", "vec_byte", "vec_u8", "vec_u32", "vec_val", "vec_func", "vec_vec", "vec_string", "vec_instr", "cvec_u8", "cvec_val", "uvec_byte", "uvec_sized", "string", "sized_byte", "sized_u32", "sized_vec", "sized_arr2", "sized_consume", "sized_sized", "sized_string", "sized_func", "sized_pair", "idx_type", "idx_func", "idx_label", "limits", "val", "elemty", "retval", "functy", "tablety", "memty", "mut", "globalty", "instr", "expr", "constexpr", "mfunc", "mtable", "mmem", "mglobal", "melem", "mdata", "mstart", "mimport", "mexport", "dimport", "dexport"];

pub fn random(prop: &str, r: &mut Rng) -> Case {
    if r.chance(1, 5) { r.1 = 1 + r.below(3) }
    let val = |r: &mut Rng, eps: usize| { let o = Opt { eps, funcs: 3, budget: 3 + r.below(10), depth: r.below(4) }; let m = gen_module(r, &o); (VALIDATE, module(&m, r)) };
    match prop {
        "C25" => {
            let o = Opt { eps: r.pick(&[0, 0, 10, 40]), funcs: 2, budget: 1 + r.below(6), depth: 2 };
            let mut b = framing(r, &o);
            if r.chance(1, 4) { tweak(&mut b, r) }
            let k = r.below(crate::cli::SHAPES as usize) as u8;
            (crate::cli::CLI, crate::cli::with_shape(&b, k))
        }
        "C05" => leb_random(false, r),
        "C06" => leb_random(true, r),
        "C07" => { let k = r.pick(&["f32", "f64"]); let n = if r.chance(1, 8) { r.below(10) } else { 8 }; (k, (0..n).map(|_| r.byte()).collect()) }
        "C08" => random_item(C08, r),
        "C09" => random_item(C09, r),
        "C12" => random_item(&["instr"], r),
        "C13" => { let k = r.pick(&["expr", "expr", "constexpr", "instr", "mfunc"]); if r.chance(1, 2) {
                let n = r.below(12); let mut b = vec![];
                for _ in 0..n { match r.below(9) { 0 => b.extend([0x02, 0x40]), 1 => b.extend([0x03, I]), 2 | 3 => b.extend([0x04, 0x40]), 4 => b.push(5), 5 | 6 => b.push(0x0B), 7 => b.push(1), _ => b.extend(instr(r, 1)) } }
                if r.chance(1, 2) { b.push(0x0B) }
                (k, b) } else { random_item(&["expr", "constexpr", "instr", "mfunc"], r) } }
        "C14" => random_item(C14, r),
        "C15" => random_item(ITEMS, r),
        "C10" | "C11" => { let o = Opt { eps: 0, funcs: 4, budget: 2, depth: 1 }; ("module", framing(r, &o)) }
        "C01" => if r.chance(2, 3) { let o = Opt { eps: if r.chance(1, 2) { 0 } else { 30 }, funcs: 3, budget: r.below(8), depth: 3 }; ("module", framing(r, &o)) } else { random_item(&["module"], r) },
        "C03" => if r.chance(1, 2) { random_item(ITEMS, r) } else { let o = Opt { eps: 30, funcs: 3, budget: 5, depth: 3 }; let mut b = framing(r, &o); if r.chance(1, 2) { tweak(&mut b, r) } ("module", b) },
        "C19" => { let o = Opt { eps: 12, funcs: 0, budget: 0, depth: 0 }; let m = gen_module(r, &o); (VALIDATE, module(&m, r)) }
        "C20" | "C21" | "C23" => { let o = Opt { eps: if prop == "C23" { 0 } else { 10 }, funcs: 2, budget: 0, depth: 0 }; let m = gen_module(r, &o); (VALIDATE, module(&m, r)) }
        "C17" => { let o = Opt { eps: r.pick(&[0, 8, 20]), funcs: 2, budget: 3 + r.below(14), depth: 1 + r.below(4) }; let m = gen_module(r, &o); (VALIDATE, module(&m, r)) }
        _ => { let e = r.pick(&[0, 10, 20, 40]); val(r, e) }
    }
}
