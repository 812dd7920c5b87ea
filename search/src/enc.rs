//! Encoders for the generators (with optional integer padding).
use crate::rng::Rng;

pub fn uleb(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 { out.push(b); return }
        out.push(b | 0x80);
    }
}
pub fn sleb(mut v: i64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) { out.push(b); return }
        out.push(b | 0x80);
    }
}
pub fn pad_u(out: &mut Vec<u8>, start: usize, n: usize) {
    if n == 0 { return }
    let l = out.len();
    assert!(l > start);
    out[l - 1] |= 0x80;
    for i in 0..n { out.push(if i + 1 == n { 0x00 } else { 0x80 }) }
}
pub fn pad_s(out: &mut Vec<u8>, n: usize) {
    if n == 0 { return }
    let l = out.len();
    let neg = out[l - 1] & 0x40 != 0;
    out[l - 1] |= 0x80;
    for i in 0..n { let f = if neg { 0x7f } else { 0 }; out.push(if i + 1 == n { f } else { f | 0x80 }) }
}
/// unsigned, rarely padded
pub fn u(v: u64, r: &mut Rng, out: &mut Vec<u8>) {
    let s = out.len();
    uleb(v, out);
    if r.chance(1, 40) { let n = 1 + r.below(3); pad_u(out, s, n) }
}
pub fn vec_of(items: &[Vec<u8>], r: &mut Rng, out: &mut Vec<u8>) {
    u(items.len() as u64, r, out);
    for i in items { out.extend_from_slice(i) }
}
pub fn bytes(b: &[u8], r: &mut Rng, out: &mut Vec<u8>) {
    u(b.len() as u64, r, out);
    out.extend_from_slice(b);
}

pub const VALS: [u8; 4] = [0x7F, 0x7E, 0x7D, 0x7C];

#[derive(Clone, Debug)]
pub struct FuncTy { pub params: Vec<u8>, pub results: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Lim { pub min: u32, pub max: Option<u32> }
#[derive(Clone, Debug)]
pub enum Imp { Func(u32), Table(Lim), Mem(Lim), Global(u8, u8) }
#[derive(Clone, Debug)]
pub struct Body { pub ty: u32, pub locals: Vec<(u32, u8)>, pub code: Vec<u8> }
#[derive(Clone, Debug, Default)]
pub struct M {
    pub types: Vec<FuncTy>,
    pub imports: Vec<(Vec<u8>, Vec<u8>, Imp)>,
    pub funcs: Vec<Body>,
    pub tables: Vec<Lim>,
    pub mems: Vec<Lim>,
    pub globals: Vec<(u8, u8, Vec<u8>)>,
    pub exports: Vec<(Vec<u8>, u8, u32)>,
    pub start: Option<u32>,
    pub elems: Vec<(u32, Vec<u8>, Vec<u32>)>,
    pub datas: Vec<(u32, Vec<u8>, Vec<u8>)>,
}

pub fn functy(t: &FuncTy, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![0x60];
    bytes(&t.params, r, &mut o);
    bytes(&t.results, r, &mut o);
    o
}
pub fn lim(l: &Lim, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![if l.max.is_some() { 1 } else { 0 }];
    u(l.min as u64, r, &mut o);
    if let Some(m) = l.max { u(m as u64, r, &mut o) }
    o
}
pub fn tablety(l: &Lim, r: &mut Rng) -> Vec<u8> { let mut o = vec![0x70]; o.extend(lim(l, r)); o }
pub fn import(i: &(Vec<u8>, Vec<u8>, Imp), r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    bytes(&i.0, r, &mut o);
    bytes(&i.1, r, &mut o);
    match &i.2 {
        Imp::Func(t) => { o.push(0); u(*t as u64, r, &mut o) }
        Imp::Table(l) => { o.push(1); o.extend(tablety(l, r)) }
        Imp::Mem(l) => { o.push(2); o.extend(lim(l, r)) }
        Imp::Global(v, m) => { o.push(3); o.push(*v); o.push(*m) }
    }
    o
}
pub fn body(b: &Body, r: &mut Rng) -> Vec<u8> {
    let mut c = vec![];
    let ls: Vec<Vec<u8>> = b.locals.iter().map(|(n, v)| { let mut o = vec![]; u(*n as u64, r, &mut o); o.push(*v); o }).collect();
    vec_of(&ls, r, &mut c);
    c.extend_from_slice(&b.code);
    c.push(0x0B);
    c
}
pub fn sections(m: &M, r: &mut Rng) -> Vec<(u8, Vec<u8>)> {
    let mut out: Vec<(u8, Vec<u8>)> = vec![];
    fn add(id: u8, items: Vec<Vec<u8>>, r: &mut Rng, out: &mut Vec<(u8, Vec<u8>)>) {
        if !items.is_empty() || r.chance(1, 12) { let mut o = vec![]; vec_of(&items, r, &mut o); out.push((id, o)) }
    }
    let v = m.types.iter().map(|t| functy(t, r)).collect(); add(1, v, r, &mut out);
    let v = m.imports.iter().map(|t| import(t, r)).collect(); add(2, v, r, &mut out);
    let v = m.funcs.iter().map(|f| { let mut o = vec![]; u(f.ty as u64, r, &mut o); o }).collect(); add(3, v, r, &mut out);
    let v = m.tables.iter().map(|t| tablety(t, r)).collect(); add(4, v, r, &mut out);
    let v = m.mems.iter().map(|t| lim(t, r)).collect(); add(5, v, r, &mut out);
    let v = m.globals.iter().map(|g| { let mut o = vec![g.0, g.1]; o.extend_from_slice(&g.2); o.push(0x0B); o }).collect(); add(6, v, r, &mut out);
    let v = m.exports.iter().map(|e| { let mut o = vec![]; bytes(&e.0, r, &mut o); o.push(e.1); u(e.2 as u64, r, &mut o); o }).collect(); add(7, v, r, &mut out);
    if let Some(s) = m.start { let mut o = vec![]; u(s as u64, r, &mut o); out.push((8, o)) }
    let v = m.elems.iter().map(|e| { let mut o = vec![]; u(e.0 as u64, r, &mut o); o.extend_from_slice(&e.1); o.push(0x0B); u(e.2.len() as u64, r, &mut o); for f in &e.2 { u(*f as u64, r, &mut o) } o }).collect(); add(9, v, r, &mut out);
    let v = m.funcs.iter().map(|f| { let c = body(f, r); let mut o = vec![]; bytes(&c, r, &mut o); o }).collect(); add(10, v, r, &mut out);
    let v = m.datas.iter().map(|e| { let mut o = vec![]; u(e.0 as u64, r, &mut o); o.extend_from_slice(&e.1); o.push(0x0B); bytes(&e.2, r, &mut o); o }).collect(); add(11, v, r, &mut out);
    out
}
pub fn frame(secs: &[(u8, Vec<u8>)], r: &mut Rng) -> Vec<u8> {
    let mut o = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    for (id, c) in secs { o.push(*id); bytes(c, r, &mut o) }
    o
}
pub fn module(m: &M, r: &mut Rng) -> Vec<u8> { let s = sections(m, r); frame(&s, r) }
