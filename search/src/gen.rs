//! Typed generation of modules and bodies; most are valid, the rest are off by one decision.
use crate::enc::*;
use crate::rng::{hints, Rng};

pub const I: u8 = 0x7F;
pub const L: u8 = 0x7E;
pub const F: u8 = 0x7D;
pub const D: u8 = 0x7C;

/// (params, results) of the instructions without control effect or environment.
pub fn sig(op: u8) -> Option<(Vec<u8>, Vec<u8>)> {
    Some(match op {
        0x28 | 0x2C..=0x2F => (vec![I], vec![I]),
        0x29 | 0x30..=0x35 => (vec![I], vec![L]),
        0x2A => (vec![I], vec![F]),
        0x2B => (vec![I], vec![D]),
        0x36 | 0x3A | 0x3B => (vec![I, I], vec![]),
        0x37 | 0x3C..=0x3E => (vec![I, L], vec![]),
        0x38 => (vec![I, F], vec![]),
        0x39 => (vec![I, D], vec![]),
        0x3F => (vec![], vec![I]),
        0x40 => (vec![I], vec![I]),
        0x41 => (vec![], vec![I]),
        0x42 => (vec![], vec![L]),
        0x43 => (vec![], vec![F]),
        0x44 => (vec![], vec![D]),
        0x45 => (vec![I], vec![I]),
        0x46..=0x4F => (vec![I, I], vec![I]),
        0x50 => (vec![L], vec![I]),
        0x51..=0x5A => (vec![L, L], vec![I]),
        0x5B..=0x60 => (vec![F, F], vec![I]),
        0x61..=0x66 => (vec![D, D], vec![I]),
        0x67..=0x69 => (vec![I], vec![I]),
        0x6A..=0x78 => (vec![I, I], vec![I]),
        0x79..=0x7B => (vec![L], vec![L]),
        0x7C..=0x8A => (vec![L, L], vec![L]),
        0x8B..=0x91 => (vec![F], vec![F]),
        0x92..=0x98 => (vec![F, F], vec![F]),
        0x99..=0x9F => (vec![D], vec![D]),
        0xA0..=0xA6 => (vec![D, D], vec![D]),
        0xA7 => (vec![L], vec![I]),
        0xA8 | 0xA9 => (vec![F], vec![I]),
        0xAA | 0xAB => (vec![D], vec![I]),
        0xAC | 0xAD => (vec![I], vec![L]),
        0xAE | 0xAF => (vec![F], vec![L]),
        0xB0 | 0xB1 => (vec![D], vec![L]),
        0xB2 | 0xB3 => (vec![I], vec![F]),
        0xB4 | 0xB5 => (vec![L], vec![F]),
        0xB6 => (vec![D], vec![F]),
        0xB7 | 0xB8 => (vec![I], vec![D]),
        0xB9 | 0xBA => (vec![L], vec![D]),
        0xBB => (vec![F], vec![D]),
        0xBC => (vec![F], vec![I]),
        0xBD => (vec![D], vec![L]),
        0xBE => (vec![I], vec![F]),
        0xBF => (vec![L], vec![D]),
        _ => return None,
    })
}
/// log2 of the access width
pub fn natural(op: u8) -> u32 {
    match op {
        0x28 | 0x2A | 0x34 | 0x35 | 0x36 | 0x38 | 0x3E => 2,
        0x29 | 0x2B | 0x37 | 0x39 => 3,
        0x2C | 0x2D | 0x30 | 0x31 | 0x3A | 0x3C => 0,
        _ => 1,
    }
}
pub fn konst(t: u8, r: &mut Rng, out: &mut Vec<u8>) {
    match t {
        I => { out.push(0x41); let v = if r.chance(1, 6) { r.edge() as i32 } else { r.next() as i32 }; sleb(if r.chance(1, 2) { (v & 0x3f) as i64 } else { v as i64 }, out); if r.chance(1, 50) { pad_s(out, 1) } }
        L => { out.push(0x42); let v = if r.chance(1, 6) { r.edge() as i64 } else { r.next() as i64 }; sleb(if r.chance(1, 2) { v & 0x3f } else { v }, out) }
        F => { out.push(0x43); let v = r.next() as u32; out.extend_from_slice(&v.to_le_bytes()) }
        _ => { out.push(0x44); let v = r.next(); out.extend_from_slice(&v.to_le_bytes()) }
    }
}
pub fn small_konst(t: u8, out: &mut Vec<u8>) {
    match t {
        I => out.extend_from_slice(&[0x41, 0]),
        L => out.extend_from_slice(&[0x42, 0]),
        F => out.extend_from_slice(&[0x43, 0, 0, 0, 0]),
        _ => out.extend_from_slice(&[0x44, 0, 0, 0, 0, 0, 0, 0, 0]),
    }
}
/// op with valid immediates, without environment
pub fn plain_op(op: u8, out: &mut Vec<u8>) {
    out.push(op);
    match op {
        0x28..=0x3E => out.extend_from_slice(&[0, 0]),
        0x3F | 0x40 => out.push(0),
        0x41 | 0x42 => out.push(0),
        0x43 => out.extend_from_slice(&[0; 4]),
        0x44 => out.extend_from_slice(&[0; 8]),
        _ => (),
    }
}

pub struct Env {
    pub types: Vec<FuncTy>,
    pub funcs: Vec<u32>,
    pub globals: Vec<(u8, u8)>,
    pub tables: usize,
    pub mems: usize,
    pub locals: Vec<u8>,
    pub ret: Vec<u8>,
}

pub struct BodyGen<'a> {
    pub env: &'a Env,
    pub r: &'a mut Rng,
    pub out: Vec<u8>,
    pub eps: usize, // 1-in-n decisions is deliberately off; 0: never
    pub labels: Vec<Vec<u8>>,
}

struct St { ops: Vec<Option<u8>>, dead: bool }

impl<'a> BodyGen<'a> {
    fn off(&mut self) -> bool { self.eps != 0 && self.r.chance(1, self.eps) }
    fn val(&mut self) -> u8 { self.r.pick(&VALS) }
    fn push_any(&mut self, st: &mut St) {
        let v = self.val();
        self.want(v, st)
    }
    /// makes v the top of the stack
    fn want(&mut self, v: u8, st: &mut St) {
        let v = if self.off() { self.val() } else { v };
        match self.r.below(6) {
            0 => if let Some(i) = self.env.locals.iter().position(|t| *t == v) { self.out.push(0x20); uleb(i as u64, &mut self.out) } else { konst(v, self.r, &mut self.out) },
            1 => if let Some(i) = self.env.globals.iter().position(|t| t.0 == v) { self.out.push(0x23); uleb(i as u64, &mut self.out) } else { konst(v, self.r, &mut self.out) },
            _ => konst(v, self.r, &mut self.out),
        }
        st.ops.push(Some(v));
    }
    /// makes the stack end with these, reusing what is there when it fits
    fn wants(&mut self, vs: &[u8], st: &mut St) {
        let n = st.ops.len();
        if n >= vs.len() && vs.iter().zip(&st.ops[n - vs.len()..]).all(|(a, b)| b.map(|x| x == *a).unwrap_or(true)) && self.r.chance(4, 5) { return }
        if st.dead && self.r.chance(1, 2) {
            // rely on the polymorphic stack where possible
            let k = self.r.below(vs.len() + 1);
            if n == 0 { for v in &vs[k..] { self.want(*v, st) } return }
        }
        for v in vs { self.want(*v, st) }
    }
    fn pop(&mut self, n: usize, st: &mut St) { for _ in 0..n { st.ops.pop(); } }
    fn idx(&mut self, n: usize) -> u64 { if self.off() { if self.r.chance(1, 3) { self.r.edge() as u32 as u64 } else { n as u64 + self.r.below(3) as u64 } } else if self.r.chance(1, 10) { n.saturating_sub(1) as u64 } else { self.r.below(n) as u64 } }

    fn kill(&mut self, st: &mut St) { st.ops.clear(); st.dead = true }

    pub fn seq(&mut self, depth: usize, budget: usize, result: &[u8]) {
        let mut st = St { ops: vec![], dead: false };
        if self.r.1 > 0 && self.r.chance(1, 4) { let k = self.r.large().min(2100); self.r.1 -= 1; for _ in 0..k { self.push_any(&mut st) } }
        let n = self.r.count(budget + 1).min(20_000);
        for _ in 0..n { self.one(depth, budget, &mut st) }
        // leave exactly the result
        if !self.off() {
            let fits = st.ops.len() == result.len() && st.ops.iter().zip(result).all(|(a, b)| a.map(|x| x == *b).unwrap_or(true));
            if !fits {
                if self.r.chance(1, 6) && !st.dead { self.out.push(0x00); self.kill(&mut st); }
                else {
                    while !st.ops.is_empty() { self.out.push(0x1A); st.ops.pop(); }
                }
                if !(st.dead && self.r.chance(1, 2)) { for v in result { self.want(*v, &mut st) } }
            }
        }
    }
    fn blockty(&mut self) -> Vec<u8> { if self.r.chance(1, 2) { vec![] } else { vec![self.val()] } }
    fn emit_bt(&mut self, b: &[u8]) { if b.is_empty() { self.out.push(0x40) } else { self.out.push(b[0]) } }

    fn one(&mut self, depth: usize, budget: usize, st: &mut St) {
        if self.out.len() > 60_000 { return }
        match self.r.below(30) {
            0 => self.out.push(0x01),
            1 if self.r.chance(1, 3) => { self.out.push(0x00); self.kill(st) }
            2 | 3 | 4 if depth > 0 => {
                let b = self.blockty();
                let k = self.r.below(3);
                if k == 2 { self.wants(&[I], st); self.pop(1, st) }
                self.out.push([0x02, 0x03, 0x04][k]);
                self.emit_bt(&b);
                let l = if k == 1 && !self.off() { vec![] } else { b.clone() };
                self.labels.push(l);
                let more = if self.r.1 > 0 && self.r.chance(1, 4) { self.r.1 -= 1; self.r.large().min(300) } else { 0 };
                for _ in 0..more { let k = self.r.below(2); self.out.push([0x02, 0x03][k]); self.emit_bt(&b); self.labels.push(if k == 1 { vec![] } else { b.clone() }) }
                self.seq(depth - 1, budget / 2 + 1, &b);
                for _ in 0..more { self.out.push(0x0B); self.labels.pop(); }
                if k == 2 && (!b.is_empty() || self.r.chance(1, 2)) && !self.off() { self.out.push(0x05); self.seq(depth - 1, budget / 2 + 1, &b) }
                self.labels.pop();
                self.out.push(0x0B);
                for v in b { st.ops.push(Some(v)) }
            }
            5 => {
                let i = self.idx(self.labels.len());
                let l = self.labels.len();
                let ty = if (i as usize) < l { self.labels[l - 1 - i as usize].clone() } else { vec![] };
                self.wants(&ty, st);
                self.out.push(0x0C);
                uleb(i, &mut self.out);
                self.kill(st)
            }
            6 => {
                let i = self.idx(self.labels.len());
                let l = self.labels.len();
                let ty = if (i as usize) < l { self.labels[l - 1 - i as usize].clone() } else { vec![] };
                let mut w = ty.clone();
                w.push(I);
                self.wants(&w, st);
                self.out.push(0x0D);
                uleb(i, &mut self.out);
                self.pop(w.len(), st);
                for v in ty { st.ops.push(Some(v)) }
            }
            7 => {
                let l = self.labels.len();
                let i = self.idx(l);
                let ty = if (i as usize) < l { self.labels[l - 1 - i as usize].clone() } else { vec![] };
                let mut w = ty.clone();
                w.push(I);
                self.wants(&w, st);
                self.out.push(0x0E);
                let same: Vec<u64> = (0..l).filter(|j| self.labels[l - 1 - *j] == ty).map(|j| j as u64).collect();
                let n = self.r.count(4);
                uleb(n as u64, &mut self.out);
                for _ in 0..n { let j = if same.is_empty() || self.off() { self.idx(l + 1) } else { self.r.pick(&same) }; uleb(j, &mut self.out) }
                uleb(i, &mut self.out);
                self.kill(st)
            }
            8 if self.r.chance(1, 2) => {
                let t = self.env.ret.clone();
                self.wants(&t, st);
                self.out.push(0x0F);
                self.kill(st)
            }
            9 | 10 => if !self.env.funcs.is_empty() || self.off() {
                let i = self.idx(self.env.funcs.len());
                let t = self.env.funcs.get(i as usize).and_then(|t| self.env.types.get(*t as usize)).cloned().unwrap_or(FuncTy { params: vec![], results: vec![] });
                self.wants(&t.params, st);
                self.out.push(0x10);
                uleb(i, &mut self.out);
                self.pop(t.params.len(), st);
                for v in t.results { st.ops.push(Some(v)) }
            },
            11 => if (self.env.tables > 0 && !self.env.types.is_empty()) || self.off() {
                let i = self.idx(self.env.types.len());
                let t = self.env.types.get(i as usize).cloned().unwrap_or(FuncTy { params: vec![], results: vec![] });
                let mut w = t.params.clone();
                w.push(I);
                self.wants(&w, st);
                self.out.push(0x11);
                uleb(i, &mut self.out);
                let x = self.off() as u8;
                self.out.push(x);
                self.pop(w.len(), st);
                for v in t.results { st.ops.push(Some(v)) }
            },
            12 => {
                if st.ops.is_empty() && !st.dead && !self.off() { self.push_any(st) }
                self.out.push(0x1A);
                st.ops.pop();
            }
            13 => {
                let v = self.val();
                let v2 = if self.off() { self.val() } else { v };
                self.wants(&[v, v2, I], st);
                self.out.push(0x1B);
                self.pop(3, st);
                if st.ops.is_empty() && st.dead && self.r.chance(1, 2) { st.ops.push(None) } else { st.ops.push(Some(v)) }
            }
            14 | 15 | 16 => if !self.env.locals.is_empty() || self.off() {
                let i = self.idx(self.env.locals.len());
                let t = self.env.locals.get(i as usize).copied().unwrap_or(I);
                let k = self.r.below(3);
                if k > 0 { self.wants(&[t], st); self.pop(1, st) }
                self.out.push(0x20 + k as u8);
                uleb(i, &mut self.out);
                if k != 1 { st.ops.push(Some(t)) }
            },
            17 => if !self.env.globals.is_empty() || self.off() {
                let i = self.idx(self.env.globals.len());
                let t = self.env.globals.get(i as usize).copied().unwrap_or((I, 1));
                if (t.1 == 1 && self.r.chance(1, 2)) || self.off() {
                    self.wants(&[t.0], st);
                    self.pop(1, st);
                    self.out.push(0x24)
                } else { self.out.push(0x23); st.ops.push(Some(t.0)) }
                uleb(i, &mut self.out);
            },
            18 | 19 | 20 => if self.env.mems > 0 || self.off() {
                let op = 0x28 + self.r.below(0x40 - 0x28 + 1) as u8;
                let (a, b) = sig(op).unwrap();
                self.wants(&a, st);
                self.pop(a.len(), st);
                self.out.push(op);
                if op <= 0x3E {
                    let n = natural(op);
                    let al = if self.off() { n + 1 + self.r.below(3) as u32 } else { self.r.below(n as usize + 1) as u32 };
                    uleb(al as u64, &mut self.out);
                    let o = if self.r.chance(1, 4) { self.r.edge() as u32 } else { self.r.next() as u32 >> self.r.below(32) };
                    uleb(o as u64, &mut self.out);
                } else { let x = self.off() as u8; self.out.push(x) }
                for v in b { st.ops.push(Some(v)) }
            },
            _ => {
                let op = 0x41 + self.r.below(0xC0 - 0x41) as u8;
                let (a, b) = sig(op).unwrap();
                self.wants(&a, st);
                self.pop(a.len(), st);
                if (0x41..=0x44).contains(&op) { konst(b[0], self.r, &mut self.out) } else { self.out.push(op) }
                for v in b { st.ops.push(Some(v)) }
            }
        }
    }
}

pub fn gen_lim(r: &mut Rng, eps: usize, mem: bool) -> Lim {
    let cap: u64 = if mem { 65536 } else { 0xFFFF_FFFF };
    let off = eps != 0 && r.chance(1, eps);
    let pick = |r: &mut Rng| -> u64 {
        match r.below(7) { 0 => 0, 1 => 1, 2 => cap, 3 => cap - 1, 4 => r.below(10) as u64, 5 => r.edge() % (cap + 1), _ => r.next() % (cap + 1) }
    };
    let mut a = pick(r);
    let mut b = pick(r);
    if a > b && !off { std::mem::swap(&mut a, &mut b) }
    if off && r.chance(1, 2) { if r.chance(1, 2) { a = (a + cap).min(0xFFFF_FFFF) } else { b = (b + cap).min(0xFFFF_FFFF) } }
    Lim { min: a as u32, max: if r.chance(1, 2) { Some(b as u32) } else { None } }
}

/// mostly short names, sometimes one that is special to somebody
pub fn text(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 4) {
        let h = &hints().strs;
        let mut s = if !h.is_empty() && r.chance(1, 2) { h[r.below(h.len())].clone() } else {
            r.pick(&["env", "name", "linking", "producers", "main", "memory", "_start", "", " ", "a ", " a", "a\0", "\0", "A", "Ab", "aB", "\u{FEFF}a", "\u{FEFF}", "\u{E9}", "e\u{301}", "\u{1F496}", "a\n", "a/b", ".debug_info"]).as_bytes().to_vec()
        };
        match r.below(8) { 0 => s.push(b'a'), 1 => { s.pop(); if std::str::from_utf8(&s).is_err() { s.clear() } } 2 => s.make_ascii_uppercase(), 3 => s.insert(0, b'a'), 4 => s.extend("\u{E9}b".bytes()), _ => () }
        return s
    }
    let n = r.count(4);
    (0..n).map(|_| b'a' + r.below(6) as u8).collect()
}

fn name(r: &mut Rng) -> Vec<u8> {
    text(r)
}

/// A constant expression of type t over these globals (index, type, mutability).
fn constexpr(t: u8, globals: &[(u8, u8)], r: &mut Rng, eps: usize) -> Vec<u8> {
    let off = |r: &mut Rng| eps != 0 && r.chance(1, eps);
    let mut o = vec![];
    let t = if off(r) { r.pick(&VALS) } else { t };
    if off(r) {
        match r.below(8) {
            0 => (),
            1 => { konst(t, r, &mut o); konst(t, r, &mut o) }
            2 => { konst(t, r, &mut o); o.push(0x01) }
            3 => { konst(I, r, &mut o); konst(I, r, &mut o); o.push(0x6A) }
            4 => { o.push(0x00) }
            5 => { o.push(0x02); o.push(t); konst(t, r, &mut o); o.push(0x0B) }
            6 => { konst(t, r, &mut o); konst(t, r, &mut o); o.push(0x1A) }
            _ => { o.push(0x23); uleb(r.below(globals.len() + 2) as u64, &mut o) }
        }
        return o
    }
    let c: Vec<usize> = globals.iter().enumerate().filter(|(_, g)| g.0 == t && (g.1 == 0 || off(r))).map(|x| x.0).collect();
    if !c.is_empty() && r.chance(1, 2) { o.push(0x23); uleb(r.pick(&c) as u64, &mut o) } else { konst(t, r, &mut o) }
    o
}

pub struct Opt { pub eps: usize, pub funcs: usize, pub budget: usize, pub depth: usize }

pub fn gen_module(r: &mut Rng, o: &Opt) -> M {
    let eps = o.eps;
    let off = |r: &mut Rng| eps != 0 && r.chance(1, eps);
    let mut m = M::default();
    let nt = 1 + r.count(4).min(2100);
    for _ in 0..nt {
        let np = r.count(4).min(300);
        let params = (0..np).map(|_| r.pick(&VALS)).collect();
        let nr = if off(r) { 2 + r.count(2).min(40) } else { r.below(2) };
        let results = (0..nr).map(|_| r.pick(&VALS)).collect();
        m.types.push(FuncTy { params, results })
    }
    let (mut nf, mut ntab, mut nmem) = (vec![], 0usize, 0usize);
    let mut globals: Vec<(u8, u8)> = vec![];
    let ni = if r.chance(1, 2) { 0 } else { r.count(6).min(1100) };
    for _ in 0..ni {
        let d = match r.below(5) {
            0 | 1 => { let t = if off(r) { nt as u32 } else { r.below(nt) as u32 }; nf.push(t); Imp::Func(t) }
            2 if ntab == 0 || off(r) => { ntab += 1; Imp::Table(gen_lim(r, eps, false)) }
            3 if nmem == 0 || off(r) => { nmem += 1; Imp::Mem(gen_lim(r, eps, true)) }
            _ => { let g = (r.pick(&VALS), r.below(2) as u8); globals.push(g); Imp::Global(g.0, g.1) }
        };
        let nm = match m.imports.last() { Some(l) if r.chance(1, 6) => (l.0.clone(), l.1.clone()), _ => (name(r), name(r)) };
        m.imports.push((nm.0, nm.1, d))
    }
    let imported = globals.clone();
    let k = r.count(o.funcs + 1).min(600);
    let tys: Vec<u32> = (0..k).map(|_| if off(r) { nt as u32 } else { r.below(nt) as u32 }).collect();
    nf.extend(&tys);
    if (ntab == 0 && r.chance(2, 3)) || off(r) { let l = gen_lim(r, eps, false); m.tables.push(l); ntab += 1 }
    if (nmem == 0 && r.chance(2, 3)) || off(r) { let l = gen_lim(r, eps, true); m.mems.push(l); nmem += 1 }
    let ng = r.count(4).min(1100);
    for _ in 0..ng {
        let t = r.pick(&VALS);
        let mt = r.below(2) as u8;
        let src = if off(r) { globals.clone() } else { imported.clone() };
        let e = constexpr(t, &src, r, eps);
        m.globals.push((t, mt, e));
        globals.push((t, mt));
    }
    for (n, ty) in tys.iter().enumerate() {
        let _ = n;
        let t = m.types.get(*ty as usize).cloned().unwrap_or(FuncTy { params: vec![], results: vec![] });
        let nl = r.count(3).min(1100);
        let locals: Vec<(u32, u8)> = (0..nl).map(|_| (r.count(3) as u32, r.pick(&VALS))).collect();
        let mut ls = t.params.clone();
        for (n, v) in &locals { for _ in 0..*n { ls.push(*v) } }
        let env = Env { types: m.types.clone(), funcs: nf.clone(), globals: globals.clone(), tables: ntab, mems: nmem, locals: ls, ret: t.results.clone() };
        // the whole body inside blocks: nothing changes but the depth
        let wrap = if t.results.len() < 2 && r.1 > 0 && r.chance(1, 3) { r.1 -= 1; r.large().min(300) } else { 0 };
        let mut g = BodyGen { env: &env, r, out: vec![], eps: if wrap > 0 { eps } else { eps * 3 }, labels: vec![t.results.clone(); wrap + 1] };
        for _ in 0..wrap { g.out.push(0x02); g.emit_bt(&t.results) }
        g.seq(o.depth, o.budget, &t.results);
        for _ in 0..wrap { g.out.push(0x0B) }
        let code = g.out;
        m.funcs.push(Body { ty: *ty, locals, code })
    }
    let mut used: Vec<Vec<u8>> = vec![];
    let nx = r.count(5).min(1100);
    for _ in 0..nx {
        let mut nm = name(r);
        while used.contains(&nm) && !off(r) { nm.push(b'z') }
        used.push(nm.clone());
        let (k, n) = match r.below(4) { 0 => (0, nf.len()), 1 => (1, ntab), 2 => (2, nmem), _ => (3, globals.len()) };
        if n == 0 && !off(r) { continue }
        let i = if off(r) { n } else { r.below(n) };
        m.exports.push((nm, k, i as u32))
    }
    if r.chance(1, 3) {
        let c: Vec<u32> = nf.iter().enumerate().filter(|(_, t)| m.types.get(**t as usize).map(|t| t.params.is_empty() && t.results.is_empty()).unwrap_or(false)).map(|x| x.0 as u32).collect();
        if off(r) { m.start = Some(r.below(nf.len() + 1) as u32) } else if !c.is_empty() { m.start = Some(r.pick(&c)) }
    }
    if ntab > 0 || off(r) {
        let n = r.count(3).min(2000);
        for _ in 0..n {
            if r.chance(1, 8) { if let Some(x) = m.elems.last().cloned() { m.elems.push(x); continue } }
            let e = constexpr(I, &globals, r, eps);
            let k = if nf.is_empty() && !off(r) { 0 } else { r.count(3) };
            let fs = (0..k).map(|_| if off(r) { nf.len() as u32 } else { r.below(nf.len()) as u32 }).collect();
            let t = if off(r) { 1 } else { 0 };
            m.elems.push((t, e, fs))
        }
    }
    if nmem > 0 || off(r) {
        let n = r.count(3).min(2000);
        for _ in 0..n {
            if r.chance(1, 8) { if let Some(x) = m.datas.last().cloned() { m.datas.push(x); continue } }
            let e = constexpr(I, &globals, r, eps);
            let k = r.count(4);
            let b = (0..k).map(|_| r.byte()).collect();
            let t = if off(r) { 1 } else { 0 };
            m.datas.push((t, e, b))
        }
    }
    m
}
