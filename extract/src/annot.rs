//! The annotation file: contracts, invariants and proof blocks keyed by item.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Default, Debug)]
pub struct Loop {
    pub iter: String,
    pub inv: String,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Clone, Default, Debug)]
pub struct Ann {
    pub attrs: String,
    pub ret: String,
    pub spec: String,
    pub start: String,
    pub loops: BTreeMap<usize, Loop>,
    pub stub: bool,
    pub external: bool,
    pub optional: bool,
    pub detach: Option<String>,
    /// (start of a statement, text put before it)
    pub at: Vec<(String, String)>,
}

impl Ann {
    /// Replaces the width placeholders of a monomorphised numeric function.
    pub fn subst(&mut self, w: &str) {
        let bits: u32 = w[1..].parse().unwrap();
        let f = |s: &mut String| {
            *s = s.replace("$U", &format!("u{}", bits)).replace("$T", w).replace("$N", &bits.to_string());
        };
        f(&mut self.spec);
        f(&mut self.start);
        for a in self.at.iter_mut() {
            f(&mut a.1);
        }
        for l in self.loops.values_mut() {
            f(&mut l.inv);
            f(&mut l.start);
            f(&mut l.end);
            f(&mut l.before);
            f(&mut l.after);
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Template {
    pub shape: String,
    pub text: String,
}

#[derive(Default)]
pub struct Annots {
    pub fns: BTreeMap<String, Ann>,
    pub impls: BTreeMap<String, String>,
    pub impl_attrs: BTreeMap<String, String>,
    pub siblings: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub mods: BTreeMap<String, String>,
    pub external_impls: BTreeSet<String>,
    pub templates: BTreeMap<String, Template>,
}

fn rekey<T>(m: &mut BTreeMap<String, T>, o: &str, n: &str) {
    if let Some(x) = m.remove(o) {
        m.insert(n.to_string(), x);
    }
}

impl Annots {
    /// Lets the contracts follow functions that are elsewhere now.
    pub fn relocate(&mut self, moves: &[(String, String)]) {
        for (o, n) in moves {
            rekey(&mut self.fns, o, n);
            if let (Some((oi, _)), Some((ni, _))) = (o.rsplit_once(" | "), n.rsplit_once(" | ")) {
                for m in [&mut self.impls, &mut self.impl_attrs, &mut self.siblings, &mut self.traits] {
                    rekey(m, oi, ni);
                }
                if self.external_impls.remove(oi) {
                    self.external_impls.insert(ni.to_string());
                }
            }
            let (om, nm) = (o.split(" | ").next().unwrap(), n.split(" | ").next().unwrap());
            if let (Some(t), false) = (self.mods.get(om).cloned(), self.mods.contains_key(nm)) {
                self.mods.insert(nm.to_string(), t);
            }
        }
    }
}

fn key(s: &str) -> String {
    s.split('|').map(|p| p.trim()).enumerate().map(|(i, p)| if i == 0 { p.to_string() } else { normhdr(p) }).collect::<Vec<_>>().join(" | ")
}

fn normhdr(p: &str) -> String {
    match p.rsplit_once(" for ") {
        Some((t, ty)) => format!("{} for {}", crate::normstr(t), crate::normstr(ty)),
        None => crate::normstr(p),
    }
}

/// Lines starting with `%%` open an item, lines starting with `%` a part of it, `##` is a comment.
pub fn load(f: &Path) -> Annots {
    let mut a = Annots::default();
    let files: Vec<std::path::PathBuf> = if f.is_dir() {
        let mut v: Vec<_> = std::fs::read_dir(f).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "ann").unwrap_or(false)).collect();
        v.sort();
        v
    } else {
        vec![f.to_path_buf()]
    };
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut kind = String::new();
        let mut keys: Vec<String> = vec![];
        let mut part = String::new();
        let mut argn = String::new();
        let mut buf = String::new();
        let mut flush = |a: &mut Annots, kind: &str, keys: &[String], part: &str, argn: &str, buf: &mut String| {
            let b = std::mem::take(buf);
            for k in keys {
                match kind {
                    "fn" => {
                        let e = a.fns.entry(k.clone()).or_default();
                        let li = || argn.split_whitespace().next().and_then(|x| x.parse::<usize>().ok()).expect("loop number");
                        match part {
                            "" => {}
                            "attrs" => e.attrs.push_str(&b),
                            "ret" => e.ret = argn.to_string(),
                            "spec" => e.spec.push_str(&b),
                            "start" => e.start.push_str(&b),
                            "stub" => e.stub = true,
                            "external" => e.external = true,
                            "optional" => e.optional = true,
                            "at" => e.at.push((crate::normstr(argn), b.clone())),
                            "detach" => e.detach = Some(b.clone()),
                            "loop" => {
                                let l = e.loops.entry(li()).or_default();
                                l.inv.push_str(&b);
                                if let Some(n) = argn.split_whitespace().nth(1) {
                                    l.iter = n.to_string();
                                }
                            }
                            "loopstart" => e.loops.entry(li()).or_default().start.push_str(&b),
                            "loopend" => e.loops.entry(li()).or_default().end.push_str(&b),
                            "before" => e.loops.entry(li()).or_default().before.push_str(&b),
                            "after" => e.loops.entry(li()).or_default().after.push_str(&b),
                            o => panic!("unknown part {}", o),
                        }
                    }
                    "impl" => match part {
                        "" | "text" => a.impls.entry(k.clone()).or_default().push_str(&b),
                        "attrs" => a.impl_attrs.entry(k.clone()).or_default().push_str(&b),
                        "sibling" => a.siblings.entry(k.clone()).or_default().push_str(&b),
                        o => panic!("unknown part {}", o),
                    },
                    "trait" => a.traits.entry(k.clone()).or_default().push_str(&b),
                    "mod" => a.mods.entry(k.clone()).or_default().push_str(&b),
                    "external" => {
                        a.external_impls.insert(k.clone());
                    }
                    "template" => {
                        let e = a.templates.entry(k.clone()).or_default();
                        match part {
                            "shape" => e.shape.push_str(&b),
                            "text" => e.text.push_str(&b),
                            _ => {}
                        }
                    }
                    "" => {}
                    o => panic!("unknown kind {}", o),
                }
            }
        };
        for l in text.lines() {
            if l.starts_with("##") {
                continue;
            }
            if let Some(r) = l.strip_prefix("%%") {
                flush(&mut a, &kind, &keys, &part, &argn, &mut buf);
                let r = r.trim();
                let (k, rest) = r.split_once(' ').unwrap_or((r, ""));
                kind = k.to_string();
                keys = rest.split(" ;; ").map(key).collect();
                part = String::new();
                argn = String::new();
            } else if let Some(r) = l.strip_prefix('%') {
                flush(&mut a, &kind, &keys, &part, &argn, &mut buf);
                let (p, n) = r.split_once(' ').unwrap_or((r, ""));
                part = p.trim().to_string();
                argn = n.trim().to_string();
            } else {
                buf.push_str(l);
                buf.push('\n');
            }
        }
        flush(&mut a, &kind, &keys, &part, &argn, &mut buf);
    }
    a
}
