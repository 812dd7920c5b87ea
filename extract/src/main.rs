//! Mechanical extraction of the crate under verification into one Verus source file.
//!
//! Function bodies are copied verbatim from the repository; the only changes made to them are the
//! rewrite rules in `rules` (each application is recorded in the map file) and the insertion of
//! contracts, loop invariants and proof blocks taken from the annotation file. Nothing is written
//! by hand that stands in for the code, except functions marked `%stub` / `%external` in the
//! annotations, which are reported as trusted.
mod annot;
mod expand;
mod inline;
mod normal;
mod rename;

use annot::{Ann, Annots};
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub seq: usize,
}

#[derive(Default)]
struct Report {
    functions: Vec<String>,  // json objects
    dropped: Vec<String>,
    rules: BTreeMap<String, usize>,
    problems: Vec<String>,
}

pub struct Src {
    pub text: String,
    lines: Vec<usize>,
}

impl Src {
    pub fn new(text: String) -> Src {
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push(i + 1);
            }
        }
        Src { text, lines }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.lines[lc.line - 1];
        // column counts characters
        let mut o = ls;
        for _ in 0..lc.column {
            o += self.text[o..].chars().next().map(|c| c.len_utf8()).unwrap_or(0);
        }
        o
    }
    pub fn range(&self, sp: Span) -> (usize, usize) {
        (self.off(sp.start()), self.off(sp.end()))
    }
}

pub fn norm<T: ToTokens>(t: &T) -> String {
    normstr(&t.to_token_stream().to_string())
}
pub fn normstr(s: &str) -> String {
    let toks: proc_macro2::TokenStream = match s.parse() {
        Ok(t) => t,
        Err(_) => return s.split_whitespace().collect::<Vec<_>>().join(""),
    };
    fn go(ts: proc_macro2::TokenStream, out: &mut String) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                }
                o => {
                    let s = o.to_string();
                    if let (Some(l), Some(f)) = (out.chars().last(), s.chars().next()) {
                        if (l.is_alphanumeric() || l == '_') && (f.is_alphanumeric() || f == '_') {
                            out.push(' ');
                        }
                    }
                    out.push_str(&s);
                }
            }
        }
    }
    let mut out = String::new();
    go(toks, &mut out);
    out
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(&a.meta).contains("test"))
}

const NUM_BOUNDS: &[&str] = &["PrimInt", "Signed", "Unsigned", "FromPrimitive", "Num", "Bounded", "NumCast", "Float", "Zero", "One"];
const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"];

fn num_param(sig: &syn::Signature) -> Option<(String, bool)> {
    // the name of a type parameter bounded by a num_traits trait, and whether it is a float
    let mut bounds: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for p in sig.generics.type_params() {
        let e = bounds.entry(p.ident.to_string()).or_default();
        for b in p.bounds.iter() {
            e.push(norm(b));
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in w.predicates.iter() {
            if let syn::WherePredicate::Type(t) = p {
                let e = bounds.entry(norm(&t.bounded_ty)).or_default();
                for b in t.bounds.iter() {
                    e.push(norm(b));
                }
            }
        }
    }
    for (n, bs) in bounds {
        let last = |b: &String| b.rsplit("::").next().unwrap_or("").to_string();
        if bs.iter().any(|b| NUM_BOUNDS.contains(&last(b).as_str())) {
            return Some((n, bs.iter().any(|b| last(b) == "Float")));
        }
    }
    None
}

fn prim_size(p: &str) -> usize {
    p[1..].parse::<usize>().unwrap() / 8
}

/// A module of the generated crate.
struct Module {
    name: String,
    body: String,
    children: Vec<Module>,
}

struct Ctx<'a> {
    ann: &'a Annots,
    rep: Report,
    used: BTreeSet<String>,
    names: rename::Names,
    plan: rename::Plan,
    macros: expand::Macros,
    foreign: Vec<inline::Foreign>,
}

/// Collects the names of all files below a directory, starting from the given file.
fn scan(file: &Path, childdir: &Path, path: &str, names: &mut rename::Names, macros: &expand::Macros) {
    let ast = match std::fs::read_to_string(file).ok().and_then(|t| syn::parse_file(&t).ok().map(|a| (t, a))) {
        Some((t, a)) => {
            let (t, a, _) = expand::expand(t, a, macros);
            normal::normalise(t, a).1
        }
        None => return, // reported when it is loaded
    };
    if !path.is_empty() {
        rename::collect(&ast, path, names);
    }
    for it in ast.items.iter() {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_cfg_test(&m.attrs) {
                let n = m.ident.to_string();
                let p = if path.is_empty() { n.clone() } else { format!("{}::{}", path, n) };
                let f1 = childdir.join(format!("{}.rs", n));
                let f2 = childdir.join(&n).join("mod.rs");
                scan(if f1.exists() { &f1 } else { &f2 }, &childdir.join(&n), &p, names, macros);
            }
        }
    }
}

/// Collects the helpers without a contract of all files.
fn helpers(cx: &mut Ctx, file: &Path, childdir: &Path, path: &str) {
    let (text, ast) = match std::fs::read_to_string(file).ok().and_then(|t| syn::parse_file(&t).ok().map(|a| (t, a))) {
        Some(x) => x,
        None => return,
    };
    let (text, ast, _) = expand::expand(text, ast, &cx.macros);
    let (text, ast, _) = normal::normalise(text, ast);
    let (text, ast, _) = rename::restore(text, ast, &cx.names, &cx.plan, path);
    if !path.is_empty() {
        inline::foreign(&text, &ast, cx.ann, path, &mut cx.foreign);
    }
    for it in ast.items.iter() {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_cfg_test(&m.attrs) {
                let n = m.ident.to_string();
                let p = if path.is_empty() { n.clone() } else { format!("{}::{}", path, n) };
                let f1 = childdir.join(format!("{}.rs", n));
                let f2 = childdir.join(&n).join("mod.rs");
                helpers(cx, if f1.exists() { &f1 } else { &f2 }, &childdir.join(&n), &p);
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "names" {
        // extract names SRC TOOLSRC: the names the annotations refer to
        let mut n = rename::Names::default();
        scan(&Path::new(&args[2]).join("lib.rs"), Path::new(&args[2]), "", &mut n, &Default::default());
        scan(&Path::new(&args[3]).join("main.rs"), Path::new(&args[3]), "cli", &mut n, &Default::default());
        print!("{}", n.write());
        return;
    }
    let src = PathBuf::from(&args[1]);
    let annfile = PathBuf::from(&args[2]);
    let specdir = PathBuf::from(&args[3]);
    let out = PathBuf::from(&args[4]);
    let mapf = PathBuf::from(&args[5]);
    let mut drops: BTreeSet<String> = args[6..].iter().cloned().collect();
    let mut ann = annot::load(&annfile);
    let cli = drops.iter().find_map(|d| d.strip_prefix("cli=").map(PathBuf::from));
    let mut names = rename::Names::read(&std::fs::read_to_string(annfile.join("names.txt")).unwrap_or_default());
    let mut now = rename::Names::default();
    let macros = expand::collect(&src);
    let climacros = cli.as_ref().map(|d| expand::collect(d)).unwrap_or_default();
    scan(&src.join("lib.rs"), &src, "", &mut now, &macros);
    if let Some(dir) = &cli {
        scan(&dir.join("main.rs"), dir, "cli", &mut now, &climacros);
    }
    let moves = rename::moves(&names, &now);
    ann.relocate(&moves);
    // the contracts name types through these modules
    for m in moves.iter().map(|m| m.1.split(" | ").next().unwrap()).collect::<BTreeSet<_>>() {
        ann.mods.entry(m.to_string()).or_default().push_str("\nuse crate::vscope::*;\n");
    }
    names.relocate(&moves);
    let moved = |k: &str, from: &str, to: &str| k.strip_prefix(from).filter(|r| r.is_empty() || r.starts_with(" [")).map(|r| format!("{}{}", to, r));
    drops = drops.into_iter().map(|d| moves.iter().find_map(|(o, n)| moved(&d, o, n)).unwrap_or(d)).collect();
    let plan = rename::plan(&names, &now);
    let mut cx = Ctx { ann: &ann, rep: Report::default(), used: BTreeSet::new(), names, plan, macros, foreign: Vec::new() };
    helpers(&mut cx, &src.join("lib.rs"), &src, "");
    let count = |f: &inline::Foreign| now.named(&f.name);
    let once: Vec<inline::Foreign> = cx.foreign.iter().filter(|f| count(f) == 1).cloned().collect();
    cx.foreign = once;
    for (o, n) in &moves {
        cx.rep.rules.insert(format!("move {} to {}", o, n), 1);
    }
    let mut top = Vec::new();
    let lib = std::fs::read_to_string(src.join("lib.rs")).expect("lib.rs");
    let libast = match syn::parse_file(&lib) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("EXTRACT-ERROR lib.rs does not parse: {}", e);
            std::process::exit(3)
        }
    };
    let skipped = |n: &str| drops.contains(&format!("mod {}", n));
    for it in libast.items.iter() {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_cfg_test(&m.attrs) {
                if skipped(&m.ident.to_string()) {
                    cx.rep.dropped.push(format!("module {} (out of scope of this run)", m.ident));
                    continue;
                }
                top.push(load(&mut cx, &src, &m.ident.to_string(), &m.ident.to_string(), &drops));
            }
        }
    }
    // the command-line tool, if asked for
    if let Some(dir) = &cli {
        cx.macros = climacros;
        let mut m = load_file(&mut cx, &dir.join("main.rs"), dir, "cli", &drops);
        m.name = "cli".to_string();
        top.push(m);
    }
    let absent = |k: &str| (k.starts_with("validation") && skipped("validation")) || (k.starts_with("cli") && cli.is_none());
    let mut s = String::new();
    s.push_str("#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]\n#![feature(sized_hierarchy, allocator_api)]\nuse vstd::prelude::*;\n");
    let mut specs: Vec<PathBuf> = std::fs::read_dir(&specdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false)).collect();
    specs.sort();
    for p in specs {
        let n = p.file_stem().unwrap().to_string_lossy().to_string();
        if n.starts_with("val") && skipped("validation") {
            continue;
        }
        s.push_str(&format!("pub mod {} {{\n{}\n}}\n", n, std::fs::read_to_string(&p).unwrap()));
    }
    for m in &top {
        emit(m, &mut s);
    }
    if !moves.is_empty() {
        s.push_str("pub mod vscope { pub use crate::structure::{idx, instr, module, ty}; }\n");
    }
    s.push_str("fn main() {}\n");
    // line map
    let mut map = String::from("{\n\"functions\": [\n");
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, l) in s.lines().enumerate() {
        let mut rest = l;
        while let Some(p) = rest.find("/*@") {
            let e = rest[p..].find("*/").map(|x| x + p).unwrap_or(rest.len() - 2);
            let tag = &rest[p + 3..p + 4];
            let key = rest[p + 5..e].to_string();
            if tag == "F" {
                ranges.insert(key, (i + 1, 0));
            } else if tag == "E" {
                if let Some(r) = ranges.get_mut(&key) {
                    r.1 = i + 1;
                }
            }
            rest = &rest[e + 2..];
        }
    }
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
    let mut first = true;
    for f in &cx.rep.functions {
        // f: key \t status \t file \t line
        let p: Vec<&str> = f.split('\t').collect();
        let r = ranges.get(p[0]).copied().unwrap_or((0, 0));
        if !first {
            map.push_str(",\n");
        }
        first = false;
        map.push_str(&format!("{{\"key\": {}, \"status\": {}, \"file\": {}, \"line\": {}, \"gen\": [{}, {}]}}", q(&moves.iter().find_map(|(o, n)| moved(p[0], n, o)).unwrap_or(p[0].to_string())), q(p[1]), q(p[2]), p[3], r.0, r.1));
    }
    for (k, a) in ann.fns.iter() {
        if !cx.used.contains(k) && !a.optional && !absent(k) {
            // a private function that is gone: its former callers' obligations decide
            if cx.names.is_free(k) {
                cx.rep.dropped.push(format!("contract of {} (there is no such function)", k));
                continue;
            }
            cx.rep.problems.push(format!("annotated function not found: {}", k));
        }
    }
    for k in ann.impls.keys().chain(ann.traits.keys()) {
        if !cx.used.contains(k) && !absent(k) {
            cx.rep.problems.push(format!("annotated item not found: {}", k));
        }
    }
    map.push_str("\n],\n\"dropped\": [");
    map.push_str(&cx.rep.dropped.iter().map(|d| q(d)).collect::<Vec<_>>().join(", "));
    map.push_str("],\n\"rules\": {");
    map.push_str(&cx.rep.rules.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "));
    map.push_str("},\n\"problems\": [");
    map.push_str(&cx.rep.problems.iter().map(|d| q(d)).collect::<Vec<_>>().join(", "));
    map.push_str("]\n}\n");
    std::fs::write(&out, s).unwrap();
    std::fs::write(&mapf, map).unwrap();
}

fn emit(m: &Module, s: &mut String) {
    s.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::prel::*;\nverus! {{\n{}\n}}\n", m.name, m.body));
    for c in &m.children {
        emit(c, s);
    }
    s.push_str("}\n");
}

fn load(cx: &mut Ctx, dir: &Path, name: &str, path: &str, drops: &BTreeSet<String>) -> Module {
    let f1 = dir.join(format!("{}.rs", name));
    let f2 = dir.join(name).join("mod.rs");
    let file = if f1.exists() { f1 } else { f2 };
    let mut m = load_file(cx, &file, &dir.join(name), path, drops);
    m.name = name.to_string();
    m
}

fn load_file(cx: &mut Ctx, file: &Path, childdir: &Path, path: &str, drops: &BTreeSet<String>) -> Module {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("EXTRACT-ERROR {}: {}", file.display(), e);
            std::process::exit(3)
        }
    };
    let ast = match syn::parse_file(&text) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("EXTRACT-ERROR {} does not parse: {}", file.display(), e);
            std::process::exit(3)
        }
    };
    let mut children = Vec::new();
    for it in ast.items.iter() {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_cfg_test(&m.attrs) {
                let n = m.ident.to_string();
                let p = format!("{}::{}", path, n);
                children.push(load(cx, childdir, &n, &p, drops));
            }
        }
    }
    let (text, ast, expanded) = expand::expand(text, ast, &cx.macros);
    for i in expanded {
        *cx.rep.rules.entry(format!("expand-macro {}", i)).or_insert(0) += 1;
    }
    let (text, ast, loops) = normal::normalise(text, ast);
    for i in loops {
        *cx.rep.rules.entry(format!("loop {}", i)).or_insert(0) += 1;
    }
    let (text, ast, renamed) = rename::restore(text, ast, &cx.names, &cx.plan, path);
    for i in renamed {
        *cx.rep.rules.entry(format!("rename {}", i)).or_insert(0) += 1;
    }
    // helper inlining works on the text and yields an equivalent text
    let (text, ast, inlined) = match inline::inline_foreign(&text, &ast, cx.ann, path, &cx.foreign) {
        Some(x) => x,
        None => inline::inline_helpers(text, ast, cx.ann, path),
    };
    for i in inlined {
        *cx.rep.rules.entry(format!("inline-helper {}", i)).or_insert(0) += 1;
    }
    let src = Src::new(text);
    let mut fx = FileX { cx, src: &src, path: path.to_string(), file: file.display().to_string(), edits: vec![], extra: String::new(), nseq: 0, mono: BTreeMap::new(), widths: vec![], drops };
    fx.file(&ast);
    let edits = std::mem::take(&mut fx.edits);
    let extra = std::mem::take(&mut fx.extra);
    let body = apply(&src.text, 0, src.text.len(), &edits, &mut fx.cx.rep.problems) + "\n" + &extra;
    let modtext = cx.ann.mods.get(path).cloned().unwrap_or_default();
    Module { name: String::new(), body: body + "\n" + &modtext, children }
}

/// Applies the edits that lie within [start, end) to that range of the text.
pub fn apply(text: &str, start: usize, end: usize, edits: &[Edit], problems: &mut Vec<String>) -> String {
    let mut es: Vec<&Edit> = edits.iter().filter(|e| e.start >= start && e.end <= end).collect();
    es.sort_by_key(|e| (e.start, if e.start == e.end { 0 } else { 1 }, e.seq));
    let mut out = String::new();
    let mut pos = start;
    for e in es {
        if e.start < pos {
            if e.end <= pos {
                continue; // inside a replaced range
            }
            problems.push(format!("overlapping edits near `{}`", &text[e.start..e.end.min(e.start + 40)]));
            continue;
        }
        out.push_str(&text[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&text[pos..end]);
    out
}

struct FileX<'a, 'b, 'c> {
    cx: &'a mut Ctx<'b>,
    src: &'c Src,
    path: String,
    file: String,
    edits: Vec<Edit>,
    extra: String,
    nseq: usize,
    mono: BTreeMap<String, (String, bool)>, // generic numeric functions of this file
    widths: Vec<String>,
    drops: &'a BTreeSet<String>,
}

impl<'a, 'b, 'c> FileX<'a, 'b, 'c> {
    fn edit(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.nseq += 1;
        self.edits.push(Edit { start, end, text: text.into(), seq: self.nseq });
    }
    fn del(&mut self, sp: Span) {
        let (a, b) = self.src.range(sp);
        self.edit(a, b, "");
    }
    fn rule(&mut self, r: &str) {
        *self.cx.rep.rules.entry(r.to_string()).or_insert(0) += 1;
    }

    fn file(&mut self, ast: &syn::File) {
        for a in ast.attrs.iter() {
            self.del(a.span());
        }
        for it in ast.items.iter() {
            if let syn::Item::Fn(f) = it {
                if let Some(x) = num_param(&f.sig) {
                    self.mono.insert(f.sig.ident.to_string(), x);
                }
            }
            if let syn::Item::Impl(i) = it {
                let t = norm(&i.self_ty);
                if PRIMS.contains(&t.as_str()) && !self.widths.contains(&t) {
                    self.widths.push(t);
                }
            }
        }
        if let Some(tpl) = self.cx.ann.templates.get(&self.path).cloned() {
            self.template(ast, &tpl);
            return;
        }
        let path = self.path.clone();
        self.items(&ast.items, &path);
    }

    /// A file whose shape is compared with a recorded shape and then re-stated by the template,
    /// with `$body:N$` standing for the N-th function body taken from the file.
    fn template(&mut self, ast: &syn::File, tpl: &annot::Template) {
        let mut shape = String::new();
        let mut bodies = Vec::new();
        for it in ast.items.iter() {
            let mut it = it.clone();
            match &mut it {
                syn::Item::Trait(t) => {
                    if is_cfg_test(&t.attrs) {
                        continue;
                    }
                    t.attrs.clear();
                    for ti in t.items.iter_mut() {
                        if let syn::TraitItem::Fn(f) = ti {
                            f.attrs.clear();
                            if let Some(b) = &f.default {
                                let (s, e) = self.src.range(b.span());
                                bodies.push(self.src.text[s..e].to_string());
                                f.default = Some(syn::parse_quote!({ BODY }));
                            }
                        }
                        if let syn::TraitItem::Type(f) = ti {
                            f.attrs.clear();
                        }
                    }
                }
                syn::Item::Mod(m) if is_cfg_test(&m.attrs) => continue,
                syn::Item::Impl(m) => m.attrs.clear(),
                syn::Item::Use(m) => m.attrs.clear(),
                _ => {}
            }
            shape.push_str(&norm(&it));
            shape.push('\n');
        }
        let want: String = tpl.shape.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).map(|l| normstr(l) + "\n").collect();
        if shape != want {
            self.cx.rep.problems.push(format!("{}: shape differs from the recorded one: {}", self.path, shape));
        }
        let mut t = tpl.text.clone();
        for (i, b) in bodies.iter().enumerate() {
            let key = format!("{} | body {}", self.path, i);
            t = t.replace(&format!("$body:{}$", i), &format!("{{ /*@F {0}*/ {1} /*@E {0}*/ }}", key, b));
            self.cx.rep.functions.push(format!("{}\t{}\t{}\t{}", key, "verified", self.file, 1));
        }
        let n = self.src.text.len();
        self.edits.clear();
        self.edit(0, n, t);
    }

    fn attrs(&mut self, attrs: &[syn::Attribute], owner: &str, default_of: Option<&syn::ItemStruct>) {
        for a in attrs {
            if a.path().is_ident("derive") {
                let mut keep = vec![];
                let mut names = vec![];
                let _ = a.parse_nested_meta(|m| {
                    names.push(norm(&m.path));
                    Ok(())
                });
                for n in names {
                    match n.as_str() {
                        "Clone" | "Copy" | "PartialEq" | "Eq" => keep.push(n),
                        "Default" => {
                            if let Some(st) = default_of {
                                self.default_impl(st, owner);
                                self.rule("expand #[derive(Default)]");
                            }
                        }
                        _ => self.cx.rep.dropped.push(format!("derive({}) on {}", n, owner)),
                    }
                }
                let (s, e) = self.src.range(a.span());
                if keep.is_empty() {
                    self.edit(s, e, "");
                } else {
                    self.edit(s, e, format!("#[derive({})]", keep.join(", ")));
                }
            } else if a.path().is_ident("doc") || a.path().is_ident("error") || a.path().is_ident("allow") || a.path().is_ident("inline") || a.path().is_ident("must_use") {
                self.del(a.span());
            } else {
                self.cx.rep.problems.push(format!("attribute {} on {}", norm(a), owner));
                self.del(a.span());
            }
        }
    }

    fn default_impl(&mut self, st: &syn::ItemStruct, owner: &str) {
        let key = format!("{} | Default for {} | default", self.path, st.ident);
        let ann = self.cx.ann.fns.get(&key).cloned().unwrap_or_default();
        self.cx.used.insert(key.clone());
        let (ig, tg, _) = st.generics.split_for_impl();
        let mut b = String::new();
        if let syn::Fields::Named(f) = &st.fields {
            for x in f.named.iter() {
                b.push_str(&format!("{}: Default::default(),\n", x.ident.as_ref().unwrap()));
            }
        }
        let _ = owner;
        self.extra.push_str(&format!(
            "impl{} Default for {}{} {{\n/*@F {key}*/ fn default() -> (r: Self)\n{}\n{{ {} Self {{ {} }} /*@E {key}*/ }}\n}}\n",
            ig.to_token_stream(), st.ident, tg.to_token_stream(), ann.spec, ann.start, b, key = key
        ));
        let line = st.span().start().line;
        self.cx.rep.functions.push(format!("{}\t{}\t{}\t{}", key, "verified", self.file, line));
    }

    fn items(&mut self, items: &[syn::Item], path: &str) {
        for it in items {
            match it {
                syn::Item::Mod(m) => {
                    if is_cfg_test(&m.attrs) {
                        self.del(it.span());
                        continue;
                    }
                    match &m.content {
                        None => self.del(it.span()),
                        Some((_, its)) => {
                            self.attrs(&m.attrs, path, None);
                            let p = format!("{}::{}", path, m.ident);
                            let b = self.src.range(m.content.as_ref().unwrap().0.span.open()).1;
                            self.edit(b, b, " use crate::prel::*; ");
                            self.items(its, &p);
                        }
                    }
                }
                syn::Item::Use(u) => {
                    let n = norm(u);
                    if n.starts_with("use err_derive") || n.starts_with("use num_traits") {
                        self.del(it.span());
                    }
                    if self.path == "cli" {
                        if n.starts_with("use std::") {
                            self.del(it.span());
                        } else {
                            let mut v = CliV { fx: self };
                            v.visit_item_use(u);
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    if is_cfg_test(&s.attrs) {
                        self.del(it.span());
                        continue;
                    }
                    let o = format!("{}::{}", path, s.ident);
                    self.attrs(&s.attrs, &o, Some(s));
                    for f in s.fields.iter() {
                        self.attrs(&f.attrs, &o, None);
                        if matches!(f.vis, syn::Visibility::Inherited) {
                            let (a, _) = self.src.range(f.span());
                            self.edit(a, a, "pub ");
                        }
                    }
                    if matches!(s.vis, syn::Visibility::Inherited) {
                        let (a, _) = self.src.range(s.struct_token.span());
                        self.edit(a, a, "pub ");
                    }
                }
                syn::Item::Enum(s) => {
                    let o = format!("{}::{}", path, s.ident);
                    self.attrs(&s.attrs, &o, None);
                    for v in s.variants.iter() {
                        self.attrs(&v.attrs, &o, None);
                    }
                }
                syn::Item::Impl(i) => self.item_impl(i, path),
                syn::Item::Trait(t) => {
                    self.attrs(&t.attrs, path, None);
                    let key = format!("{} | {}", path, t.ident);
                    if let Some(text) = self.cx.ann.traits.get(&key).cloned() {
                        self.cx.used.insert(key.clone());
                        let b = self.src.range(t.brace_token.span.open()).1;
                        self.edit(b, b, format!("\n{}\n", text));
                    }
                    for ti in t.items.iter() {
                        if let syn::TraitItem::Fn(f) = ti {
                            let fkey = format!("{} | {}", key, f.sig.ident);
                            let ann = self.cx.ann.fns.get(&fkey).cloned().unwrap_or_default();
                            self.cx.used.insert(fkey);
                            self.attrs(&f.attrs, path, None);
                            self.name_ret(&f.sig, &ann);
                            if let Some(semi) = &f.semi_token {
                                let (a, _) = self.src.range(semi.span);
                                self.edit(a, a, format!("\n{}\n", ann.spec));
                            }
                        }
                    }
                }
                syn::Item::Fn(f) => self.free_fn(f, path),
                syn::Item::Type(t) => self.attrs(&t.attrs, path, None),
                syn::Item::Const(c) => {
                    self.attrs(&c.attrs, path, None);
                    if matches!(c.vis, syn::Visibility::Inherited) {
                        let (a, _) = self.src.range(c.const_token.span());
                        self.edit(a, a, "pub ");
                    }
                }
                other => {
                    self.cx.rep.problems.push(format!("{}: unsupported item `{}`", path, norm(other).chars().take(60).collect::<String>()));
                }
            }
        }
    }

    fn item_impl(&mut self, i: &syn::ItemImpl, path: &str) {
        let tr = i.trait_.as_ref().map(|(_, p, _)| norm(p));
        let ty = norm(&i.self_ty);
        let hdr = match &tr {
            Some(t) => format!("{} for {}", t, ty),
            None => ty.clone(),
        };
        let key = format!("{} | {}", path, hdr);
        let last = tr.as_ref().map(|t| t.split('<').next().unwrap().rsplit("::").next().unwrap().to_string());
        if matches!(last.as_deref(), Some("Display") | Some("Debug")) || self.cx.ann.external_impls.contains(&key) || is_cfg_test(&i.attrs) {
            self.cx.rep.dropped.push(format!("impl {}", key));
            self.del(i.span());
            return;
        }
        self.attrs(&i.attrs, path, None);
        if let Some(text) = self.cx.ann.impls.get(&key).cloned() {
            self.cx.used.insert(key.clone());
            let b = self.src.range(i.brace_token.span.open()).1;
            self.edit(b, b, format!("\n{}\n", text));
        }
        if let Some(text) = self.cx.ann.siblings.get(&key).cloned() {
            let (a, _) = self.src.range(i.span());
            self.edit(a, a, format!("{}\n", text));
        }
        if let Some(text) = self.cx.ann.impl_attrs.get(&key).cloned() {
            let (a, _) = self.src.range(i.span());
            self.edit(a, a, format!("{}\n", text));
        }
        for ii in i.items.iter() {
            if let syn::ImplItem::Fn(f) = ii {
                let fkey = format!("{} | {}", key, f.sig.ident);
                if is_cfg_test(&f.attrs) {
                    self.del(f.span());
                    continue;
                }
                self.attrs(&f.attrs, path, None);
                let mut ann = self.cx.ann.fns.get(&fkey).cloned().unwrap_or_default();
                if self.drops.contains(&fkey) {
                    ann.stub = true;
                }
                let known = self.cx.ann.fns.contains_key(&fkey) || (tr.is_some() && self.cx.ann.impls.contains_key(&key));
                self.cx.used.insert(fkey.clone());
                self.function(&fkey, &f.sig, &f.block, f.span(), &ann, Some(&ty), i, known);
            }
        }
    }

    fn free_fn(&mut self, f: &syn::ItemFn, path: &str) {
        let key = format!("{} | {}", path, f.sig.ident);
        if is_cfg_test(&f.attrs) {
            self.del(f.span());
            return;
        }
        self.attrs(&f.attrs, path, None);
        let mut ann = self.cx.ann.fns.get(&key).cloned().unwrap_or_default();
        let known = self.cx.ann.fns.contains_key(&key);
        self.cx.used.insert(key.clone());
        if self.drops.contains(&key) {
            ann.stub = true;
        }
        if ann.external {
            self.cx.rep.dropped.push(format!("fn {}", key));
            self.del(f.span());
            return;
        }
        if let Some((t, float)) = num_param(&f.sig) {
            if float {
                self.cx.rep.dropped.push(format!("fn {}", key));
                self.del(f.span());
                return;
            }
            self.rule("monomorphise num_traits generic");
            let widths = self.widths.clone();
            let base = std::mem::take(&mut self.edits);
            let mut all = String::new();
            for w in widths.iter() {
                let wkey = format!("{} [{}]", key, w);
                let mut a = ann.clone();
                if self.drops.contains(&wkey) {
                    a.stub = true;
                }
                a.subst(w);
                self.fn_body(&wkey, &f.sig, &f.block, f.span(), &a, Some((t.clone(), w.clone())), known, None);
                let name = self.src.range(f.sig.ident.span());
                self.edit(name.0, name.1, format!("{}__{}", f.sig.ident, w));
                let es = std::mem::take(&mut self.edits);
                let (s, e) = self.src.range(f.span());
                all.push_str(&apply(&self.src.text, s, e, &es, &mut self.cx.rep.problems));
                all.push('\n');
            }
            self.edits = base;
            let (s, e) = self.src.range(f.span());
            self.edit(s, e, all);
            return;
        }
        self.fn_body(&key, &f.sig, &f.block, f.span(), &ann, None, known, None);
    }

    #[allow(clippy::too_many_arguments)]
    fn function(&mut self, key: &str, sig: &syn::Signature, block: &syn::Block, span: Span, ann: &Ann, ty: Option<&str>, i: &syn::ItemImpl, known: bool) {
        if ann.external {
            self.cx.rep.dropped.push(format!("fn {}", key));
            self.del(span);
            return;
        }
        if ann.detach.is_some() {
            // emit the body as a free function with the contract in the annotation, and a stub in place
            self.rule("detach recursive trait method");
            let base = std::mem::take(&mut self.edits);
            let d = ann.detach.clone().unwrap();
            self.fn_body(key, sig, block, span, ann, None, known, ty);
            let (bs, be) = self.src.range(block.span());
            let es = std::mem::take(&mut self.edits);
            let body = apply(&self.src.text, bs, be, &es, &mut self.cx.rep.problems);
            self.edits = base;
            self.extra.push_str(&format!("{}\n{}\n{}\n{}\n", ann.attrs, d, ann.spec, body));
            self.edit(bs, be, "{ unimplemented!() }");
            let (fs, _) = self.src.range(span);
            self.edit(fs, fs, "#[verifier::external_body] ");
            self.name_ret(sig, &Ann::default());
            return;
        }
        let prim = ty.filter(|t| PRIMS.contains(t)).map(|t| (String::new(), t.to_string()));
        let _ = i;
        self.fn_body(key, sig, block, span, ann, prim, known, None);
    }

    fn name_ret(&mut self, sig: &syn::Signature, ann: &Ann) {
        for (n, i) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = i {
                if let syn::Pat::Wild(w) = &*t.pat {
                    let (a, b) = self.src.range(w.span());
                    self.edit(a, b, format!("_arg{}", n));
                    self.rule("name unnamed parameter");
                }
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let (a, b) = self.src.range(t.span());
            let n = if ann.ret.is_empty() { "r" } else { &ann.ret };
            self.edit(a, a, format!("({}: ", n));
            self.edit(b, b, ")");
        }
    }

    /// In the command-line tool, `Box<dyn Error>` and paths into the crate.
    fn cli_types(&mut self, sig: &syn::Signature) {
        if self.path.split("::").next() == Some("cli") {
            let mut v = CliV { fx: self };
            for i in sig.inputs.iter() {
                v.visit_fn_arg(i);
            }
            v.visit_return_type(&sig.output);
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn fn_body(&mut self, key: &str, sig: &syn::Signature, block: &syn::Block, span: Span, ann: &Ann, mono: Option<(String, String)>, known: bool, detach_ty: Option<&str>) {
        self.cli_types(sig);
        let line = span.start().line;
        let (fs, _) = self.src.range(sig.span());
        let (bs, be) = self.src.range(block.span());
        let status = if ann.stub { "trusted" } else if known { "verified" } else { "unknown" };
        self.cx.rep.functions.push(format!("{}\t{}\t{}\t{}", key, status, self.file, line));
        if ann.stub {
            self.name_ret(sig, ann);
            let (s0, _) = self.src.range(span);
            self.edit(s0, s0, "#[verifier::external_body] ");
            self.edit(bs, be, format!("\n{}\n{{ unimplemented!() }}", ann.spec));
            self.generics(sig, &mono);
            return;
        }
        if detach_ty.is_none() {
            let (s0, _) = self.src.range(span);
            self.edit(s0, s0, format!("{} ", ann.attrs));
            self.name_ret(sig, ann);
            self.generics(sig, &mono);
            let _ = fs;
            self.edit(bs, bs, format!("\n{}\n", ann.spec));
        }
        self.edit(bs + 1, bs + 1, format!(" /*@F {}*/ {} ", key, ann.start));
        self.edit(be - 1, be - 1, format!(" /*@E {}*/ ", key));
        // expression rewrites and loop annotations
        let mut v = BodyV { fx: self, ann, loops: 0, mono, detach_ty: detach_ty.map(|s| s.to_string()), key: key.to_string() };
        v.visit_block(block);
        let n = v.loops;
        let want = ann.loops.keys().max().map(|m| m + 1).unwrap_or(0);
        if n != want && !(want == 0 && n == 0) {
            self.cx.rep.problems.push(format!("{}: {} loops, annotations expect {}", key, n, want));
        }
    }

    fn generics(&mut self, sig: &syn::Signature, mono: &Option<(String, String)>) {
        if let Some((t, _)) = mono {
            if t.is_empty() {
                return;
            }
            // rebuild generics without t
            let mut ps = vec![];
            for p in sig.generics.params.iter() {
                if let syn::GenericParam::Type(tp) = p {
                    if tp.ident == t.as_str() {
                        continue;
                    }
                }
                let (a, b) = self.src.range(p.span());
                ps.push(self.src.text[a..b].to_string());
            }
            if let (Some(l), Some(g)) = (&sig.generics.lt_token, &sig.generics.gt_token) {
                let a = self.src.range(l.span()).0;
                let b = self.src.range(g.span()).1;
                self.edit(a, b, format!("<{}>", ps.join(", ")));
            }
            if let Some(w) = &sig.generics.where_clause {
                let mut keep = vec![];
                for p in w.predicates.iter() {
                    if let syn::WherePredicate::Type(tp) = p {
                        if norm(&tp.bounded_ty) == *t {
                            continue;
                        }
                    }
                    let (a, b) = self.src.range(p.span());
                    keep.push(self.src.text[a..b].to_string());
                }
                let (a, b) = self.src.range(w.span());
                self.edit(a, b, if keep.is_empty() { String::new() } else { format!("where {}", keep.join(", ")) });
            }
            // the type parameter itself in the signature
            let mut tv = TyV { fx: self, mono: mono.clone().unwrap() };
            for i in sig.inputs.iter() {
                tv.visit_fn_arg(i);
            }
            tv.visit_return_type(&sig.output);
        }
    }
}

struct CliV<'x, 'a, 'b, 'c> {
    fx: &'x mut FileX<'a, 'b, 'c>,
}
fn is_box_error(t: &syn::Type) -> bool {
    matches!(norm(t).as_str(), "Box<dyn std::error::Error>" | "Box<dyn Error>" | "std::boxed::Box<dyn std::error::Error>")
}
impl<'x, 'a, 'b, 'c, 'ast> Visit<'ast> for CliV<'x, 'a, 'b, 'c> {
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if is_box_error(t) {
            let (a, b) = self.fx.src.range(t.span());
            self.fx.edit(a, b, "crate::valcli::BoxError");
            self.fx.rule("Box<dyn Error> -> opaque error type");
            return;
        }
        syn::visit::visit_type(self, t);
    }
    fn visit_ident(&mut self, i: &'ast syn::Ident) {
        if i == "whasm" {
            let (a, b) = self.fx.src.range(i.span());
            self.fx.edit(a, b, "crate");
        }
    }
}

struct TyV<'x, 'a, 'b, 'c> {
    fx: &'x mut FileX<'a, 'b, 'c>,
    mono: (String, String),
}
impl<'x, 'a, 'b, 'c, 'ast> Visit<'ast> for TyV<'x, 'a, 'b, 'c> {
    fn visit_ident(&mut self, i: &'ast syn::Ident) {
        if *i == self.mono.0.as_str() {
            let (a, b) = self.fx.src.range(i.span());
            let w = self.mono.1.clone();
            self.fx.edit(a, b, w);
        }
    }
}

struct BodyV<'x, 'a, 'b, 'c> {
    fx: &'x mut FileX<'a, 'b, 'c>,
    ann: &'x Ann,
    loops: usize,
    mono: Option<(String, String)>,
    detach_ty: Option<String>,
    key: String,
}

impl<'x, 'a, 'b, 'c> BodyV<'x, 'a, 'b, 'c> {
    fn loop_common(&mut self, body: &syn::Block, whole: Span, is_for: Option<&syn::Expr>) {
        let n = self.loops;
        self.loops += 1;
        if let Some(l) = self.ann.loops.get(&n).cloned() {
            let (bs, be) = self.fx.src.range(body.span());
            if let Some(e) = is_for {
                let (a, b) = self.fx.src.range(e.span());
                let nm = if l.iter.is_empty() { "it".to_string() } else { l.iter.clone() };
                self.fx.edit(a, a, format!("{}: ", nm));
                let _ = b;
            }
            self.fx.edit(bs, bs, format!("\n{}\n", l.inv));
            self.fx.edit(bs + 1, bs + 1, format!(" {} ", l.start));
            self.fx.edit(be - 1, be - 1, format!(" {} ", l.end));
            let (ws, we) = self.fx.src.range(whole);
            if !l.before.is_empty() {
                self.fx.edit(ws, ws, format!(" {} ", l.before));
            }
            if !l.after.is_empty() {
                self.fx.edit(we, we, format!(" {} ", l.after));
            }
        }
    }
}

/// The command-line tool, which the parser's and the validator's contracts meet the system in.
impl<'x, 'a, 'b, 'c> BodyV<'x, 'a, 'b, 'c> {
    fn cli(&self) -> bool {
        self.fx.path.split("::").next() == Some("cli")
    }

    fn cli_method(&mut self, e: &syn::ExprMethodCall) -> bool {
        let (a, eb) = self.fx.src.range(e.span());
        let (_, rb) = self.fx.src.range(e.receiver.span());
        if e.method == "unwrap_or_else" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.len() == 1 && !inline::leaves(&c.body) {
                    let (ca, cb) = self.fx.src.range(c.body.span());
                    self.fx.edit(a, a, "(match ");
                    let p = &c.inputs[0];
                    let (pa, pb) = self.fx.src.range(p.span());
                    let p = self.fx.src.text[pa..pb].to_string();
                    self.fx.edit(rb, ca, format!(" {{ Ok(v__) => v__, Err({}) => ", p));
                    self.fx.edit(cb, eb, " })");
                    self.fx.rule("R.unwrap_or_else(|e| B) -> match R { Ok(v) => v, Err(e) => B }");
                    self.visit_expr(&e.receiver);
                    self.visit_expr(&c.body);
                    return true;
                }
            }
        }
        if e.method == "into" && e.args.is_empty() {
            self.fx.edit(a, a, "crate::valcli::text(");
            self.fx.edit(rb, eb, ")");
            self.fx.rule("string slice .into() string -> function with a contract");
            self.visit_expr(&e.receiver);
            return true;
        }
        if e.method == "collect" && norm(&e.receiver).trim_start_matches("std::") == "env::args()" {
            self.fx.edit(a, eb, "crate::valcli::args()");
            self.fx.rule("std::env::args().collect() -> function with a contract");
            return true;
        }
        false
    }

    /// match S { "a" | "b" => A, x => B }
    fn string_match(&mut self, e: &syn::ExprMatch) -> bool {
        fn lits(p: &syn::Pat) -> Option<Vec<String>> {
            match p {
                syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(vec![norm(p)]),
                syn::Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                syn::Pat::Paren(p) => lits(&p.pat),
                _ => None,
            }
        }
        let n = e.arms.len();
        if n == 0 || e.arms[..n - 1].iter().any(|a| lits(&a.pat).is_none()) || e.arms.iter().any(|a| a.guard.is_some()) {
            return false;
        }
        let last = match &e.arms[n - 1].pat {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => format!("let {} = s__; ", norm(i)),
            syn::Pat::Wild(_) => String::new(),
            _ => return false,
        };
        let scrut = match &*e.expr {
            syn::Expr::Reference(r) if norm(&r.expr).ends_with("[..]") => {
                let (a, b) = self.fx.src.range(r.expr.span());
                let t = &self.fx.src.text[a..b];
                format!("({}).as_str()", &t[..t.rfind('[').unwrap()])
            }
            x => {
                let (a, b) = self.fx.src.range(x.span());
                self.fx.src.text[a..b].to_string()
            }
        };
        let (a, eb) = self.fx.src.range(e.span());
        let mut pos = a;
        let mut head = format!("{{ let s__ = {}; ", scrut);
        for (i, arm) in e.arms.iter().enumerate() {
            let (ba, bb) = self.fx.src.range(arm.body.span());
            if i + 1 < n {
                let c = lits(&arm.pat).unwrap().iter().map(|l| format!("crate::valcli::str_is(s__, {})", l)).collect::<Vec<_>>().join(" || ");
                head.push_str(&format!("if {} {{ ", c));
            } else {
                head.push_str(&format!("{{ {}", last));
            }
            self.fx.edit(pos, ba, std::mem::take(&mut head));
            self.visit_expr(&arm.body);
            pos = bb;
            head = if i + 1 < n { " } else ".to_string() } else { " } }".to_string() };
        }
        self.fx.edit(pos, eb, head);
        self.fx.rule("match on string literals -> comparisons in the same order");
        true
    }
}

impl<'x, 'a, 'b, 'c> BodyV<'x, 'a, 'b, 'c> {
    fn bound_reservation(&mut self, arg: &syn::Expr) {
        if self.fx.path.starts_with("binary") {
            let (a, b) = self.fx.src.range(arg.span());
            self.fx.edit(a, a, "crate::model::reserved(");
            self.fx.edit(b, b, ")");
            self.fx.rule("reserve(n) -> reserve(reserved(n)), where reserved requires a constant bound");
        }
    }
}
impl<'x, 'a, 'b, 'c, 'ast> Visit<'ast> for BodyV<'x, 'a, 'b, 'c> {
    fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
        if !self.ann.at.is_empty() {
            let n = norm(st);
            for (t, text) in self.ann.at.iter() {
                if n.starts_with(t.as_str()) {
                    let (a, _) = self.fx.src.range(st.span());
                    self.fx.edit(a, a, format!(" {} ", text));
                }
            }
        }
        syn::visit::visit_stmt(self, st);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.loop_common(&e.body, e.span(), Some(&e.expr));
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.loop_common(&e.body, e.span(), None);
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.loop_common(&e.body, e.span(), None);
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if self.cli() && is_box_error(t) {
            CliV { fx: self.fx }.visit_type(t);
            return;
        }
        syn::visit::visit_type(self, t);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = norm(&m.path);
        let name = name.trim_start_matches("std::");
        if self.cli() && ["println", "eprintln", "print", "eprint"].contains(&name) {
            let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
            if let Ok(args) = args {
                let (a, b) = self.fx.src.range(m.span());
                let mut text = String::new();
                for x in args.iter().skip(1) {
                    let x = if let syn::Expr::Assign(x) = x { &*x.right } else { x };
                    let (xa, xb) = self.fx.src.range(x.span());
                    text.push_str(&format!("let _ = &({}); ", &self.fx.src.text[xa..xb]));
                }
                let empty = args.first().map(|f| norm(f) == "\"\"").unwrap_or(true);
                let said = if self.key == "cli | main" && !empty { "proof { said__ = true; }" } else { "" };
                self.fx.edit(a, b, format!("{{ {}{} }}", text, said));
                self.fx.rule("println!(..) -> evaluation of its arguments, and a note that something was printed");
            }
        }
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        if self.cli() && self.string_match(e) {
            return;
        }
        syn::visit::visit_expr_match(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        let lit = |x: &syn::Expr| matches!(x, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
        let neg = matches!(e.op, syn::BinOp::Ne(_));
        if self.cli() && (neg || matches!(e.op, syn::BinOp::Eq(_))) && lit(&e.right) {
            let (a, b) = self.fx.src.range(e.left.span());
            let (ra, _) = self.fx.src.range(e.right.span());
            let (_, eb) = self.fx.src.range(e.span());
            self.fx.edit(a, a, format!("{}crate::valcli::str_is(&", if neg { "!" } else { "" }));
            self.fx.edit(b, ra, ", ");
            self.fx.edit(eb, eb, ")");
            self.fx.rule("comparison with a string literal -> function with a contract");
            self.visit_expr(&e.left);
            return;
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if self.cli() {
            let f = norm(&e.func);
            let to = match f.trim_start_matches("std::") {
                "process::exit" | "exit" => "crate::valcli::exit",
                "fs::File::open" | "File::open" => "crate::valcli::open",
                "fs::read" => "crate::valcli::read",
                _ => "",
            };
            if !to.is_empty() {
                let (a, b) = self.fx.src.range(e.func.span());
                self.fx.edit(a, b, to);
                if to.ends_with("exit") {
                    let (_, eb) = self.fx.src.range(e.span());
                    let said = if self.key == "cli | main" { "said__" } else { "false" };
                    self.fx.edit(eb - 1, eb - 1, format!(", Ghost({})", said));
                }
                self.fx.rule("std::process::exit, File::open, fs::read -> functions with a contract");
                for x in e.args.iter() {
                    self.visit_expr(x);
                }
                return;
            }
        }
        if norm(&e.func).ends_with("::with_capacity") && e.args.len() == 1 {
            self.bound_reservation(&e.args[0]);
        }
        if let syn::Expr::Path(p) = &*e.func {
            let n = norm(&p.path);
            // calls of monomorphised functions
            let base = n.split("::<").next().unwrap().to_string();
            if self.fx.mono.contains_key(&base) {
                if let Some((_, w)) = &self.mono {
                    let w = w.clone();
                    let (a, b) = self.fx.src.range(p.span());
                    self.fx.edit(a, b, format!("{}__{}", base, w));
                }
            }
            if let Some((t, w)) = self.mono.clone() {
                if !t.is_empty() {
                    if n == format!("{}::zero", t) {
                        let (a, b) = self.fx.src.range(e.span());
                        self.fx.edit(a, b, format!("(0 as {})", w));
                        return;
                    }
                    if n == format!("{}::one", t) {
                        let (a, b) = self.fx.src.range(e.span());
                        self.fx.edit(a, b, format!("(1 as {})", w));
                        return;
                    }
                    if n.ends_with(&format!("size_of::<{}>", t)) {
                        let (a, b) = self.fx.src.range(e.span());
                        self.fx.edit(a, b, format!("({}usize)", prim_size(&w)));
                        return;
                    }
                }
            }
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        // T::from_u8(E).unwrap()
        if let Some((t, w)) = self.mono.clone() {
            if e.method == "unwrap" && !t.is_empty() {
                if let syn::Expr::Call(c) = &*e.receiver {
                    if norm(&c.func) == format!("{}::from_u8", t) && c.args.len() == 1 {
                        let (fa, fb) = self.fx.src.range(c.func.span());
                        self.fx.edit(fa, fb, format!("crate::model::{}_from_u8", w));
                        let (_, rb) = self.fx.src.range(e.receiver.span());
                        let (_, b) = self.fx.src.range(e.span());
                        self.fx.edit(rb, b, "");
                        self.fx.rule("T::from_u8(x).unwrap() -> checked conversion");
                        syn::visit::visit_expr(self, &c.args[0]);
                        return;
                    }
                }
            }
        }
        if self.cli() && self.cli_method(e) {
            return;
        }
        // X.inspect(|_| C = C + 1)
        if e.method == "inspect" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                let b = norm(&c.body);
                let var = if let Some(p) = b.find('=') { b[..p].trim_end_matches('+').to_string() } else { String::new() };
                let ok = c.inputs.len() == 1
                    && norm(&c.inputs[0]) == "_"
                    && (b == format!("{0}={0}+1", var) || b == format!("{0}+=1", var) || b == format!("{{{0}+=1;}}", var) || b == format!("{{{0}={0}+1;}}", var));
                let var = var.trim_start_matches('{').to_string();
                let ok = ok || (c.inputs.len() == 1 && norm(&c.inputs[0]) == "_" && (b == format!("{{{0}+=1;}}", var) || b == format!("{{{0}={0}+1;}}", var)));
                if ok {
                    let (ma, _) = self.fx.src.range(e.method.span());
                    let (_, eb) = self.fx.src.range(e.span());
                    self.fx.edit(ma, eb, format!("inspect_count(&mut {})", var));
                    self.fx.rule("inspect(|_| n = n + 1) -> counting adaptor");
                    syn::visit::visit_expr(self, &e.receiver);
                    return;
                }
            }
        }
        if (e.method == "reserve" || e.method == "reserve_exact") && e.args.len() == 1 {
            self.bound_reservation(&e.args[0]);
        }
        // X.iter().copied() used as a byte source
        if e.method == "copied" {
            if let syn::Expr::MethodCall(i) = &*e.receiver {
                if i.method == "iter" {
                    let (a, b) = self.fx.src.range(i.receiver.span());
                    let (_, eb) = self.fx.src.range(e.span());
                    self.fx.edit(a, a, "crate::model::byte_source(&");
                    self.fx.edit(b, eb, "[..])");
                    self.fx.rule("X.iter().copied() -> byte source over the slice");
                    syn::visit::visit_expr(self, &i.receiver);
                    return;
                }
            }
        }
        // A.iter().chain(B.iter()).collect()
        if e.method == "collect" {
            if let syn::Expr::MethodCall(ch) = &*e.receiver {
                if ch.method == "chain" && ch.args.len() == 1 {
                    if let (syn::Expr::MethodCall(l), syn::Expr::MethodCall(r)) = (&*ch.receiver, &ch.args[0]) {
                        if l.method == "iter" && r.method == "iter" {
                            let (la, lb) = self.fx.src.range(l.receiver.span());
                            let (ra, rb) = self.fx.src.range(r.receiver.span());
                            let (_, eb) = self.fx.src.range(e.span());
                            self.fx.edit(la, la, "crate::model::chain_collect(&");
                            self.fx.edit(lb, ra, "[..], &");
                            self.fx.edit(rb, eb, "[..])");
                            self.fx.rule("A.iter().chain(B.iter()).collect() -> model function");
                            return;
                        }
                    }
                }
                if ch.method == "map" && ch.args.len() == 1 {
                    if let (syn::Expr::MethodCall(l), syn::Expr::Closure(c)) = (&*ch.receiver, &ch.args[0]) {
                        if l.method == "iter" && c.inputs.len() == 1 {
                            let p = norm(&c.inputs[0]);
                            if norm(&c.body) == format!("&{}.name", p) {
                                let (la, lb) = self.fx.src.range(l.receiver.span());
                                let (_, eb) = self.fx.src.range(e.span());
                                self.fx.edit(la, la, "crate::valmodel::export_names(&");
                                self.fx.edit(lb, eb, "[..])");
                                self.fx.rule("X.iter().map(|e| &e.name).collect() -> model function");
                                return;
                            }
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        let n = norm(p);
        for w in PRIMS {
            for k in ["MAX", "MIN"] {
                if n == format!("std::{}::{}", w, k) || n == format!("core::{}::{}", w, k) {
                    let (a, b) = self.fx.src.range(p.span());
                    self.fx.edit(a, b, format!("{}::{}", w, k));
                    self.fx.rule("std::uN::MAX -> uN::MAX");
                    return;
                }
            }
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_ident(&mut self, i: &'ast syn::Ident) {
        let (a, b) = self.fx.src.range(i.span());
        if i == "whasm" && self.cli() {
            self.fx.edit(a, b, "crate");
            return;
        }
        if let Some((t, w)) = self.mono.clone() {
            if !t.is_empty() && *i == t.as_str() {
                self.fx.edit(a, b, w);
                return;
            }
        }
        if let Some(ty) = self.detach_ty.clone() {
            if i == "Self" {
                self.fx.edit(a, b, ty);
            } else if i == "self" {
                self.fx.edit(a, b, "self_");
            }
        }
        let _ = &self.key;
    }
}
