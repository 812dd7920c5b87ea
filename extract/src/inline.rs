//! Inlining of helper functions that have no contract.
//!
//! A helper is a free function or inherent method of the same file that the annotations do not
//! mention. A call of it is replaced by its body, with its parameters bound by `let`, where control
//! flow allows: anywhere if the body neither returns early nor uses `?`; under `?` if it leaves
//! early only with an error; in tail position always. Everything else is left alone, and its
//! callers' obligations then meet a function without a contract.
use crate::annot::Annots;
use crate::{is_cfg_test, norm, Src};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

const STD_METHODS: &[&str] = &[
    "all", "any", "append", "as_ref", "as_slice", "chain", "clear", "clone", "cloned", "collect", "contains", "copied", "count", "dedup", "drain", "entry", "enumerate", "eq", "extend", "filter", "find",
    "first", "fold", "from", "get", "get_mut", "insert", "inspect", "into", "is_empty", "is_none", "is_some", "iter", "iter_mut", "last", "last_mut", "len", "map", "max", "min", "ne", "next", "nth", "ok_or",
    "parse", "peek", "peekable", "pop", "position", "push", "read", "remove", "resize", "retain", "rev", "skip", "sort", "split", "swap", "take", "truncate", "try_from", "unwrap", "unwrap_or", "validate", "zip",
];

struct Helper {
    name: String,
    /// type the method belongs to, if any
    owner: Option<String>,
    sig: syn::Signature,
    block: syn::Block,
    span: (usize, usize),
    flow: Flow,
}

#[derive(Default, Clone)]
struct Flow {
    tries: bool,
    returns_err: bool,
    returns_other: bool,
    calls: BTreeSet<String>,
    idents: BTreeSet<String>,
    awkward: bool,
}

impl<'ast> Visit<'ast> for Flow {
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        self.tries = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        match &e.expr {
            Some(x) if norm(x).starts_with("Err(") => self.returns_err = true,
            _ => self.returns_other = true,
        }
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        // control flow inside a closure is its own
        let mut f = Flow::default();
        syn::visit::visit_expr_closure(&mut f, e);
        self.calls.extend(f.calls);
        self.idents.extend(f.idents);
        self.awkward |= f.awkward;
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {
        self.awkward = true;
    }
    fn visit_ident(&mut self, i: &'ast syn::Ident) {
        self.idents.insert(i.to_string());
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        for t in m.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')) {
            self.idents.insert(t.to_string());
        }
    }
}

fn flow(b: &syn::Block) -> Flow {
    let mut f = Flow::default();
    f.visit_block(b);
    f
}

fn helpers(src: &Src, ast: &syn::File, ann: &Annots, path: &str) -> Vec<Helper> {
    let mut out = vec![];
    for it in ast.items.iter() {
        match it {
            syn::Item::Fn(f) if !is_cfg_test(&f.attrs) => {
                if !ann.fns.contains_key(&format!("{} | {}", path, f.sig.ident)) && crate::num_param(&f.sig).map(|x| !x.1).unwrap_or(true) {
                    out.push(Helper { name: f.sig.ident.to_string(), owner: None, sig: f.sig.clone(), block: (*f.block).clone(), span: src.range(f.span()), flow: flow(&f.block) });
                }
            }
            syn::Item::Impl(i) if i.trait_.is_none() && !is_cfg_test(&i.attrs) => {
                let ty = norm(&i.self_ty);
                for ii in i.items.iter() {
                    if let syn::ImplItem::Fn(f) = ii {
                        if !is_cfg_test(&f.attrs) && !ann.fns.contains_key(&format!("{} | {} | {}", path, ty, f.sig.ident)) {
                            out.push(Helper { name: f.sig.ident.to_string(), owner: Some(ty.clone()), sig: f.sig.clone(), block: f.block.clone(), span: src.range(f.span()), flow: flow(&f.block) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// The expressions whose value is the function's.
fn tails<'a>(e: &'a syn::Expr, out: &mut Vec<&'a syn::Expr>) {
    match e {
        syn::Expr::Block(b) => block_tails(&b.block, out),
        syn::Expr::If(i) => {
            block_tails(&i.then_branch, out);
            if let Some((_, x)) = &i.else_branch {
                tails(x, out);
            }
        }
        syn::Expr::Match(m) => {
            for a in m.arms.iter() {
                tails(&a.body, out);
            }
        }
        syn::Expr::Paren(p) => tails(&p.expr, out),
        syn::Expr::Return(r) => {
            if let Some(x) = &r.expr {
                tails(x, out)
            }
        }
        _ => out.push(e),
    }
}
fn block_tails<'a>(b: &'a syn::Block, out: &mut Vec<&'a syn::Expr>) {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => tails(e, out),
        Some(syn::Stmt::Expr(e @ syn::Expr::Return(_), Some(_))) => tails(e, out),
        _ => {}
    }
}

struct Returns<'a>(Vec<&'a syn::Expr>);
impl<'a> Visit<'a> for Returns<'a> {
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        if let Some(x) = &e.expr {
            tails(x, &mut self.0);
        }
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

/// A call of a helper: which one, the receiver if it is a method, the arguments, where.
struct Found {
    h: usize,
    recv: Option<syn::Expr>,
    args: Vec<syn::Expr>,
    span: (usize, usize),
    under_try: Option<(usize, usize)>,
    tail: bool,
}

struct Finder<'a> {
    src: &'a Src,
    hs: &'a [Helper],
    owner: Option<String>,
    tails: BTreeSet<(usize, usize)>,
    closure: usize,
    found: Vec<Found>,
}

impl<'a> Finder<'a> {
    fn lookup(&self, e: &syn::Expr) -> Option<(usize, Option<syn::Expr>, Vec<syn::Expr>)> {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_none()) {
                        return None;
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                    let n = segs.last()?;
                    for (i, h) in self.hs.iter().enumerate() {
                        if h.name != *n {
                            continue;
                        }
                        match &h.owner {
                            None if segs.len() == 1 || (segs.len() == 2 && segs[0] == "self") => return Some((i, None, args)),
                            Some(o) if segs.len() == 2 && (o.split('<').next() == Some(segs[0].as_str()) || (segs[0] == "Self" && self.owner.as_deref() == Some(o.as_str()))) => {
                                if h.sig.receiver().is_some() {
                                    return None;
                                }
                                return Some((i, None, args));
                            }
                            _ => {}
                        }
                    }
                }
                None
            }
            syn::Expr::MethodCall(m) => {
                if m.turbofish.is_some() {
                    return None;
                }
                let mut c = self.hs.iter().enumerate().filter(|(_, h)| m.method == h.name.as_str() && h.owner.is_some() && h.sig.receiver().is_some());
                let (i, _) = c.next()?;
                if c.next().is_some() {
                    return None;
                }
                if norm(&m.receiver) == "self" {
                    if self.owner != self.hs[i].owner {
                        return None;
                    }
                } else if STD_METHODS.contains(&self.hs[i].name.as_str()) {
                    return None; // may be a method of another type
                }
                Some((i, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Finder<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if let syn::Expr::Try(t) = e {
            if let Some((h, recv, args)) = self.lookup(&t.expr) {
                let sp = self.src.range(e.span());
                self.found.push(Found { h, recv, args, span: self.src.range(t.expr.span()), under_try: if self.closure == 0 { Some(sp) } else { None }, tail: false });
                // arguments may hold further calls
                syn::visit::visit_expr(self, &t.expr);
                return;
            }
        }
        if let Some((h, recv, args)) = self.lookup(e) {
            let sp = self.src.range(e.span());
            let tail = self.closure == 0 && self.tails.contains(&sp);
            self.found.push(Found { h, recv, args, span: sp, under_try: None, tail });
        }
        if let syn::Expr::Closure(_) = e {
            self.closure += 1;
            syn::visit::visit_expr(self, e);
            self.closure -= 1;
            return;
        }
        syn::visit::visit_expr(self, e);
    }
}

/// Type text for a `let`, with the helper's generics left to inference.
fn let_type(t: &syn::Type, gens: &BTreeSet<String>) -> Option<String> {
    let mut out = String::new();
    let mut bad = false;
    fn go(ts: proc_macro2::TokenStream, gens: &BTreeSet<String>, out: &mut String, bad: &mut bool) {
        let mut skip = false;
        for t in ts {
            if skip {
                skip = false;
                continue;
            }
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), gens, out, bad);
                    out.push_str(b);
                }
                proc_macro2::TokenTree::Punct(p) if p.as_char() == '\'' => skip = true,
                proc_macro2::TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if s == "impl" || s == "dyn" || s == "Self" {
                        *bad = true;
                    }
                    out.push(' ');
                    out.push_str(if gens.contains(&s) { "_" } else { &s });
                }
                o => out.push_str(&o.to_string()),
            }
        }
    }
    go(t.to_token_stream(), gens, &mut out, &mut bad);
    // a lone lifetime argument leaves an empty list behind
    let out = out.replace("< >", "").replace("<>", "").replace("<,", "<");
    if bad { None } else { Some(out) }
}

fn simple_place(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        syn::Expr::Field(f) => simple_place(&f.base),
        syn::Expr::Paren(p) => simple_place(&p.expr),
        _ => None,
    }
}

/// Uses of one variable in a helper's body.
struct Uses<'a> {
    src: &'a Src,
    name: String,
    /// as the base of a field access, method call or index
    place: Vec<(usize, usize)>,
    /// `*x`
    deref: Vec<(usize, usize)>,
    bare: Vec<(usize, usize)>,
    /// rebound, or used where it cannot be replaced
    complex: bool,
}
impl<'a> Uses<'a> {
    fn of(src: &'a Src, name: &str, b: &syn::Block) -> Uses<'a> {
        let mut u = Uses { src, name: name.to_string(), place: vec![], deref: vec![], bare: vec![], complex: false };
        u.visit_block(b);
        u
    }
    fn is(&self, e: &syn::Expr) -> bool {
        norm(e) == self.name
    }
}
impl<'a, 'ast> Visit<'ast> for Uses<'a> {
    fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
        if self.is(&e.base) {
            self.place.push(self.src.range(e.base.span()));
        } else {
            self.visit_expr(&e.base);
        }
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        if self.is(&e.receiver) {
            self.place.push(self.src.range(e.receiver.span()));
        } else {
            self.visit_expr(&e.receiver);
        }
        for a in e.args.iter() {
            self.visit_expr(a);
        }
    }
    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        if self.is(&e.expr) {
            self.place.push(self.src.range(e.expr.span()));
        } else {
            self.visit_expr(&e.expr);
        }
        self.visit_expr(&e.index);
    }
    fn visit_expr_unary(&mut self, e: &'ast syn::ExprUnary) {
        if matches!(e.op, syn::UnOp::Deref(_)) && self.is(&e.expr) {
            self.deref.push(self.src.range(e.span()));
        } else {
            self.visit_expr(&e.expr);
        }
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        if norm(e) == self.name {
            self.bare.push(self.src.range(e.span()));
        }
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if f.colon_token.is_none() && self.is(&f.expr) {
            self.complex = true;
        } else {
            self.visit_expr(&f.expr);
        }
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.ident == self.name.as_str() {
            self.complex = true;
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if m.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|t| t == self.name) {
            self.complex = true;
        }
    }
}

/// Whether the block binds a variable of this name.
fn binds(b: &syn::Block, name: &str) -> bool {
    struct B(String, bool);
    impl<'ast> Visit<'ast> for B {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            if p.ident == self.0.as_str() {
                self.1 = true;
            }
        }
    }
    let mut v = B(name.to_string(), false);
    v.visit_block(b);
    v.1
}

fn expand(src: &Src, h: &Helper, f: &Found, caller_ret: &str) -> Option<((usize, usize), String)> {
    let fl = &h.flow;
    if fl.awkward || fl.idents.contains(&h.name) {
        return None;
    }
    let leaves = fl.tries || fl.returns_err || fl.returns_other;
    let ret = norm(&h.sig.output);
    let results = |r: &str| r.starts_with("->Result<") || r.starts_with("->crate::validation::Result<") || r.starts_with("->crate::binary::Result<");
    let mode = if !leaves {
        0
    } else if f.tail && (ret == caller_ret || (results(&ret) && results(caller_ret))) {
        1
    } else if f.under_try.is_some() && !fl.returns_other && results(&ret) && results(caller_ret) {
        2
    } else {
        return None;
    };
    let mut gens = BTreeSet::new();
    for p in h.sig.generics.type_params() {
        gens.insert(p.ident.to_string());
    }
    let text = |sp: (usize, usize)| src.text[sp.0..sp.1].to_string();
    // the body without its braces, `self` replaced
    let (bs, be) = src.range(h.block.span());
    let mut edits: Vec<((usize, usize), String)> = vec![];
    if let Some(r) = &f.recv {
        let root = simple_place(r)?;
        if norm(r) != "self" {
            if fl.idents.contains(&root) || h.sig.inputs.iter().any(|i| norm(i).contains(&root)) {
                return None;
            }
            let rt = text(src.range(r.span()));
            let rc = h.sig.receiver().unwrap();
            let su = Uses::of(src, "self", &h.block);
            if su.complex || norm(&h.block).contains("Self") {
                return None;
            }
            for p in su.place.into_iter().chain(su.deref) {
                edits.push((p, rt.clone()));
            }
            for p in su.bare {
                let t = if rc.reference.is_none() { rt.clone() } else if rc.mutability.is_some() { format!("(&mut {})", rt) } else { format!("(&{})", rt) };
                edits.push((p, t));
            }
        }
    }
    // the parameters
    let params: Vec<&syn::PatType> = h.sig.inputs.iter().filter_map(|i| if let syn::FnArg::Typed(t) = i { Some(t) } else { None }).collect();
    if params.len() != f.args.len() {
        return None;
    }
    let mut names = vec![];
    for p in params.iter() {
        match &*p.pat {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => names.push((i.ident.to_string(), i.mutability.is_some())),
            syn::Pat::Wild(_) => names.push(("_".to_string(), false)),
            _ => return None,
        }
    }
    let mut lets = String::new();
    let mut bound: Vec<String> = vec![];
    for (i, (p, a)) in params.iter().zip(f.args.iter()).enumerate() {
        let (n, m) = &names[i];
        let at = text(src.range(a.span()));
        if norm(a) == *n && !*m {
            continue;
        }
        // a variable, or a reference to a variable or its field, takes the parameter's place
        let (target, refd) = match a {
            syn::Expr::Reference(r) => (&*r.expr, true),
            o => (o, false),
        };
        let direct = match target {
            syn::Expr::Path(_) => true,
            syn::Expr::Field(_) => refd,
            _ => false,
        };
        if let (true, Some(root)) = (direct && !*m && n != "_", simple_place(target)) {
            let u = Uses::of(src, n, &h.block);
            // the variable must not change under the parameter's feet
            for (j, o) in f.args.iter().enumerate() {
                if let syn::Expr::Reference(r) = o {
                    if j != i && r.mutability.is_some() && simple_place(&r.expr).as_deref() == Some(root.as_str()) && norm(&r.expr) != norm(target) && !norm(&r.expr).contains('.') {
                        return None;
                    }
                    if j != i && r.mutability.is_some() && norm(&r.expr) == norm(target) {
                        return None;
                    }
                }
            }
            let clash = binds(&h.block, &root) || names.iter().enumerate().any(|(j, (x, _))| *x == root && j != i && norm(&f.args[j]) != *x);
            if !u.complex && !clash && root != "self" || (!u.complex && root == "self" && f.recv.is_none() && h.sig.receiver().is_none()) {
                let tt = text(src.range(target.span()));
                for q in u.place {
                    edits.push((q, tt.clone()));
                }
                for q in u.deref {
                    edits.push((q, if refd { tt.clone() } else { format!("(*{})", tt) }));
                }
                for q in u.bare {
                    edits.push((q, if refd { format!("({})", at) } else { tt.clone() }));
                }
                continue;
            }
        }
        // a later argument that mentions an earlier binding would be captured
        let mut fa = Flow::default();
        fa.visit_expr(a);
        if bound.iter().any(|x| fa.idents.contains(x)) {
            return None;
        }
        bound.push(n.clone());
        let is_mut_ref = matches!(&*p.ty, syn::Type::Reference(r) if r.mutability.is_some());
        let bind = if *m { format!("mut {}", n) } else { n.clone() };
        let rhs = if is_mut_ref && matches!(a, syn::Expr::Path(_)) { format!("&mut *{}", at) } else { at };
        match let_type(&p.ty, &gens) {
            Some(t) => lets.push_str(&format!("let {}: {} = {}; ", bind, t, rhs)),
            None => lets.push_str(&format!("let {} = {}; ", bind, rhs)),
        }
    }
    // what a binding shadows must not be what another parameter was replaced by
    if bound.iter().any(|x| edits.iter().any(|(_, t)| t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == x))) {
        return None;
    }
    if mode == 2 {
        let mut ts = vec![];
        block_tails(&h.block, &mut ts);
        if ts.is_empty() {
            return None;
        }
        // one tail: `Ok(E)` gives E, anything else is tried; several: all of them likewise
        for t in ts {
            let sp = src.range(t.span());
            match t {
                syn::Expr::Call(c) if norm(&c.func) == "Ok" && c.args.len() == 1 => {
                    let a = src.range(c.args[0].span());
                    edits.push(((sp.0, a.0), "(".into()));
                    edits.push(((a.1, sp.1), ")".into()));
                }
                syn::Expr::Call(c) if norm(&c.func) == "Err" => {
                    edits.push(((sp.0, sp.0), "return ".into()));
                }
                _ => {
                    edits.push(((sp.0, sp.0), "(".into()));
                    edits.push(((sp.1, sp.1), ")?".into()));
                }
            }
        }
    }
    edits.sort();
    let mut body = String::new();
    let mut pos = bs + 1;
    for ((a, b), t) in edits {
        if a < pos {
            return None;
        }
        body.push_str(&src.text[pos..a]);
        body.push_str(&t);
        pos = b;
    }
    body.push_str(&src.text[pos..be - 1]);
    let whole = if mode == 2 { f.under_try.unwrap() } else { f.span };
    Some((whole, format!("({{ {}{} }})", lets, body)))
}

pub fn inline_helpers(text: String, ast: syn::File, ann: &Annots, path: &str) -> (String, syn::File, Vec<String>) {
    let mut text = text;
    let mut ast = ast;
    let mut done = vec![];
    for _ in 0..400 {
        let src = Src::new(text.clone());
        let hs = helpers(&src, &ast, ann, path);
        if hs.is_empty() {
            break;
        }
        // call sites, function by function, innermost last
        let mut change = None;
        let mut called: BTreeSet<usize> = BTreeSet::new();
        let mut site = |sig: &syn::Signature, block: &syn::Block, owner: Option<String>, called: &mut BTreeSet<usize>| {
            let mut ts = vec![];
            block_tails(block, &mut ts);
            let mut rs = Returns(vec![]);
            rs.visit_block(block);
            ts.extend(rs.0);
            let mut fd = Finder { src: &src, hs: &hs, owner, tails: ts.iter().map(|e| src.range(e.span())).collect(), closure: 0, found: vec![] };
            fd.visit_block(block);
            for f in fd.found.iter() {
                called.insert(f.h);
                if change.is_none() {
                    if let Some((sp, t)) = expand(&src, &hs[f.h], f, &norm(&sig.output)) {
                        change = Some((sp, t, hs[f.h].name.clone(), sig.ident.to_string()));
                    }
                }
            }
        };
        for it in ast.items.iter() {
            match it {
                syn::Item::Fn(f) if !is_cfg_test(&f.attrs) => site(&f.sig, &f.block, None, &mut called),
                syn::Item::Impl(i) if !is_cfg_test(&i.attrs) => {
                    for ii in i.items.iter() {
                        if let syn::ImplItem::Fn(f) = ii {
                            site(&f.sig, &f.block, Some(norm(&i.self_ty)), &mut called);
                        }
                    }
                }
                _ => {}
            }
        }
        let new = match change {
            Some(((a, b), t, h, c)) => {
                done.push(format!("{} | {} in {}", path, h, c));
                format!("{}{}{}", &text[..a], t, &text[b..])
            }
            None => {
                // helpers that were inlined everywhere are gone
                let gone = hs.iter().enumerate().find(|(i, h)| !called.contains(i) && done.iter().any(|d| d.starts_with(&format!("{} | {} in ", path, h.name))));
                match gone {
                    Some((_, h)) => format!("{}{}", &text[..h.span.0], &text[h.span.1..]),
                    None => break,
                }
            }
        };
        match syn::parse_file(&new) {
            Ok(a) => {
                ast = a;
                text = new;
            }
            Err(_) => break,
        }
    }
    (text, ast, done)
}

/// Whether evaluating the expression may leave the enclosing function.
pub fn leaves(e: &syn::Expr) -> bool {
    let mut f = Flow::default();
    f.visit_expr(e);
    f.tries || f.returns_err || f.returns_other
}

/// A helper of another module: its name, the module, and its text as an item of its own.
#[derive(Clone)]
pub struct Foreign {
    pub name: String,
    pub path: String,
    free: bool,
    text: String,
}

/// The helpers of a file: functions and inherent methods without a contract.
pub fn foreign(text: &str, ast: &syn::File, ann: &Annots, path: &str, out: &mut Vec<Foreign>) {
    let src = Src::new(text.to_string());
    let cut = |sp: proc_macro2::Span| {
        let (a, b) = src.range(sp);
        src.text[a..b].to_string()
    };
    for h in helpers(&src, ast, ann, path) {
        let fun = src.text[h.span.0..h.span.1].to_string();
        let text = match &h.owner {
            None => fun.clone(),
            Some(o) => {
                let hdr = ast.items.iter().find_map(|it| match it {
                    syn::Item::Impl(i) if i.trait_.is_none() && norm(&i.self_ty) == *o => Some(format!("impl{} {}", if i.generics.params.is_empty() { String::new() } else { cut(i.generics.span()) }, cut(i.self_ty.span()))),
                    _ => None,
                });
                format!("{} {{ {} }}", hdr.unwrap_or_default(), fun)
            }
        };
        out.push(Foreign { name: h.name, path: path.to_string(), free: h.owner.is_none(), text });
    }
}

struct Calls<'a> {
    name: &'a str,
    at: Vec<proc_macro2::Span>,
}
impl<'ast> Visit<'ast> for Calls<'_> {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.qself.is_none() && p.path.segments.last().map(|s| s.ident == self.name && s.arguments.is_none()).unwrap_or(false) {
                self.at.push(p.span());
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == self.name {
            self.at.push(m.method.span());
        }
        syn::visit::visit_expr_method_call(self, m);
    }
}

/// Inlines the helpers of other modules that a file calls, if that leaves no call of them.
pub fn inline_foreign(text: &str, ast: &syn::File, ann: &Annots, path: &str, all: &[Foreign]) -> Option<(String, syn::File, Vec<String>)> {
    let mut text = text.to_string();
    let mut ast = ast.clone();
    let mut taken: Vec<String> = vec![];
    loop {
        let mut some = false;
        for h in all.iter().filter(|h| h.path != path) {
            let here = format!("{}__here", h.name);
            let mut c = Calls { name: &h.name, at: vec![] };
            c.visit_file(&ast);
            if taken.contains(&here) || c.at.is_empty() {
                continue;
            }
            let src = Src::new(text.clone());
            let mut at: Vec<(usize, usize)> = c.at.iter().map(|s| src.range(*s)).collect();
            at.sort();
            let mut new = String::new();
            let mut pos = 0;
            for (a, b) in at {
                new.push_str(&text[pos..a]);
                let was = &text[a..b];
                match (h.free, was.rsplit_once("::")) {
                    (false, Some((ty, _))) => new.push_str(&format!("{}::{}", ty, here)),
                    _ => new.push_str(&here),
                }
                pos = b;
            }
            new.push_str(&text[pos..]);
            new.push('\n');
            new.push_str(&h.text.replacen(&format!("fn {}", h.name), &format!("fn {}", here), 1));
            new.push('\n');
            ast = syn::parse_file(&new).ok()?;
            text = new;
            taken.push(here);
            some = true;
        }
        if !some {
            break;
        }
    }
    if taken.is_empty() {
        return None;
    }
    let (text, ast, done) = inline_helpers(text, ast, ann, path);
    if taken.iter().any(|t| text.contains(t.as_str())) {
        return None;
    }
    // what is left of the copies' impl blocks
    let src = Src::new(text);
    let mut new = src.text.clone();
    for it in ast.items.iter().rev() {
        if let syn::Item::Impl(i) = it {
            if i.trait_.is_none() && i.items.is_empty() {
                let (a, b) = src.range(i.span());
                new.replace_range(a..b, "");
            }
        }
    }
    let ast = syn::parse_file(&new).ok()?;
    Some((new, ast, done))
}
