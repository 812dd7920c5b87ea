//! Restores names that the annotations know.
//!
//! Contracts refer to parameters, local variables, private functions and fields by name. Where the
//! source uses another name for one of them, the source is renamed back before anything else: a
//! consistent renaming without capture changes nothing. Which names there were is recorded in
//! `names.txt` beside the annotations (`extract names`, on the tree the annotations were written
//! for). A wrong guess makes a proof fail; it cannot make one succeed.
use crate::{is_cfg_test, norm, Edit, Src};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Default)]
pub struct Func {
    sig: String,
    /// names bound in the function in order, and how
    binds: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Names {
    /// by container (module, or module and type) and name
    fns: BTreeMap<String, Func>,
    /// fields of a struct: name and type
    structs: BTreeMap<String, Vec<(String, String)>>,
    /// free functions and inherent methods, which can be renamed at will, in order
    free: Vec<String>,
}

struct Binds {
    out: Vec<(String, String)>,
}

fn pattern(p: &syn::Pat, how: &str, out: &mut Vec<(String, String)>) {
    struct P<'a> {
        how: &'a str,
        out: &'a mut Vec<(String, String)>,
    }
    impl<'a, 'ast> Visit<'ast> for P<'a> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            let n = i.ident.to_string();
            if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.out.push((n, self.how.to_string()));
            }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    P { how, out }.visit_pat(p);
}

impl<'ast> Visit<'ast> for Binds {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let how = l.init.as_ref().map(|i| norm(&i.expr)).unwrap_or_default();
        pattern(&l.pat, &format!("let {}", how), &mut self.out);
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
        }
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        pattern(&e.pat, &format!("for {}", norm(&e.expr)), &mut self.out);
        self.visit_expr(&e.expr);
        self.visit_block(&e.body);
    }
    fn visit_expr_let(&mut self, e: &'ast syn::ExprLet) {
        pattern(&e.pat, &format!("if {}", norm(&e.expr)), &mut self.out);
        self.visit_expr(&e.expr);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        pattern(&a.pat, "arm", &mut self.out);
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        for p in c.inputs.iter() {
            pattern(p, "closure", &mut self.out);
        }
        self.visit_expr(&c.body);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn func(sig: &syn::Signature, block: &syn::Block) -> Func {
    let mut b = Binds { out: vec![] };
    let mut tys = vec![];
    for (n, i) in sig.inputs.iter().enumerate() {
        match i {
            syn::FnArg::Typed(t) => {
                pattern(&t.pat, &format!("parameter {} {}", n, norm(&t.ty)), &mut b.out);
                tys.push(norm(&t.ty));
            }
            syn::FnArg::Receiver(r) => tys.push(norm(r)),
        }
    }
    b.visit_block(block);
    Func { sig: format!("{}({}){}", norm(&sig.generics), tys.join(","), norm(&sig.output)), binds: b.out }
}

fn body(f: &syn::TraitItemFn) -> syn::Block {
    f.default.clone().unwrap_or(syn::Block { brace_token: Default::default(), stmts: vec![] })
}

/// Adds what a file declares.
pub fn collect(ast: &syn::File, path: &str, names: &mut Names) {
    items(&ast.items, path, names)
}

fn items(its: &[syn::Item], path: &str, names: &mut Names) {
    for it in its {
        match it {
            syn::Item::Fn(f) if !is_cfg_test(&f.attrs) => {
                let k = format!("{} | {}", path, f.sig.ident);
                names.free.push(k.clone());
                names.fns.insert(k, func(&f.sig, &f.block));
            }
            syn::Item::Impl(i) if !is_cfg_test(&i.attrs) => {
                let hdr = match &i.trait_ {
                    Some((_, t, _)) => format!("{} for {}", norm(t), norm(&i.self_ty)),
                    None => norm(&i.self_ty),
                };
                for ii in i.items.iter() {
                    if let syn::ImplItem::Fn(f) = ii {
                        let k = format!("{} | {} | {}", path, hdr, f.sig.ident);
                        if i.trait_.is_none() {
                            names.free.push(k.clone());
                        }
                        names.fns.insert(k, func(&f.sig, &f.block));
                    }
                }
            }
            syn::Item::Trait(t) => {
                for ti in t.items.iter() {
                    if let syn::TraitItem::Fn(f) = ti {
                        names.fns.insert(format!("{} | {} | {}", path, t.ident, f.sig.ident), func(&f.sig, &body(f)));
                    }
                }
            }
            syn::Item::Struct(s) if !is_cfg_test(&s.attrs) => {
                if let syn::Fields::Named(n) = &s.fields {
                    names.structs.insert(format!("{} | {}", path, s.ident), n.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), norm(&f.ty))).collect());
                }
            }
            syn::Item::Mod(m) if !is_cfg_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    items(its, &format!("{}::{}", path, m.ident), names);
                }
            }
            _ => {}
        }
    }
}

impl Names {
    pub fn is_free(&self, key: &str) -> bool {
        self.free.iter().any(|k| k == key)
    }

    /// How many functions have a name.
    pub fn named(&self, name: &str) -> usize {
        self.fns.keys().filter(|k| split(k).1 == name).count()
    }

    pub fn relocate(&mut self, moves: &[(String, String)]) {
        for (o, n) in moves {
            if let Some(f) = self.fns.remove(o) {
                self.fns.insert(n.clone(), f);
            }
            self.free.iter_mut().filter(|k| *k == o).for_each(|k| *k = n.clone());
        }
    }

    pub fn write(&self) -> String {
        let mut s = String::new();
        let pairs = |v: &Vec<(String, String)>| v.iter().map(|(a, b)| format!("\t{}\u{1f}{}", a, b.replace(['\t', '\n'], " "))).collect::<String>();
        for (k, f) in &self.fns {
            s.push_str(&format!("{}\t{}\t{}{}\n", if self.free.contains(k) { "free" } else { "fn" }, k, f.sig, pairs(&f.binds)));
        }
        for (k, v) in &self.structs {
            s.push_str(&format!("struct\t{}{}\n", k, pairs(v)));
        }
        s
    }

    pub fn read(text: &str) -> Names {
        let mut n = Names::default();
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            let pairs = |v: &[&str]| v.iter().filter_map(|x| x.split_once('\u{1f}')).map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
            match p[0] {
                "fn" | "free" if p.len() > 2 => {
                    n.fns.insert(p[1].to_string(), Func { sig: p[2].to_string(), binds: pairs(&p[3..]) });
                    if p[0] == "free" {
                        n.free.push(p[1].to_string());
                    }
                }
                "struct" if p.len() > 1 => {
                    n.structs.insert(p[1].to_string(), pairs(&p[2..]));
                }
                _ => {}
            }
        }
        n
    }
}

fn split(k: &str) -> (&str, &str) {
    k.rsplit_once(" | ").unwrap_or(("", k))
}

/// What to rename: functions and fields by their present name, everywhere.
#[derive(Default)]
pub struct Plan {
    fns: BTreeMap<String, String>,
    fields: BTreeMap<String, String>,
}

/// Functions that are in another module than they were, or whose type is spelled another way there:
/// the key they had and the one they have.
pub fn moves(old: &Names, now: &Names) -> Vec<(String, String)> {
    let tail = |k: &str| k.split_once(" | ").map(|x| x.1.to_string()).unwrap_or_default();
    // without the modules that types are qualified with
    let bare = |k: &str| {
        let mut out = String::new();
        for c in k.chars() {
            out.push(c);
            if out.ends_with("::") {
                let keep = out[..out.len() - 2].trim_end_matches(|c: char| c.is_alphanumeric() || c == '_').len();
                out.truncate(keep);
            }
        }
        out
    };
    let missing: Vec<&String> = old.fns.keys().filter(|k| !now.fns.contains_key(*k)).collect();
    let fresh: Vec<&String> = now.fns.keys().filter(|k| !old.fns.contains_key(*k)).collect();
    let only = |key: &dyn Fn(&str) -> String, k: &String| {
        let l: Vec<&&String> = fresh.iter().filter(|f| key(f) == key(k)).collect();
        (l.len() == 1 && missing.iter().filter(|m| key(m) == key(k)).count() == 1).then(|| l[0].to_string())
    };
    let here = |k: &str| format!("{} | {}", k.split(" | ").next().unwrap(), bare(&tail(k)));
    let any = |k: &str| bare(&tail(k));
    missing.iter().filter_map(|m| only(&here, m).or_else(|| only(&tail, m)).or_else(|| only(&any, m)).map(|f| (m.to_string(), f))).collect()
}

pub fn plan(old: &Names, now: &Names) -> Plan {
    let mut p = Plan::default();
    // a name is only touched if nothing else in the crate has it
    let mut uses: BTreeMap<&str, usize> = BTreeMap::new();
    for k in now.fns.keys() {
        *uses.entry(split(k).1).or_insert(0) += 1;
    }
    let mut fuses: BTreeMap<&str, usize> = BTreeMap::new();
    for f in now.structs.values() {
        for (n, _) in f {
            *fuses.entry(n).or_insert(0) += 1;
        }
    }
    let missing: Vec<&String> = old.free.iter().filter(|k| !now.fns.contains_key(*k)).collect();
    let mut fresh: Vec<&String> = now.free.iter().filter(|k| !old.fns.contains_key(*k)).collect();
    for m in missing {
        let (c, n) = split(m);
        // the same name elsewhere would be captured
        if uses.contains_key(n) {
            continue;
        }
        let like: Vec<usize> = fresh.iter().enumerate().filter(|(_, f)| split(f).0 == c && now.fns[**f].sig == old.fns[m].sig && uses[split(f).1] == 1 && !fuses.contains_key(split(f).1)).map(|(i, _)| i).collect();
        // several of the same type: the one with the same variables, or the first
        let pick = like.iter().copied().find(|i| now.fns[fresh[*i]].binds.iter().map(|b| &b.0).eq(old.fns[m].binds.iter().map(|b| &b.0))).or(like.first().copied());
        if let Some(i) = pick {
            p.fns.insert(split(fresh[i]).1.to_string(), n.to_string());
            fresh.remove(i);
        }
    }
    for (k, was) in &old.structs {
        let Some(is) = now.structs.get(k) else { continue };
        if was.len() != is.len() || was.iter().map(|f| &f.1).ne(is.iter().map(|f| &f.1)) {
            continue;
        }
        for (a, b) in was.iter().zip(is.iter()) {
            if a.0 != b.0 && fuses[b.0.as_str()] == 1 && !uses.contains_key(b.0.as_str()) && !is.iter().any(|f| f.0 == a.0) && !was.iter().any(|f| f.0 == b.0) {
                p.fields.insert(b.0.clone(), a.0.clone());
            }
        }
    }
    p
}

/// Which local names of a function to change.
fn locals(was: &Func, is: &Func) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let firsts = |v: &[(String, String)], other: &[(String, String)]| {
        let mut seen = BTreeSet::new();
        v.iter().filter(|b| !other.iter().any(|o| o.0 == b.0) && seen.insert(b.0.clone())).cloned().collect::<Vec<_>>()
    };
    let missing = firsts(&was.binds, &is.binds);
    let fresh = firsts(&is.binds, &was.binds);
    if missing.len() == fresh.len() {
        for (m, f) in missing.into_iter().zip(fresh) {
            out.insert(f.0, m.0);
        }
    } else {
        for m in missing {
            let like: Vec<_> = fresh.iter().filter(|f| f.1 == m.1 && f.1 != "arm" && f.1 != "closure").collect();
            if like.len() == 1 && !out.contains_key(&like[0].0) {
                out.insert(like[0].0.clone(), m.0);
            }
        }
    }
    out
}

struct R<'a> {
    src: &'a Src,
    plan: &'a Plan,
    old: &'a Names,
    path: String,
    container: String,
    /// of the function being visited
    /// what the function around bound, and how
    binds: Vec<(String, String)>,
    map: BTreeMap<String, String>,
    edits: Vec<Edit>,
    log: BTreeSet<String>,
}

/// Names used as variables, and format strings that might capture one.
struct Uses {
    paths: BTreeSet<String>,
    strings: String,
}

impl<'ast> Visit<'ast> for Uses {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.paths.insert(i.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.strings.push_str(&m.tokens.to_string());
        for t in m.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')) {
            self.paths.insert(t.to_string());
        }
    }
}

impl<'a> R<'a> {
    fn put(&mut self, i: &syn::Ident, to: &str) {
        let (a, b) = self.src.range(i.span());
        let seq = self.edits.len();
        self.edits.push(Edit { start: a, end: b, text: to.to_string(), seq });
        self.log.insert(format!("{} to {}", i, to));
    }

    fn enter(&mut self, key: &str, sig: &syn::Signature, block: &syn::Block) {
        self.map.clear();
        // under the name it had
        let (c, n) = split(key);
        let key = match self.plan.fns.get(n) {
            Some(o) if self.old.fns.contains_key(&format!("{} | {}", c, o)) => format!("{} | {}", c, o),
            _ => key.to_string(),
        };
        self.binds.clear();
        if let Some(was) = self.old.fns.get(&key) {
            self.binds = was.binds.clone();
            let mut u = Uses { paths: BTreeSet::new(), strings: String::new() };
            u.visit_block(block);
            for (f, m) in locals(was, &func(sig, block)) {
                if u.paths.contains(&m) || u.strings.contains(&format!("{{{}", f)) {
                    continue;
                }
                self.map.insert(f, m);
            }
        }
    }

    fn tokens(&mut self, ts: proc_macro2::TokenStream) {
        let mut after_dot = false;
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    self.tokens(g.stream());
                    after_dot = false;
                }
                proc_macro2::TokenTree::Ident(i) => {
                    let n = i.to_string();
                    let to = if after_dot { self.plan.fields.get(&n).or(self.plan.fns.get(&n)) } else { self.map.get(&n).or(self.plan.fns.get(&n)) }.cloned();
                    if let Some(to) = to {
                        self.put(&i, &to);
                    }
                    after_dot = false;
                }
                proc_macro2::TokenTree::Punct(p) => after_dot = p.as_char() == '.',
                _ => after_dot = false,
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for R<'a> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        // the variable of the loop over the same thing, if its name means nothing else in this one
        let how = format!("for {}", norm(&e.expr));
        let was: Vec<String> = self.binds.iter().filter(|b| b.1 == how).map(|b| b.0.clone()).collect();
        if let (syn::Pat::Ident(i), [n]) = (&*e.pat, &was[..]) {
            let f = i.ident.to_string();
            let mut u = Uses { paths: BTreeSet::new(), strings: String::new() };
            u.visit_block(&e.body);
            let mut bound = vec![];
            let mut b = Binds { out: vec![] };
            b.visit_block(&e.body);
            bound.extend(b.out.into_iter().map(|x| x.0));
            if f != *n && !self.map.contains_key(&f) && !self.map.values().any(|v| v == n) && !u.paths.contains(n) && !bound.contains(n) && !bound.contains(&f) && u.strings.is_empty() {
                self.visit_expr(&e.expr);
                self.map.insert(f.clone(), n.clone());
                self.visit_pat(&e.pat);
                self.visit_block(&e.body);
                self.map.remove(&f);
                return;
            }
        }
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if is_cfg_test(&m.attrs) {
            return;
        }
        let keep = self.path.clone();
        self.path = format!("{}::{}", keep, m.ident);
        self.container = self.path.clone();
        syn::visit::visit_item_mod(self, m);
        self.path = keep;
        self.container = self.path.clone();
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        let hdr = match &i.trait_ {
            Some((_, t, _)) => format!("{} for {}", norm(t), norm(&i.self_ty)),
            None => norm(&i.self_ty),
        };
        self.container = format!("{} | {}", self.path, hdr);
        syn::visit::visit_item_impl(self, i);
        self.container = self.path.clone();
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.enter(&format!("{} | {}", self.container.clone(), f.sig.ident), &f.sig, &f.block);
        syn::visit::visit_impl_item_fn(self, f);
        self.map.clear();
    }
    fn visit_item_trait(&mut self, t: &'ast syn::ItemTrait) {
        self.container = format!("{} | {}", self.path, t.ident);
        syn::visit::visit_item_trait(self, t);
        self.container = self.path.clone();
    }
    fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
        self.enter(&format!("{} | {}", self.container.clone(), f.sig.ident), &f.sig, &body(f));
        syn::visit::visit_trait_item_fn(self, f);
        self.map.clear();
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if is_cfg_test(&f.attrs) {
            return;
        }
        self.enter(&format!("{} | {}", self.container.clone(), f.sig.ident), &f.sig, &f.block);
        syn::visit::visit_item_fn(self, f);
        self.map.clear();
    }
    fn visit_signature(&mut self, s: &'ast syn::Signature) {
        if let Some(to) = self.plan.fns.get(&s.ident.to_string()).cloned() {
            self.put(&s.ident, &to);
        }
        syn::visit::visit_signature(self, s);
    }
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        if let Some(to) = self.map.get(&i.ident.to_string()).cloned() {
            self.put(&i.ident, &to);
        }
        syn::visit::visit_pat_ident(self, i);
    }
    fn visit_field_pat(&mut self, f: &'ast syn::FieldPat) {
        if let syn::Member::Named(n) = &f.member {
            let field = self.plan.fields.get(&n.to_string()).cloned();
            if f.colon_token.is_none() {
                // S { name } binds a variable of the field's name
                let var = self.map.get(&n.to_string()).cloned();
                if field.is_some() || var.is_some() {
                    let name = n.to_string();
                    let by = match &*f.pat {
                        syn::Pat::Ident(i) => format!("{}{}", if i.by_ref.is_some() { "ref " } else { "" }, if i.mutability.is_some() { "mut " } else { "" }),
                        _ => String::new(),
                    };
                    let (a, b) = self.src.range(f.span());
                    let seq = self.edits.len();
                    self.edits.push(Edit { start: a, end: b, text: format!("{}: {}{}", field.unwrap_or(name.clone()), by, var.unwrap_or(name)), seq });
                    self.log.insert(format!("{} in a pattern", n));
                    return;
                }
            } else if let Some(to) = field {
                self.put(n, &to);
            }
        }
        syn::visit::visit_field_pat(self, f);
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if let syn::Member::Named(n) = &f.member {
            let field = self.plan.fields.get(&n.to_string()).cloned();
            if f.colon_token.is_none() {
                let var = self.map.get(&n.to_string()).cloned();
                if field.is_some() || var.is_some() {
                    let name = n.to_string();
                    self.put(n, &format!("{}: {}", field.unwrap_or(name.clone()), var.unwrap_or(name)));
                }
                return;
            } else if let Some(to) = field {
                self.put(n, &to);
            }
        }
        self.visit_expr(&f.expr);
    }
    fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
        if let syn::Member::Named(n) = &f.member {
            if let Some(to) = self.plan.fields.get(&n.to_string()).cloned() {
                self.put(n, &to);
            }
        }
        syn::visit::visit_expr_field(self, f);
    }
    fn visit_field(&mut self, f: &'ast syn::Field) {
        if let Some(n) = &f.ident {
            if let Some(to) = self.plan.fields.get(&n.to_string()).cloned() {
                self.put(n, &to);
            }
        }
        syn::visit::visit_field(self, f);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if let Some(to) = self.map.get(&n).or(self.plan.fns.get(&n)).cloned() {
                self.put(i, &to);
            }
            return;
        }
        if let Some(l) = p.path.segments.last() {
            if let Some(to) = self.plan.fns.get(&l.ident.to_string()).cloned() {
                self.put(&l.ident, &to);
            }
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        if let Some(to) = self.plan.fns.get(&e.method.to_string()).cloned() {
            self.put(&e.method, &to);
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_use_name(&mut self, u: &'ast syn::UseName) {
        if let Some(to) = self.plan.fns.get(&u.ident.to_string()).cloned() {
            self.put(&u.ident, &to);
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.tokens(m.tokens.clone());
    }
}

/// The text with the names the annotations know.
pub fn restore(text: String, ast: syn::File, old: &Names, plan: &Plan, path: &str) -> (String, syn::File, Vec<String>) {
    let src = Src::new(text);
    let mut r = R { src: &src, plan, old, path: path.to_string(), container: path.to_string(), map: BTreeMap::new(), binds: vec![], edits: vec![], log: BTreeSet::new() };
    r.visit_file(&ast);
    if r.edits.is_empty() {
        return (src.text, ast, vec![]);
    }
    let mut problems = vec![];
    let new = crate::apply(&src.text, 0, src.text.len(), &r.edits, &mut problems);
    match syn::parse_file(&new) {
        Ok(a) if problems.is_empty() => (new, a, r.log.into_iter().collect()),
        _ => (src.text, ast, vec![]),
    }
}
