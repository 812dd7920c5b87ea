//! Expansion of the crate's own `macro_rules!` macros, so that items or expressions written through
//! a macro are verified like those written out.
//!
//! An invocation is replaced by what the first matching rule yields. Hygiene is not modelled: where
//! the macro stands in an expression or statement, it is left alone if what it yields binds names.
//! An invocation left alone is reported as an item or a macro the extraction does not know.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::path::Path;
use syn::parse::{Parse, ParseStream, Parser};
use syn::spanned::Spanned;
use syn::visit::Visit;

use crate::{apply, Edit, Src};

enum Pat {
    Tok(TokenTree),
    Group(Delimiter, Vec<Pat>),
    Var(String, String),
    Rep(Vec<Pat>, Option<TokenTree>, char),
}

#[derive(Clone)]
enum Bound {
    One(TokenStream),
    Many(Vec<Bound>),
}

type Env = BTreeMap<String, Bound>;

struct Rule {
    pat: Vec<Pat>,
    out: Vec<Pat>,
}

#[derive(Default)]
pub struct Macros(BTreeMap<String, Vec<Rule>>);

fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// Reads a pattern, or what a rule yields (in which variables carry no kind).
fn read(ts: TokenStream, kinds: bool) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '$') {
            match v.get(i + 1)? {
                TokenTree::Ident(n) if *n == "crate" => {
                    out.push(Pat::Tok(v[i + 1].clone()));
                    i += 2;
                }
                TokenTree::Ident(n) if kinds => {
                    let TokenTree::Ident(k) = v.get(i + 3)? else { return None };
                    out.push(Pat::Var(n.to_string(), k.to_string()));
                    i += 4;
                }
                TokenTree::Ident(n) => {
                    out.push(Pat::Var(n.to_string(), String::new()));
                    i += 2;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner = read(g.stream(), kinds)?;
                    i += 2;
                    let op = |t: Option<&TokenTree>| ['*', '+', '?'].into_iter().find(|c| punct(t, *c));
                    let (sep, o) = match op(v.get(i)) {
                        Some(o) => (None, o),
                        None => {
                            let s = v.get(i)?.clone();
                            i += 1;
                            (Some(s), op(v.get(i))?)
                        }
                    };
                    i += 1;
                    out.push(Pat::Rep(inner, sep, o));
                }
                _ => return None,
            }
            continue;
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => Pat::Group(g.delimiter(), read(g.stream(), kinds)?),
            t => Pat::Tok(t.clone()),
        });
        i += 1;
    }
    Some(out)
}

fn rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let (TokenTree::Group(p), TokenTree::Group(b)) = (v.get(i)?, v.get(i + 3)?) else { return None };
        if !punct(v.get(i + 1), '=') || !punct(v.get(i + 2), '>') {
            return None;
        }
        out.push(Rule { pat: read(p.stream(), true)?, out: read(b.stream(), false)? });
        i += 4;
        if punct(v.get(i), ';') {
            i += 1;
        }
    }
    Some(out)
}

/// Takes a syntax element of the given kind from the front.
fn prefix<T: ToTokens>(v: &[TokenTree], f: fn(ParseStream) -> syn::Result<T>) -> Option<(TokenStream, usize)> {
    let ts: TokenStream = v.iter().cloned().collect();
    let (t, rest) = (|i: ParseStream| Ok((f(i)?, i.parse::<TokenStream>()?))).parse2(ts).ok()?;
    Some((t.into_token_stream(), v.len() - rest.into_iter().count()))
}

fn fragment(v: &[TokenTree], kind: &str) -> Option<(TokenStream, usize)> {
    match kind {
        "ident" => match v.first()? {
            t @ TokenTree::Ident(_) => Some((t.clone().into(), 1)),
            _ => None,
        },
        "tt" => v.first().map(|t| (t.clone().into(), 1)),
        "literal" => prefix(v, |i| {
            let minus: Option<syn::Token![-]> = i.parse()?;
            let l: syn::Lit = i.parse()?;
            Ok(quote::quote!(#minus #l))
        }),
        "lifetime" => prefix(v, syn::Lifetime::parse),
        "ty" => prefix(v, syn::Type::parse),
        "path" => prefix(v, syn::Path::parse),
        "vis" => prefix(v, syn::Visibility::parse),
        "block" => prefix(v, syn::Block::parse),
        "item" => prefix(v, syn::Item::parse),
        "pat" | "pat_param" => prefix(v, syn::Pat::parse_multi),
        "expr" => prefix(v, |i| {
            let e: syn::Expr = i.parse()?;
            Ok(match e {
                syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_) | syn::Expr::Field(_) | syn::Expr::Paren(_) => e.into_token_stream(),
                e => TokenTree::Group(Group::new(Delimiter::Parenthesis, e.into_token_stream())).into(),
            })
        }),
        _ => None,
    }
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    !matches!(a, TokenTree::Group(_)) && a.to_string() == b.to_string()
}

/// The variables of a pattern.
fn vars(p: &[Pat], out: &mut Vec<String>) {
    for x in p {
        match x {
            Pat::Var(n, _) => out.push(n.clone()),
            Pat::Group(_, g) | Pat::Rep(g, _, _) => vars(g, out),
            Pat::Tok(_) => {}
        }
    }
}

/// Matches the pattern with a prefix of the tokens; yields the number of tokens taken.
fn matches(p: &[Pat], v: &[TokenTree], env: &mut Env) -> Option<usize> {
    let mut i = 0;
    for x in p {
        match x {
            Pat::Tok(t) => {
                if !same(t, v.get(i)?) {
                    return None;
                }
                i += 1;
            }
            Pat::Group(d, inner) => {
                let TokenTree::Group(g) = v.get(i)? else { return None };
                let ts: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() != *d || matches(inner, &ts, env)? != ts.len() {
                    return None;
                }
                i += 1;
            }
            Pat::Var(n, k) => {
                let (t, used) = fragment(&v[i..], k)?;
                env.insert(n.clone(), Bound::One(t));
                i += used;
            }
            Pat::Rep(inner, sep, op) => {
                let mut names = Vec::new();
                vars(inner, &mut names);
                let mut many: BTreeMap<String, Vec<Bound>> = names.into_iter().map(|n| (n, Vec::new())).collect();
                let mut count = 0;
                while !(*op == '?' && count == 1) {
                    let mut j = i;
                    if let (Some(s), true) = (sep, count > 0) {
                        match v.get(j) {
                            Some(t) if same(s, t) => j += 1,
                            _ => break,
                        }
                    }
                    let mut e = Env::new();
                    match matches(inner, &v[j..], &mut e) {
                        Some(n) if n > 0 => i = j + n,
                        _ => break,
                    }
                    count += 1;
                    for (n, b) in e {
                        many.get_mut(&n)?.push(b);
                    }
                }
                if *op == '+' && count == 0 {
                    return None;
                }
                env.extend(many.into_iter().map(|(n, b)| (n, Bound::Many(b))));
            }
        }
    }
    Some(i)
}

fn transcribe(p: &[Pat], env: &Env) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    for x in p {
        match x {
            Pat::Tok(t) => out.extend([t.clone()]),
            Pat::Group(d, inner) => out.extend([TokenTree::Group(Group::new(*d, transcribe(inner, env)?))]),
            Pat::Var(n, _) => match env.get(n)? {
                Bound::One(t) => out.extend(t.clone()),
                Bound::Many(_) => return None,
            },
            Pat::Rep(inner, sep, _) => {
                let mut names = Vec::new();
                vars(inner, &mut names);
                let mut count = None;
                for n in &names {
                    if let Bound::Many(m) = env.get(n)? {
                        if *count.get_or_insert(m.len()) != m.len() {
                            return None;
                        }
                    }
                }
                for k in 0..count? {
                    if let (Some(s), true) = (sep, k > 0) {
                        out.extend([s.clone()]);
                    }
                    let mut e = env.clone();
                    for n in &names {
                        if let Bound::Many(m) = &env[n] {
                            e.insert(n.clone(), m[k].clone());
                        }
                    }
                    out.extend(transcribe(inner, &e)?);
                }
            }
        }
    }
    Some(out)
}

/// Whether what a macro yields may bind names or change where control goes within it.
fn binds(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => ["let", "match", "for", "loop", "while", "fn"].iter().any(|w| i == w),
        TokenTree::Punct(p) => p.as_char() == '|',
        TokenTree::Group(g) => binds(g.stream()),
        _ => false,
    })
}

struct Def(Macros);
impl<'ast> Visit<'ast> for Def {
    fn visit_item_macro(&mut self, i: &'ast syn::ItemMacro) {
        if let (Some(n), true) = (&i.ident, i.mac.path.is_ident("macro_rules")) {
            if let Some(r) = rules(i.mac.tokens.clone()) {
                self.0 .0.insert(n.to_string(), r);
            }
        }
    }
}

/// The macros defined anywhere below the directory.
pub fn collect(dir: &Path) -> Macros {
    fn go(dir: &Path, d: &mut Def) {
        let mut es: Vec<_> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        es.sort();
        for p in es {
            if p.is_dir() {
                go(&p, d);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                if let Some(f) = std::fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) {
                    d.visit_file(&f);
                }
            }
        }
    }
    let mut d = Def(Macros::default());
    go(dir, &mut d);
    d.0
}

struct Use<'x> {
    macros: &'x Macros,
    own: &'x Macros,
    src: &'x Src,
    edits: Vec<Edit>,
    done: Vec<String>,
}

impl Use<'_> {
    fn yields(&self, m: &syn::Macro) -> Option<(String, TokenStream)> {
        let n = m.path.segments.last()?.ident.to_string();
        let rs = self.own.0.get(&n).or_else(|| self.macros.0.get(&n))?;
        let v: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        for r in rs {
            let mut env = Env::new();
            if matches(&r.pat, &v, &mut env) == Some(v.len()) {
                return Some((n, transcribe(&r.out, &env)?));
            }
        }
        None
    }
    fn put(&mut self, sp: proc_macro2::Span, name: String, text: String) {
        let (start, end) = self.src.range(sp);
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, text, seq });
        self.done.push(name);
    }
}

impl<'ast> Visit<'ast> for Use<'_> {
    fn visit_item_macro(&mut self, i: &'ast syn::ItemMacro) {
        if let Some(n) = &i.ident {
            if self.own.0.contains_key(&n.to_string()) {
                self.put(i.span(), format!("{} (definition)", n), String::new());
            }
        } else if let Some((n, t)) = self.yields(&i.mac) {
            self.put(i.span(), n, t.to_string());
        }
    }
    fn visit_impl_item_macro(&mut self, i: &'ast syn::ImplItemMacro) {
        if let Some((n, t)) = self.yields(&i.mac) {
            self.put(i.span(), n, t.to_string());
        }
    }
    fn visit_expr_macro(&mut self, i: &'ast syn::ExprMacro) {
        if let Some((n, t)) = self.yields(&i.mac) {
            if !binds(t.clone()) && syn::parse2::<syn::Expr>(t.clone()).is_ok() {
                self.put(i.span(), n, format!("({})", t));
            }
        }
    }
    fn visit_stmt_macro(&mut self, i: &'ast syn::StmtMacro) {
        if let Some((n, t)) = self.yields(&i.mac) {
            if binds(t.clone()) {
                return;
            }
            let semi = if i.semi_token.is_some() { ";" } else { "" };
            match syn::parse2::<syn::Expr>(t.clone()) {
                Ok(syn::Expr::If(_) | syn::Expr::Block(_)) => self.put(i.span(), n, t.to_string()),
                Ok(_) => self.put(i.span(), n, format!("{}{}", t, semi)),
                Err(_) => self.put(i.span(), n, format!("{{ {} }}", t)),
            }
        }
    }
    fn visit_type_macro(&mut self, i: &'ast syn::TypeMacro) {
        if let Some((n, t)) = self.yields(&i.mac) {
            self.put(i.span(), n, t.to_string());
        }
    }
}

/// Expands the invocations in a file, and those in what they yield.
pub fn expand(mut text: String, mut ast: syn::File, macros: &Macros) -> (String, syn::File, Vec<String>) {
    let mut done = Vec::new();
    if macros.0.is_empty() {
        return (text, ast, done);
    }
    let mut d = Def(Macros::default());
    d.visit_file(&ast);
    for _ in 0..8 {
        let src = Src::new(text.clone());
        let mut u = Use { macros, own: &d.0, src: &src, edits: Vec::new(), done: Vec::new() };
        u.visit_file(&ast);
        let new = apply(&text, 0, text.len(), &u.edits, &mut Vec::new());
        match syn::parse_file(&new) {
            Ok(a) if !u.done.is_empty() => {
                done.append(&mut u.done);
                text = new;
                ast = a;
            }
            _ => break,
        }
    }
    (text, ast, done)
}
