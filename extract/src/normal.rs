//! Writes iterator chains as the loops they stand for.
//!
//! Verus verifies `for` loops with invariants but has no specifications for most adaptors. Each rule
//! here replaces a statement or an expression by one with the same meaning:
//!
//! * `I.try_for_each(|x| E)?` by `for x in I { E?; }`, and `I.for_each(|x| E)` by the same without `?`
//! * `I.map(|x| E).collect()?` into a new vector by a loop that pushes `E?`
//! * `V.extend(I)` by a loop that pushes what `I` yields (also through `map`, `filter_map`,
//!   `repeat(x).take(n)`), and `V.resize(V.len() + n, x)` by one that pushes `x`
//! * `for (a, b) in X.iter_mut().zip(Y) { a.f = b; }` by a loop over indices; where `Y` is longer
//!   than `X` this would index out of range, which the proof has to exclude
//! * a `HashSet` or `BTreeSet` that is only asked for its size, or whether each of a sequence of values
//!   is new, by a vector sorted and without repetitions; `sort_unstable` by `sort`
//! * `X.get(i).copied().ok_or(E)` by a bounds test
//! * `for i in 0..X.len()`, `while i < X.len()` and `while let Some(x) = it.next()` over the elements
//!   of `X` by `for x in X.iter()`; `loop { if C { break; } .. }` by `while !C`
//! * `R.map_err(|e| E)` by the match it means, `O.ok_or_else(|| E)` by `O.ok_or(E)` for a plain `E`
//!
//! A closure that holds `return` is left alone. A rule that does not apply leaves the text as it is.
use syn::spanned::Spanned;
use syn::visit::Visit;

use crate::{apply, norm, Edit, Src};

struct N<'x> {
    src: &'x Src,
    edits: Vec<Edit>,
    done: Vec<String>,
    /// whether the function around returns a `Result`, and where it is
    result: bool,
    around: (usize, usize),
}

fn method<'e>(e: &'e syn::Expr, name: &str, args: usize) -> Option<&'e syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) if m.method == name && m.args.len() == args => Some(m),
        syn::Expr::Paren(p) => method(&p.expr, name, args),
        _ => None,
    }
}

fn tried(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Try(t) => Some(&t.expr),
        _ => None,
    }
}

fn returns(e: &syn::Expr) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}

fn simple(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => simple(&f.base),
        syn::Expr::Cast(c) => simple(&c.expr),
        syn::Expr::Paren(p) => simple(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}

impl N<'_> {
    fn text<T: Spanned>(&self, t: &T) -> String {
        let (a, b) = self.src.range(t.span());
        self.src.text[a..b].to_string()
    }

    fn line(&self, sp: proc_macro2::Span) -> usize {
        self.src.text[..self.src.range(sp).0].matches('\n').count()
    }

    fn put(&mut self, sp: proc_macro2::Span, rule: &str, text: String) {
        let (start, end) = self.src.range(sp);
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, text, seq });
        self.done.push(rule.to_string());
    }

    /// A closure's parameter whose name is used elsewhere in the function gets a name of its own.
    fn own(&mut self, c: &syn::ExprClosure) -> bool {
        struct U<'a> {
            name: &'a str,
            at: Vec<proc_macro2::Span>,
            bound: usize,
            opaque: bool,
        }
        impl<'ast> Visit<'ast> for U<'_> {
            fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                if p.path.is_ident(self.name) {
                    self.at.push(p.span());
                }
            }
            fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
                if p.ident == self.name {
                    self.at.push(p.ident.span());
                    self.bound += 1;
                }
            }
            fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
                self.opaque |= f.colon_token.is_none();
                syn::visit::visit_field_value(self, f);
            }
            fn visit_macro(&mut self, _: &'ast syn::Macro) {
                self.opaque = true;
            }
        }
        let Some(syn::Pat::Ident(p)) = c.inputs.first() else { return false };
        let name = p.ident.to_string();
        let (a, b) = self.src.range(c.span());
        if self.around.1 < b || !(word(&self.src.text[self.around.0..a], &name) || word(&self.src.text[b..self.around.1], &name)) {
            return false;
        }
        let mut u = U { name: &name, at: vec![], bound: 0, opaque: false };
        u.visit_expr_closure(c);
        if u.bound != 1 || u.opaque {
            return false;
        }
        let new = format!("{}_{}", name, self.src.text[..a].matches('\n').count());
        for sp in u.at {
            self.put(sp, "closure parameter", new.clone());
        }
        true
    }

    /// Parameter and body of a closure with one parameter.
    fn closure<'e>(&self, e: &'e syn::Expr) -> Option<(String, &'e syn::Expr)> {
        let syn::Expr::Closure(c) = e else { return None };
        if c.inputs.len() != 1 || returns(&c.body) {
            return None;
        }
        let p = match &c.inputs[0] {
            syn::Pat::Type(t) => self.text(&t.pat),
            p => self.text(p),
        };
        Some((p, &c.body))
    }

    /// The statements of a fallible closure body.
    fn fallible(&self, body: &syn::Expr) -> String {
        if let syn::Expr::Block(b) = body {
            if let Some((syn::Stmt::Expr(last, None), rest)) = b.block.stmts.split_last() {
                let head: String = rest.iter().map(|s| self.text(s) + " ").collect();
                return if norm(last) == "Ok(())" { head } else { head + &self.fallible(last) };
            }
        }
        if let Some(m) = method(body, "map", 1) {
            if norm(&m.args[0]).replace(' ', "") == "|_|()" {
                return format!("{}?;", self.text(&m.receiver));
            }
        }
        format!("{}?;", self.text(body))
    }

    /// `I.map(|x| E).collect()`: the loop that pushes onto `v`.
    fn collected(&self, e: &syn::Expr, v: &str) -> Option<String> {
        let m = method(&method(e, "collect", 0)?.receiver, "map", 1)?;
        let (p, b) = self.closure(&m.args[0])?;
        let push = |e: &syn::Expr| match e {
            syn::Expr::Call(c) if norm(&c.func) == "Ok" && c.args.len() == 1 => format!("{}.push({});", v, self.text(&c.args[0])),
            e => format!("{}.push(({})?);", v, self.text(e)),
        };
        let body = match b {
            syn::Expr::Block(b) => match b.block.stmts.split_last() {
                Some((syn::Stmt::Expr(last, None), rest)) => rest.iter().map(|s| self.text(s) + " ").collect::<String>() + &push(last),
                _ => return None,
            },
            syn::Expr::MethodCall(_) | syn::Expr::Path(_) => format!("{}.push({}?);", v, self.text(b)),
            e => push(e),
        };
        Some(format!("for {} in {} {{ {} }}", p, self.text(&m.receiver), body))
    }

    fn statement(&mut self, st: &syn::Stmt, tail: bool) -> bool {
        let n = self.edits.len();
        if !self.rewritten(st, tail) {
            return false;
        }
        // first let its closure's parameter have a name of its own
        struct C<'a, 'b>(&'a mut N<'b>, bool);
        impl<'ast> Visit<'ast> for C<'_, '_> {
            fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
                self.1 |= self.0.own(c);
            }
        }
        let saved = (self.edits.split_off(n), self.done.split_off(n));
        let mut c = C(self, false);
        c.visit_stmt(st);
        if !c.1 {
            self.edits.extend(saved.0);
            self.done.extend(saved.1);
        }
        true
    }

    fn rewritten(&mut self, st: &syn::Stmt, tail: bool) -> bool {
        match st {
            syn::Stmt::Local(l) => {
                let (pat, ty) = match &l.pat {
                    syn::Pat::Type(t) => (&*t.pat, format!(": {}", self.text(&t.ty))),
                    p => (p, String::new()),
                };
                let (syn::Pat::Ident(i), Some(init)) = (pat, &l.init) else { return false };
                let Some(e) = tried(&init.expr) else { return false };
                let v = i.ident.to_string();
                let Some(t) = self.collected(e, &v) else { return false };
                self.put(st.span(), "map-collect", format!("let mut {}{} = Vec::new(); {}", v, ty, t));
                true
            }
            syn::Stmt::Expr(e, semi) => {
                if tail && self.result && semi.is_none() {
                    if let Some(t) = self.collected(e, "result") {
                        self.put(st.span(), "map-collect", format!("let mut result = Vec::new(); {} Ok(result)", t));
                        return true;
                    }
                    if let Some(m) = method(e, "try_for_each", 1) {
                        if let Some((p, b)) = self.closure(&m.args[0]) {
                            let t = format!("for {} in {} {{ {} }} Ok(())", p, self.text(&m.receiver), self.fallible(b));
                            self.put(st.span(), "try-for-each", t);
                            return true;
                        }
                    }
                }
                if let Some(m) = tried(e).and_then(|e| method(e, "try_for_each", 1)) {
                    if let Some((p, b)) = self.closure(&m.args[0]) {
                        let t = format!("for {} in {} {{ {} }}", p, self.text(&m.receiver), self.fallible(b));
                        self.put(st.span(), "try-for-each", t);
                        return true;
                    }
                }
                if let Some(m) = method(e, "for_each", 1) {
                    if let Some((p, b)) = self.closure(&m.args[0]) {
                        let t = format!("for {} in {} {{ {}; }}", p, self.text(&m.receiver), self.text(b));
                        self.put(st.span(), "for-each", t);
                        return true;
                    }
                }
                if let Some(m) = method(e, "extend", 1) {
                    if simple(&m.receiver) {
                        let v = self.text(&m.receiver);
                        let a = &m.args[0];
                        let t = self.extended(a, &v);
                        self.put(st.span(), "extend", t);
                        return true;
                    }
                }
                if let Some(m) = method(e, "resize", 2) {
                    if let (syn::Expr::Binary(b), true, true) = (&m.args[0], simple(&m.receiver), simple(&m.args[1])) {
                        let v = self.text(&m.receiver);
                        if matches!(b.op, syn::BinOp::Add(_)) && norm(&b.left) == format!("{}.len()", norm(&m.receiver)) {
                            let t = format!("for _ in 0..{} {{ {}.push({}); }}", self.count(&b.right), v, self.text(&m.args[1]));
                            self.put(st.span(), "resize", t);
                            return true;
                        }
                    }
                }
                if let syn::Expr::ForLoop(f) = e {
                    if let Some(t) = self.indexed(f) {
                        self.put(st.span(), "index", t);
                        return true;
                    }
                    if let Some(t) = self.zipped(f) {
                        self.put(st.span(), "zip", t);
                        return true;
                    }
                }
                if let syn::Expr::While(w) = e {
                    if let syn::Expr::Let(l) = &*w.cond {
                        if norm(&l.pat) == "Some(_)" && method(&l.expr, "next", 0).is_none() {
                            self.put(w.cond.span(), "while-let", format!("{}.is_some()", self.text(&l.expr)));
                            return true;
                        }
                    }
                }
                if let syn::Expr::Loop(l) = e {
                    if let (Some(syn::Stmt::Expr(syn::Expr::If(c), _)), None) = (l.body.stmts.first(), &l.label) {
                        let inner = norm(&c.then_branch);
                        if c.else_branch.is_none() && !norm(&c.cond).starts_with("let ") && (inner == "{break}" || inner == "{break;}") {
                            let rest: String = l.body.stmts[1..].iter().map(|s| self.text(s) + "\n").collect();
                            let cond = match method(&c.cond, "is_none", 0) {
                                Some(m) => format!("{}.is_some()", self.text(&m.receiver)),
                                None => format!("!({})", self.text(&c.cond)),
                            };
                            self.put(st.span(), "loop-break", format!("while {} {{ {} }}", cond, rest));
                            return true;
                        }
                    }
                }
                false
            }
            _ => false,
        }
    }

    /// `for i in 0..X.len()` where `i` serves only to take `X[i]`.
    fn indexed(&self, f: &syn::ExprForLoop) -> Option<String> {
        let (syn::Pat::Ident(i), syn::Expr::Range(r)) = (&*f.pat, &*f.expr) else { return None };
        let len = method(r.end.as_ref()?, "len", 0)?;
        if norm(r.start.as_ref()?) != "0" || !simple(&len.receiver) || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
            return None;
        }
        let (i, x) = (i.ident.to_string(), self.text(&len.receiver));
        let at = format!("{}[{}]", x, i);
        let mut stmts = &f.body.stmts[..];
        let mut var = format!("each_{}", self.line(f.span()));
        if let [syn::Stmt::Local(l), rest @ ..] = stmts {
            let init = l.init.as_ref().map(|n| self.text(&n.expr)).unwrap_or_default();
            if let (syn::Pat::Ident(p), true) = (&l.pat, init == format!("&{}", at)) {
                var = p.ident.to_string();
                stmts = rest;
            }
        }
        let body: String = stmts.iter().map(|s| self.text(s) + "\n").collect();
        let body = body.replace(&format!("&{}.", at), &format!("&{}.", var)).replace(&format!("&{}", at), &var).replace(&format!("{}.", at), &format!("{}.", var));
        if word(&body, &i) || norm(&f.body).contains(&format!("{}=", x)) {
            return None;
        }
        Some(format!("for {} in {}.iter() {{ {} }}", var, x, body))
    }

    /// `let mut i = 0; while i < X.len() { ..; i += 1; }` and `let mut it = X.iter(); while let
    /// Some(p) = it.next() { .. }` as `for` loops.
    fn counted(&mut self, b: &syn::Block, k: usize) -> bool {
        let syn::Stmt::Local(l) = &b.stmts[k] else { return false };
        let pat = match &l.pat {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        let (syn::Pat::Ident(v), Some(init)) = (pat, &l.init) else { return false };
        let v = v.ident.to_string();
        let Some(w) = b.stmts.get(k + 1) else { return false };
        let syn::Stmt::Expr(syn::Expr::While(wl), _) = w else { return false };
        if wl.label.is_some() || b.stmts[k + 2..].iter().any(|s| word(&self.text(s), &v)) {
            return false;
        }
        if let (syn::Expr::Let(c), syn::Expr::MethodCall(_)) = (&*wl.cond, &*init.expr) {
            let syn::Pat::TupleStruct(p) = &*c.pat else { return false };
            let next = method(&c.expr, "next", 0).map(|m| norm(&m.receiver) == v).unwrap_or(false);
            if !next || p.elems.len() != 1 || !p.path.is_ident("Some") || word(&self.text(&wl.body), &v) {
                return false;
            }
            let t = format!("for {} in {} {}", self.text(&p.elems[0]), self.text(&init.expr), self.text(&wl.body));
            self.put(b.stmts[k].span(), "while-next", String::new());
            self.put(w.span(), "while-next", t);
            return true;
        }
        let syn::Expr::Binary(c) = &*wl.cond else { return false };
        let (Some((last, rest)), true, true) = (wl.body.stmts.split_last(), matches!(c.op, syn::BinOp::Lt(_)), norm(&c.left) == v) else { return false };
        let step = norm(last).trim_end_matches(';').to_string();
        let rest: String = rest.iter().map(|s| self.text(s) + "\n").collect();
        if norm(&init.expr) != "0" || (step != format!("{}+=1", v) && step != format!("{0}={0}+1", v)) || word(&rest, "continue") || rest.contains(&format!("{} +=", v)) || rest.contains(&format!("{} =", v)) {
            return false;
        }
        // the bound must stay what it is at the start
        let bound = self.text(&c.right);
        let fixed = match method(&c.right, "len", 0) {
            Some(m) if simple(&m.receiver) => {
                let x = self.text(&m.receiver);
                let root = x.split('.').next().unwrap().to_string();
                !word(&rest.replace(&format!("{}[{}]", x, v), "").replace(&format!(".{}", root), ""), &root)
            }
            Some(_) => false,
            None => matches!(&*c.right, syn::Expr::Lit(_)) || (matches!(&*c.right, syn::Expr::Path(_)) && !word(&rest, &bound)),
        };
        if !fixed {
            return false;
        }
        let t = format!("for {} in 0..{} {{ {} }}", v, bound, rest);
        self.put(b.stmts[k].span(), "while-count", String::new());
        self.put(w.span(), "while-count", t);
        true
    }

    fn extended(&self, a: &syn::Expr, v: &str) -> String {
        if let Some(t) = method(a, "take", 1) {
            if let syn::Expr::Call(c) = &*t.receiver {
                if norm(&c.func).ends_with("repeat") && c.args.len() == 1 && simple(&c.args[0]) {
                    return format!("for _ in 0..{} {{ {}.push({}); }}", self.count(&t.args[0]), v, self.text(&c.args[0]));
                }
            }
        }
        if let Some(m) = method(a, "map", 1) {
            if let Some((p, b)) = self.closure(&m.args[0]) {
                return format!("for {} in {} {{ {}.push({}); }}", p, self.text(&m.receiver), v, self.text(b));
            }
        }
        if let Some(m) = method(a, "filter_map", 1) {
            if let Some((p, b)) = self.closure(&m.args[0]) {
                return format!("for {} in {} {{ {} }}", p, self.text(&m.receiver), self.kept(b, v));
            }
        }
        format!("for each_{n} in {} {{ {}.push(each_{n}); }}", self.text(a), v, n = self.line(a.span()))
    }

    fn count(&self, e: &syn::Expr) -> String {
        match e {
            syn::Expr::Cast(c) if norm(&c.ty) == "usize" && simple(&c.expr) => self.text(&c.expr),
            e => self.text(e),
        }
    }

    /// Pushes the value of an optional expression.
    fn kept(&self, e: &syn::Expr, v: &str) -> String {
        match e {
            syn::Expr::Call(c) if norm(&c.func) == "Some" && c.args.len() == 1 => format!("{}.push({});", v, self.text(&c.args[0])),
            syn::Expr::Path(p) if norm(p) == "None" => String::new(),
            syn::Expr::Match(m) if m.arms.iter().all(|a| a.guard.is_none()) => {
                let arms: String = m.arms.iter().map(|a| format!("{} => {{ {} }} ", self.text(&a.pat), self.kept(&a.body, v))).collect();
                format!("match {} {{ {} }}", self.text(&m.expr), arms)
            }
            syn::Expr::If(i) => match &i.else_branch {
                Some((_, b)) => format!("if {} {{ {} }} else {{ {} }}", self.text(&i.cond), self.kept_block(&i.then_branch, v), self.kept(b, v)),
                None => self.kept_other(e, v),
            },
            syn::Expr::Block(b) => self.kept_block(&b.block, v),
            e => self.kept_other(e, v),
        }
    }
    fn kept_block(&self, b: &syn::Block, v: &str) -> String {
        match b.stmts.split_last() {
            Some((syn::Stmt::Expr(last, None), rest)) => rest.iter().map(|s| self.text(s) + " ").collect::<String>() + &self.kept(last, v),
            _ => format!("if let Some(kept) = {} {{ {}.push(kept); }}", self.text(b), v),
        }
    }
    fn kept_other(&self, e: &syn::Expr, v: &str) -> String {
        format!("if let Some(kept) = {} {{ {}.push(kept); }}", self.text(e), v)
    }

    fn zipped(&self, f: &syn::ExprForLoop) -> Option<String> {
        let syn::Pat::Tuple(t) = &*f.pat else { return None };
        let [syn::Stmt::Expr(syn::Expr::Assign(s), _)] = &f.body.stmts[..] else { return None };
        let z = method(&f.expr, "zip", 1)?;
        let x = method(&z.receiver, "iter_mut", 0)?;
        let y = match &z.args[0] {
            syn::Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => &*m.receiver,
            syn::Expr::MethodCall(m) if m.method == "copied" => &method(&m.receiver, "iter", 0)?.receiver,
            syn::Expr::Reference(r) => &*r.expr,
            e => e,
        };
        let syn::Expr::Field(l) = &*s.left else { return None };
        let right = norm(&s.right);
        let (a, b) = (norm(&t.elems[0]), norm(&t.elems[1]));
        if t.elems.len() != 2 || norm(&l.base) != a || right.trim_start_matches('*').trim() != b.trim_start_matches('&').trim() || !simple(&x.receiver) || !simple(y) {
            return None;
        }
        let (x, y) = (self.text(&x.receiver), self.text(y));
        Some(format!("for i in 0..{}.len() {{ {}[i].{} = {}[i]; }}", y, x, self.text(&l.member), y))
    }
}

/// Whether a word occurs in a text.
fn word(text: &str, w: &str) -> bool {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}

impl<'ast> Visit<'ast> for N<'_> {
    fn visit_signature(&mut self, s: &'ast syn::Signature) {
        self.result = matches!(&s.output, syn::ReturnType::Type(_, t) if norm(t).contains("Result"));
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.visit_signature(&f.sig);
        self.around = self.src.range(f.span());
        self.body(&f.block);
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if !crate::is_cfg_test(&f.attrs) {
            self.visit_signature(&f.sig);
            self.around = self.src.range(f.span());
            self.body(&f.block);
        }
    }
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !crate::is_cfg_test(&m.attrs) {
            syn::visit::visit_item_mod(self, m);
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if !self.statement(s, false) {
            syn::visit::visit_stmt(self, s);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "map_err" && m.args.len() == 1 {
            if let Some((p, b)) = self.closure(&m.args[0]) {
                let t = format!("(match {} {{ Ok(fine) => Ok(fine), Err({}) => Err({}) }})", self.text(&m.receiver), p, self.text(b));
                self.put(m.span(), "map-err", t);
                return;
            }
            if let syn::Expr::Path(f) = &m.args[0] {
                let t = format!("(match {} {{ Ok(fine) => Ok(fine), Err(other) => Err({}(other)) }})", self.text(&m.receiver), self.text(f));
                self.put(m.span(), "map-err", t);
                return;
            }
        }
        if m.method == "sort_unstable" && m.args.is_empty() {
            self.put(m.method.span(), "sort", "sort".to_string());
        }
        if (m.method == "ok_or" || m.method == "ok_or_else") && m.args.len() == 1 {
            let (inner, amp) = match method(&m.receiver, "copied", 0) {
                Some(c) => (&*c.receiver, ""),
                None => (&*m.receiver, "&"),
            };
            if let Some(g) = method(inner, "get", 1) {
                let err = match &m.args[0] {
                    syn::Expr::Closure(c) if m.method == "ok_or_else" && c.inputs.is_empty() => Some(self.text(&c.body)),
                    e if m.method == "ok_or" => Some(self.text(e)),
                    _ => None,
                };
                if let (Some(err), true, true) = (err, simple(&g.receiver), simple(&g.args[0])) {
                    let (x, i) = (self.text(&g.receiver), self.text(&g.args[0]));
                    self.put(m.span(), "get-ok-or", format!("(if ({i}) < {x}.len() {{ Ok({amp}{x}[{i}]) }} else {{ Err({err}) }})"));
                    return;
                }
            }
            if let (syn::Expr::Closure(c), true) = (&m.args[0], m.method == "ok_or_else") {
                let plain = match &*c.body {
                    syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
                    syn::Expr::Struct(s) => s.fields.iter().all(|f| simple(&f.expr)),
                    syn::Expr::Call(k) => norm(&k.func).contains("::") && k.args.iter().all(simple),
                    _ => false,
                };
                if c.inputs.is_empty() && plain {
                    let t = format!("{}.ok_or({})", self.text(&m.receiver), self.text(&c.body));
                    self.put(m.span(), "ok-or", t);
                    return;
                }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
}

impl N<'_> {
    /// A set that is only asked for its size or whether a value was new: the sorted values without
    /// repetition.
    fn set(&mut self, b: &syn::Block, i: usize) -> bool {
        let syn::Stmt::Local(l) = &b.stmts[i] else { return false };
        let (pat, ty) = match &l.pat {
            syn::Pat::Type(t) => (&*t.pat, norm(&t.ty)),
            p => (p, String::new()),
        };
        let (syn::Pat::Ident(id), Some(init)) = (pat, &l.init) else { return false };
        let v = id.ident.to_string();
        let is_set = |t: &str| t.contains("HashSet") || t.contains("BTreeSet");
        let uses = |t: &str| t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| *x == v).count();
        let rest: String = b.stmts[i + 1..].iter().map(|s| self.text(s) + "\n").collect();
        if let Some(c) = method(&init.expr, "collect", 0) {
            let t = c.turbofish.as_ref().map(|t| norm(t)).unwrap_or(ty.clone());
            if is_set(&t) && uses(&rest) == rest.matches(&format!("{}.len()", v)).count() {
                let from = match method(&c.receiver, "map", 1).and_then(|m| self.closure(&m.args[0]).map(|(p, a)| (m, p, a))) {
                    Some((m, p, a)) => format!("{}.map({})", self.text(&m.receiver), self.short(&p, &self.text(a))),
                    None => self.text(&c.receiver),
                };
                let t = format!("let mut {v} = {from}.collect::<Vec<_>>();\n{v}.sort();\n{v}.dedup();");
                self.put(b.stmts[i].span(), "set of values", t);
                return true;
            }
        }
        let n = norm(&init.expr);
        if !(is_set(&n) || is_set(&ty)) || !(n.ends_with("::new()") || n.contains("::with_capacity(")) || uses(&rest) != 1 {
            return false;
        }
        for s in &b.stmts[i + 1..] {
            let syn::Stmt::Expr(syn::Expr::ForLoop(f), _) = s else { continue };
            let [syn::Stmt::Expr(syn::Expr::If(c), _)] = &f.body.stmts[..] else { continue };
            let syn::Expr::Unary(u) = &*c.cond else { continue };
            let Some(ins) = method(&u.expr, "insert", 1) else { continue };
            let over = match &*f.expr {
                syn::Expr::MethodCall(m) if m.method == "iter" => &*m.receiver,
                syn::Expr::Reference(r) => &*r.expr,
                _ => continue,
            };
            if norm(&ins.receiver) != v || c.else_branch.is_some() || !simple(over) || !norm(&c.then_branch).contains("return") {
                continue;
            }
            let (p, a, o, t) = (self.text(&f.pat), self.text(&ins.args[0]), self.text(over), self.text(&c.then_branch));
            let short = self.short(&p, &a);
            self.put(b.stmts[i].span(), "set of values", String::new());
            self.put(s.span(), "set of values", format!("let mut {v} = {o}.iter().map({short}).collect::<Vec<_>>();\n{v}.sort();\n{v}.dedup();\nif {v}.len() != {o}.len() {t}"));
            return true;
        }
        false
    }

    /// A closure yielding a field of its parameter, with a parameter named `e`.
    fn short(&self, p: &str, a: &str) -> String {
        match a.strip_prefix(&format!("&{}.", p)) {
            Some(f) if f.chars().all(|c| c.is_alphanumeric() || c == '_') => format!("|e| &e.{}", f),
            _ => format!("|{}| {}", p, a),
        }
    }

    fn body(&mut self, b: &syn::Block) {
        if (0..b.stmts.len()).any(|i| self.set(b, i) || self.counted(b, i)) {
            return;
        }
        for (i, s) in b.stmts.iter().enumerate() {
            if !self.statement(s, i + 1 == b.stmts.len()) {
                syn::visit::visit_stmt(self, s);
            }
        }
    }
}

/// Applies the rules to a file until none applies.
pub fn normalise(mut text: String, mut ast: syn::File) -> (String, syn::File, Vec<String>) {
    let mut done = Vec::new();
    for _ in 0..40 {
        let src = Src::new(text.clone());
        let mut n = N { src: &src, edits: Vec::new(), done: Vec::new(), result: false, around: (0, 0) };
        n.visit_file(&ast);
        if n.done.is_empty() {
            break;
        }
        let new = apply(&text, 0, text.len(), &n.edits, &mut Vec::new());
        match syn::parse_file(&new) {
            Ok(a) => {
                done.append(&mut n.done);
                text = new;
                ast = a;
            }
            Err(_) => break,
        }
    }
    (text, ast, done)
}
