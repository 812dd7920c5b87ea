// The typing rules as the standard states them: a relation between the stack of value types before
// and after, without unknown operands and without a flag for unreachable code. Proved equal to the
// check with a local operand stack that valid.rs defines and the code is held against.
use vstd::prelude::*;
use crate::structure::ty::Val;
use crate::validation::stacks::Operand;
use crate::ast::*;
use crate::valid::*;
verus! {

/// An instruction may take its operands from below any stack `p`; after an unconditional branch the
/// stack may be any.
pub open spec fn types_simple(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr, s: Seq<Val>, r: Seq<Val>) -> bool {
    match i {
        SInstr::Plain(0x1Au8) => s.len() > 0 && r == s.drop_last(),
        SInstr::Plain(0x1Bu8) => exists|p: Seq<Val>, t: Val| s == p + seq![t, t, Val::I32] && r == #[trigger] p.push(t),
        _ => sig_types(instr_sig(c, labels, i), s, r),
    }
}

pub open spec fn sig_types(g: Option<Sig>, s: Seq<Val>, r: Seq<Val>) -> bool {
    match g {
        Some(g) => exists|p: Seq<Val>| s == #[trigger] (p + g.ins) && (g.stop || r == p + g.outs),
        None => false,
    }
}

#[verifier::opaque]
pub open spec fn types1(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr, s: Seq<Val>, r: Seq<Val>) -> bool
    decreases i, 0int,
{
    match i {
        SInstr::Block(op, rt, body) => typed_body(c, labels, if op == 0x03 { Seq::empty() } else { rt }, rt, body) && r == s + rt,
        SInstr::If(rt, a, b) => typed_body(c, labels, rt, rt, a) && typed_body(c, labels, rt, rt, b) && sig_types(sig(seq![Val::I32], rt), s, r),
        _ => types_simple(c, labels, i, s, r),
    }
}

/// Any stack.
pub open spec fn stack(m: Seq<Val>) -> bool { true }

/// A sequence: there are stacks in between.
#[verifier::opaque]
pub open spec fn types(c: SCtx, labels: Seq<Seq<Val>>, is: Seq<SInstr>, s: Seq<Val>, r: Seq<Val>) -> bool
    decreases is, 1int,
{
    if is.len() == 0 { s == r }
    else { exists|m: Seq<Val>| #[trigger] stack(m) && types(c, labels, is.drop_last(), s, m) && types1(c, labels, is.last(), m, r) }
}

/// A block's body takes nothing and leaves the results.
#[verifier::opaque]
pub open spec fn typed_body(c: SCtx, labels: Seq<Seq<Val>>, label: Seq<Val>, out: Seq<Val>, body: Seq<SInstr>) -> bool
    decreases body, 2int,
{
    types(c, seq![label] + labels, body, Seq::empty(), out)
}

// ---- the stacks that a state of the check stands for ------------------------------------------

pub open spec fn fits(o: Operand, v: Val) -> bool { o is Unknown || o == Operand::Val(v) }

pub open spec fn in_st(st: St, s: Seq<Val>) -> bool {
    &&& s.len() >= st.ops.len()
    &&& !st.dead ==> s.len() == st.ops.len()
    &&& forall|i: int| 0 <= i < st.ops.len() ==> fits(#[trigger] st.ops[i], s[s.len() - st.ops.len() + i])
}

pub open spec fn in_opt(o: Option<St>, s: Seq<Val>) -> bool {
    match o { Some(st) => in_st(st, s), None => false }
}

/// `o` stands for exactly what `rel` makes of the stacks that `st` stands for.
pub open spec fn exact(st: St, rel: spec_fn(Seq<Val>, Seq<Val>) -> bool, o: Option<St>) -> bool {
    &&& forall|s: Seq<Val>, r: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) ==> in_opt(o, r)
    &&& forall|r: Seq<Val>| #[trigger] in_opt(o, r) ==> exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r)
}

proof fn inhabited(st: St) -> (s: Seq<Val>)
    ensures in_st(st, s),
{
    Seq::new(st.ops.len(), |i: int| match st.ops[i] { Operand::Val(v) => v, Operand::Unknown => Val::I32 })
}

proof fn pop_in(st: St, want: Operand, p: Seq<Val>, t: Val)
    ensures
        match pop(st, want) {
            Some((o, u)) => (fits(want, t) && in_st(st, p.push(t)) <==> fits(o, t) && in_st(u, p)),
            None => !(fits(want, t) && in_st(st, p.push(t))),
        },
{
    let s = p.push(t);
    if st.ops.len() > 0 {
        let n = st.ops.len() as int;
        let u = St { ops: st.ops.drop_last(), dead: st.dead };
        assert(in_st(st, s) <==> fits(st.ops.last(), t) && in_st(u, p)) by {
            if in_st(st, s) {
                assert(fits(st.ops[n - 1], s[s.len() - n + n - 1]));
                assert forall|i: int| 0 <= i < u.ops.len() implies fits(#[trigger] u.ops[i], p[p.len() - u.ops.len() + i]) by {
                    assert(fits(st.ops[i], s[s.len() - n + i]));
                }
            }
            if fits(st.ops.last(), t) && in_st(u, p) {
                assert forall|i: int| 0 <= i < n implies fits(#[trigger] st.ops[i], s[s.len() - n + i]) by {
                    if i < n - 1 { assert(fits(u.ops[i], p[p.len() - u.ops.len() + i])); }
                }
            }
        }
    }
}

proof fn pops_in(st: St, ts: Seq<Val>, p: Seq<Val>)
    ensures in_st(st, p + ts) <==> in_opt(pops(st, ts), p),
    decreases ts.len(),
{
    if ts.len() == 0 {
        assert(p + ts =~= p);
    } else {
        let q = p + ts.drop_last();
        assert(p + ts =~= q.push(ts.last()));
        pop_in(st, Operand::Val(ts.last()), q, ts.last());
        match pop(st, Operand::Val(ts.last())) {
            Some((_, u)) => { pops_in(u, ts.drop_last(), p); }
            None => {}
        }
    }
}

proof fn push_in(st: St, ts: Seq<Val>, p: Seq<Val>)
    ensures in_st(push(st, ts), p + ts) <==> in_st(st, p),
{
    let u = push(st, ts);
    let s = p + ts;
    if in_st(st, p) {
        assert forall|i: int| 0 <= i < u.ops.len() implies fits(#[trigger] u.ops[i], s[s.len() - u.ops.len() + i]) by {
            if i < st.ops.len() { assert(fits(st.ops[i], p[p.len() - st.ops.len() + i])); }
        }
    }
    if in_st(u, s) {
        assert forall|i: int| 0 <= i < st.ops.len() implies fits(#[trigger] st.ops[i], p[p.len() - st.ops.len() + i]) by {
            assert(fits(u.ops[i], s[s.len() - u.ops.len() + i]));
        }
    }
}

/// What was pushed is on top.
proof fn pushed(st: St, ts: Seq<Val>, s: Seq<Val>) -> (p: Seq<Val>)
    requires in_st(push(st, ts), s),
    ensures s == p + ts,
{
    let u = push(st, ts);
    let p = s.take(s.len() - ts.len());
    assert forall|i: int| 0 <= i < ts.len() implies s[s.len() - ts.len() + i] == ts[i] by {
        assert(fits(u.ops[st.ops.len() + i], s[s.len() - u.ops.len() + (st.ops.len() + i)]));
        assert(u.ops[st.ops.len() + i] == opsof(ts)[i]);
    }
    assert(s =~= p + ts);
    p
}

proof fn apply_exact(g: Option<Sig>, st: St)
    ensures exact(st, |s: Seq<Val>, r: Seq<Val>| sig_types(g, s, r), apply(g, st)),
{
    let rel = |s: Seq<Val>, r: Seq<Val>| sig_types(g, s, r);
    let o = apply(g, st);
    if let Some(g) = g {
        assert forall|s: Seq<Val>, r: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) implies in_opt(o, r) by {
            let p = choose|p: Seq<Val>| s == #[trigger] (p + g.ins) && (g.stop || r == p + g.outs);
            pops_in(st, g.ins, p);
            if !g.stop { push_in(pops(st, g.ins).unwrap(), g.outs, p); }
        }
        assert forall|r: Seq<Val>| #[trigger] in_opt(o, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) by {
            let u = pops(st, g.ins).unwrap();
            let p = if g.stop { inhabited(u) } else { pushed(u, g.outs, r) };
            if !g.stop { push_in(u, g.outs, p); }
            pops_in(st, g.ins, p);
            assert(in_st(st, p + g.ins) && rel(p + g.ins, r));
        }
    }
}

proof fn drop_exact(c: SCtx, labels: Seq<Seq<Val>>, st: St)
    ensures exact(st, |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, SInstr::Plain(0x1A), s, r), chk_simple(c, labels, SInstr::Plain(0x1A), st)),
{
    let rel = |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, SInstr::Plain(0x1A), s, r);
    let o = chk_simple(c, labels, SInstr::Plain(0x1A), st);
    assert forall|s: Seq<Val>, r: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) implies in_opt(o, r) by {
        pop_in(st, Operand::Unknown, r, s.last());
        assert(s =~= r.push(s.last()));
    }
    assert forall|r: Seq<Val>| #[trigger] in_opt(o, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) by {
        let t = match pop(st, Operand::Unknown).unwrap().0 { Operand::Val(v) => v, Operand::Unknown => Val::I32 };
        pop_in(st, Operand::Unknown, r, t);
        assert(r.push(t).drop_last() =~= r);
        assert(in_st(st, r.push(t)) && rel(r.push(t), r));
    }
}

/// The operands of `select` below any stack.
proof fn select_in(st: St, p: Seq<Val>, t: Val)
    ensures in_st(st, p + seq![t, t, Val::I32]) <==> in_opt(select(st), p.push(t)),
{
    let q = p.push(t);
    assert(p + seq![t, t, Val::I32] =~= q.push(t) + seq![Val::I32]);
    pops_in(st, seq![Val::I32], q.push(t));
    if let Some(a) = pops(st, seq![Val::I32]) {
        pop_in(a, Operand::Unknown, q, t);
        if let Some((o, b)) = pop(a, Operand::Unknown) {
            pop_in(b, o, p, t);
            if let Some((u, d)) = pop(b, o) {
                let e = St { ops: d.ops.push(u), dead: d.dead };
                pop_in(e, Operand::Unknown, p, t);
                assert(e.ops.drop_last() =~= d.ops);
                assert(select(st) == Some(e));
            }
        }
    }
}

proof fn select_exact(c: SCtx, labels: Seq<Seq<Val>>, st: St)
    ensures exact(st, |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, SInstr::Plain(0x1B), s, r), chk_simple(c, labels, SInstr::Plain(0x1B), st)),
{
    let rel = |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, SInstr::Plain(0x1B), s, r);
    let o = chk_simple(c, labels, SInstr::Plain(0x1B), st);
    assert forall|s: Seq<Val>, r: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) implies in_opt(o, r) by {
        let (p, t) = choose|p: Seq<Val>, t: Val| s == p + seq![t, t, Val::I32] && r == #[trigger] p.push(t);
        select_in(st, p, t);
    }
    assert forall|r: Seq<Val>| #[trigger] in_opt(o, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) by {
        assert(o.unwrap().ops.len() > 0);
        let (p, t) = (r.drop_last(), r.last());
        assert(r =~= p.push(t));
        select_in(st, p, t);
        assert(in_st(st, p + seq![t, t, Val::I32]) && rel(p + seq![t, t, Val::I32], r));
    }
}

// ---- the check decides the relation ------------------------------------------------------------

pub proof fn chk_exact(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr, st: St)
    ensures exact(st, |s: Seq<Val>, r: Seq<Val>| types1(c, labels, i, s, r), chk(c, labels, i, st)),
    decreases i, 0int,
{
    reveal(chk);
    reveal(types1);
    reveal(body_ok);
    reveal(typed_body);
    let rel = |s: Seq<Val>, r: Seq<Val>| types1(c, labels, i, s, r);
    match i {
        SInstr::Block(op, rt, body) => {
            body_exact(c, labels, if op == 0x03 { Seq::empty() } else { rt }, rt, body);
            let o = chk(c, labels, i, st);
            assert forall|s: Seq<Val>, r: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) implies in_opt(o, r) by { push_in(st, rt, s); }
            assert forall|r: Seq<Val>| #[trigger] in_opt(o, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) by {
                let p = pushed(st, rt, r);
                push_in(st, rt, p);
                assert(in_st(st, p) && rel(p, r));
            }
        }
        SInstr::If(rt, a, b) => {
            body_exact(c, labels, rt, rt, a);
            body_exact(c, labels, rt, rt, b);
            let g = sig(seq![Val::I32], rt);
            apply_exact(g, st);
            let rel2 = |s: Seq<Val>, r: Seq<Val>| sig_types(g, s, r);
            same_exact(st, rel2, rel, apply(g, st), chk(c, labels, i, st));
        }
        _ => {
            simple_exact(c, labels, i, st);
            let rel2 = |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, i, s, r);
            assert forall|s: Seq<Val>, r: Seq<Val>| #[trigger] rel(s, r) == rel2(s, r) by {}
            same_exact(st, rel2, rel, chk_simple(c, labels, i, st), chk(c, labels, i, st));
        }
    }
}

proof fn simple_exact(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr, st: St)
    requires !(i is Block), !(i is If),
    ensures exact(st, |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, i, s, r), chk_simple(c, labels, i, st)),
{
    let rel = |s: Seq<Val>, r: Seq<Val>| types_simple(c, labels, i, s, r);
    if i == SInstr::Plain(0x1A) { drop_exact(c, labels, st); }
    else if i == SInstr::Plain(0x1B) { select_exact(c, labels, st); }
    else {
        let g = instr_sig(c, labels, i);
        apply_exact(g, st);
        let rel2 = |s: Seq<Val>, r: Seq<Val>| sig_types(g, s, r);
        assert forall|s: Seq<Val>, r: Seq<Val>| #[trigger] rel(s, r) == rel2(s, r) by {}
        same_exact(st, rel2, rel, apply(g, st), chk_simple(c, labels, i, st));
    }
}

/// The same relation, or none on both sides.
proof fn same_exact(st: St, a: spec_fn(Seq<Val>, Seq<Val>) -> bool, b: spec_fn(Seq<Val>, Seq<Val>) -> bool, o: Option<St>, q: Option<St>)
    requires
        exact(st, a, o),
        (q == o && forall|s: Seq<Val>, r: Seq<Val>| #[trigger] b(s, r) == a(s, r)) || (q is None && forall|s: Seq<Val>, r: Seq<Val>| !(#[trigger] b(s, r))),
    ensures
        exact(st, b, q),
{
    if q is Some {
        assert forall|r: Seq<Val>| #[trigger] in_opt(q, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] b(s, r) by {
            let s = choose|s: Seq<Val>| in_st(st, s) && #[trigger] a(s, r);
            assert(b(s, r));
        }
    }
}

proof fn split(c: SCtx, labels: Seq<Seq<Val>>, is: Seq<SInstr>, s: Seq<Val>, r: Seq<Val>) -> (m: Seq<Val>)
    requires is.len() > 0, types(c, labels, is, s, r),
    ensures types(c, labels, is.drop_last(), s, m), types1(c, labels, is.last(), m, r),
{
    reveal(types);
    reveal(types1);
    choose|m: Seq<Val>| #[trigger] stack(m) && types(c, labels, is.drop_last(), s, m) && types1(c, labels, is.last(), m, r)
}

proof fn join(c: SCtx, labels: Seq<Seq<Val>>, is: Seq<SInstr>, s: Seq<Val>, m: Seq<Val>, r: Seq<Val>)
    requires is.len() > 0, types(c, labels, is.drop_last(), s, m), types1(c, labels, is.last(), m, r),
    ensures types(c, labels, is, s, r),
{
    assert(stack(m));
    reveal(types);
    reveal(types1);
}

pub proof fn chks_exact(c: SCtx, labels: Seq<Seq<Val>>, is: Seq<SInstr>, st: St)
    ensures exact(st, |s: Seq<Val>, r: Seq<Val>| types(c, labels, is, s, r), chks(c, labels, is, st)),
    decreases is, 1int,
{
    reveal(chks);
    reveal(types);
    reveal(chk);
    reveal(types1);
    let rel = |s: Seq<Val>, r: Seq<Val>| types(c, labels, is, s, r);
    let o = chks(c, labels, is, st);
    if is.len() == 0 {
        assert forall|r: Seq<Val>| #[trigger] in_opt(o, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) by { assert(in_st(st, r) && rel(r, r)); }
    } else {
        let front = is.drop_last();
        let mid = chks(c, labels, front, st);
        let rel1 = |s: Seq<Val>, r: Seq<Val>| types(c, labels, front, s, r);
        let rel2 = |s: Seq<Val>, r: Seq<Val>| types1(c, labels, is.last(), s, r);
        chks_exact(c, labels, front, st);
        if let Some(u) = mid { chk_exact(c, labels, is.last(), u); }
        assert forall|s: Seq<Val>, r: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) implies in_opt(o, r) by {
            let m = split(c, labels, is, s, r);
            assert(rel1(s, m) && rel2(m, r));
        }
        assert forall|r: Seq<Val>| #[trigger] in_opt(o, r) implies exists|s: Seq<Val>| in_st(st, s) && #[trigger] rel(s, r) by {
            let u = mid.unwrap();
            let m = choose|m: Seq<Val>| in_st(u, m) && #[trigger] rel2(m, r);
            assert(in_opt(mid, m));
            let s = choose|s: Seq<Val>| in_st(st, s) && #[trigger] rel1(s, m);
            join(c, labels, is, s, m, r);
            assert(in_st(st, s) && rel(s, r));
        }
    }
}

/// A body passes the check exactly when the rules type it.
pub proof fn body_exact(c: SCtx, labels: Seq<Seq<Val>>, label: Seq<Val>, out: Seq<Val>, body: Seq<SInstr>)
    ensures body_ok(c, labels, label, out, body) <==> typed_body(c, labels, label, out, body),
    decreases body, 2int,
{
    reveal(body_ok);
    reveal(typed_body);
    reveal(chks);
    reveal(types);
    let ls = seq![label] + labels;
    let rel = |s: Seq<Val>, r: Seq<Val>| types(c, ls, body, s, r);
    chks_exact(c, ls, body, fresh());
    let o = chks(c, ls, body, fresh());
    let none = Seq::<Val>::empty();
    assert(in_st(fresh(), none));
    if typed_body(c, labels, label, out, body) { assert(rel(none, out)); }
    if in_opt(o, out) {
        let s = choose|s: Seq<Val>| in_st(fresh(), s) && #[trigger] rel(s, out);
        assert(s =~= none);
    }
    if let Some(st) = o {
        pops_in(st, out, none);
        assert(none + out =~= out);
    }
}

pub proof fn func_exact(c: SCtx, f: SFunc)
    ensures
        func_ok(c, f) <==> f.ty < c.types.len() && typed_body(func_ctx(c, f), Seq::empty(), c.types[f.ty as int].results, c.types[f.ty as int].results, f.body),
{
    body_exact(func_ctx(c, f), Seq::empty(), c.types[f.ty as int].results, c.types[f.ty as int].results, f.body);
}

pub proof fn const_exact(c: SCtx, is: Seq<SInstr>, t: Val)
    ensures
        const_ok(c, is, t) <==> all_const(c, is) && typed_body(c, Seq::empty(), seq![t], seq![t], is),
{
    body_exact(c, Seq::empty(), seq![t], seq![t], is);
}

} // verus!
