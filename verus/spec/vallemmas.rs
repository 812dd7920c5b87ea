// Lemmas about the validity specification.
use vstd::prelude::*;
use crate::structure::ty::Val;
use crate::structure::instr::Instr;
use crate::validation::stacks::{Operand, Frame, Stacks};
use crate::ast::*;
use crate::valid::*;
use crate::valview::*;
verus! {

/// Makes the facts about reversed iteration available early enough; never called.
pub proof fn rev_order(r: std::slice::Iter<Val>)
    requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::rev_post(r, vstd::std_specs::iter::into_rev_spec(r)),
{ vstd::std_specs::iter::rev_postcondition(r) }

pub broadcast proof fn sub_full(s: Seq<Val>)
    ensures #[trigger] s.subrange(0, s.len() as int) == s,
{
    assert(s.subrange(0, s.len() as int) =~= s);
}

pub broadcast proof fn arr0(a: [Val; 0])
    ensures #[trigger] a@ == Seq::<Val>::empty(),
{
    assert(a@ =~= Seq::<Val>::empty());
}

pub broadcast proof fn arr1(a: [Val; 1])
    ensures #[trigger] a@ == seq![a@[0]],
{
    assert(a@ =~= seq![a@[0]]);
}

pub broadcast proof fn arr2(a: [Val; 2])
    ensures #[trigger] a@ == seq![a@[0], a@[1]],
{
    assert(a@ =~= seq![a@[0], a@[1]]);
}

pub proof fn pops_snoc(st: St, ts: Seq<Val>, t: Val)
    ensures
        pops(st, ts.push(t)) == match pop(st, Operand::Val(t)) { Some((_, s)) => pops(s, ts), None => None },
{
    assert(ts.push(t).drop_last() =~= ts);
    reveal_with_fuel(pops, 2);
}

pub proof fn pops_one(st: St, t: Val)
    ensures
        pops(st, seq![t]) == match pop(st, Operand::Val(t)) { Some((_, s)) => Some(s), None => None },
{
    assert(seq![t] =~= Seq::<Val>::empty().push(t));
    pops_snoc(st, Seq::empty(), t);
}


pub proof fn chks_prefix0(c: SCtx, ls: Seq<Seq<Val>>, is: Seq<Instr>, st: St)
    ensures
        is.take(is.len() as int) == is,
        v_instrs(is.take(0)).len() == 0,
        chks(c, ls, v_instrs(is.take(0)), st) == Some(st),
{
    reveal(v_instrs);
    reveal(chks);
    assert(is.take(is.len() as int) =~= is);
}

pub proof fn v_instrs_at(is: Seq<Instr>)
    ensures
        v_instrs(is).len() == is.len(),
        forall|i: int| 0 <= i < is.len() ==> #[trigger] v_instrs(is)[i] == v_instr(is[i]),
        forall|k: int| 0 <= k <= is.len() ==> v_instrs(is).take(k) == #[trigger] v_instrs(is.take(k)),
    decreases is.len(),
{
    reveal(v_instrs);
    reveal(v_instr);
    if is.len() > 0 {
        v_instrs_at(is.drop_last());
        assert forall|i: int| 0 <= i < is.len() implies #[trigger] v_instrs(is)[i] == v_instr(is[i]) by {
            if i < is.len() - 1 { assert(v_instrs(is.drop_last())[i] == v_instr(is.drop_last()[i])); }
        }
        assert forall|k: int| 0 <= k <= is.len() implies v_instrs(is).take(k) == #[trigger] v_instrs(is.take(k)) by {
            if k < is.len() {
                assert(is.take(k) =~= is.drop_last().take(k));
                assert(v_instrs(is).take(k) =~= v_instrs(is.drop_last()).take(k));
            } else {
                assert(is.take(k) =~= is);
                assert(v_instrs(is).take(k) =~= v_instrs(is));
            }
        }
    }
}

/// A sequence is accepted only if its prefixes are.
pub proof fn chks_prefix(c: SCtx, ls: Seq<Seq<Val>>, is: Seq<SInstr>, k: int, st: St)
    requires
        0 <= k <= is.len(),
        chks(c, ls, is.take(k), st) is None,
    ensures
        chks(c, ls, is, st) is None,
    decreases is.len() - k,
{
    reveal(chks);
    if k < is.len() {
        assert(is.take(k + 1).drop_last() =~= is.take(k));
        chks_prefix(c, ls, is, k + 1, st);
    } else {
        assert(is.take(k) =~= is);
    }
}

pub proof fn clean_at(is: Seq<SInstr>, k: int)
    requires
        clean(is),
        0 <= k < is.len(),
    ensures
        clean1(is[k]),
    decreases is.len(),
{
    reveal(clean);
    reveal(clean1);
    if k < is.len() - 1 { clean_at(is.drop_last(), k); assert(is.drop_last()[k] == is[k]); } else { assert(is.last() == is[k]); }
}

pub proof fn chks_next(c: SCtx, ls: Seq<Seq<Val>>, is: Seq<Instr>, k: int, st: St)
    requires
        0 <= k < is.len(),
        clean(v_instrs(is)),
    ensures
        clean1(v_instr(is[k])),
        chks(c, ls, v_instrs(is.take(k)), st) is Some ==> chks(c, ls, v_instrs(is.take(k + 1)), st) == chk(c, ls, v_instr(is[k]), chks(c, ls, v_instrs(is.take(k)), st).unwrap()),
        chks(c, ls, v_instrs(is.take(k + 1)), st) is None ==> chks(c, ls, v_instrs(is), st) is None,
        decreases_to!(is => is[k]),
        !(is[k] is End), !(is[k] is Else),
{
    v_instrs_at(is);
    v_instrs_at(is.take(k + 1));
    assert(v_instrs(is.take(k + 1)).drop_last() =~= v_instrs(is).take(k));
    clean_at(v_instrs(is), k);
    if chks(c, ls, v_instrs(is.take(k + 1)), st) is None {
        chks_prefix(c, ls, v_instrs(is), k + 1, st);
    }
    reveal(chks);
    reveal(chk);
    reveal(body_ok);
    reveal(v_instr);
    reveal(clean1);
}

pub proof fn const_next(c: SCtx, is: Seq<Instr>, k: int)
    requires
        0 <= k < is.len(),
    ensures
        all_const(c, v_instrs(is)) ==> is_const(c, v_instr(is[k])),
        all_const(c, v_instrs(is.take(k))) && is_const(c, v_instr(is[k])) ==> all_const(c, v_instrs(is.take(k + 1))),
{
    v_instrs_at(is);
    v_instrs_at(is.take(k + 1));
    v_instrs_at(is.take(k));
    assert(v_instrs(is)[k] == v_instr(is[k]));
    assert(v_instrs(is.take(k + 1))[k] == v_instr(is[k]));
    assert forall|i: int| 0 <= i < k implies #[trigger] v_instrs(is.take(k + 1))[i] == v_instrs(is.take(k))[i] by {}
}

pub open spec fn log2w(size: u32) -> u32 {
    if size == 8 { 0 } else if size == 16 { 1 } else if size == 32 { 2 } else { 3 }
}

pub proof fn align_log(a: u32)
    ensures
        a < 32 ==> ((1u32 << a) <= 1 <==> a <= 0),
        a < 32 ==> ((1u32 << a) <= 2 <==> a <= 1),
        a < 32 ==> ((1u32 << a) <= 4 <==> a <= 2),
        a < 32 ==> ((1u32 << a) <= 8 <==> a <= 3),
{
    assert(a < 32 ==> ((1u32 << a) <= 1 <==> a <= 0)) by (bit_vector);
    assert(a < 32 ==> ((1u32 << a) <= 2 <==> a <= 1)) by (bit_vector);
    assert(a < 32 ==> ((1u32 << a) <= 4 <==> a <= 2)) by (bit_vector);
    assert(a < 32 ==> ((1u32 << a) <= 8 <==> a <= 3)) by (bit_vector);
}


/// Structured instructions, in terms of the sequences they contain.
pub proof fn chk_structured(c: SCtx, ls: Seq<Seq<Val>>, i: SInstr, st: St)
    ensures
        match i {
            SInstr::Block(op, rt, b) => {
                let s = chks(c, seq![if op == 0x03 { Seq::empty() } else { rt }] + ls, b, fresh());
                chk(c, ls, i, st) == if s is Some && closes(s.unwrap(), rt) { Some(push(st, rt)) } else { None }
            },
            SInstr::If(rt, a, b) => {
                let s = chks(c, seq![rt] + ls, a, fresh());
                let t = chks(c, seq![rt] + ls, b, fresh());
                let p = pops(st, seq![Val::I32]);
                chk(c, ls, i, st) == if p is Some && s is Some && closes(s.unwrap(), rt) && t is Some && closes(t.unwrap(), rt) { Some(push(p.unwrap(), rt)) } else { None }
            },
            _ => chk(c, ls, i, st) == chk_simple(c, ls, i, st),
        },
{
    reveal(chk);
    reveal(chks);
    reveal(body_ok);
}

pub proof fn clean_parts(i: SInstr)
    ensures
        clean1(i) ==> match i {
            SInstr::Block(_, _, b) => clean(b),
            SInstr::If(_, a, b) => clean(a) && clean(b),
            _ => true,
        },
{
    reveal(clean);
    reveal(clean1);
}

pub proof fn v_structured(i: Instr)
    ensures
        match i {
            Instr::Block(r, e) => v_instr(i) == SInstr::Block(0x02u8, r.0@, v_instrs(e.0@)),
            Instr::Loop(r, e) => v_instr(i) == SInstr::Block(0x03u8, r.0@, v_instrs(e.0@)),
            Instr::If(r, a, b) => v_instr(i) == SInstr::If(r.0@, v_instrs(a.0@), v_instrs(b.0@)),
            _ => true,
        },
{
    reveal(v_instr);
    reveal(v_instrs);
}


pub broadcast proof fn keeps_refl<'a>(s: Stacks<'a>)
    ensures #[trigger] inside(s) ==> keeps(s, s),
{
    reveal(keeps);
}
pub broadcast proof fn keeps_trans<'a>(a: Stacks<'a>, b: Stacks<'a>, c: Stacks<'a>)
    requires #[trigger] keeps(a, b), #[trigger] keeps(b, c),
    ensures keeps(a, c),
{
    reveal(keeps);
}
pub broadcast proof fn keeps_gives<'a>(s: Stacks<'a>, d: Stacks<'a>)
    requires #[trigger] keeps(s, d),
    ensures inside(d), labels(d.frames@) == labels(s.frames@), outs(d) == outs(s),
{
    reveal(keeps);
}
pub broadcast proof fn opened_gives<'a>(s: Stacks<'a>, d: Stacks<'a>, label: Seq<Val>, out: Seq<Val>)
    requires #[trigger] opened(s, d, label, out),
    ensures inside(d), local(d) == fresh(), labels(d.frames@) == seq![label] + labels(s.frames@), outs(d) == out,
{
    reveal(opened);
}
pub broadcast proof fn closed_gives<'a>(s: Stacks<'a>, d: Stacks<'a>)
    requires #[trigger] closed(s, d),
    ensures swf(d),
{
    reveal(closed);
}
/// Closing a block whose results become operands of the block around it.
pub broadcast proof fn ended_by<'a>(s: Stacks<'a>, m: Stacks<'a>, d: Stacks<'a>, ts: Seq<Val>)
    requires #[trigger] closed(s, m), #[trigger] pushed(m, d, ts), ts == outs(s),
    ensures ended(s, d),
{
    reveal(closed);
    reveal(pushed);
    reveal(ended);
    reveal(swf);
}
pub broadcast proof fn elsed_by<'a>(s: Stacks<'a>, m: Stacks<'a>, d: Stacks<'a>, l: Seq<Val>, o: Seq<Val>)
    requires inside(s), #[trigger] closed(s, m), #[trigger] opened(m, d, l, o), l == outs(s), o == outs(s),
    ensures elsed(s, d),
{
    reveal(closed);
    reveal(opened);
    reveal(elsed);
    reveal(swf);
}
/// A whole block, from outside.
pub broadcast proof fn block_done<'a>(s: Stacks<'a>, a: Stacks<'a>, b: Stacks<'a>, d: Stacks<'a>, l: Seq<Val>, o: Seq<Val>)
    requires inside(s), #[trigger] opened(s, a, l, o), #[trigger] keeps(a, b), #[trigger] ended(b, d),
    ensures keeps(s, d), local(d) == push(local(s), o),
{
    reveal(opened);
    reveal(keeps);
    reveal(ended);
    reveal(local);
    reveal(labels);
    reveal(swf);
    let h = s.frames@.last().height as int;
    assert(s.frames@.last() == s.frames@[s.frames@.len() - 1]);
    assert(d.frames@ =~= s.frames@);
    assert(d.operands@ =~= s.operands@ + opsof(o));
    assert(local(d).ops =~= local(s).ops + opsof(o));
}
pub broadcast proof fn else_done<'a>(s: Stacks<'a>, a: Stacks<'a>, b: Stacks<'a>, d: Stacks<'a>, l: Seq<Val>, o: Seq<Val>)
    requires swf(s), #[trigger] opened(s, a, l, o), #[trigger] keeps(a, b), #[trigger] elsed(b, d),
    ensures opened(s, d, o, o),
{
    reveal(opened);
    reveal(keeps);
    reveal(elsed);
    reveal(labels);
    assert(d.frames@.drop_last() =~= s.frames@);
    assert(b.frames@.drop_last() =~= s.frames@);
}

pub broadcast group group_frames {
    keeps_refl,
    keeps_trans,
    keeps_gives,
    opened_gives,
    closed_gives,
    ended_by,
    elsed_by,
    block_done,
    else_done,
}

pub broadcast group group_stack {
    group_frames,
    arr0,
    arr1,
    arr2,
    sub_full,
}


/// Instructions that pop an index or condition before their other operands.
pub proof fn chk_indexed(c: SCtx, ls: Seq<Seq<Val>>, i: SInstr, st: St)
    ensures
        match i {
            SInstr::Idx(op, x) => op == 0x0D && x < ls.len() ==> {
                let p = pops(st, seq![Val::I32]);
                pops(st, ls[x as int].push(Val::I32)) == if p is Some { pops(p.unwrap(), ls[x as int]) } else { None }
            },
            SInstr::BrTable(_, d) => d < ls.len() ==> {
                let p = pops(st, seq![Val::I32]);
                pops(st, ls[d as int].push(Val::I32)) == if p is Some { pops(p.unwrap(), ls[d as int]) } else { None }
            },
            SInstr::Idx2(_, x, _) => x < c.types.len() ==> {
                let p = pops(st, seq![Val::I32]);
                pops(st, c.types[x as int].params.push(Val::I32)) == if p is Some { pops(p.unwrap(), c.types[x as int].params) } else { None }
            },
            _ => true,
        },
{
    pops_one(st, Val::I32);
    match i {
        SInstr::Idx(op, x) => { if op == 0x0D && x < ls.len() { pops_snoc(st, ls[x as int], Val::I32); } },
        SInstr::BrTable(_, d) => { if d < ls.len() { pops_snoc(st, ls[d as int], Val::I32); } },
        SInstr::Idx2(_, x, _) => { if x < c.types.len() { pops_snoc(st, c.types[x as int].params, Val::I32); } },
        _ => {},
    }
}


/// The cases Instr::validate is verified in, one at a time.
pub open spec fn instr_case(i: Instr) -> int {
    match v_instr(i) {
        SInstr::Plain(op) =>
            if op >= 0xA7 { 2 } else if op >= 0x67 { 1 } else if op >= 0x45 { 0 }
            else if op == 0x1A || op == 0x1B { 3 } else { 4 },
        SInstr::Mem(..) => 5,
        SInstr::I32(_) | SInstr::I64(_) | SInstr::F32(_) | SInstr::F64(_) => 6,
        SInstr::Idx(op, _) => if op == 0x10 { 7 } else if op >= 0x20 { 6 } else { 8 },
        SInstr::Idx2(..) => 7,
        SInstr::BrTable(..) => 8,
        SInstr::Block(..) => 9,
        SInstr::If(..) => 10,
    }
}


// ---- module level ---------------------------------------------------------------------------

pub broadcast proof fn nothing_open<'a>(s: Stacks<'a>)
    requires #[trigger] no_stacks(s),
    ensures swf(s), labels(s.frames@) == Seq::<Seq<Val>>::empty(),
{
    reveal(swf);
    reveal(labels);
    assert(labels(s.frames@) =~= Seq::<Seq<Val>>::empty());
}
pub broadcast proof fn all_closed<'a>(s: Stacks<'a>, a: Stacks<'a>, b: Stacks<'a>, d: Stacks<'a>, l: Seq<Val>, o: Seq<Val>)
    requires no_stacks(s), #[trigger] opened(s, a, l, o), #[trigger] keeps(a, b), #[trigger] closed(b, d),
    ensures no_stacks(d),
{
    reveal(opened);
    reveal(keeps);
    reveal(closed);
}
pub broadcast group group_item {
    group_stack,
    nothing_open,
    all_closed,
}

pub proof fn body_unfold(c: SCtx, ls: Seq<Seq<Val>>, l: Seq<Val>, o: Seq<Val>, b: Seq<SInstr>)
    ensures
        body_ok(c, ls, l, o, b) == match chks(c, seq![l] + ls, b, fresh()) { Some(s) => closes(s, o), None => false },
{
    reveal(chk);
    reveal(chks);
    reveal(body_ok);
}

pub broadcast proof fn functys_push<'a>(s: Seq<&'a crate::structure::ty::Func>, x: &'a crate::structure::ty::Func)
    ensures #[trigger] functys(s.push(x)) == functys(s).push(v_functy(*x)),
{
    assert(functys(s.push(x)) =~= functys(s).push(v_functy(*x)));
}
pub broadcast proof fn derefs_push<'a, T>(s: Seq<&'a T>, x: &'a T)
    ensures #[trigger] derefs(s.push(x)) == derefs(s).push(*x),
{
    assert(derefs(s.push(x)) =~= derefs(s).push(*x));
}
pub broadcast proof fn exts_push<'a>(s: Seq<crate::validation::module::result::External<'a>>, x: crate::validation::module::result::External<'a>)
    ensures #[trigger] v_exts(s.push(x)) == v_exts(s).push(v_ext(x)),
{
    assert(v_exts(s.push(x)) =~= v_exts(s).push(v_ext(x)));
}
pub broadcast group group_ctx {
    functys_push,
    derefs_push,
    exts_push,
}

pub proof fn imp_next(types: Seq<SFuncTy>, s: Seq<SImport>, k: int)
    requires 0 <= k < s.len(),
    ensures
        imp_funcs(types, s.take(k + 1)) == match s[k].desc { crate::structure::module::desc::Import::Func(t) => imp_funcs(types, s.take(k)).push(types[t.0 as int]), _ => imp_funcs(types, s.take(k)) },
        imp_tables(s.take(k + 1)) == match s[k].desc { crate::structure::module::desc::Import::Table(t) => imp_tables(s.take(k)).push(t), _ => imp_tables(s.take(k)) },
        imp_mems(s.take(k + 1)) == match s[k].desc { crate::structure::module::desc::Import::Mem(t) => imp_mems(s.take(k)).push(t), _ => imp_mems(s.take(k)) },
        imp_globals(s.take(k + 1)) == match s[k].desc { crate::structure::module::desc::Import::Global(t) => imp_globals(s.take(k)).push(t), _ => imp_globals(s.take(k)) },
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
pub proof fn imp_ends(types: Seq<SFuncTy>, s: Seq<SImport>)
    ensures
        s.take(s.len() as int) == s,
        imp_funcs(types, s.take(0)) == Seq::<SFuncTy>::empty(),
        imp_tables(s.take(0)) == Seq::<crate::structure::ty::Table>::empty(),
        imp_mems(s.take(0)) == Seq::<crate::structure::ty::Mem>::empty(),
        imp_globals(s.take(0)) == Seq::<crate::structure::ty::Global>::empty(),
{
    assert(s.take(s.len() as int) =~= s);
}

// ---- export names ---------------------------------------------------------------------------

use crate::valstd::*;
use crate::valmodel::names;

pub proof fn dedup_short<T>(s: Seq<T>)
    ensures
        dedup(s).len() <= s.len(),
        dedup(s).len() == s.len() <==> forall|i: int| 0 <= i < s.len() - 1 ==> !eqv(#[trigger] s[i], s[i + 1]),
    decreases s.len(),
{
    if s.len() > 1 {
        let d = s.drop_last();
        dedup_short(d);
        assert forall|i: int| 0 <= i < d.len() - 1 implies #[trigger] d[i] == s[i] && d[i + 1] == s[i + 1] by {}
        if dedup(s).len() == s.len() {
            assert forall|i: int| 0 <= i < s.len() - 1 implies !eqv(#[trigger] s[i], s[i + 1]) by {
                if i < d.len() - 1 { assert(!eqv(d[i], d[i + 1])); }
            }
        }
        if forall|i: int| 0 <= i < s.len() - 1 ==> !eqv(#[trigger] s[i], s[i + 1]) {
            assert(!eqv(s[s.len() - 2], s[s.len() - 2 + 1]));
            assert forall|i: int| 0 <= i < d.len() - 1 implies !eqv(#[trigger] d[i], d[i + 1]) by { assert(!eqv(s[i], s[i + 1])); }
        }
    }
}

/// Sorting and removing adjacent duplicates keeps the length exactly when names are distinct.
pub proof fn names_distinct(a: Seq<&String>, b: Seq<&String>, n: nat)
    requires
        exists|p: Seq<int>, q: Seq<int>| perm(b, a, p, q),
        grouped(b),
        n == dedup(b).len(),
    ensures
        n == a.len() <==> distinct(names(a)),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm(b, a, p, q);
    dedup_short(b);
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies (#[trigger] eqv(b[i], b[j]) <==> b[i]@ == b[j]@) by { eqv_string(b[i], b[j]); }
    if distinct(names(a)) {
        assert forall|i: int| 0 <= i < b.len() - 1 implies !eqv(#[trigger] b[i], b[i + 1]) by {
            let x = p[i];
            let y = p[i + 1];
            assert(q[x] == i && q[y] == i + 1);
            assert(x != y);
            assert(names(a)[x] != names(a)[y]);
            assert(b[i]@ == names(a)[x] && b[i + 1]@ == names(a)[y]);
        }
    } else {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < names(a).len() && #[trigger] names(a)[i] == #[trigger] names(a)[j];
        let x = q[i];
        let y = q[j];
        assert(p[x] == i && p[y] == j);
        assert(b[x]@ == b[y]@);
        let lo = if x < y { x } else { y };
        let hi = if x < y { y } else { x };
        assert(eqv(b[lo], b[hi]));
        assert(eqv(b[lo], b[lo + 1]));
    }
}

}
