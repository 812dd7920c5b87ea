// Lemmas connecting the code's data to the specifications.
use vstd::prelude::*;
use crate::ast::*;
use crate::dec::*;
use crate::structure::{ty, idx, module};
use crate::structure::instr::Instr;
use crate::binary::core::traits::{WasmBinaryParse, WasmBinaryParseProxy};
verus! {

pub proof fn prepend_empty<V>(d: Dec<Seq<V>>)
    ensures
        prepend(Seq::<V>::empty(), d) == d,
{
    match d { Dec::Ok(ys, r) => { assert(Seq::<V>::empty() + ys =~= ys); }, Dec::Err(e) => {} }
}

pub proof fn prepend_assoc<V>(a: Seq<V>, b: Seq<V>, d: Dec<Seq<V>>)
    ensures
        prepend(a, prepend(b, d)) == prepend(a + b, d),
{
    match d { Dec::Ok(ys, r) => { assert(a + (b + ys) =~= (a + b) + ys); }, Dec::Err(e) => {} }
}

/// One iteration of a loop reading n more elements.
pub proof fn dec_n_step<T: WasmBinaryParse>(xs: Seq<T::V>, s: Seq<u8>, n: nat)
    ensures
        n == 0 ==> prepend(xs, dec_n::<T>(s, n)) == Dec::Ok(xs, s),
        n > 0 ==> prepend(xs, dec_n::<T>(s, n)) == match T::dec(s) {
            Dec::Err(e) => Dec::<Seq<T::V>>::Err(e),
            Dec::Ok(v, r) => prepend(xs + seq![v], dec_n::<T>(r, (n - 1) as nat)),
        },
{
    if n == 0 {
        assert(xs + Seq::<T::V>::empty() =~= xs);
    } else {
        match T::dec(s) { Dec::Ok(v, r) => { prepend_assoc(xs, seq![v], dec_n::<T>(r, (n - 1) as nat)); }, Dec::Err(e) => {} }
    }
}

/// One iteration of a loop reading k more runs.
pub proof fn dec_runs_step<T: WasmBinaryParse>(xs: Seq<T::V>, s: Seq<u8>, k: nat)
    ensures
        k == 0 ==> prepend(xs, dec_runs::<T>(s, k, xs.len())) == Dec::Ok(xs, s),
        k > 0 ==> prepend(xs, dec_runs::<T>(s, k, xs.len())) == match dec_u32(s) {
            Dec::Err(e) => Dec::<Seq<T::V>>::Err(e),
            Dec::Ok(n, r) => match T::dec(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(v, r2) => if xs.len() + n as nat > 0xFFFF_FFFF {
                    Dec::Err(EK::RangeU)
                } else {
                    prepend(xs + rep(v, n as nat), dec_runs::<T>(r2, (k - 1) as nat, (xs + rep(v, n as nat)).len()))
                },
            },
        },
{
    if k == 0 {
        assert(xs + Seq::<T::V>::empty() =~= xs);
    } else {
        match dec_u32(s) {
            Dec::Ok(n, r) => match T::dec(r) {
                Dec::Ok(v, r2) => { prepend_assoc(xs, rep(v, n as nat), dec_runs::<T>(r2, (k - 1) as nat, xs.len() + n as nat)); },
                Dec::Err(e) => {},
            },
            Dec::Err(e) => {},
        }
    }
}

pub broadcast proof fn dvs_push<T: WasmBinaryParse>(s: Seq<T>, t: T)
    ensures
        #[trigger] dvs(s.push(t)) == dvs(s) + seq![t.dv()],
{
    assert(dvs(s.push(t)) =~= dvs(s) + seq![t.dv()]);
}

pub broadcast proof fn dvs_empty<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 0,
    ensures
        #[trigger] dvs(s) == Seq::<T::V>::empty(),
{
    assert(dvs(s) =~= Seq::<T::V>::empty());
}

pub broadcast proof fn ivs_push<T: WasmBinaryParseProxy>(s: Seq<T::Inner>, t: T::Inner)
    ensures
        #[trigger] ivs::<T>(s.push(t)) == ivs::<T>(s) + seq![T::iv(t)],
{
    assert(ivs::<T>(s.push(t)) =~= ivs::<T>(s) + seq![T::iv(t)]);
}

pub broadcast proof fn ivs_empty<T: WasmBinaryParseProxy>(s: Seq<T::Inner>)
    requires
        s.len() == 0,
    ensures
        #[trigger] ivs::<T>(s) == Seq::<T::V>::empty(),
{
    assert(ivs::<T>(s) =~= Seq::<T::V>::empty());
}

pub broadcast group group_seqs {
    dvs_push,
    dvs_empty,
    ivs_push,
    ivs_empty,
}

pub proof fn lemma_dvs_rep<T: WasmBinaryParse>(s: Seq<T>, t: T, n: nat)
    ensures
        dvs(s + rep(t, n)) == dvs(s) + rep(t.dv(), n),
{
    assert(dvs(s + rep(t, n)) =~= dvs(s) + rep(t.dv(), n));
}

pub broadcast proof fn dvs_val(s: Seq<ty::Val>)
    ensures
        #[trigger] dvs(s) == s,
{
    assert(dvs(s) =~= s);
}

pub broadcast proof fn dvs_label(s: Seq<idx::Label>)
    ensures
        #[trigger] dvs(s) == v_labels(s),
{
    assert(dvs(s) =~= v_labels(s));
}

pub broadcast proof fn dvs_func(s: Seq<idx::Func>)
    ensures
        #[trigger] dvs(s) == v_funcidxs(s),
{
    assert(dvs(s) =~= v_funcidxs(s));
}

pub broadcast proof fn ivs_byte(s: Seq<u8>)
    ensures
        #[trigger] ivs::<crate::binary::Byte>(s) == s,
{
    assert(ivs::<crate::binary::Byte>(s) =~= s);
}

pub broadcast group group_views {
    dvs_val,
    dvs_label,
    dvs_func,
    ivs_byte,
}

pub broadcast proof fn array_0<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 0,
    ensures
        #[trigger] dvs(s) == Seq::<T::V>::empty(),
{
    assert(dvs(s) =~= Seq::<T::V>::empty());
}

pub broadcast proof fn array_1<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 1,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + Seq::<T::V>::empty(),
{
    assert(dvs(s) =~= seq![s[0].dv()] + Seq::<T::V>::empty());
}

pub broadcast proof fn array_2<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 2,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + Seq::<T::V>::empty()),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + Seq::<T::V>::empty()));
}

pub broadcast proof fn array_3<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 3,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + Seq::<T::V>::empty())),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + Seq::<T::V>::empty())));
}

pub broadcast proof fn array_4<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 4,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + Seq::<T::V>::empty()))),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + Seq::<T::V>::empty()))));
}

pub broadcast proof fn array_5<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 5,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + Seq::<T::V>::empty())))),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + Seq::<T::V>::empty())))));
}

pub broadcast proof fn array_6<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 6,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + (seq![s[5].dv()] + Seq::<T::V>::empty()))))),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + (seq![s[5].dv()] + Seq::<T::V>::empty()))))));
}

pub broadcast proof fn array_7<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 7,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + (seq![s[5].dv()] + (seq![s[6].dv()] + Seq::<T::V>::empty())))))),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + (seq![s[5].dv()] + (seq![s[6].dv()] + Seq::<T::V>::empty())))))));
}

pub broadcast proof fn array_8<T: WasmBinaryParse>(s: Seq<T>)
    requires
        s.len() == 8,
    ensures
        #[trigger] dvs(s) == seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + (seq![s[5].dv()] + (seq![s[6].dv()] + (seq![s[7].dv()] + Seq::<T::V>::empty()))))))),
{
    assert(dvs(s) =~= seq![s[0].dv()] + (seq![s[1].dv()] + (seq![s[2].dv()] + (seq![s[3].dv()] + (seq![s[4].dv()] + (seq![s[5].dv()] + (seq![s[6].dv()] + (seq![s[7].dv()] + Seq::<T::V>::empty()))))))));
}

pub broadcast group group_arrays {
    array_0,
    array_1,
    array_2,
    array_3,
    array_4,
    array_5,
    array_6,
    array_7,
    array_8,
}

pub broadcast proof fn skip_none(s: Seq<u8>, n: int)
    requires
        n == 0,
    ensures
        #[trigger] s.skip(n) == s,
{
    assert(s.skip(n) =~= s);
}

pub broadcast proof fn retval_one(r: ty::RetVal)
    requires
        r.0@.len() == 1,
    ensures
        #[trigger] r.0@ == seq![r.0@[0]],
{
}

/// An array of bytes is those bytes.
pub proof fn dec_bytes(s: Seq<u8>, n: nat)
    ensures
        dec_n::<crate::binary::Byte>(s, n) == if s.len() < n { Dec::<Seq<u8>>::Err(EK::Eof) } else { Dec::Ok(s.take(n as int), s.skip(n as int)) },
    decreases n,
{
    if n == 0 {
        assert(s.take(0) =~= Seq::empty());
        assert(s.skip(0) =~= s);
    } else if s.len() > 0 {
        dec_bytes(s.drop_first(), (n - 1) as nat);
        if s.len() >= n {
            assert(seq![s[0]] + s.drop_first().take(n - 1) =~= s.take(n as int));
            assert(s.drop_first().skip(n - 1) =~= s.skip(n as int));
        }
    }
}

pub broadcast proof fn sized_len<T: WasmBinaryParse>(s: Seq<u8>)
    ensures
        #[trigger] dec_sized::<T>(s) is Ok ==> dec_sized::<T>(s)->Ok_1.len() < s.len(),
{
    reveal(dec_sized);
    dec_u32_len(s);
}

pub broadcast proof fn ivs_code(s: Seq<module::Func>)
    ensures
        #[trigger] ivs::<crate::binary::Sized<module::Func>>(s) == dvs(s),
{
    assert(ivs::<crate::binary::Sized<module::Func>>(s) =~= dvs(s));
}

pub broadcast proof fn dvs_byte(s: Seq<crate::binary::Byte>, i: int)
    requires
        0 <= i < s.len(),
    ensures
        #![trigger dvs(s), s[i]]
        dvs(s)[i] == s[i].0,
{
}

pub broadcast proof fn rest_empty<B: crate::model::WasmBinary>(b: B)
    requires
        b.rest().len() == 0,
    ensures
        #[trigger] b.rest() == Seq::<u8>::empty(),
{
    assert(b.rest() =~= Seq::<u8>::empty());
}

pub broadcast group group_module {
    rest_empty,
    dvs_byte,
    sized_len,
    ivs_code,
    dvs_empty,
    empty_rest,
}

pub broadcast proof fn empty_rest(s: Seq<u8>, last: u8, m: SModule, ft: Seq<u32>)
    requires
        s.len() == 0,
    ensures
        #[trigger] dec_sections(s, last, m, ft) == (if m.funcs.len() != ft.len() { Dec::<SModule>::Err(EK::Eof) } else { Dec::Ok(m, s) }),
{
    assert(s =~= Seq::empty());
}

// ---- instructions -------------------------------------------------------------------------

pub broadcast proof fn v_instr_markers(i: Instr)
    ensures
        (#[trigger] v_instr(i) == SInstr::Plain(0x0B)) <==> i is End,
        (v_instr(i) == SInstr::Plain(0x05)) <==> i is Else,
{
    reveal(v_instr);
}

pub broadcast proof fn v_instrs_push(s: Seq<Instr>, i: Instr)
    ensures
        #[trigger] v_instrs(s.push(i)) == v_instrs(s) + seq![v_instr(i)],
{
    reveal(v_instr);
    reveal(v_instrs);
    assert(s.push(i).drop_last() =~= s);
    assert(v_instrs(s.push(i)) =~= v_instrs(s) + seq![v_instr(i)]);
}

pub broadcast proof fn v_instrs_empty(s: Seq<Instr>)
    requires
        s.len() == 0,
    ensures
        #[trigger] v_instrs(s) == Seq::<SInstr>::empty(),
{
    reveal(v_instr);
    reveal(v_instrs);
}

pub proof fn prepend_body_empty(d: Dec<(Seq<SInstr>, SInstr)>)
    ensures
        prepend_body(Seq::empty(), d) == d,
{
    match d { Dec::Ok(x, r) => { assert(Seq::<SInstr>::empty() + x.0 =~= x.0); }, Dec::Err(e) => {} }
}

/// One iteration of the loop reading a body.
pub proof fn body_step(xs: Seq<SInstr>, s: Seq<u8>)
    ensures
        prepend_body(xs, dec_body(s)) == match dec_instr(s) {
            Dec::Err(e) => Dec::<(Seq<SInstr>, SInstr)>::Err(e),
            Dec::Ok(i, r) => if i == op_end() || i == op_else() { Dec::Ok((xs, i), r) } else { prepend_body(xs + seq![i], dec_body(r)) },
        },
        dec_instr(s) is Ok ==> dec_instr(s)->Ok_1.len() < s.len(),
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    instr_len(s);
    match dec_instr(s) {
        Dec::Ok(i, r) => {
            assert(xs + Seq::<SInstr>::empty() =~= xs);
            match dec_body(r) { Dec::Ok(x, r2) => { assert(xs + (seq![i] + x.0) =~= (xs + seq![i]) + x.0); }, Dec::Err(e) => {} }
        },
        Dec::Err(e) => {},
    }
}

pub broadcast proof fn unfold_expr(s: Seq<u8>)
    ensures
        #[trigger] dec_expr(s) == match dec_body(s) {
            Dec::Err(e) => Dec::<Seq<SInstr>>::Err(e),
            Dec::Ok(x, r) => if x.1 == op_end() { Dec::Ok(x.0, r) } else { Dec::Err(EK::Opcode) },
        },
        dec_body(s) is Ok ==> dec_body(s)->Ok_0.1 == op_end() || dec_body(s)->Ok_0.1 == op_else(),
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    body_len(s);
}

pub broadcast proof fn unfold_if(s: Seq<u8>)
    ensures
        #[trigger] dec_if(s) == match dec_blocktype(s) {
            Dec::Err(e) => Dec::<(Seq<ty::Val>, Seq<SInstr>, Seq<SInstr>)>::Err(e),
            Dec::Ok(t, r) => match dec_body(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(x, r2) => if x.1 == op_end() {
                    Dec::Ok((t, x.0, Seq::empty()), r2)
                } else {
                    match dec_expr(r2) { Dec::Err(e) => Dec::Err(e), Dec::Ok(y, r3) => Dec::Ok((t, x.0, y), r3) }
                },
            },
        },
        dec_blocktype(s) is Ok && dec_body(dec_blocktype(s)->Ok_1) is Ok ==> ({
            let x = dec_body(dec_blocktype(s)->Ok_1)->Ok_0.1;
            x == op_end() || x == op_else()
        }),
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    if dec_blocktype(s) is Ok { body_len(dec_blocktype(s)->Ok_1); }
}

pub proof fn uleb_len(s: Seq<u8>, w: nat, acc: nat, max: nat)
    ensures
        uleb(s, w, acc, max) is Ok ==> uleb(s, w, acc, max)->Ok_1.len() < s.len(),
    decreases s.len(),
{
    if s.len() > 0 && s[0] >= 128 { uleb_len(s.drop_first(), w * 128, acc + (s[0] % 128) as nat * w, max); }
}

pub proof fn sleb_len(s: Seq<u8>, w: nat, acc: nat, half: nat)
    ensures
        sleb(s, w, acc, half) is Ok ==> sleb(s, w, acc, half)->Ok_1.len() < s.len(),
    decreases s.len(),
{
    if s.len() > 0 && s[0] >= 128 { sleb_len(s.drop_first(), w * 128, acc + (s[0] % 128) as nat * w, half); }
}

pub broadcast proof fn dec_u32_len(s: Seq<u8>)
    ensures
        #[trigger] dec_u32(s) is Ok ==> dec_u32(s)->Ok_1.len() < s.len(),
{
    uleb_len(s, 1, 0, 0x1_0000_0000);
}

pub broadcast proof fn dec_i32_len(s: Seq<u8>)
    ensures
        #[trigger] dec_i32(s) is Ok ==> dec_i32(s)->Ok_1.len() < s.len(),
{
    sleb_len(s, 1, 0, 0x8000_0000);
}

pub broadcast proof fn dec_i64_len(s: Seq<u8>)
    ensures
        #[trigger] dec_i64(s) is Ok ==> dec_i64(s)->Ok_1.len() < s.len(),
{
    sleb_len(s, 1, 0, 0x8000_0000_0000_0000);
}

pub proof fn dec_labels_len(s: Seq<u8>, n: nat)
    ensures
        dec_n::<idx::Label>(s, n) is Ok ==> dec_n::<idx::Label>(s, n)->Ok_1.len() <= s.len(),
    decreases n,
{
    broadcast use dec_u32_len;
    if n > 0 {
        match dec_u32(s) { Dec::Ok(v, r) => { dec_labels_len(r, (n - 1) as nat); }, Dec::Err(e) => {} }
    }
}

/// Instructions use up at least one byte.
pub proof fn instr_len(s: Seq<u8>)
    ensures
        dec_instr(s) is Ok ==> dec_instr(s)->Ok_1.len() < s.len(),
    decreases s.len(), 0nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    broadcast use dec_u32_len, dec_i32_len, dec_i64_len;
    if s.len() > 0 {
        let r = s.drop_first();
        if s[0] == 0x0E {
            match dec_u32(r) { Dec::Ok(n, r2) => { dec_labels_len(r2, n as nat); }, Dec::Err(e) => {} }
        } else if s[0] == 0x02 || s[0] == 0x03 {
            match dec_blocktype(r) { Dec::Ok(t, r2) => { expr_len(r2); }, Dec::Err(e) => {} }
        } else if s[0] == 0x04 {
            if_len(r);
        }
    }
}

pub proof fn body_len(s: Seq<u8>)
    ensures
        dec_body(s) is Ok ==> dec_body(s)->Ok_1.len() < s.len(),
        dec_body(s) is Ok ==> dec_body(s)->Ok_0.1 == op_end() || dec_body(s)->Ok_0.1 == op_else(),
    decreases s.len(), 1nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    instr_len(s);
    match dec_instr(s) { Dec::Ok(i, r) => { if r.len() < s.len() { body_len(r); } }, Dec::Err(e) => {} }
}

pub proof fn expr_len(s: Seq<u8>)
    ensures
        dec_expr(s) is Ok ==> dec_expr(s)->Ok_1.len() < s.len(),
    decreases s.len(), 2nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    body_len(s);
}

pub proof fn if_len(s: Seq<u8>)
    ensures
        dec_if(s) is Ok ==> dec_if(s)->Ok_1.len() < s.len(),
    decreases s.len(), 0nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    match dec_blocktype(s) {
        Dec::Ok(t, r) => {
            body_len(r);
            match dec_body(r) { Dec::Ok(x, r2) => { if r2.len() < s.len() { expr_len(r2); } }, Dec::Err(e) => {} }
        },
        Dec::Err(e) => {},
    }
}

pub broadcast group group_instrs {
    v_instr_markers,
    v_instrs_push,
    v_instrs_empty,
    unfold_expr,
    unfold_if,
}

}
