// What the parser yields never contains a bare terminator or separator, so it meets the
// validator's precondition.
use vstd::prelude::*;
use crate::structure::{ty, module, idx};
use crate::ast::*;
use crate::dec::*;
use crate::valid::*;
use crate::model::*;
use crate::binary::{Sized, UnwrappingVec, Byte, Consume};
verus! {

pub proof fn clean_cons(i: SInstr, is: Seq<SInstr>)
    requires
        clean1(i),
        clean(is),
    ensures
        clean(seq![i] + is),
    decreases is.len(),
{
    reveal(clean);
    reveal(clean1);
    let s = seq![i] + is;
    if is.len() > 0 {
        clean_cons(i, is.drop_last());
        assert(s.drop_last() =~= seq![i] + is.drop_last());
        assert(s.last() == is.last());
    } else {
        clean_none();
        assert(s.drop_last() =~= Seq::<SInstr>::empty());
        assert(s.last() == i);
    }
}

pub proof fn clean_none()
    ensures
        clean(Seq::<SInstr>::empty()),
{
    reveal(clean);
    reveal(clean1);
}

pub proof fn instr_clean(s: Seq<u8>)
    ensures
        dec_instr(s) is Ok ==> dec_instr(s)->Ok_0 == op_end() || dec_instr(s)->Ok_0 == op_else() || clean1(dec_instr(s)->Ok_0),
    decreases s.len(), 0nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    reveal(clean);
    reveal(clean1);
    if s.len() > 0 {
        let r = s.drop_first();
        if s[0] == 0x02 || s[0] == 0x03 {
            match dec_blocktype(r) { Dec::Ok(t, r2) => { expr_clean(r2); }, Dec::Err(e) => {} }
        } else if s[0] == 0x04 {
            if_clean(r);
        }
    }
}

pub proof fn body_clean(s: Seq<u8>)
    ensures
        dec_body(s) is Ok ==> clean(dec_body(s)->Ok_0.0),
    decreases s.len(), 1nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    clean_none();
    instr_clean(s);
    match dec_instr(s) {
        Dec::Ok(i, r) => {
            if r.len() < s.len() {
                body_clean(r);
                if dec_body(r) is Ok && i != op_end() && i != op_else() { clean_cons(i, dec_body(r)->Ok_0.0); }
            }
        },
        Dec::Err(e) => {},
    }
}

pub proof fn expr_clean(s: Seq<u8>)
    ensures
        dec_expr(s) is Ok ==> clean(dec_expr(s)->Ok_0),
    decreases s.len(), 2nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    body_clean(s);
}

pub proof fn if_clean(s: Seq<u8>)
    ensures
        dec_if(s) is Ok ==> clean(dec_if(s)->Ok_0.1) && clean(dec_if(s)->Ok_0.2),
    decreases s.len(), 0nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    clean_none();
    match dec_blocktype(s) {
        Dec::Ok(t, r) => {
            body_clean(r);
            match dec_body(r) { Dec::Ok(x, r2) => { if r2.len() < s.len() { expr_clean(r2); } }, Dec::Err(e) => {} }
        },
        Dec::Err(e) => {},
    }
}

pub proof fn globals_clean(s: Seq<u8>, n: nat)
    ensures
        dec_n::<module::Global>(s, n) is Ok ==> forall|i: int| 0 <= i < dec_n::<module::Global>(s, n)->Ok_0.len() ==> clean((#[trigger] dec_n::<module::Global>(s, n)->Ok_0[i]).init),
    decreases n,
{
    if n > 0 {
        match dec_global(s) {
            Dec::Ok(v, r) => {
                expr_clean(dec_globaltype(s)->Ok_1);
                globals_clean(r, (n - 1) as nat);
            },
            Dec::Err(e) => {},
        }
    }
}
pub proof fn elems_clean(s: Seq<u8>, n: nat)
    ensures
        dec_n::<module::Elem>(s, n) is Ok ==> forall|i: int| 0 <= i < dec_n::<module::Elem>(s, n)->Ok_0.len() ==> clean((#[trigger] dec_n::<module::Elem>(s, n)->Ok_0[i]).offset),
    decreases n,
{
    if n > 0 {
        match dec_elem(s) {
            Dec::Ok(v, r) => {
                expr_clean(dec_u32(s)->Ok_1);
                elems_clean(r, (n - 1) as nat);
            },
            Dec::Err(e) => {},
        }
    }
}
pub proof fn datas_clean(s: Seq<u8>, n: nat)
    ensures
        dec_n::<module::Data>(s, n) is Ok ==> forall|i: int| 0 <= i < dec_n::<module::Data>(s, n)->Ok_0.len() ==> clean((#[trigger] dec_n::<module::Data>(s, n)->Ok_0[i]).offset),
    decreases n,
{
    if n > 0 {
        match dec_data(s) {
            Dec::Ok(v, r) => {
                expr_clean(dec_u32(s)->Ok_1);
                datas_clean(r, (n - 1) as nat);
            },
            Dec::Err(e) => {},
        }
    }
}
pub proof fn code_clean(s: Seq<u8>, n: nat)
    ensures
        dec_n::<Sized<module::Func>>(s, n) is Ok ==> forall|i: int| 0 <= i < dec_n::<Sized<module::Func>>(s, n)->Ok_0.len() ==> clean((#[trigger] dec_n::<Sized<module::Func>>(s, n)->Ok_0[i]).body),
    decreases n,
{
    reveal(dec_sized);
    if n > 0 {
        match dec_u32(s) {
            Dec::Ok(k, r) => {
                let inner = if k <= r.len() { r.take(k as int) } else { r };
                match dec_compact::<ty::Val>(inner) { Dec::Ok(l, r2) => { expr_clean(r2); }, Dec::Err(e) => {} }
                match dec_sized::<module::Func>(s) {
                    Dec::Ok(v, r2) => {
                        assert(dec_code(inner) is Ok && v == dec_code(inner)->Ok_0);
                        assert(clean(v.body));
                        code_clean(r2, (n - 1) as nat);
                        let d = dec_n::<Sized<module::Func>>(s, n);
                        let e = dec_n::<Sized<module::Func>>(r2, (n - 1) as nat);
                        assert(d == prepend(seq![v], e));
                        if d is Ok {
                            assert forall|i: int| 0 <= i < d->Ok_0.len() implies clean((#[trigger] d->Ok_0[i]).body) by {
                                if i > 0 { assert(d->Ok_0[i] == e->Ok_0[i - 1]); }
                            }
                        }
                    },
                    Dec::Err(e) => {},
                }
            },
            Dec::Err(e) => {},
        }
    }
}


pub proof fn sections_clean(s: Seq<u8>, last: u8, m: SModule, ft: Seq<u32>)
    requires
        clean_module(m),
    ensures
        dec_sections(s, last, m, ft) is Ok ==> clean_module(dec_sections(s, last, m, ft)->Ok_0),
    decreases s.len(),
{
    if s.len() > 0 && !(s[0] != 0 && s[0] <= last) {
        section_clean(s[0], s.drop_first(), m, ft);
        match dec_section(s[0], s.drop_first(), m, ft) {
            Dec::Ok((m2, ft2), r) => { if r.len() < s.len() { sections_clean(r, if s[0] == 0 { last } else { s[0] }, m2, ft2); } },
            Dec::Err(e) => {},
        }
    }
}

pub proof fn section_clean(id: u8, s: Seq<u8>, m: SModule, ft: Seq<u32>)
    requires
        clean_module(m),
    ensures
        dec_section(id, s, m, ft) is Ok ==> clean_module(dec_section(id, s, m, ft)->Ok_0.0),
{
    reveal(dec_sized);
    match dec_u32(s) {
        Dec::Ok(k, r) => {
            let inner = if k <= r.len() { r.take(k as int) } else { r };
            match dec_u32(inner) {
                Dec::Ok(n, r2) => {
                    globals_clean(r2, n as nat);
                    elems_clean(r2, n as nat);
                    datas_clean(r2, n as nat);
                    code_clean(r2, n as nat);
                },
                Dec::Err(e) => {},
            }
        },
        Dec::Err(e) => {},
    }
}

/// Every module the parser yields is one the validator's contract covers.
pub proof fn parsed_clean(s: Seq<u8>)
    ensures
        dec_module(s) is Ok ==> clean_module(dec_module(s)->Ok_0),
{
    if s.len() >= 8 { sections_clean(s.skip(8), 0, empty_module(), Seq::empty()); }
}

}
