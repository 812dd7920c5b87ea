// Decoding is local, decoder by decoder.
use vstd::prelude::*;
use crate::structure::{ty, module, idx};
use crate::structure::instr;
use crate::ast::*;
use crate::dec::*;
use crate::locbase::*;
use crate::binary::core::traits::{WasmBinaryParse, WasmBinaryParseProxy};
use crate::binary::{Sized, UnwrappingVec, CompactVec, Byte};
use crate::binary::instr::{SubExpr, IfInstr};
verus! {

broadcast use {swap1, swap0};

// ---- integers -----------------------------------------------------------------------------

pub proof fn loc_uleb(s: Seq<u8>, w: nat, acc: nat, max: nat, t: Seq<u8>)
    ensures
        same(|x: Seq<u8>| uleb(x, w, acc, max), s, t),
        eats(|x: Seq<u8>| uleb(x, w, acc, max), s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(swap(s.drop_first(), s.drop_first(), t) == t);
        loc_uleb(s.drop_first(), w * 128, acc + (s[0] % 128) as nat * w, max, t);
    }
}

pub proof fn loc_sleb(s: Seq<u8>, w: nat, acc: nat, half: nat, t: Seq<u8>)
    ensures
        same(|x: Seq<u8>| sleb(x, w, acc, half), s, t),
        eats(|x: Seq<u8>| sleb(x, w, acc, half), s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(swap(s.drop_first(), s.drop_first(), t) == t);
        loc_sleb(s.drop_first(), w * 128, acc + (s[0] % 128) as nat * w, half, t);
    }
}

pub proof fn loc_le(a: Seq<u8>, b: Seq<u8>, n: nat)
    requires
        a.len() >= n,
        b.len() >= n,
        a.take(n as int) == b.take(n as int),
    ensures
        le(a, n) == le(b, n),
    decreases n,
{
    if n > 0 {
        assert(a[0] == a.take(n as int)[0] && b[0] == b.take(n as int)[0]);
        assert(a.drop_first().take(n - 1) =~= a.take(n as int).skip(1));
        assert(b.drop_first().take(n - 1) =~= b.take(n as int).skip(1));
        loc_le(a.drop_first(), b.drop_first(), (n - 1) as nat);
    }
}

pub proof fn loc_byte(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<Byte>(s, t),
{
    if s.len() > 0 { assert(swap(s.drop_first(), s.drop_first(), t) == t); }
}

pub proof fn loc_u8(s: Seq<u8>, t: Seq<u8>) ensures local_at::<u8>(s, t) { loc_uleb(s, 1, 0, 0x100, t); }
pub proof fn loc_u16(s: Seq<u8>, t: Seq<u8>) ensures local_at::<u16>(s, t) { loc_uleb(s, 1, 0, 0x1_0000, t); }
pub proof fn loc_u32(s: Seq<u8>, t: Seq<u8>) ensures local_at::<u32>(s, t) { loc_uleb(s, 1, 0, 0x1_0000_0000, t); }
pub proof fn loc_u64(s: Seq<u8>, t: Seq<u8>) ensures local_at::<u64>(s, t) { loc_uleb(s, 1, 0, 0x1_0000_0000_0000_0000, t); }
pub proof fn loc_i8(s: Seq<u8>, t: Seq<u8>) ensures local_at::<i8>(s, t) { loc_sleb(s, 1, 0, 0x80, t); }
pub proof fn loc_i16(s: Seq<u8>, t: Seq<u8>) ensures local_at::<i16>(s, t) { loc_sleb(s, 1, 0, 0x8000, t); }
pub proof fn loc_i32(s: Seq<u8>, t: Seq<u8>) ensures local_at::<i32>(s, t) { loc_sleb(s, 1, 0, 0x8000_0000, t); }
pub proof fn loc_i64(s: Seq<u8>, t: Seq<u8>) ensures local_at::<i64>(s, t) { loc_sleb(s, 1, 0, 0x8000_0000_0000_0000, t); }

pub proof fn loc_f32(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<f32>(s, t),
{
    reveal(tail);
    reveal(swap);
    if s.len() >= 4 {
        let x = swap(s, s.skip(4), t);
        assert(s.take(4) =~= x.take(4));
        loc_le(s, x, 4);
        assert(x.skip(4) =~= t);
    }
}

pub proof fn loc_f64(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<f64>(s, t),
{
    reveal(tail);
    reveal(swap);
    if s.len() >= 8 {
        let x = swap(s, s.skip(8), t);
        assert(s.take(8) =~= x.take(8));
        loc_le(s, x, 8);
        assert(x.skip(8) =~= t);
    }
}

// ---- sequences ----------------------------------------------------------------------------

pub proof fn loc_n<T: WasmBinaryParse>(s: Seq<u8>, n: nat, t: Seq<u8>)
    requires
        local::<T>(),
    ensures
        same(|x: Seq<u8>| dec_n::<T>(x, n), s, t),
        n > 0 ==> eats(|x: Seq<u8>| dec_n::<T>(x, n), s),
    decreases n,
{
    if n > 0 {
        match T::dec(s) {
            Dec::Err(e) => {},
            Dec::Ok(v, r) => {
                loc_n::<T>(r, (n - 1) as nat, t);
                assert(local_at::<T>(s, t));
                match dec_n::<T>(r, (n - 1) as nat) {
                    Dec::Err(e) => {},
                    Dec::Ok(vs, r2) => {
                        assert(local_at::<T>(s, swap(r, r2, t)));
                        swap2(s, r, r2, t);
                    },
                }
            },
        }
    }
}

pub proof fn loc_runs<T: WasmBinaryParse>(s: Seq<u8>, k: nat, have: nat, t: Seq<u8>)
    requires
        local::<T>(),
    ensures
        same(|x: Seq<u8>| dec_runs::<T>(x, k, have), s, t),
    decreases k,
{
    if k > 0 {
        match dec_u32(s) {
            Dec::Err(e) => {},
            Dec::Ok(n, r) => match T::dec(r) {
                Dec::Err(e) => {},
                Dec::Ok(v, r2) => {
                    loc_runs::<T>(r2, (k - 1) as nat, have + n as nat, t);
                    match dec_runs::<T>(r2, (k - 1) as nat, have + n as nat) {
                        Dec::Err(e) => {},
                        Dec::Ok(vs, r3) => {
                            let t2 = swap(r2, r3, t);
                            assert(local_at::<T>(r, t2));
                            swap2(r, r2, r3, t);
                            loc_u32(s, swap(r, r2, t2));
                            swap2(s, r, r3, t);
                        },
                    }
                },
            },
        }
    }
}

pub proof fn loc_vec<T: WasmBinaryParse>(s: Seq<u8>, t: Seq<u8>)
    requires
        local::<T>(),
    ensures
        local_at::<Vec<T>>(s, t),
{
    match dec_u32(s) {
        Dec::Err(e) => {},
        Dec::Ok(n, r) => {
            loc_n::<T>(r, n as nat, t);
            match dec_n::<T>(r, n as nat) {
                Dec::Err(e) => {},
                Dec::Ok(vs, r2) => {
                    loc_u32(s, swap(r, r2, t));
                    swap2(s, r, r2, t);
                },
            }
        },
    }
}

pub proof fn loc_compact<T: WasmBinaryParse + Copy>(s: Seq<u8>, t: Seq<u8>)
    requires
        local::<T>(),
    ensures
        local_at::<CompactVec<T>>(s, t),
{
    match dec_u32(s) {
        Dec::Err(e) => {},
        Dec::Ok(n, r) => {
            loc_runs::<T>(r, n as nat, 0, t);
            match dec_runs::<T>(r, n as nat, 0) {
                Dec::Err(e) => {},
                Dec::Ok(vs, r2) => {
                    loc_u32(s, swap(r, r2, t));
                    swap2(s, r, r2, t);
                },
            }
        },
    }
}

/// Whatever the contents are: they are read from a window of the declared size.
pub proof fn loc_sized<T: WasmBinaryParse>(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<Sized<T>>(s, t),
{
    reveal(tail);
    reveal(swap);
    reveal(dec_sized);
    match dec_u32(s) {
        Dec::Err(e) => {},
        Dec::Ok(size, r) => {
            if size <= r.len() {
                let r2 = r.skip(size as int);
                assert(tail(r, r2));
                let x = swap(r, r2, t);
                assert(x.take(size as int) =~= r.take(size as int));
                assert(x.skip(size as int) =~= t);
                loc_u32(s, x);
                swap2(s, r, r2, t);
            }
        },
    }
}

pub proof fn local_byte() ensures local::<Byte>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<Byte>(s, t) by { loc_byte(s, t); } }

pub proof fn loc_name(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<String>(s, t),
{
    local_byte();
    loc_vec::<Byte>(s, t);
}

// ---- types --------------------------------------------------------------------------------

pub proof fn loc_val(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Val>(s, t),
{
    if s.len() > 0 { assert(swap(s.drop_first(), s.drop_first(), t) == t); }
}

pub proof fn loc_elemtype(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Elem>(s, t),
{
    if s.len() > 0 { assert(swap(s.drop_first(), s.drop_first(), t) == t); }
}

pub proof fn loc_mut(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Mut>(s, t),
{
    if s.len() > 0 { assert(swap(s.drop_first(), s.drop_first(), t) == t); }
}

pub proof fn loc_blocktype(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::RetVal>(s, t),
{
    if s.len() > 0 { assert(swap(s.drop_first(), s.drop_first(), t) == t); }
}

pub proof fn local_val() ensures local::<ty::Val>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Val>(s, t) by { loc_val(s, t); } }

pub proof fn loc_vals(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<Vec<ty::Val>>(s, t),
{
    local_val();
    loc_vec::<ty::Val>(s, t);
}

pub proof fn loc_functype(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Func>(s, t),
{
    if s.len() > 0 {
        let s1 = s.drop_first();
        match dec_vec::<ty::Val>(s1) {
            Dec::Err(e) => {},
            Dec::Ok(a, r) => match dec_vec::<ty::Val>(r) {
                Dec::Err(e) => {},
                Dec::Ok(b, r2) => {
                    loc_vals(r, t);
                    loc_vals(s1, swap(r, r2, t));
                    swap2(s1, r, r2, t);
                },
            },
        }
    }
}

pub proof fn loc_limits(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Limits>(s, t),
{
    if s.len() > 0 {
        let s1 = s.drop_first();
        loc_u32(s1, t);
        match dec_u32(s1) {
            Dec::Err(e) => {},
            Dec::Ok(a, r) => match dec_u32(r) {
                Dec::Err(e) => {},
                Dec::Ok(b, r2) => {
                    loc_u32(r, t);
                    loc_u32(s1, swap(r, r2, t));
                    swap2(s1, r, r2, t);
                },
            },
        }
    }
}

pub proof fn loc_tabletype(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Table>(s, t),
{
    match dec_elemtype(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_limits(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => {
                loc_limits(r, t);
                loc_elemtype(s, swap(r, r2, t));
                swap2(s, r, r2, t);
            },
        },
    }
}

pub proof fn loc_memtype(s: Seq<u8>, t: Seq<u8>) ensures local_at::<ty::Mem>(s, t) { loc_limits(s, t); }

pub proof fn loc_globaltype(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<ty::Global>(s, t),
{
    match dec_val(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_mut(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => {
                loc_mut(r, t);
                loc_val(s, swap(r, r2, t));
                swap2(s, r, r2, t);
            },
        },
    }
}

// ---- indices ------------------------------------------------------------------------------

pub proof fn loc_idx_type(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Type>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_type() ensures local::<idx::Type>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Type>(s, t) by { loc_idx_type(s, t); } }
pub proof fn loc_idx_func(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Func>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_func() ensures local::<idx::Func>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Func>(s, t) by { loc_idx_func(s, t); } }
pub proof fn loc_idx_table(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Table>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_table() ensures local::<idx::Table>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Table>(s, t) by { loc_idx_table(s, t); } }
pub proof fn loc_idx_mem(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Mem>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_mem() ensures local::<idx::Mem>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Mem>(s, t) by { loc_idx_mem(s, t); } }
pub proof fn loc_idx_global(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Global>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_global() ensures local::<idx::Global>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Global>(s, t) by { loc_idx_global(s, t); } }
pub proof fn loc_idx_local(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Local>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_local() ensures local::<idx::Local>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Local>(s, t) by { loc_idx_local(s, t); } }
pub proof fn loc_idx_label(s: Seq<u8>, t: Seq<u8>) ensures local_at::<idx::Label>(s, t) { loc_u32(s, t); }
pub proof fn local_idx_label() ensures local::<idx::Label>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Label>(s, t) by { loc_idx_label(s, t); } }

// ---- instructions -------------------------------------------------------------------------

pub proof fn loc_two_u32(s: Seq<u8>, t: Seq<u8>)
    ensures
        same(|x: Seq<u8>| dec_two_u32(x), s, t),
{
    match dec_u32(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_u32(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => {
                loc_u32(r, t);
                loc_u32(s, swap(r, r2, t));
                swap2(s, r, r2, t);
            },
        },
    }
}

pub proof fn loc_labels(s: Seq<u8>, t: Seq<u8>)
    ensures
        same(|x: Seq<u8>| dec_vec::<idx::Label>(x), s, t),
{
    local_idx_label();
    loc_vec::<idx::Label>(s, t);
}

pub proof fn loc_instr(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<instr::Instr>(s, t),
    decreases s.len(), 0nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    if s.len() > 0 {
        let op = s[0];
        let s1 = s.drop_first();
        if op_plain(op) {
            assert(swap(s1, s1, t) == t);
        } else if op_idx(op) {
            loc_u32(s1, t);
        } else if op_mem(op) || op == 0x11 {
            loc_two_u32(s1, t);
        } else if op == 0x0E {
            match dec_vec::<idx::Label>(s1) {
                Dec::Err(e) => {},
                Dec::Ok(a, r) => {
                    loc_u32(r, t);
                    match dec_u32(r) {
                        Dec::Err(e) => {},
                        Dec::Ok(b, r2) => {
                            loc_labels(s1, swap(r, r2, t));
                            swap2(s1, r, r2, t);
                        },
                    }
                },
            }
        } else if op == 0x41 {
            loc_i32(s1, t);
        } else if op == 0x42 {
            loc_i64(s1, t);
        } else if op == 0x43 {
            loc_f32(s1, t);
        } else if op == 0x44 {
            loc_f64(s1, t);
        } else if op == 0x02 || op == 0x03 {
            match dec_blocktype(s1) {
                Dec::Err(e) => {},
                Dec::Ok(a, r) => {
                    loc_expr(r, t);
                    match dec_expr(r) {
                        Dec::Err(e) => {},
                        Dec::Ok(b, r2) => {
                            loc_blocktype(s1, swap(r, r2, t));
                            swap2(s1, r, r2, t);
                        },
                    }
                },
            }
        } else if op == 0x04 {
            loc_if(s1, t);
        }
    }
}

pub proof fn loc_body(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<SubExpr>(s, t),
    decreases s.len(), 1nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    loc_instr(s, t);
    match dec_instr(s) {
        Dec::Err(e) => {},
        Dec::Ok(i, r) => {
            if i != op_end() && i != op_else() && r.len() < s.len() {
                loc_body(r, t);
                match dec_body(r) {
                    Dec::Err(e) => {},
                    Dec::Ok(b, r2) => {
                        loc_instr(s, swap(r, r2, t));
                        swap2(s, r, r2, t);
                    },
                }
            }
        },
    }
}

pub proof fn loc_expr(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<instr::Expr>(s, t),
    decreases s.len(), 2nat,
{
    reveal(dec_instr);
    reveal(dec_body);
    reveal(dec_expr);
    reveal(dec_if);
    loc_body(s, t);
}

pub proof fn loc_if(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<IfInstr>(s, t),
    decreases s.len(), 0nat,
{
    broadcast use crate::lemmas::unfold_if;
    match dec_blocktype(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => {
            loc_blocktype(s, t);
            loc_body(r, t);
            match dec_body(r) {
                Dec::Err(e) => {},
                Dec::Ok(x, r2) => {
                    loc_blocktype(s, swap(r, r2, t));
                    swap2(s, r, r2, t);
                    if x.1 != op_end() && r2.len() < s.len() {
                        loc_expr(r2, t);
                        match dec_expr(r2) {
                            Dec::Err(e) => {},
                            Dec::Ok(y, r3) => {
                                let t2 = swap(r2, r3, t);
                                loc_body(r, t2);
                                swap2(r, r2, r3, t);
                                loc_blocktype(s, swap(r, r2, t2));
                                swap2(s, r, r3, t);
                            },
                        }
                    }
                },
            }
        },
    }
}

pub proof fn loc_constexpr(s: Seq<u8>, t: Seq<u8>) ensures local_at::<instr::ConstExpr>(s, t) { loc_expr(s, t); }

// ---- module records -----------------------------------------------------------------------

pub proof fn loc_locals(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<CompactVec<ty::Val>>(s, t),
{
    local_val();
    loc_compact::<ty::Val>(s, t);
}

pub proof fn loc_funcs(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<Vec<idx::Func>>(s, t),
{
    local_idx_func();
    loc_vec::<idx::Func>(s, t);
}

pub proof fn loc_bytes(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<UnwrappingVec<Byte>>(s, t),
{
    local_byte();
    loc_vec::<Byte>(s, t);
}

pub proof fn loc_code(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::Func>(s, t),
{
    match dec_compact::<ty::Val>(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_expr(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => {
                loc_expr(r, t);
                loc_locals(s, swap(r, r2, t));
                swap2(s, r, r2, t);
            },
        },
    }
}

pub proof fn loc_global(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::Global>(s, t),
{
    match dec_globaltype(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_expr(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => {
                loc_expr(r, t);
                loc_globaltype(s, swap(r, r2, t));
                swap2(s, r, r2, t);
            },
        },
    }
}

pub proof fn loc_elem(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::Elem>(s, t),
{
    match dec_u32(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_expr(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => match dec_vec::<idx::Func>(r2) {
                Dec::Err(e) => {},
                Dec::Ok(c, r3) => {
                    let t2 = swap(r2, r3, t);
                    loc_funcs(r2, t);
                    loc_expr(r, t2);
                    swap2(r, r2, r3, t);
                    loc_u32(s, swap(r, r2, t2));
                    swap2(s, r, r3, t);
                },
            },
        },
    }
}

pub proof fn loc_data(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::Data>(s, t),
{
    match dec_u32(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_expr(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => match dec_vec::<Byte>(r2) {
                Dec::Err(e) => {},
                Dec::Ok(c, r3) => {
                    let t2 = swap(r2, r3, t);
                    loc_bytes(r2, t);
                    loc_expr(r, t2);
                    swap2(r, r2, r3, t);
                    loc_u32(s, swap(r, r2, t2));
                    swap2(s, r, r3, t);
                },
            },
        },
    }
}

pub proof fn loc_table(s: Seq<u8>, t: Seq<u8>) ensures local_at::<module::Table>(s, t) { loc_tabletype(s, t); }
pub proof fn loc_mem(s: Seq<u8>, t: Seq<u8>) ensures local_at::<module::Mem>(s, t) { loc_memtype(s, t); }
pub proof fn loc_start(s: Seq<u8>, t: Seq<u8>) ensures local_at::<module::Start>(s, t) { loc_u32(s, t); }

pub proof fn loc_importdesc(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::desc::Import>(s, t),
{
    if s.len() > 0 {
        loc_u32(s.drop_first(), t);
        loc_tabletype(s.drop_first(), t);
        loc_memtype(s.drop_first(), t);
        loc_globaltype(s.drop_first(), t);
    }
}

pub proof fn loc_exportdesc(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::desc::Export>(s, t),
{
    if s.len() > 0 { loc_u32(s.drop_first(), t); }
}

pub proof fn loc_import(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::Import>(s, t),
{
    match dec_name(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_name(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => match dec_importdesc(r2) {
                Dec::Err(e) => {},
                Dec::Ok(c, r3) => {
                    let t2 = swap(r2, r3, t);
                    loc_importdesc(r2, t);
                    loc_name(r, t2);
                    swap2(r, r2, r3, t);
                    loc_name(s, swap(r, r2, t2));
                    swap2(s, r, r3, t);
                },
            },
        },
    }
}

pub proof fn loc_export(s: Seq<u8>, t: Seq<u8>)
    ensures
        local_at::<module::Export>(s, t),
{
    match dec_name(s) {
        Dec::Err(e) => {},
        Dec::Ok(a, r) => match dec_exportdesc(r) {
            Dec::Err(e) => {},
            Dec::Ok(b, r2) => {
                loc_exportdesc(r, t);
                loc_name(s, swap(r, r2, t));
                swap2(s, r, r2, t);
            },
        },
    }
}

// ---- all together -------------------------------------------------------------------------

/// Every item without type parameters.
pub proof fn items_are_local()
    ensures
        local::<Byte>(),
        local::<u8>(),
        local::<u16>(),
        local::<u32>(),
        local::<u64>(),
        local::<i8>(),
        local::<i16>(),
        local::<i32>(),
        local::<i64>(),
        local::<f32>(),
        local::<f64>(),
        local::<String>(),
        local::<ty::Val>(),
        local::<ty::Elem>(),
        local::<ty::Mut>(),
        local::<ty::RetVal>(),
        local::<ty::Func>(),
        local::<ty::Limits>(),
        local::<ty::Table>(),
        local::<ty::Mem>(),
        local::<ty::Global>(),
        local::<idx::Type>(),
        local::<idx::Func>(),
        local::<idx::Table>(),
        local::<idx::Mem>(),
        local::<idx::Global>(),
        local::<idx::Local>(),
        local::<idx::Label>(),
        local::<instr::Instr>(),
        local::<SubExpr>(),
        local::<IfInstr>(),
        local::<instr::Expr>(),
        local::<instr::ConstExpr>(),
        local::<module::Func>(),
        local::<module::Global>(),
        local::<module::Elem>(),
        local::<module::Data>(),
        local::<module::Table>(),
        local::<module::Mem>(),
        local::<module::Start>(),
        local::<module::desc::Import>(),
        local::<module::desc::Export>(),
        local::<module::Import>(),
        local::<module::Export>(),
{
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<Byte>(s, t) by { loc_byte(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<u8>(s, t) by { loc_u8(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<u16>(s, t) by { loc_u16(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<u32>(s, t) by { loc_u32(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<u64>(s, t) by { loc_u64(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<i8>(s, t) by { loc_i8(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<i16>(s, t) by { loc_i16(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<i32>(s, t) by { loc_i32(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<i64>(s, t) by { loc_i64(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<f32>(s, t) by { loc_f32(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<f64>(s, t) by { loc_f64(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<String>(s, t) by { loc_name(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Val>(s, t) by { loc_val(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Elem>(s, t) by { loc_elemtype(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Mut>(s, t) by { loc_mut(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::RetVal>(s, t) by { loc_blocktype(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Func>(s, t) by { loc_functype(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Limits>(s, t) by { loc_limits(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Table>(s, t) by { loc_tabletype(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Mem>(s, t) by { loc_memtype(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<ty::Global>(s, t) by { loc_globaltype(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Type>(s, t) by { loc_idx_type(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Func>(s, t) by { loc_idx_func(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Table>(s, t) by { loc_idx_table(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Mem>(s, t) by { loc_idx_mem(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Global>(s, t) by { loc_idx_global(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Local>(s, t) by { loc_idx_local(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<idx::Label>(s, t) by { loc_idx_label(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<instr::Instr>(s, t) by { loc_instr(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<SubExpr>(s, t) by { loc_body(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<IfInstr>(s, t) by { loc_if(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<instr::Expr>(s, t) by { loc_expr(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<instr::ConstExpr>(s, t) by { loc_constexpr(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Func>(s, t) by { loc_code(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Global>(s, t) by { loc_global(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Elem>(s, t) by { loc_elem(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Data>(s, t) by { loc_data(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Table>(s, t) by { loc_table(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Mem>(s, t) by { loc_mem(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Start>(s, t) by { loc_start(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::desc::Import>(s, t) by { loc_importdesc(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::desc::Export>(s, t) by { loc_exportdesc(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Import>(s, t) by { loc_import(s, t); }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<module::Export>(s, t) by { loc_export(s, t); }
}

/// Containers of local items, and size-delimited items of any kind.
pub proof fn containers_are_local<T: WasmBinaryParse + Copy, U: WasmBinaryParse, W: WasmBinaryParseProxy>()
    ensures
        local::<T>() ==> local::<CompactVec<T>>(),
        local::<U>() ==> local::<Vec<U>>(),
        local::<W>() ==> local::<UnwrappingVec<W>>(),
        local::<Sized<U>>(),
{
    if local::<T>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<CompactVec<T>>(s, t) by { loc_compact::<T>(s, t); } }
    if local::<U>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<Vec<U>>(s, t) by { loc_vec::<U>(s, t); } }
    if local::<W>() { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<UnwrappingVec<W>>(s, t) by { loc_vec::<W>(s, t); } }
    assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<Sized<U>>(s, t) by { loc_sized::<U>(s, t); }
}

/// Arrays; the empty one reads nothing.
pub proof fn arrays_are_local<T: WasmBinaryParse>(s: Seq<u8>, t: Seq<u8>)
    requires
        local::<T>(),
    ensures
        same(|x: Seq<u8>| <[T; 0] as WasmBinaryParse>::dec(x), s, t),
        local_at::<[T; 1]>(s, t),
        local_at::<[T; 2]>(s, t),
        local_at::<[T; 3]>(s, t),
        local_at::<[T; 4]>(s, t),
        local_at::<[T; 5]>(s, t),
        local_at::<[T; 6]>(s, t),
        local_at::<[T; 7]>(s, t),
        local_at::<[T; 8]>(s, t),
{
    loc_n::<T>(s, 0, t);
    loc_n::<T>(s, 1, t);
    loc_n::<T>(s, 2, t);
    loc_n::<T>(s, 3, t);
    loc_n::<T>(s, 4, t);
    loc_n::<T>(s, 5, t);
    loc_n::<T>(s, 6, t);
    loc_n::<T>(s, 7, t);
    loc_n::<T>(s, 8, t);
}

}
