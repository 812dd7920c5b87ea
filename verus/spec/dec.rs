// The WebAssembly 1.0 binary format as total functions from byte strings.
// `Dec::Ok(v, r)`: the string starts with an encoding of v and r is what follows it.
use vstd::prelude::*;
use crate::structure::{ty, idx, module};
use crate::binary::core::traits::{WasmBinaryParse, WasmBinaryParseProxy};
use crate::binary::core::error::Error;
use crate::ast::*;
verus! {

/// What kind of malformation was found first.
pub enum EK {
    Eof,
    Variant(u8),
    RangeS,
    RangeU,
    Utf8,
    Opcode,
    Magic,
    Version,
    SectionOrder(u8),
    SectionId(u8),
    Size,
    Other,
}

pub open spec fn ek(e: Error) -> EK {
    match e {
        Error::UnexpectedEndOfFile => EK::Eof,
        Error::InvalidVariantId { id, ty } => EK::Variant(id),
        Error::OutOfRangeSignedInteger => EK::RangeS,
        Error::OutOfRangeUnsignedInteger => EK::RangeU,
        Error::InvalidUtf8Encoding => EK::Utf8,
        Error::UnexpectedOpcode { instr } => EK::Opcode,
        Error::InvalidPreambleMagic => EK::Magic,
        Error::InvalidPreambleVersion => EK::Version,
        Error::UnexpectedSectionId { id } => EK::SectionOrder(id.0),
        Error::InvalidSectionId { id } => EK::SectionId(id.0),
        Error::SizeMissmatch => EK::Size,
        _ => EK::Other,
    }
}

pub enum Dec<T> {
    Ok(T, Seq<u8>),
    Err(EK),
}

// ---- bytes and integers -------------------------------------------------------------------

pub open spec fn dec_byte(s: Seq<u8>) -> Dec<u8> {
    if s.len() == 0 { Dec::Err(EK::Eof) } else { Dec::Ok(s[0], s.drop_first()) }
}

pub open spec fn two_pow(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 2 * two_pow((n - 1) as nat) }
}

/// w is the weight 128^i of the next byte, acc the value of the bytes before it, max the first
/// value that does not fit.
pub open spec fn uleb(s: Seq<u8>, w: nat, acc: nat, max: nat) -> Dec<nat>
    decreases s.len(),
{
    if s.len() == 0 {
        Dec::Err(EK::Eof)
    } else {
        let acc1 = acc + (s[0] % 128) as nat * w;
        if acc1 >= max {
            Dec::Err(EK::RangeU)
        } else if s[0] < 128 {
            Dec::Ok(acc1, s.drop_first())
        } else {
            uleb(s.drop_first(), w * 128, acc1, max)
        }
    }
}

/// half is 2^(N-1). The value of a group ending in b is its base-128 value, minus its weight if
/// the sign bit (0x40) of b is set.
pub open spec fn sleb(s: Seq<u8>, w: nat, acc: nat, half: nat) -> Dec<int>
    decreases s.len(),
{
    if s.len() == 0 {
        Dec::Err(EK::Eof)
    } else {
        let acc1 = acc + (s[0] % 128) as nat * w;
        let v = if s[0] % 128 >= 64 { acc1 - w * 128 } else { acc1 as int };
        if v >= half || v < -half {
            Dec::Err(EK::RangeS)
        } else if s[0] < 128 {
            Dec::Ok(v, s.drop_first())
        } else {
            sleb(s.drop_first(), w * 128, acc1, half)
        }
    }
}

pub open spec fn dec_u8(s: Seq<u8>) -> Dec<u8> {
    match uleb(s, 1, 0, 0x100) { Dec::Ok(v, r) => Dec::Ok(v as u8, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_u16(s: Seq<u8>) -> Dec<u16> {
    match uleb(s, 1, 0, 0x1_0000) { Dec::Ok(v, r) => Dec::Ok(v as u16, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_u32(s: Seq<u8>) -> Dec<u32> {
    match uleb(s, 1, 0, 0x1_0000_0000) { Dec::Ok(v, r) => Dec::Ok(v as u32, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_u64(s: Seq<u8>) -> Dec<u64> {
    match uleb(s, 1, 0, 0x1_0000_0000_0000_0000) { Dec::Ok(v, r) => Dec::Ok(v as u64, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_i8(s: Seq<u8>) -> Dec<i8> {
    match sleb(s, 1, 0, 0x80) { Dec::Ok(v, r) => Dec::Ok(v as i8, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_i16(s: Seq<u8>) -> Dec<i16> {
    match sleb(s, 1, 0, 0x8000) { Dec::Ok(v, r) => Dec::Ok(v as i16, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_i32(s: Seq<u8>) -> Dec<i32> {
    match sleb(s, 1, 0, 0x8000_0000) { Dec::Ok(v, r) => Dec::Ok(v as i32, r), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn dec_i64(s: Seq<u8>) -> Dec<i64> {
    match sleb(s, 1, 0, 0x8000_0000_0000_0000) { Dec::Ok(v, r) => Dec::Ok(v as i64, r), Dec::Err(e) => Dec::Err(e) }
}

/// Little-endian bit patterns.
pub open spec fn le(s: Seq<u8>, n: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first(), (n - 1) as nat) }
}
pub open spec fn dec_f32(s: Seq<u8>) -> Dec<u32> {
    if s.len() < 4 { Dec::Err(EK::Eof) } else { Dec::Ok(le(s, 4) as u32, s.skip(4)) }
}
pub open spec fn dec_f64(s: Seq<u8>) -> Dec<u64> {
    if s.len() < 8 { Dec::Err(EK::Eof) } else { Dec::Ok(le(s, 8) as u64, s.skip(8)) }
}

/// The abstract values of a sequence of decoded items.
pub open spec fn dvs<T: WasmBinaryParse>(s: Seq<T>) -> Seq<T::V> { Seq::new(s.len(), |i: int| s[i].dv()) }
pub open spec fn ivs<T: WasmBinaryParseProxy>(s: Seq<T::Inner>) -> Seq<T::V> { Seq::new(s.len(), |i: int| T::iv(s[i])) }

// ---- sequences ----------------------------------------------------------------------------

pub open spec fn prepend<V>(xs: Seq<V>, d: Dec<Seq<V>>) -> Dec<Seq<V>> {
    match d { Dec::Ok(ys, r) => Dec::Ok(xs + ys, r), Dec::Err(e) => Dec::Err(e) }
}

/// n consecutive elements.
pub open spec fn dec_n<T: WasmBinaryParse>(s: Seq<u8>, n: nat) -> Dec<Seq<T::V>>
    decreases n,
{
    if n == 0 {
        Dec::Ok(Seq::empty(), s)
    } else {
        match T::dec(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(v, r) => prepend(seq![v], dec_n::<T>(r, (n - 1) as nat)),
        }
    }
}

pub open spec fn dec_vec<T: WasmBinaryParse>(s: Seq<u8>) -> Dec<Seq<T::V>> {
    match dec_u32(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(n, r) => dec_n::<T>(r, n as nat) }
}

pub open spec fn rep<V>(v: V, n: nat) -> Seq<V> { Seq::new(n, |i: int| v) }

/// k runs (count, value); `have` elements have been produced before.
pub open spec fn dec_runs<T: WasmBinaryParse>(s: Seq<u8>, k: nat, have: nat) -> Dec<Seq<T::V>>
    decreases k,
{
    if k == 0 {
        Dec::Ok(Seq::empty(), s)
    } else {
        match dec_u32(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(n, r) => match T::dec(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(v, r2) => if have + n as nat > 0xFFFF_FFFF {
                    Dec::Err(EK::RangeU)
                } else {
                    prepend(rep(v, n as nat), dec_runs::<T>(r2, (k - 1) as nat, have + n as nat))
                },
            },
        }
    }
}

pub open spec fn dec_compact<T: WasmBinaryParse>(s: Seq<u8>) -> Dec<Seq<T::V>> {
    match dec_u32(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(k, r) => dec_runs::<T>(r, k as nat, 0) }
}

pub open spec fn dec_name(s: Seq<u8>) -> Dec<Seq<char>> {
    match dec_vec::<crate::binary::Byte>(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(b, r) => if vstd::utf8::valid_utf8(b) { Dec::Ok(vstd::utf8::decode_utf8(b), r) } else { Dec::Err(EK::Utf8) },
    }
}

/// A size, then an item that uses exactly that many bytes.
#[verifier::opaque]
pub open spec fn dec_sized<T: WasmBinaryParse>(s: Seq<u8>) -> Dec<T::V> {
    match dec_u32(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(size, r) => {
            let window = if size <= r.len() { r.take(size as int) } else { r };
            match T::dec(window) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(v, left) => if window.len() - left.len() == size { Dec::Ok(v, r.skip(size as int)) } else { Dec::Err(EK::Size) },
            }
        },
    }
}

// ---- types --------------------------------------------------------------------------------

pub open spec fn dec_val(s: Seq<u8>) -> Dec<ty::Val> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0x7F { Dec::Ok(ty::Val::I32, s.drop_first()) }
    else if s[0] == 0x7E { Dec::Ok(ty::Val::I64, s.drop_first()) }
    else if s[0] == 0x7D { Dec::Ok(ty::Val::F32, s.drop_first()) }
    else if s[0] == 0x7C { Dec::Ok(ty::Val::F64, s.drop_first()) }
    else { Dec::Err(EK::Variant(s[0])) }
}

pub open spec fn dec_elemtype(s: Seq<u8>) -> Dec<ty::Elem> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0x70 { Dec::Ok(ty::Elem::FuncRef, s.drop_first()) }
    else { Dec::Err(EK::Variant(s[0])) }
}

pub open spec fn dec_blocktype(s: Seq<u8>) -> Dec<Seq<ty::Val>> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0x40 { Dec::Ok(Seq::empty(), s.drop_first()) }
    else {
        match dec_val(s) { Dec::Ok(v, r) => Dec::Ok(seq![v], s.drop_first()), Dec::Err(e) => Dec::Err(e) }
    }
}

pub open spec fn dec_functype(s: Seq<u8>) -> Dec<SFuncTy> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] != 0x60 { Dec::Err(EK::Variant(s[0])) }
    else {
        match dec_vec::<ty::Val>(s.drop_first()) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(params, r) => match dec_vec::<ty::Val>(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(results, r2) => Dec::Ok(SFuncTy { params, results }, r2),
            },
        }
    }
}

pub open spec fn dec_limits(s: Seq<u8>) -> Dec<ty::Limits> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0x00 {
        match dec_u32(s.drop_first()) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(min, r) => Dec::Ok(ty::Limits { min, max: None }, r),
        }
    } else if s[0] == 0x01 {
        match dec_u32(s.drop_first()) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(min, r) => match dec_u32(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(max, r2) => Dec::Ok(ty::Limits { min, max: Some(max) }, r2),
            },
        }
    } else { Dec::Err(EK::Variant(s[0])) }
}

pub open spec fn dec_tabletype(s: Seq<u8>) -> Dec<ty::Table> {
    match dec_elemtype(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(elem, r) => match dec_limits(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(lim, r2) => Dec::Ok(ty::Table { lim, elem }, r2),
        },
    }
}

pub open spec fn dec_memtype(s: Seq<u8>) -> Dec<ty::Mem> {
    match dec_limits(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(lim, r) => Dec::Ok(ty::Mem { lim }, r) }
}

pub open spec fn dec_mut(s: Seq<u8>) -> Dec<ty::Mut> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0x00 { Dec::Ok(ty::Mut::Const, s.drop_first()) }
    else if s[0] == 0x01 { Dec::Ok(ty::Mut::Var, s.drop_first()) }
    else { Dec::Err(EK::Variant(s[0])) }
}

pub open spec fn dec_globaltype(s: Seq<u8>) -> Dec<ty::Global> {
    match dec_val(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(val, r) => match dec_mut(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(mt, r2) => Dec::Ok(ty::Global { mt, val }, r2),
        },
    }
}

// ---- instructions -------------------------------------------------------------------------

pub open spec fn op_end() -> SInstr { SInstr::Plain(0x0B) }
pub open spec fn op_else() -> SInstr { SInstr::Plain(0x05) }

pub open spec fn op_plain(op: u8) -> bool {
    op == 0x00 || op == 0x01 || op == 0x05 || op == 0x0B || op == 0x0F || op == 0x1A || op == 0x1B || (0x45 <= op && op <= 0xBF)
}
pub open spec fn op_idx(op: u8) -> bool {
    op == 0x0C || op == 0x0D || op == 0x10 || (0x20 <= op && op <= 0x24) || op == 0x3F || op == 0x40
}
pub open spec fn op_mem(op: u8) -> bool { 0x28 <= op && op <= 0x3E }

pub open spec fn dec_two_u32(s: Seq<u8>) -> Dec<(u32, u32)> {
    match dec_u32(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(a, r) => match dec_u32(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(b, r2) => Dec::Ok((a, b), r2) },
    }
}

/// One instruction, where the terminators 0x0B and 0x05 count as instructions.
#[verifier::opaque]
pub open spec fn dec_instr(s: Seq<u8>) -> Dec<SInstr>
    decreases s.len(), 0nat,
{
    if s.len() == 0 {
        Dec::Err(EK::Eof)
    } else {
        let op = s[0];
        let r = s.drop_first();
        if op_plain(op) {
            Dec::Ok(SInstr::Plain(op), r)
        } else if op_idx(op) {
            match dec_u32(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::Idx(op, x), r2) }
        } else if op_mem(op) {
            match dec_two_u32(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::Mem(op, x.0, x.1), r2) }
        } else if op == 0x11 {
            match dec_two_u32(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::Idx2(op, x.0, x.1), r2) }
        } else if op == 0x0E {
            match dec_vec::<idx::Label>(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(ls, r2) => match dec_u32(r2) { Dec::Err(e) => Dec::Err(e), Dec::Ok(d, r3) => Dec::Ok(SInstr::BrTable(ls, d), r3) },
            }
        } else if op == 0x41 {
            match dec_i32(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::I32(x), r2) }
        } else if op == 0x42 {
            match dec_i64(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::I64(x), r2) }
        } else if op == 0x43 {
            match dec_f32(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::F32(x), r2) }
        } else if op == 0x44 {
            match dec_f64(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::F64(x), r2) }
        } else if op == 0x02 || op == 0x03 {
            match dec_blocktype(r) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(t, r2) => match dec_expr(r2) { Dec::Err(e) => Dec::Err(e), Dec::Ok(body, r3) => Dec::Ok(SInstr::Block(op, t, body), r3) },
            }
        } else if op == 0x04 {
            match dec_if(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r2) => Dec::Ok(SInstr::If(x.0, x.1, x.2), r2) }
        } else {
            Dec::Err(EK::Variant(op))
        }
    }
}

pub open spec fn prepend_body(xs: Seq<SInstr>, d: Dec<(Seq<SInstr>, SInstr)>) -> Dec<(Seq<SInstr>, SInstr)> {
    match d { Dec::Ok((ys, t), r) => Dec::Ok((xs + ys, t), r), Dec::Err(e) => Dec::Err(e) }
}

/// Instructions up to the first terminator at this level, and that terminator.
#[verifier::opaque]
pub open spec fn dec_body(s: Seq<u8>) -> Dec<(Seq<SInstr>, SInstr)>
    decreases s.len(), 1nat,
{
    match dec_instr(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(i, r) => if i == op_end() || i == op_else() {
            Dec::Ok((Seq::empty(), i), r)
        } else if r.len() < s.len() {
            prepend_body(seq![i], dec_body(r))
        } else {
            Dec::Err(EK::Other)
        },
    }
}

/// Instructions up to a terminator that must be `end`.
#[verifier::opaque]
pub open spec fn dec_expr(s: Seq<u8>) -> Dec<Seq<SInstr>>
    decreases s.len(), 2nat,
{
    match dec_body(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(x, r) => if x.1 == op_end() { Dec::Ok(x.0, r) } else { Dec::Err(EK::Opcode) },
    }
}

/// What follows the opcode of `if`: block type, instructions, and optionally `else` and instructions.
#[verifier::opaque]
pub open spec fn dec_if(s: Seq<u8>) -> Dec<(Seq<ty::Val>, Seq<SInstr>, Seq<SInstr>)>
    decreases s.len(), 0nat,
{
    match dec_blocktype(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(t, r) => match dec_body(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(x, r2) => if x.1 == op_end() {
                Dec::Ok((t, x.0, Seq::empty()), r2)
            } else if r2.len() < s.len() {
                match dec_expr(r2) { Dec::Err(e) => Dec::Err(e), Dec::Ok(y, r3) => Dec::Ok((t, x.0, y), r3) }
            } else {
                Dec::Err(EK::Other)
            },
        },
    }
}

// ---- module records -----------------------------------------------------------------------

pub open spec fn dec_code(s: Seq<u8>) -> Dec<SFunc> {
    match dec_compact::<ty::Val>(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(locals, r) => match dec_expr(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(body, r2) => Dec::Ok(SFunc { ty: 0, locals, body }, r2),
        },
    }
}

pub open spec fn dec_global(s: Seq<u8>) -> Dec<SGlobal> {
    match dec_globaltype(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(ty, r) => match dec_expr(r) { Dec::Err(e) => Dec::Err(e), Dec::Ok(init, r2) => Dec::Ok(SGlobal { ty, init }, r2) },
    }
}

pub open spec fn dec_elem(s: Seq<u8>) -> Dec<SElem> {
    match dec_u32(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(table, r) => match dec_expr(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(offset, r2) => match dec_vec::<idx::Func>(r2) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(init, r3) => Dec::Ok(SElem { table, offset, init }, r3),
            },
        },
    }
}

pub open spec fn dec_data(s: Seq<u8>) -> Dec<SData> {
    match dec_u32(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(mem, r) => match dec_expr(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(offset, r2) => match dec_vec::<crate::binary::Byte>(r2) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(init, r3) => Dec::Ok(SData { mem, offset, init }, r3),
            },
        },
    }
}

pub open spec fn dec_importdesc(s: Seq<u8>) -> Dec<module::desc::Import> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0 { match dec_u32(s.drop_first()) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok(module::desc::Import::Func(idx::Type(x)), r) } }
    else if s[0] == 1 { match dec_tabletype(s.drop_first()) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok(module::desc::Import::Table(x), r) } }
    else if s[0] == 2 { match dec_memtype(s.drop_first()) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok(module::desc::Import::Mem(x), r) } }
    else if s[0] == 3 { match dec_globaltype(s.drop_first()) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok(module::desc::Import::Global(x), r) } }
    else { Dec::Err(EK::Variant(s[0])) }
}

pub open spec fn dec_exportdesc(s: Seq<u8>) -> Dec<module::desc::Export> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] <= 3 {
        match dec_u32(s.drop_first()) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(x, r) =>
                if s[0] == 0 { Dec::Ok(module::desc::Export::Func(idx::Func(x)), r) }
                else if s[0] == 1 { Dec::Ok(module::desc::Export::Table(idx::Table(x)), r) }
                else if s[0] == 2 { Dec::Ok(module::desc::Export::Mem(idx::Mem(x)), r) }
                else { Dec::Ok(module::desc::Export::Global(idx::Global(x)), r) },
        }
    }
    else { Dec::Err(EK::Variant(s[0])) }
}

pub open spec fn dec_import(s: Seq<u8>) -> Dec<SImport> {
    match dec_name(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(module, r) => match dec_name(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(name, r2) => match dec_importdesc(r2) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(desc, r3) => Dec::Ok(SImport { module, name, desc }, r3),
            },
        },
    }
}

pub open spec fn dec_export(s: Seq<u8>) -> Dec<SExport> {
    match dec_name(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(name, r) => match dec_exportdesc(r) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(desc, r2) => Dec::Ok(SExport { name, desc }, r2),
        },
    }
}

// ---- modules ------------------------------------------------------------------------------

/// What counting that many bytes yields: their number, as far as 64 bits reach.
pub open spec fn counted(n: nat) -> nat { n % 0x1_0000_0000_0000_0000 }

/// A custom section: a name, then anything.
pub open spec fn dec_custom(s: Seq<u8>) -> Dec<(Seq<char>, nat)> {
    match dec_name(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(n, r) => Dec::Ok((n, counted(r.len())), Seq::empty()) }
}

pub open spec fn empty_module() -> SModule {
    SModule {
        types: Seq::empty(), funcs: Seq::empty(), tables: Seq::empty(), mems: Seq::empty(), globals: Seq::empty(),
        elem: Seq::empty(), data: Seq::empty(), start: None, imports: Seq::empty(), exports: Seq::empty(),
    }
}

/// The i-th body gets the i-th declared type.
pub open spec fn pair_up(code: Seq<SFunc>, types: Seq<u32>) -> Seq<SFunc> {
    Seq::new(code.len(), |i: int| SFunc { ty: types[i], locals: code[i].locals, body: code[i].body })
}

/// The contents of the section with this id, added to what has been read so far.
pub open spec fn dec_section(id: u8, s: Seq<u8>, m: SModule, ft: Seq<u32>) -> Dec<(SModule, Seq<u32>)> {
    if id == 0 {
        match dec_sized::<(String, crate::binary::Consume)>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(_, r) => Dec::Ok((m, ft), r) }
    } else if id == 1 {
        match dec_sized::<Vec<ty::Func>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { types: x, ..m }, ft), r) }
    } else if id == 2 {
        match dec_sized::<Vec<module::Import>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { imports: x, ..m }, ft), r) }
    } else if id == 3 {
        match dec_sized::<Vec<idx::Type>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((m, x), r) }
    } else if id == 4 {
        match dec_sized::<Vec<module::Table>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { tables: x, ..m }, ft), r) }
    } else if id == 5 {
        match dec_sized::<Vec<module::Mem>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { mems: x, ..m }, ft), r) }
    } else if id == 6 {
        match dec_sized::<Vec<module::Global>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { globals: x, ..m }, ft), r) }
    } else if id == 7 {
        match dec_sized::<Vec<module::Export>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { exports: x, ..m }, ft), r) }
    } else if id == 8 {
        match dec_sized::<module::Start>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { start: Some(x), ..m }, ft), r) }
    } else if id == 9 {
        match dec_sized::<Vec<module::Elem>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { elem: x, ..m }, ft), r) }
    } else if id == 10 {
        match dec_sized::<crate::binary::UnwrappingVec<crate::binary::Sized<module::Func>>>(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(x, r) => if x.len() != ft.len() { Dec::Err(EK::Eof) } else { Dec::Ok((SModule { funcs: pair_up(x, ft), ..m }, ft), r) },
        }
    } else if id == 11 {
        match dec_sized::<Vec<module::Data>>(s) { Dec::Err(e) => Dec::Err(e), Dec::Ok(x, r) => Dec::Ok((SModule { data: x, ..m }, ft), r) }
    } else {
        Dec::Err(EK::SectionId(id))
    }
}

/// Sections to the end of the input; `last` is the id of the last non-custom section.
pub open spec fn dec_sections(s: Seq<u8>, last: u8, m: SModule, ft: Seq<u32>) -> Dec<SModule>
    decreases s.len(),
{
    if s.len() == 0 {
        if m.funcs.len() != ft.len() { Dec::Err(EK::Eof) } else { Dec::Ok(m, Seq::empty()) }
    } else if s[0] != 0 && s[0] <= last {
        Dec::Err(EK::SectionOrder(s[0]))
    } else {
        match dec_section(s[0], s.drop_first(), m, ft) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok((m2, ft2), r) => if r.len() < s.len() {
                dec_sections(r, if s[0] == 0 { last } else { s[0] }, m2, ft2)
            } else {
                Dec::Err(EK::Other)
            },
        }
    }
}

pub open spec fn dec_module(s: Seq<u8>) -> Dec<SModule> {
    if s.len() < 4 { Dec::Err(EK::Eof) }
    else if !(s[0] == 0x00 && s[1] == 0x61 && s[2] == 0x73 && s[3] == 0x6D) { Dec::Err(EK::Magic) }
    else if s.len() < 8 { Dec::Err(EK::Eof) }
    else if !(s[4] == 1 && s[5] == 0 && s[6] == 0 && s[7] == 0) { Dec::Err(EK::Version) }
    else { dec_sections(s.skip(8), 0, empty_module(), Seq::empty()) }
}

}
