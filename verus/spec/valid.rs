// Validity of WebAssembly 1.0 modules, over abstract syntax.
use vstd::prelude::*;
use crate::structure::{ty, module};
use crate::structure::ty::Val;
use crate::validation::stacks::Operand;
use crate::ast::*;
verus! {

#[verifier::ext_equal]
pub struct SCtx {
    pub types: Seq<SFuncTy>,
    pub funcs: Seq<SFuncTy>,
    pub tables: Seq<ty::Table>,
    pub mems: Seq<ty::Mem>,
    pub globals: Seq<ty::Global>,
    pub locals: Seq<Val>,
    pub ret: Option<Seq<Val>>,
}

/// Operands of the innermost block, and whether the rest of the block is unreachable.
#[verifier::ext_equal]
pub struct St { pub ops: Seq<Operand>, pub dead: bool }

pub open spec fn fresh() -> St { St { ops: Seq::empty(), dead: false } }
pub open spec fn dead() -> St { St { ops: Seq::empty(), dead: true } }
pub open spec fn opsof(ts: Seq<Val>) -> Seq<Operand> { Seq::new(ts.len(), |i: int| Operand::Val(ts[i])) }
pub open spec fn push(st: St, ts: Seq<Val>) -> St { St { ops: st.ops + opsof(ts), dead: st.dead } }

/// Pops an operand that must be `want` (anything if unknown), and says what it is.
pub open spec fn pop(st: St, want: Operand) -> Option<(Operand, St)> {
    if st.ops.len() == 0 {
        if st.dead { Some((want, st)) } else { None }
    } else {
        let v = st.ops.last();
        let s = St { ops: st.ops.drop_last(), dead: st.dead };
        if v is Unknown { Some((want, s)) }
        else if want is Unknown || v == want { Some((v, s)) }
        else { None }
    }
}

pub open spec fn pops(st: St, ts: Seq<Val>) -> Option<St>
    decreases ts.len(),
{
    if ts.len() == 0 { Some(st) }
    else {
        match pop(st, Operand::Val(ts.last())) {
            Some((_, s)) => pops(s, ts.drop_last()),
            None => None,
        }
    }
}

/// The operands taken and left by an instruction; `stop` if what follows is unreachable.
pub struct Sig { pub ins: Seq<Val>, pub outs: Seq<Val>, pub stop: bool }

pub open spec fn sig(ins: Seq<Val>, outs: Seq<Val>) -> Option<Sig> { Some(Sig { ins, outs, stop: false }) }
pub open spec fn stop(ins: Seq<Val>) -> Option<Sig> { Some(Sig { ins, outs: Seq::empty(), stop: true }) }
pub open spec fn un(a: Val, r: Val) -> Option<Sig> { sig(seq![a], seq![r]) }
pub open spec fn bin(a: Val, r: Val) -> Option<Sig> { sig(seq![a, a], seq![r]) }

/// Instructions without immediates.
pub open spec fn plain_sig(c: SCtx, op: u8) -> Option<Sig> {
    if op == 0x00 { stop(Seq::empty()) }
    else if op == 0x01 { sig(Seq::empty(), Seq::empty()) }
    else if op == 0x0F { match c.ret { Some(r) => stop(r), None => None } }
    else if op < 0x45 { None }
    else if op == 0x45 { un(Val::I32, Val::I32) }
    else if op <= 0x4F { bin(Val::I32, Val::I32) }
    else if op == 0x50 { un(Val::I64, Val::I32) }
    else if op <= 0x5A { bin(Val::I64, Val::I32) }
    else if op <= 0x60 { bin(Val::F32, Val::I32) }
    else if op <= 0x66 { bin(Val::F64, Val::I32) }
    else if op <= 0x69 { un(Val::I32, Val::I32) }
    else if op <= 0x78 { bin(Val::I32, Val::I32) }
    else if op <= 0x7B { un(Val::I64, Val::I64) }
    else if op <= 0x8A { bin(Val::I64, Val::I64) }
    else if op <= 0x91 { un(Val::F32, Val::F32) }
    else if op <= 0x98 { bin(Val::F32, Val::F32) }
    else if op <= 0x9F { un(Val::F64, Val::F64) }
    else if op <= 0xA6 { bin(Val::F64, Val::F64) }
    else if op == 0xA7 { un(Val::I64, Val::I32) }
    else if op <= 0xA9 { un(Val::F32, Val::I32) }
    else if op <= 0xAB { un(Val::F64, Val::I32) }
    else if op <= 0xAD { un(Val::I32, Val::I64) }
    else if op <= 0xAF { un(Val::F32, Val::I64) }
    else if op <= 0xB1 { un(Val::F64, Val::I64) }
    else if op <= 0xB3 { un(Val::I32, Val::F32) }
    else if op <= 0xB5 { un(Val::I64, Val::F32) }
    else if op == 0xB6 { un(Val::F64, Val::F32) }
    else if op <= 0xB8 { un(Val::I32, Val::F64) }
    else if op <= 0xBA { un(Val::I64, Val::F64) }
    else if op == 0xBB { un(Val::F32, Val::F64) }
    else if op == 0xBC { un(Val::F32, Val::I32) }
    else if op == 0xBD { un(Val::F64, Val::I64) }
    else if op == 0xBE { un(Val::I32, Val::F32) }
    else if op == 0xBF { un(Val::I64, Val::F64) }
    else { None }
}

/// Loads and stores: the value type, and the base-2 logarithm of the width in bytes.
pub open spec fn mem_val(op: u8) -> Val {
    match op {
        0x28u8 | 0x2Cu8 | 0x2Du8 | 0x2Eu8 | 0x2Fu8 | 0x36u8 | 0x3Au8 | 0x3Bu8 => Val::I32,
        0x2Au8 | 0x38u8 => Val::F32,
        0x2Bu8 | 0x39u8 => Val::F64,
        _ => Val::I64,
    }
}

pub open spec fn mem_log(op: u8) -> u32 {
    match op {
        0x2Cu8 | 0x2Du8 | 0x30u8 | 0x31u8 | 0x3Au8 | 0x3Cu8 => 0u32,
        0x2Eu8 | 0x2Fu8 | 0x32u8 | 0x33u8 | 0x3Bu8 | 0x3Du8 => 1u32,
        0x28u8 | 0x2Au8 | 0x34u8 | 0x35u8 | 0x36u8 | 0x38u8 | 0x3Eu8 => 2u32,
        _ => 3u32,
    }
}

pub open spec fn mem_sig(c: SCtx, op: u8, align: u32) -> Option<Sig> {
    if c.mems.len() == 0 || align > mem_log(op) { None }
    else if op <= 0x35 { un(Val::I32, mem_val(op)) }
    else { sig(seq![Val::I32, mem_val(op)], Seq::empty()) }
}

pub open spec fn idx_sig(c: SCtx, labels: Seq<Seq<Val>>, op: u8, x: u32) -> Option<Sig> {
    match op {
        0x0Cu8 => if x < labels.len() { stop(labels[x as int]) } else { None },
        0x0Du8 => if x < labels.len() { sig(labels[x as int].push(Val::I32), labels[x as int]) } else { None },
        0x10u8 => if x < c.funcs.len() { sig(c.funcs[x as int].params, c.funcs[x as int].results) } else { None },
        0x20u8 => if x < c.locals.len() { sig(Seq::empty(), seq![c.locals[x as int]]) } else { None },
        0x21u8 => if x < c.locals.len() { sig(seq![c.locals[x as int]], Seq::empty()) } else { None },
        0x22u8 => if x < c.locals.len() { un(c.locals[x as int], c.locals[x as int]) } else { None },
        0x23u8 => if x < c.globals.len() { sig(Seq::empty(), seq![c.globals[x as int].val]) } else { None },
        0x24u8 => if x < c.globals.len() && c.globals[x as int].mt is Var { sig(seq![c.globals[x as int].val], Seq::empty()) } else { None },
        0x3Fu8 => if x < c.mems.len() { sig(Seq::empty(), seq![Val::I32]) } else { None },
        0x40u8 => if x < c.mems.len() { un(Val::I32, Val::I32) } else { None },
        _ => None,
    }
}

pub open spec fn table_targets(labels: Seq<Seq<Val>>, ls: Seq<u32>, d: u32) -> bool {
    &&& d < labels.len()
    &&& forall|i: int| 0 <= i < ls.len() ==> #[trigger] ls[i] < labels.len() && labels[ls[i] as int] == labels[d as int]
}

/// Everything except drop, select and the structured instructions.
pub open spec fn instr_sig(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr) -> Option<Sig> {
    match i {
        SInstr::Plain(op) => plain_sig(c, op),
        SInstr::Idx(op, x) => idx_sig(c, labels, op, x),
        SInstr::Idx2(_, x, y) =>
            if y < c.tables.len() && c.tables[y as int].elem is FuncRef && x < c.types.len() { sig(c.types[x as int].params.push(Val::I32), c.types[x as int].results) } else { None },
        SInstr::Mem(op, a, _) => mem_sig(c, op, a),
        SInstr::I32(_) => sig(Seq::empty(), seq![Val::I32]),
        SInstr::I64(_) => sig(Seq::empty(), seq![Val::I64]),
        SInstr::F32(_) => sig(Seq::empty(), seq![Val::F32]),
        SInstr::F64(_) => sig(Seq::empty(), seq![Val::F64]),
        SInstr::BrTable(ls, d) => if table_targets(labels, ls, d) { stop(labels[d as int].push(Val::I32)) } else { None },
        SInstr::Block(..) => None,
        SInstr::If(..) => None,
    }
}

pub open spec fn apply(s: Option<Sig>, st: St) -> Option<St> {
    match s {
        None => None,
        Some(g) => match pops(st, g.ins) {
            None => None,
            Some(t) => Some(if g.stop { dead() } else { push(t, g.outs) }),
        },
    }
}

pub open spec fn select(st: St) -> Option<St> {
    match pops(st, seq![Val::I32]) {
        None => None,
        Some(a) => match pop(a, Operand::Unknown) {
            None => None,
            Some((t, b)) => match pop(b, t) {
                None => None,
                Some((u, d)) => Some(St { ops: d.ops.push(u), dead: d.dead }),
            },
        },
    }
}

/// Whether a block may end here: exactly the results are left.
pub open spec fn closes(st: St, out: Seq<Val>) -> bool {
    match pops(st, out) { Some(s) => s.ops.len() == 0, None => false }
}

/// Instructions that contain no others.
pub open spec fn chk_simple(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr, st: St) -> Option<St> {
    match i {
        SInstr::Plain(0x1Au8) => match pop(st, Operand::Unknown) { Some((_, s)) => Some(s), None => None },
        SInstr::Plain(0x1Bu8) => select(st),
        _ => apply(instr_sig(c, labels, i), st),
    }
}

#[verifier::opaque]
pub open spec fn chk(c: SCtx, labels: Seq<Seq<Val>>, i: SInstr, st: St) -> Option<St>
    decreases i, 0int,
{
    match i {
        SInstr::Block(op, rt, body) =>
            if body_ok(c, labels, if op == 0x03 { Seq::empty() } else { rt }, rt, body) { Some(push(st, rt)) } else { None },
        SInstr::If(rt, a, b) =>
            if body_ok(c, labels, rt, rt, a) && body_ok(c, labels, rt, rt, b) { apply(sig(seq![Val::I32], rt), st) } else { None },
        _ => chk_simple(c, labels, i, st),
    }
}

#[verifier::opaque]
pub open spec fn chks(c: SCtx, labels: Seq<Seq<Val>>, is: Seq<SInstr>, st: St) -> Option<St>
    decreases is, 1int,
{
    if is.len() == 0 { Some(st) }
    else {
        match chks(c, labels, is.drop_last(), st) {
            Some(s) => chk(c, labels, is.last(), s),
            None => None,
        }
    }
}

#[verifier::opaque]
pub open spec fn body_ok(c: SCtx, labels: Seq<Seq<Val>>, label: Seq<Val>, out: Seq<Val>, body: Seq<SInstr>) -> bool
    decreases body, 2int,
{
    match chks(c, seq![label] + labels, body, fresh()) {
        Some(s) => closes(s, out),
        None => false,
    }
}

/// No bare terminator or separator occurs (the parser never produces one).
#[verifier::opaque]
pub open spec fn clean(is: Seq<SInstr>) -> bool
    decreases is, 1int,
{
    is.len() == 0 || (clean(is.drop_last()) && clean1(is.last()))
}

#[verifier::opaque]
pub open spec fn clean1(i: SInstr) -> bool
    decreases i, 0int,
{
    match i {
        SInstr::Plain(op) => op != 0x05 && op != 0x0B,
        SInstr::Block(_, _, b) => clean(b),
        SInstr::If(_, a, b) => clean(a) && clean(b),
        _ => true,
    }
}

// ---- constant expressions -------------------------------------------------------------------

pub open spec fn is_const(c: SCtx, i: SInstr) -> bool {
    match i {
        SInstr::I32(_) | SInstr::I64(_) | SInstr::F32(_) | SInstr::F64(_) => true,
        SInstr::Idx(op, x) => op == 0x23 && x < c.globals.len() && c.globals[x as int].mt is Const,
        _ => false,
    }
}

pub open spec fn all_const(c: SCtx, is: Seq<SInstr>) -> bool { forall|i: int| 0 <= i < is.len() ==> is_const(c, #[trigger] is[i]) }

pub open spec fn const_ok(c: SCtx, is: Seq<SInstr>, t: Val) -> bool {
    all_const(c, is) && body_ok(c, Seq::empty(), seq![t], seq![t], is)
}

// ---- module components ----------------------------------------------------------------------

pub open spec fn limits_ok(l: ty::Limits, bound: int) -> bool {
    &&& l.min <= bound
    &&& match l.max { Some(m) => l.min <= m && m <= bound, None => true }
}
pub open spec fn table_ok(t: ty::Table) -> bool { limits_ok(t.lim, 0xFFFF_FFFF) }
pub open spec fn mem_ok(t: ty::Mem) -> bool { limits_ok(t.lim, 65536) }
pub open spec fn functy_ok(t: SFuncTy) -> bool { t.results.len() <= 1 }

pub open spec fn func_ctx(c: SCtx, f: SFunc) -> SCtx {
    SCtx { locals: c.types[f.ty as int].params + f.locals, ret: Some(c.types[f.ty as int].results), ..c }
}
pub open spec fn func_ok(c: SCtx, f: SFunc) -> bool {
    &&& f.ty < c.types.len()
    &&& body_ok(func_ctx(c, f), Seq::empty(), c.types[f.ty as int].results, c.types[f.ty as int].results, f.body)
}
pub open spec fn global_ok(c: SCtx, g: SGlobal) -> bool { const_ok(c, g.init, g.ty.val) }
pub open spec fn elem_ok(c: SCtx, e: SElem) -> bool {
    &&& e.table < c.tables.len()
    &&& c.tables[e.table as int].elem is FuncRef
    &&& const_ok(c, e.offset, Val::I32)
    &&& forall|i: int| 0 <= i < e.init.len() ==> #[trigger] e.init[i] < c.funcs.len()
}
pub open spec fn data_ok(c: SCtx, d: SData) -> bool {
    &&& d.mem < c.mems.len()
    &&& const_ok(c, d.offset, Val::I32)
}
pub open spec fn start_ok(c: SCtx, s: Option<u32>) -> bool {
    match s {
        Some(f) => f < c.funcs.len() && c.funcs[f as int].params.len() == 0 && c.funcs[f as int].results.len() == 0,
        None => true,
    }
}
pub open spec fn import_ok(c: SCtx, d: module::desc::Import) -> bool {
    match d {
        module::desc::Import::Func(t) => t.0 < c.types.len(),
        module::desc::Import::Table(t) => table_ok(t),
        module::desc::Import::Mem(t) => mem_ok(t),
        module::desc::Import::Global(_) => true,
    }
}
pub open spec fn export_ok(c: SCtx, d: module::desc::Export) -> bool {
    match d {
        module::desc::Export::Func(x) => x.0 < c.funcs.len(),
        module::desc::Export::Table(x) => x.0 < c.tables.len(),
        module::desc::Export::Mem(x) => x.0 < c.mems.len(),
        module::desc::Export::Global(x) => x.0 < c.globals.len(),
    }
}

// ---- index spaces ---------------------------------------------------------------------------

pub open spec fn imp_funcs(types: Seq<SFuncTy>, is: Seq<SImport>) -> Seq<SFuncTy>
    decreases is.len(),
{
    if is.len() == 0 { Seq::empty() }
    else {
        let p = imp_funcs(types, is.drop_last());
        match is.last().desc { module::desc::Import::Func(t) => p.push(types[t.0 as int]), _ => p }
    }
}
pub open spec fn imp_tables(is: Seq<SImport>) -> Seq<ty::Table>
    decreases is.len(),
{
    if is.len() == 0 { Seq::empty() }
    else {
        let p = imp_tables(is.drop_last());
        match is.last().desc { module::desc::Import::Table(t) => p.push(t), _ => p }
    }
}
pub open spec fn imp_mems(is: Seq<SImport>) -> Seq<ty::Mem>
    decreases is.len(),
{
    if is.len() == 0 { Seq::empty() }
    else {
        let p = imp_mems(is.drop_last());
        match is.last().desc { module::desc::Import::Mem(t) => p.push(t), _ => p }
    }
}
pub open spec fn imp_globals(is: Seq<SImport>) -> Seq<ty::Global>
    decreases is.len(),
{
    if is.len() == 0 { Seq::empty() }
    else {
        let p = imp_globals(is.drop_last());
        match is.last().desc { module::desc::Import::Global(t) => p.push(t), _ => p }
    }
}
pub open spec fn def_funcs(types: Seq<SFuncTy>, fs: Seq<SFunc>) -> Seq<SFuncTy> { Seq::new(fs.len(), |i: int| types[fs[i].ty as int]) }
pub open spec fn def_globals(gs: Seq<SGlobal>) -> Seq<ty::Global> { Seq::new(gs.len(), |i: int| gs[i].ty) }

pub open spec fn no_ctx() -> SCtx {
    SCtx { types: Seq::empty(), funcs: Seq::empty(), tables: Seq::empty(), mems: Seq::empty(), globals: Seq::empty(), locals: Seq::empty(), ret: None }
}

/// The context of a module: imports first, then its own definitions.
pub open spec fn mod_ctx(m: SModule) -> SCtx {
    SCtx {
        types: m.types,
        funcs: imp_funcs(m.types, m.imports) + def_funcs(m.types, m.funcs),
        tables: imp_tables(m.imports) + m.tables,
        mems: imp_mems(m.imports) + m.mems,
        globals: imp_globals(m.imports) + def_globals(m.globals),
        ..no_ctx()
    }
}
/// The context of global initialisers: imported globals only.
pub open spec fn init_ctx(m: SModule) -> SCtx { SCtx { globals: imp_globals(m.imports), ..no_ctx() } }

// ---- modules --------------------------------------------------------------------------------

pub open spec fn types_ok(s: Seq<SFuncTy>) -> bool { forall|i: int| 0 <= i < s.len() ==> functy_ok(#[trigger] s[i]) }
pub open spec fn funcs_ok(c: SCtx, s: Seq<SFunc>) -> bool { forall|i: int| 0 <= i < s.len() ==> func_ok(c, #[trigger] s[i]) }
pub open spec fn tables_ok(s: Seq<ty::Table>) -> bool { forall|i: int| 0 <= i < s.len() ==> table_ok(#[trigger] s[i]) }
pub open spec fn mems_ok(s: Seq<ty::Mem>) -> bool { forall|i: int| 0 <= i < s.len() ==> mem_ok(#[trigger] s[i]) }
pub open spec fn globals_ok(c: SCtx, s: Seq<SGlobal>) -> bool { forall|i: int| 0 <= i < s.len() ==> global_ok(c, #[trigger] s[i]) }
pub open spec fn elems_ok(c: SCtx, s: Seq<SElem>) -> bool { forall|i: int| 0 <= i < s.len() ==> elem_ok(c, #[trigger] s[i]) }
pub open spec fn datas_ok(c: SCtx, s: Seq<SData>) -> bool { forall|i: int| 0 <= i < s.len() ==> data_ok(c, #[trigger] s[i]) }
pub open spec fn imports_ok(c: SCtx, s: Seq<SImport>) -> bool { forall|i: int| 0 <= i < s.len() ==> import_ok(c, (#[trigger] s[i]).desc) }
pub open spec fn exports_ok(c: SCtx, s: Seq<SExport>) -> bool { forall|i: int| 0 <= i < s.len() ==> export_ok(c, (#[trigger] s[i]).desc) }
pub open spec fn names_of(s: Seq<SExport>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].name) }
pub open spec fn distinct(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }

pub open spec fn module_ok(m: SModule) -> bool {
    let c = mod_ctx(m);
    &&& types_ok(m.types)
    &&& funcs_ok(c, m.funcs)
    &&& tables_ok(m.tables)
    &&& mems_ok(m.mems)
    &&& globals_ok(init_ctx(m), m.globals)
    &&& elems_ok(c, m.elem)
    &&& datas_ok(c, m.data)
    &&& start_ok(c, m.start)
    &&& imports_ok(c, m.imports)
    &&& exports_ok(c, m.exports)
    &&& c.tables.len() <= 1
    &&& c.mems.len() <= 1
    &&& distinct(names_of(m.exports))
}

/// Import type indices and function type indices in range: what building the context needs.
pub open spec fn imps_in(types: Seq<SFuncTy>, s: Seq<SImport>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match (#[trigger] s[i]).desc { module::desc::Import::Func(t) => t.0 < types.len(), _ => true }
}
pub open spec fn defs_in(types: Seq<SFuncTy>, s: Seq<SFunc>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ty < types.len() }

/// The first n conditions of a module's validity.
pub open spec fn upto(m: SModule, n: int) -> bool {
    &&& n >= 1 ==> types_ok(m.types)
    &&& n >= 2 ==> funcs_ok(mod_ctx(m), m.funcs)
    &&& n >= 3 ==> tables_ok(m.tables)
    &&& n >= 4 ==> mems_ok(m.mems)
    &&& n >= 5 ==> globals_ok(init_ctx(m), m.globals)
    &&& n >= 6 ==> elems_ok(mod_ctx(m), m.elem)
    &&& n >= 7 ==> datas_ok(mod_ctx(m), m.data)
    &&& n >= 8 ==> start_ok(mod_ctx(m), m.start)
    &&& n >= 9 ==> imports_ok(mod_ctx(m), m.imports)
}

pub open spec fn clean_module(m: SModule) -> bool {
    &&& forall|i: int| 0 <= i < m.funcs.len() ==> clean((#[trigger] m.funcs[i]).body)
    &&& forall|i: int| 0 <= i < m.globals.len() ==> clean((#[trigger] m.globals[i]).init)
    &&& forall|i: int| 0 <= i < m.elem.len() ==> clean((#[trigger] m.elem[i]).offset)
    &&& forall|i: int| 0 <= i < m.data.len() ==> clean((#[trigger] m.data[i]).offset)
}

// ---- external types -------------------------------------------------------------------------

pub enum SExt { Func(SFuncTy), Table(ty::Table), Mem(ty::Mem), Global(ty::Global) }

pub open spec fn import_ext(c: SCtx, d: module::desc::Import) -> SExt {
    match d {
        module::desc::Import::Func(t) => SExt::Func(c.types[t.0 as int]),
        module::desc::Import::Table(t) => SExt::Table(t),
        module::desc::Import::Mem(t) => SExt::Mem(t),
        module::desc::Import::Global(t) => SExt::Global(t),
    }
}
pub open spec fn export_ext(c: SCtx, d: module::desc::Export) -> SExt {
    match d {
        module::desc::Export::Func(x) => SExt::Func(c.funcs[x.0 as int]),
        module::desc::Export::Table(x) => SExt::Table(c.tables[x.0 as int]),
        module::desc::Export::Mem(x) => SExt::Mem(c.mems[x.0 as int]),
        module::desc::Export::Global(x) => SExt::Global(c.globals[x.0 as int]),
    }
}
pub open spec fn import_exts(c: SCtx, s: Seq<SImport>) -> Seq<SExt> { Seq::new(s.len(), |i: int| import_ext(c, s[i].desc)) }
pub open spec fn export_exts(c: SCtx, s: Seq<SExport>) -> Seq<SExt> { Seq::new(s.len(), |i: int| export_ext(c, s[i].desc)) }

}
