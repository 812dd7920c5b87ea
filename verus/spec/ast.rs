// Abstract syntax used by the specifications, and the view of the crate's data as abstract syntax.
// An instruction is identified by its opcode; the table in `v_instr` says which opcode each
// constructor of the crate stands for, by its WebAssembly name.
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use crate::structure::{ty, idx, module};
use crate::structure::instr::Instr;
verus! {

pub enum SInstr {
    Plain(u8),
    Idx(u8, u32),
    Idx2(u8, u32, u32),
    Mem(u8, u32, u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    BrTable(Seq<u32>, u32),
    Block(u8, Seq<ty::Val>, Seq<SInstr>),
    If(Seq<ty::Val>, Seq<SInstr>, Seq<SInstr>),
}

pub struct SFuncTy { pub params: Seq<ty::Val>, pub results: Seq<ty::Val> }
pub struct SFunc { pub ty: u32, pub locals: Seq<ty::Val>, pub body: Seq<SInstr> }
pub struct SGlobal { pub ty: ty::Global, pub init: Seq<SInstr> }
pub struct SElem { pub table: u32, pub offset: Seq<SInstr>, pub init: Seq<u32> }
pub struct SData { pub mem: u32, pub offset: Seq<SInstr>, pub init: Seq<u8> }
pub struct SImport { pub module: Seq<char>, pub name: Seq<char>, pub desc: module::desc::Import }
pub struct SExport { pub name: Seq<char>, pub desc: module::desc::Export }
pub struct SModule {
    pub types: Seq<SFuncTy>,
    pub funcs: Seq<SFunc>,
    pub tables: Seq<ty::Table>,
    pub mems: Seq<ty::Mem>,
    pub globals: Seq<SGlobal>,
    pub elem: Seq<SElem>,
    pub data: Seq<SData>,
    pub start: Option<u32>,
    pub imports: Seq<SImport>,
    pub exports: Seq<SExport>,
}

pub open spec fn v_labels(s: Seq<idx::Label>) -> Seq<u32> { s.map_values(|x: idx::Label| x.0) }
pub open spec fn v_funcidxs(s: Seq<idx::Func>) -> Seq<u32> { s.map_values(|x: idx::Func| x.0) }
pub open spec fn v_functy(f: ty::Func) -> SFuncTy { SFuncTy { params: f.params@, results: f.results@ } }
pub open spec fn v_func(f: module::Func) -> SFunc { SFunc { ty: f.ty.0, locals: f.locals@, body: v_instrs(f.body.0@) } }
pub open spec fn v_global(g: module::Global) -> SGlobal { SGlobal { ty: g.ty, init: v_instrs(g.init.0@) } }
pub open spec fn v_elem(e: module::Elem) -> SElem { SElem { table: e.table.0, offset: v_instrs(e.offset.0@), init: v_funcidxs(e.init@) } }
pub open spec fn v_data(d: module::Data) -> SData { SData { mem: d.mem.0, offset: v_instrs(d.offset.0@), init: d.init@ } }
pub open spec fn v_import(i: module::Import) -> SImport { SImport { module: i.module@, name: i.name@, desc: i.desc } }
pub open spec fn v_export(e: module::Export) -> SExport { SExport { name: e.name@, desc: e.desc } }
pub open spec fn v_start(s: Option<module::Start>) -> Option<u32> { match s { Some(x) => Some(x.func.0), None => None } }
pub open spec fn v_functys(s: Seq<ty::Func>) -> Seq<SFuncTy> { crate::dec::dvs(s) }
pub open spec fn v_funcs(s: Seq<module::Func>) -> Seq<SFunc> { crate::dec::dvs(s) }
pub open spec fn v_tables(s: Seq<module::Table>) -> Seq<ty::Table> { crate::dec::dvs(s) }
pub open spec fn v_mems(s: Seq<module::Mem>) -> Seq<ty::Mem> { crate::dec::dvs(s) }
pub open spec fn v_globals(s: Seq<module::Global>) -> Seq<SGlobal> { crate::dec::dvs(s) }
pub open spec fn v_elems(s: Seq<module::Elem>) -> Seq<SElem> { crate::dec::dvs(s) }
pub open spec fn v_datas(s: Seq<module::Data>) -> Seq<SData> { crate::dec::dvs(s) }
pub open spec fn v_imports(s: Seq<module::Import>) -> Seq<SImport> { crate::dec::dvs(s) }
pub open spec fn v_exports(s: Seq<module::Export>) -> Seq<SExport> { crate::dec::dvs(s) }
pub open spec fn v_module(m: module::Module) -> SModule {
    SModule {
        types: v_functys(m.types@),
        funcs: v_funcs(m.funcs@),
        tables: v_tables(m.tables@),
        mems: v_mems(m.mems@),
        globals: v_globals(m.globals@),
        elem: v_elems(m.elem@),
        data: v_datas(m.data@),
        start: v_start(m.start),
        imports: v_imports(m.imports@),
        exports: v_exports(m.exports@),
    }
}

#[verifier::opaque]
pub open spec fn v_instrs(s: Seq<Instr>) -> Seq<SInstr>
    decreases s,
{
    if s.len() == 0 { Seq::empty() } else { v_instrs(s.drop_last()).push(v_instr(s.last())) }
}

#[verifier::opaque]
pub open spec fn v_instr(i: Instr) -> SInstr
    decreases i,
{
    match i {
        Instr::Unreachable => SInstr::Plain(0x00u8),
        Instr::Nop => SInstr::Plain(0x01u8),
        Instr::Block(r, e) => SInstr::Block(0x02u8, r.0@, v_instrs(e.0@)),
        Instr::Loop(r, e) => SInstr::Block(0x03u8, r.0@, v_instrs(e.0@)),
        Instr::If(r, a, b) => SInstr::If(r.0@, v_instrs(a.0@), v_instrs(b.0@)),
        Instr::Else => SInstr::Plain(0x05u8),
        Instr::End => SInstr::Plain(0x0Bu8),
        Instr::Br(x) => SInstr::Idx(0x0Cu8, x.0),
        Instr::BrIf(x) => SInstr::Idx(0x0Du8, x.0),
        Instr::BrTable(v, d) => SInstr::BrTable(v_labels(v@), d.0),
        Instr::Return => SInstr::Plain(0x0Fu8),
        Instr::Call(x) => SInstr::Idx(0x10u8, x.0),
        Instr::CallIndirect(x, y) => SInstr::Idx2(0x11u8, x.0, y.0),
        Instr::Drop => SInstr::Plain(0x1Au8),
        Instr::Select => SInstr::Plain(0x1Bu8),
        Instr::LocalGet(x) => SInstr::Idx(0x20u8, x.0),
        Instr::LocalSet(x) => SInstr::Idx(0x21u8, x.0),
        Instr::LocalTee(x) => SInstr::Idx(0x22u8, x.0),
        Instr::GlobalGet(x) => SInstr::Idx(0x23u8, x.0),
        Instr::GlobalSet(x) => SInstr::Idx(0x24u8, x.0),
        Instr::I32Load(a, o) => SInstr::Mem(0x28u8, a, o),
        Instr::I64Load(a, o) => SInstr::Mem(0x29u8, a, o),
        Instr::F32Load(a, o) => SInstr::Mem(0x2Au8, a, o),
        Instr::F64Load(a, o) => SInstr::Mem(0x2Bu8, a, o),
        Instr::I32Load8S(a, o) => SInstr::Mem(0x2Cu8, a, o),
        Instr::I32Load8U(a, o) => SInstr::Mem(0x2Du8, a, o),
        Instr::I32Load16S(a, o) => SInstr::Mem(0x2Eu8, a, o),
        Instr::I32Load16U(a, o) => SInstr::Mem(0x2Fu8, a, o),
        Instr::I64Load8S(a, o) => SInstr::Mem(0x30u8, a, o),
        Instr::I64Load8U(a, o) => SInstr::Mem(0x31u8, a, o),
        Instr::I64Load16S(a, o) => SInstr::Mem(0x32u8, a, o),
        Instr::I64Load16U(a, o) => SInstr::Mem(0x33u8, a, o),
        Instr::I64Load32S(a, o) => SInstr::Mem(0x34u8, a, o),
        Instr::I64Load32U(a, o) => SInstr::Mem(0x35u8, a, o),
        Instr::I32Store(a, o) => SInstr::Mem(0x36u8, a, o),
        Instr::I64Store(a, o) => SInstr::Mem(0x37u8, a, o),
        Instr::F32Store(a, o) => SInstr::Mem(0x38u8, a, o),
        Instr::F64Store(a, o) => SInstr::Mem(0x39u8, a, o),
        Instr::I32Store8(a, o) => SInstr::Mem(0x3Au8, a, o),
        Instr::I32Store16(a, o) => SInstr::Mem(0x3Bu8, a, o),
        Instr::I64Store8(a, o) => SInstr::Mem(0x3Cu8, a, o),
        Instr::I64Store16(a, o) => SInstr::Mem(0x3Du8, a, o),
        Instr::I64Store32(a, o) => SInstr::Mem(0x3Eu8, a, o),
        Instr::MemSize(x) => SInstr::Idx(0x3Fu8, x.0),
        Instr::MemGrow(x) => SInstr::Idx(0x40u8, x.0),
        Instr::ConstI32(c) => SInstr::I32(c),
        Instr::ConstI64(c) => SInstr::I64(c),
        Instr::ConstF32(c) => SInstr::F32(c.to_bits_spec()),
        Instr::ConstF64(c) => SInstr::F64(c.to_bits_spec()),
        Instr::I32Eqz => SInstr::Plain(0x45u8),
        Instr::I32Eq => SInstr::Plain(0x46u8),
        Instr::I32Ne => SInstr::Plain(0x47u8),
        Instr::I32LtS => SInstr::Plain(0x48u8),
        Instr::I32LtU => SInstr::Plain(0x49u8),
        Instr::I32GtS => SInstr::Plain(0x4Au8),
        Instr::I32GtU => SInstr::Plain(0x4Bu8),
        Instr::I32LeS => SInstr::Plain(0x4Cu8),
        Instr::I32LeU => SInstr::Plain(0x4Du8),
        Instr::I32GeS => SInstr::Plain(0x4Eu8),
        Instr::I32GeU => SInstr::Plain(0x4Fu8),
        Instr::I64Eqz => SInstr::Plain(0x50u8),
        Instr::I64Eq => SInstr::Plain(0x51u8),
        Instr::I64Ne => SInstr::Plain(0x52u8),
        Instr::I64LtS => SInstr::Plain(0x53u8),
        Instr::I64LtU => SInstr::Plain(0x54u8),
        Instr::I64GtS => SInstr::Plain(0x55u8),
        Instr::I64GtU => SInstr::Plain(0x56u8),
        Instr::I64LeS => SInstr::Plain(0x57u8),
        Instr::I64LeU => SInstr::Plain(0x58u8),
        Instr::I64GeS => SInstr::Plain(0x59u8),
        Instr::I64GeU => SInstr::Plain(0x5Au8),
        Instr::F32Eq => SInstr::Plain(0x5Bu8),
        Instr::F32Ne => SInstr::Plain(0x5Cu8),
        Instr::F32Lt => SInstr::Plain(0x5Du8),
        Instr::F32Gt => SInstr::Plain(0x5Eu8),
        Instr::F32Le => SInstr::Plain(0x5Fu8),
        Instr::F32Ge => SInstr::Plain(0x60u8),
        Instr::F64Eq => SInstr::Plain(0x61u8),
        Instr::F64Ne => SInstr::Plain(0x62u8),
        Instr::F64Lt => SInstr::Plain(0x63u8),
        Instr::F64Gt => SInstr::Plain(0x64u8),
        Instr::F64Le => SInstr::Plain(0x65u8),
        Instr::F64Ge => SInstr::Plain(0x66u8),
        Instr::I32Clz => SInstr::Plain(0x67u8),
        Instr::I32Ctz => SInstr::Plain(0x68u8),
        Instr::I32Popcnt => SInstr::Plain(0x69u8),
        Instr::I32Add => SInstr::Plain(0x6Au8),
        Instr::I32Sub => SInstr::Plain(0x6Bu8),
        Instr::I32Mul => SInstr::Plain(0x6Cu8),
        Instr::I32DivS => SInstr::Plain(0x6Du8),
        Instr::I32DivU => SInstr::Plain(0x6Eu8),
        Instr::I32RemS => SInstr::Plain(0x6Fu8),
        Instr::I32RemU => SInstr::Plain(0x70u8),
        Instr::I32And => SInstr::Plain(0x71u8),
        Instr::I32Or => SInstr::Plain(0x72u8),
        Instr::I32Xor => SInstr::Plain(0x73u8),
        Instr::I32Shl => SInstr::Plain(0x74u8),
        Instr::I32ShrS => SInstr::Plain(0x75u8),
        Instr::I32ShrU => SInstr::Plain(0x76u8),
        Instr::I32Rotl => SInstr::Plain(0x77u8),
        Instr::I32Rotr => SInstr::Plain(0x78u8),
        Instr::I64Clz => SInstr::Plain(0x79u8),
        Instr::I64Ctz => SInstr::Plain(0x7Au8),
        Instr::I64Popcnt => SInstr::Plain(0x7Bu8),
        Instr::I64Add => SInstr::Plain(0x7Cu8),
        Instr::I64Sub => SInstr::Plain(0x7Du8),
        Instr::I64Mul => SInstr::Plain(0x7Eu8),
        Instr::I64DivS => SInstr::Plain(0x7Fu8),
        Instr::I64DivU => SInstr::Plain(0x80u8),
        Instr::I64RemS => SInstr::Plain(0x81u8),
        Instr::I64RemU => SInstr::Plain(0x82u8),
        Instr::I64And => SInstr::Plain(0x83u8),
        Instr::I64Or => SInstr::Plain(0x84u8),
        Instr::I64Xor => SInstr::Plain(0x85u8),
        Instr::I64Shl => SInstr::Plain(0x86u8),
        Instr::I64ShrS => SInstr::Plain(0x87u8),
        Instr::I64ShrU => SInstr::Plain(0x88u8),
        Instr::I64Rotl => SInstr::Plain(0x89u8),
        Instr::I64Rotr => SInstr::Plain(0x8Au8),
        Instr::F32Abs => SInstr::Plain(0x8Bu8),
        Instr::F32Neg => SInstr::Plain(0x8Cu8),
        Instr::F32Ceil => SInstr::Plain(0x8Du8),
        Instr::F32Floor => SInstr::Plain(0x8Eu8),
        Instr::F32Trunc => SInstr::Plain(0x8Fu8),
        Instr::F32Nearest => SInstr::Plain(0x90u8),
        Instr::F32Sqrt => SInstr::Plain(0x91u8),
        Instr::F32Add => SInstr::Plain(0x92u8),
        Instr::F32Sub => SInstr::Plain(0x93u8),
        Instr::F32Mul => SInstr::Plain(0x94u8),
        Instr::F32Div => SInstr::Plain(0x95u8),
        Instr::F32Min => SInstr::Plain(0x96u8),
        Instr::F32Max => SInstr::Plain(0x97u8),
        Instr::F32Copysign => SInstr::Plain(0x98u8),
        Instr::F64Abs => SInstr::Plain(0x99u8),
        Instr::F64Neg => SInstr::Plain(0x9Au8),
        Instr::F64Ceil => SInstr::Plain(0x9Bu8),
        Instr::F64Floor => SInstr::Plain(0x9Cu8),
        Instr::F64Trunc => SInstr::Plain(0x9Du8),
        Instr::F64Nearest => SInstr::Plain(0x9Eu8),
        Instr::F64Sqrt => SInstr::Plain(0x9Fu8),
        Instr::F64Add => SInstr::Plain(0xA0u8),
        Instr::F64Sub => SInstr::Plain(0xA1u8),
        Instr::F64Mul => SInstr::Plain(0xA2u8),
        Instr::F64Div => SInstr::Plain(0xA3u8),
        Instr::F64Min => SInstr::Plain(0xA4u8),
        Instr::F64Max => SInstr::Plain(0xA5u8),
        Instr::F64Copysign => SInstr::Plain(0xA6u8),
        Instr::I32WrapI64 => SInstr::Plain(0xA7u8),
        Instr::I32TruncF32S => SInstr::Plain(0xA8u8),
        Instr::I32TruncF32U => SInstr::Plain(0xA9u8),
        Instr::I32TruncF64S => SInstr::Plain(0xAAu8),
        Instr::I32TruncF64U => SInstr::Plain(0xABu8),
        Instr::I64ExtendI32S => SInstr::Plain(0xACu8),
        Instr::I64ExtendI32U => SInstr::Plain(0xADu8),
        Instr::I64TruncF32S => SInstr::Plain(0xAEu8),
        Instr::I64TruncF32U => SInstr::Plain(0xAFu8),
        Instr::I64TruncF64S => SInstr::Plain(0xB0u8),
        Instr::I64TruncF64U => SInstr::Plain(0xB1u8),
        Instr::F32ConvertI32S => SInstr::Plain(0xB2u8),
        Instr::F32ConvertI32U => SInstr::Plain(0xB3u8),
        Instr::F32ConvertI64S => SInstr::Plain(0xB4u8),
        Instr::F32ConvertI64U => SInstr::Plain(0xB5u8),
        Instr::F32DemoteF64 => SInstr::Plain(0xB6u8),
        Instr::F64ConvertI32S => SInstr::Plain(0xB7u8),
        Instr::F64ConvertI32U => SInstr::Plain(0xB8u8),
        Instr::F64ConvertI64S => SInstr::Plain(0xB9u8),
        Instr::F64ConvertI64U => SInstr::Plain(0xBAu8),
        Instr::F64PromoteF32 => SInstr::Plain(0xBBu8),
        Instr::I32ReinterpretF32 => SInstr::Plain(0xBCu8),
        Instr::I64ReinterpretF64 => SInstr::Plain(0xBDu8),
        Instr::F32ReinterpretI32 => SInstr::Plain(0xBEu8),
        Instr::F64ReinterpretI64 => SInstr::Plain(0xBFu8),
    }
}

}
