//! The same entry points over two crates: the tree under check and the proved reference.
pub struct Out {
    pub ok: bool,
    pub panic: bool,
    pub text: String,
    pub rest: usize,
    pub peak: usize,
}

pub const KINDS: &[&str] = &[
    "byte", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64",
    "arr0", "arr1", "arr2", "arr3", "arr4", "arr5", "arr6", "arr7", "arr8", "arr3_u32", "arr8_u32", "arr5_i64", "arr4_vec",
    "vec_byte", "vec_u8", "vec_u32", "vec_i64", "vec_f32", "vec_val", "vec_func", "vec_vec", "vec_string", "vec_instr",
    "cvec_u8", "cvec_byte", "cvec_val", "cvec_i32", "uvec_byte", "uvec_sized", "uvec_sized_func", "string",
    "sized_byte", "sized_u32", "sized_vec", "sized_arr2", "sized_arr0", "sized_consume", "sized_sized", "sized_string", "sized_func", "sized_pair", "sized_vec_import",
    "consume", "name_consume",
    "idx_type", "idx_func", "idx_table", "idx_mem", "idx_global", "idx_local", "idx_label",
    "limits", "val", "elemty", "retval", "functy", "tablety", "memty", "mut", "globalty",
    "instr", "expr", "constexpr",
    "mfunc", "mtable", "mmem", "mglobal", "melem", "mdata", "mstart", "mimport", "mexport", "dimport", "dexport",
    "module",
];

macro_rules! api {
    ($m:ident, $c:ident) => {
        pub mod $m {
            use super::Out;
            use std::fmt::Write;
            use $c::binary::{Byte, CompactVec, Consume, Error, Sized as Sz, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
            use $c::structure::instr::{ConstExpr, Expr, Instr};
            use $c::structure::{idx, module, ty};
            use $c::validation::ValidationEntry;
            use $c::validation::module::result::External;

            fn instrs(v: &[Instr], s: &mut String) {
                s.push('[');
                for i in v {
                    match i {
                        Instr::ConstF32(x) => s.push_str(&format!("f32:{:08x}", x.to_bits())),
                        Instr::ConstF64(x) => s.push_str(&format!("f64:{:016x}", x.to_bits())),
                        Instr::Block(r, Expr(b)) => {
                            s.push_str(&format!("block{:?}", r));
                            instrs(b, s)
                        }
                        Instr::Loop(r, Expr(b)) => {
                            s.push_str(&format!("loop{:?}", r));
                            instrs(b, s)
                        }
                        Instr::If(r, Expr(a), Expr(b)) => {
                            s.push_str(&format!("if{:?}", r));
                            instrs(a, s);
                            instrs(b, s)
                        }
                        o => s.push_str(&format!("{:?}", o)),
                    }
                    s.push(';');
                }
                s.push(']');
            }
            fn is(v: &[Instr]) -> String {
                let mut s = String::new();
                instrs(v, &mut s);
                s
            }
            /// The value in words that do not depend on `Debug`, so neither on the order of fields.
            trait Show {
                fn show(&self) -> String { let mut s = String::new(); self.put(&mut s); s }
                fn put(&self, s: &mut String) { s.push_str(&self.show()) }
            }
            impl<T: Show> Show for [T] { fn put(&self, s: &mut String) { s.push('['); for x in self { x.put(s); s.push(',') } s.push(']') } }
            impl<T: Show> Show for Vec<T> { fn put(&self, s: &mut String) { self[..].put(s) } }
            impl<T: Show, const N: usize> Show for [T; N] { fn put(&self, s: &mut String) { self[..].put(s) } }
            impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { Some(x) => format!("some {}", x.show()), None => "none".into() } } }
            impl Show for u8 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for u16 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for u32 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for u64 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for i8 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for i16 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for i32 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for i64 { fn put(&self, s: &mut String) { let _ = write!(s, "{}", self); } }
            impl Show for Byte { fn put(&self, s: &mut String) { let _ = write!(s, "{:02x}", self.0); } }
            impl Show for String { fn show(&self) -> String { format!("{:?}", self) } }
            impl Show for idx::Type { fn show(&self) -> String { self.0.to_string() } }
            impl Show for idx::Func { fn show(&self) -> String { self.0.to_string() } }
            impl Show for idx::Table { fn show(&self) -> String { self.0.to_string() } }
            impl Show for idx::Mem { fn show(&self) -> String { self.0.to_string() } }
            impl Show for idx::Global { fn show(&self) -> String { self.0.to_string() } }
            impl Show for idx::Local { fn show(&self) -> String { self.0.to_string() } }
            impl Show for idx::Label { fn show(&self) -> String { self.0.to_string() } }
            impl Show for ty::Val { fn put(&self, s: &mut String) { let _ = write!(s, "{:?}", self); } }
            impl Show for ty::Elem { fn show(&self) -> String { format!("{:?}", self) } }
            impl Show for ty::Mut { fn show(&self) -> String { format!("{:?}", self) } }
            impl Show for ty::Limits { fn show(&self) -> String { format!("limits {} {}", self.min, self.max.show()) } }
            impl Show for ty::RetVal { fn show(&self) -> String { self.0.show() } }
            impl Show for ty::Func { fn show(&self) -> String { format!("{} -> {}", self.params.show(), self.results.show()) } }
            impl Show for ty::Table { fn show(&self) -> String { format!("table {} {}", self.elem.show(), self.lim.show()) } }
            impl Show for ty::Mem { fn show(&self) -> String { format!("mem {}", self.lim.show()) } }
            impl Show for ty::Global { fn show(&self) -> String { format!("global {} {}", self.mt.show(), self.val.show()) } }
            impl Show for module::Func { fn show(&self) -> String { format!("func {} {} {}", self.ty.show(), self.locals.show(), is(&self.body.0)) } }
            impl Show for module::Table { fn show(&self) -> String { self.ty.show() } }
            impl Show for module::Mem { fn show(&self) -> String { self.ty.show() } }
            impl Show for module::Global { fn show(&self) -> String { format!("{} {}", self.ty.show(), is(&self.init.0)) } }
            impl Show for module::Elem { fn show(&self) -> String { format!("elem {} {} {}", self.table.show(), is(&self.offset.0), self.init.show()) } }
            impl Show for module::Data { fn show(&self) -> String { format!("data {} {} {}", self.mem.show(), is(&self.offset.0), self.init.show()) } }
            impl Show for module::Start { fn show(&self) -> String { self.func.show() } }
            impl Show for module::Import { fn show(&self) -> String { format!("{} {} {}", self.module.show(), self.name.show(), self.desc.show()) } }
            impl Show for module::Export { fn show(&self) -> String { format!("{} {}", self.name.show(), self.desc.show()) } }
            impl Show for module::desc::Import { fn show(&self) -> String { match self { module::desc::Import::Func(x) => format!("func {}", x.show()), module::desc::Import::Table(x) => x.show(), module::desc::Import::Mem(x) => x.show(), module::desc::Import::Global(x) => x.show() } } }
            impl Show for module::desc::Export { fn show(&self) -> String { match self { module::desc::Export::Func(x) => format!("func {}", x.show()), module::desc::Export::Table(x) => format!("table {}", x.show()), module::desc::Export::Mem(x) => format!("mem {}", x.show()), module::desc::Export::Global(x) => format!("global {}", x.show()) } } }
            impl Show for module::Module { fn show(&self) -> String { [self.types.show(), self.funcs.show(), self.tables.show(), self.mems.show(), self.globals.show(), self.elem.show(), self.data.show(), self.start.show(), self.imports.show(), self.exports.show()].join("; ") } }
            /// The kind of error, and the byte it carries.
            fn error(e: &Error) -> String {
                match e {
                    Error::InvalidVariantId { id, .. } => format!("InvalidVariantId {:02x}", id),
                    Error::UnexpectedSectionId { id, .. } => format!("UnexpectedSectionId {:02x}", id.0),
                    Error::InvalidSectionId { id, .. } => format!("InvalidSectionId {:02x}", id.0),
                    e => format!("{:?}", e).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").into(),
                }
            }
            fn p<T: WasmBinaryParse>(b: &[u8], show: impl Fn(&T) -> String) -> Out {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut it = b.iter().copied();
                    crate::arm();
                    let r = it.parse::<T>();
                    let peak = crate::disarm();
                    match r {
                        Ok(v) => Out { ok: true, panic: false, text: show(&v), rest: it.len(), peak },
                        Err(e) => Out { ok: false, panic: false, text: error(&e), rest: 0, peak },
                    }
                }));
                r.unwrap_or_else(|_| { let peak = crate::disarm(); Out { ok: false, panic: true, text: "panicked".into(), rest: 0, peak } })
            }
            fn d<T: WasmBinaryParse + Show>(b: &[u8]) -> Out { p::<T>(b, |v| v.show()) }
            fn dp<T: WasmBinaryParseProxy>(b: &[u8]) -> Out where T::Inner: Show { dq::<T>(b, |v| v.unwrap().show()) }
            fn dq<T: WasmBinaryParse>(b: &[u8], show: impl Fn(T) -> String) -> Out {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut it = b.iter().copied();
                    crate::arm();
                    let r = it.parse::<T>();
                    let peak = crate::disarm();
                    match r {
                        Ok(v) => Out { ok: true, panic: false, text: show(v), rest: it.len(), peak },
                        Err(e) => Out { ok: false, panic: false, text: error(&e), rest: 0, peak },
                    }
                }));
                r.unwrap_or_else(|_| { let peak = crate::disarm(); Out { ok: false, panic: true, text: "panicked".into(), rest: 0, peak } })
            }

            pub fn run(kind: &str, b: &[u8]) -> Out {
                match kind {
                    "byte" => d::<Byte>(b),
                    "u8" => d::<u8>(b), "u16" => d::<u16>(b), "u32" => d::<u32>(b), "u64" => d::<u64>(b),
                    "i8" => d::<i8>(b), "i16" => d::<i16>(b), "i32" => d::<i32>(b), "i64" => d::<i64>(b),
                    "f32" => p::<f32>(b, |v| format!("{:08x}", v.to_bits())),
                    "f64" => p::<f64>(b, |v| format!("{:016x}", v.to_bits())),
                    "arr0" => d::<[Byte; 0]>(b), "arr1" => d::<[Byte; 1]>(b), "arr2" => d::<[Byte; 2]>(b),
                    "arr3" => d::<[Byte; 3]>(b), "arr4" => d::<[Byte; 4]>(b), "arr5" => d::<[Byte; 5]>(b),
                    "arr6" => d::<[Byte; 6]>(b), "arr7" => d::<[Byte; 7]>(b), "arr8" => d::<[Byte; 8]>(b),
                    "arr3_u32" => d::<[u32; 3]>(b), "arr8_u32" => d::<[u32; 8]>(b), "arr5_i64" => d::<[i64; 5]>(b), "arr4_vec" => d::<[Vec<u8>; 4]>(b),
                    "vec_byte" => d::<Vec<Byte>>(b), "vec_u8" => d::<Vec<u8>>(b), "vec_u32" => d::<Vec<u32>>(b),
                    "vec_i64" => d::<Vec<i64>>(b), "vec_val" => d::<Vec<ty::Val>>(b), "vec_func" => d::<Vec<ty::Func>>(b),
                    "vec_f32" => p::<Vec<f32>>(b, |v| format!("{:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>())),
                    "vec_vec" => d::<Vec<Vec<u8>>>(b), "vec_string" => d::<Vec<String>>(b),
                    "vec_instr" => p::<Vec<Instr>>(b, |v| is(v)),
                    "cvec_u8" => dp::<CompactVec<u8>>(b), "cvec_val" => dp::<CompactVec<ty::Val>>(b),
                    "cvec_byte" => dp::<CompactVec<u16>>(b), "cvec_i32" => dp::<CompactVec<i32>>(b),
                    "uvec_byte" => dp::<UnwrappingVec<Byte>>(b), "uvec_sized" => dp::<UnwrappingVec<Sz<Vec<u32>>>>(b),
                    "uvec_sized_func" => p::<UnwrappingVec<Sz<module::Func>>>(b, |_| String::new()),
                    "string" => d::<String>(b),
                    "sized_byte" => dp::<Sz<Byte>>(b), "sized_u32" => dp::<Sz<u32>>(b), "sized_vec" => dp::<Sz<Vec<u8>>>(b),
                    "sized_arr2" => dp::<Sz<[Byte; 2]>>(b), "sized_arr0" => dp::<Sz<[Byte; 0]>>(b),
                    "sized_consume" => p::<Sz<Consume>>(b, |_| String::new()),
                    "sized_sized" => dq::<Sz<Sz<Vec<Byte>>>>(b, |v| v.unwrap().unwrap().show()), "sized_string" => dp::<Sz<String>>(b),
                    "sized_func" => p::<Sz<module::Func>>(b, |_| String::new()),
                    "sized_pair" => p::<Sz<(String, Consume)>>(b, |_| String::new()),
                    "sized_vec_import" => dp::<Sz<Vec<module::Import>>>(b),
                    "consume" => p::<Consume>(b, |c| format!("{}", c.count)),
                    "name_consume" => p::<(String, Consume)>(b, |c| format!("{} {}", c.0.show(), c.1.count)),
                    "idx_type" => d::<idx::Type>(b), "idx_func" => d::<idx::Func>(b), "idx_table" => d::<idx::Table>(b),
                    "idx_mem" => d::<idx::Mem>(b), "idx_global" => d::<idx::Global>(b), "idx_local" => d::<idx::Local>(b), "idx_label" => d::<idx::Label>(b),
                    "limits" => d::<ty::Limits>(b), "val" => d::<ty::Val>(b), "elemty" => d::<ty::Elem>(b), "retval" => d::<ty::RetVal>(b),
                    "functy" => d::<ty::Func>(b), "tablety" => d::<ty::Table>(b), "memty" => d::<ty::Mem>(b), "mut" => d::<ty::Mut>(b), "globalty" => d::<ty::Global>(b),
                    "instr" => p::<Instr>(b, |v| is(std::slice::from_ref(v))),
                    "expr" => p::<Expr>(b, |v| is(&v.0)),
                    "constexpr" => p::<ConstExpr>(b, |v| is(&v.0)),
                    "mfunc" => d::<module::Func>(b), "mtable" => d::<module::Table>(b), "mmem" => d::<module::Mem>(b),
                    "mglobal" => d::<module::Global>(b), "melem" => d::<module::Elem>(b), "mdata" => d::<module::Data>(b),
                    "mstart" => d::<module::Start>(b), "mimport" => d::<module::Import>(b), "mexport" => d::<module::Export>(b),
                    "dimport" => d::<module::desc::Import>(b), "dexport" => d::<module::desc::Export>(b),
                    "module" => d::<module::Module>(b),
                    k => panic!("kind {}", k),
                }
            }

            fn ext(e: &External) -> String {
                match e {
                    External::Func(t) => format!("func {}", t.show()),
                    External::Table(t) => t.show(),
                    External::Mem(t) => t.show(),
                    External::Global(t) => t.show(),
                }
            }

            /// None: the bytes do not parse. Otherwise the parsed module and the verdict.
            #[allow(dead_code)]
            pub fn validate_on_small_stack(b: &[u8]) {
                let m = b.iter().copied().parse::<module::Module>().unwrap();
                let m: &'static module::Module = Box::leak(Box::new(m));
                std::thread::Builder::new().stack_size(8 << 20).spawn(move || { let _ = m.validate(); }).unwrap().join().unwrap();
            }
            pub fn validate(b: &[u8]) -> Option<(String, Out)> {
                let m = std::panic::catch_unwind(|| b.iter().copied().parse::<module::Module>()).ok()?.ok()?;
                let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match m.validate() {
                    Ok(r) => Out {
                        ok: true, panic: false, rest: 0, peak: 0,
                        text: format!("{:?} {:?}", r.imports.iter().map(ext).collect::<Vec<_>>(), r.exports.iter().map(ext).collect::<Vec<_>>()),
                    },
                    Err(_) => Out { ok: false, panic: false, text: "invalid".into(), rest: 0, peak: 0 },
                }));
                let o = o.unwrap_or_else(|_| Out { ok: false, panic: true, text: "panicked".into(), rest: 0, peak: 0 });
                Some((m.show(), o))
            }
            /// The outcome in a few words, for comparison with another program's.
            #[allow(dead_code)]
            pub fn line(kind: &str, b: &[u8]) -> String {
                let (text, o) = if kind == "validate" { match validate(b) { Some(x) => x, None => return "none".into() } } else { (String::new(), run(kind, b)) };
                // which characters are escaped depends on the compiler's version
                let all = format!("{}{}", text, o.text);
                let mut parts = all.split("\\u{");
                let mut plain = parts.next().unwrap_or("").to_string();
                for p in parts {
                    match p.split_once('}').and_then(|(h, t)| Some((char::from_u32(u32::from_str_radix(h, 16).ok()?)?, t))) {
                        Some((c, t)) => { plain.push(c); plain.push_str(t) }
                        None => { plain.push_str("\\u{"); plain.push_str(p) }
                    }
                }
                let mut h = 0xcbf29ce484222325u64;
                for c in plain.bytes() { h = (h ^ c as u64).wrapping_mul(0x100000001b3) }
                format!("{} {} {} {:016x}", o.ok, o.panic, o.rest, h)
            }
        }
    };
}

api!(new, whasm);
api!(reference, whasm_ref);
