//! Kani harnesses over the real crate.
//!
//! Loops here and in the code they reach have constant bounds; unwinding assertions are on, so
//! a harness that passes holds for every value of its symbolic inputs.
#![cfg(kani)]

/// Any byte source at all: each call yields any byte or the end, and calls are recorded.
struct Any {
    seen: [u8; 16],
    calls: usize,
    ended: bool,
}

impl Iterator for Any {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.ended || kani::any() {
            self.ended = true;
            return None;
        }
        let b: u8 = kani::any();
        if self.calls < 16 {
            self.seen[self.calls] = b;
        }
        self.calls += 1;
        Some(b)
    }
}

fn any_source() -> Any {
    Any { seen: [0; 16], calls: 0, ended: false }
}

/// Any number of bytes that memory can hold.
#[cfg(any(feature = "types", feature = "model"))]
fn any_length() -> usize {
    let n: usize = kani::any();
    kani::assume(n < 1 << 47);
    n
}

/// That many bytes, of any content.
#[cfg(any(feature = "types", feature = "model"))]
fn memory(n: usize) -> *mut u8 {
    if n == 0 { std::ptr::NonNull::dangling().as_ptr() } else { unsafe { std::alloc::alloc(std::alloc::Layout::array::<u8>(n).unwrap()) } }
}

#[cfg(feature = "float")]
mod float {
    use super::any_source;
    use whasm::binary::{Error, WasmBinary};

    #[kani::proof]
    #[kani::unwind(20)]
    fn f32_reader() {
        let mut s = any_source();
        let r = s.parse::<f32>();
        if s.ended {
            assert!(s.calls < 4, "input ended although four bytes were read");
            assert!(matches!(r, Err(Error::UnexpectedEndOfFile)), "input ended: end-of-input error");
        } else {
            assert!(s.calls == 4, "exactly four bytes are consumed");
            let bits = u32::from_le_bytes([s.seen[0], s.seen[1], s.seen[2], s.seen[3]]);
            assert!(matches!(r, Ok(x) if x.to_bits() == bits), "the little-endian bit pattern");
        }
        kani::cover!(s.ended);
        kani::cover!(matches!(r, Ok(x) if x.is_nan()));
    }

    #[kani::proof]
    #[kani::unwind(20)]
    fn f64_reader() {
        let mut s = any_source();
        let r = s.parse::<f64>();
        if s.ended {
            assert!(s.calls < 8, "input ended although eight bytes were read");
            assert!(matches!(r, Err(Error::UnexpectedEndOfFile)), "input ended: end-of-input error");
        } else {
            assert!(s.calls == 8, "exactly eight bytes are consumed");
            let b = s.seen;
            let bits = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
            assert!(matches!(r, Ok(x) if x.to_bits() == bits), "the little-endian bit pattern");
        }
        kani::cover!(s.ended);
        kani::cover!(matches!(r, Ok(x) if x.is_nan()));
    }
}

// What the Verus specifications assume about code they do not look into.

#[cfg(feature = "compare")]
mod compare {
    use whasm::binary::Byte;

    #[kani::proof]
    #[kani::unwind(6)]
    fn array_comparison() {
        let b: [u8; 4] = kani::any();
        let bytes = [Byte(b[0]), Byte(b[1]), Byte(b[2]), Byte(b[3])];
        let c: [char; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
        let v: [u8; 4] = kani::any();
        assert!((bytes == c) == (b[0] as char == c[0] && b[1] as char == c[1] && b[2] as char == c[2] && b[3] as char == c[3]), "[Byte; 4] == [char; 4]");
        assert!((bytes == v) == (b[0] == v[0] && b[1] == v[1] && b[2] == v[2] && b[3] == v[3]), "[Byte; 4] == [u8; 4]");
        assert!((bytes != c) == !(bytes == c) && (bytes != v) == !(bytes == v), "!=");
        kani::cover!(bytes == c);
        kani::cover!(bytes == v);
    }
}

#[cfg(feature = "convert")]
mod convert {
    #[kani::proof]
    fn from_u8() {
        use num_traits::FromPrimitive;
        let x: u8 = kani::any();
        assert!(<u8 as FromPrimitive>::from_u8(x) == Some(x));
        assert!(<u16 as FromPrimitive>::from_u8(x) == Some(x as u16));
        assert!(<u32 as FromPrimitive>::from_u8(x) == Some(x as u32));
        assert!(<u64 as FromPrimitive>::from_u8(x) == Some(x as u64));
        assert!(x > 127 || <i8 as FromPrimitive>::from_u8(x) == Some(x as i8));
        assert!(<i16 as FromPrimitive>::from_u8(x) == Some(x as i16));
        assert!(<i32 as FromPrimitive>::from_u8(x) == Some(x as i32));
        assert!(<i64 as FromPrimitive>::from_u8(x) == Some(x as i64));
    }
}

#[cfg(feature = "types")]
mod types {
    use super::{any_length, memory};
    use whasm::structure::ty;
    use whasm::validation::stacks::Operand;

    fn any_val() -> (u8, ty::Val) {
        let k: u8 = kani::any();
        kani::assume(k < 4);
        (k, match k { 0 => ty::Val::I32, 1 => ty::Val::I64, 2 => ty::Val::F32, _ => ty::Val::F64 })
    }

    fn any_operand() -> (u8, Operand) {
        if kani::any() {
            (4, Operand::Unknown)
        } else {
            let (k, v) = any_val();
            (k, Operand::Val(v))
        }
    }

    #[kani::proof]
    fn type_equality() {
        let ((i, a), (j, b)) = (any_val(), any_val());
        assert!((a == b) == (i == j) && (a != b) == (i != j), "Val");
        let ((i, a), (j, b)) = (any_operand(), any_operand());
        assert!((a == b) == (i == j) && (a != b) == (i != j), "Operand");
        let (p, q): (bool, bool) = (kani::any(), kani::any());
        let (a, b) = (if p { ty::Mut::Var } else { ty::Mut::Const }, if q { ty::Mut::Var } else { ty::Mut::Const });
        assert!((a == b) == (p == q) && (a != b) == (p != q), "Mut");
        assert!(ty::Elem::FuncRef == ty::Elem::FuncRef && !(ty::Elem::FuncRef != ty::Elem::FuncRef), "Elem");
        let v: Vec<ty::Val> = Vec::new();
        assert!(v == [] && !(v != []), "empty vector");
        let v = vec![any_val().1];
        assert!(v != [] && !(v == []), "vector of one");
    }

    #[kani::proof]
    fn one_element_slice() {
        let (_, v) = any_val();
        let s = std::slice::from_ref(&v);
        assert!(s.len() == 1 && std::ptr::eq(&s[0], &v), "a slice of the value itself");
    }

    #[kani::proof]
    #[kani::unwind(2)]
    fn vector_empty() {
        // A vector of any length; comparison with an empty array does not get to the values.
        let n = any_length();
        let v = std::mem::ManuallyDrop::new(unsafe { Vec::from_raw_parts(memory(n) as *mut ty::Val, n, n) });
        assert!((*v == []) == (n == 0) && (*v != []) == (n != 0), "equal to nothing when empty");
        kani::cover!(n > 1_000_000);
    }
}

// The std adaptors against the model of them in verus/spec/model.rs, one step from every state. An
// adaptor's state is what it holds: `Take` a source and a number, which its size hint shows,
// `Peekable` a source and perhaps a reply already fetched, the counting `Inspect` a source. The
// source is any: its replies are arbitrary, and how often it was asked is counted. Since each step
// ends in a state of the same kind, the harnesses cover every number of steps.

#[cfg(feature = "model")]
mod model {
    use super::{any_length, any_source, memory};

    /// Gives the replies in order; being asked a third time fails.
    struct Replies {
        replies: [Option<u8>; 2],
        asked: usize,
    }

    impl Iterator for Replies {
        type Item = u8;
        fn next(&mut self) -> Option<u8> {
            self.asked += 1;
            self.replies[self.asked - 1]
        }
    }

    fn replies() -> Replies {
        Replies { replies: [kani::any(), kani::any()], asked: 0 }
    }

    #[kani::proof]
    fn step_take() {
        let n: usize = kani::any();
        let mut s = replies();
        let reply = s.replies[0];
        let mut t = s.by_ref().take(n);
        assert!(t.size_hint() == (0, Some(n)), "the state a take starts in");
        let got = t.next();
        if n == 0 {
            assert!(got == None && t.size_hint() == (0, Some(0)), "a take of nothing has ended");
        } else {
            assert!(got == reply && t.size_hint() == (0, Some(n - 1)), "a take passes one reply on");
        }
        drop(t);
        assert!(s.asked == (n != 0) as usize, "a take asks once for each reply, and never beyond its size");
        kani::cover!(n == 0);
        kani::cover!(n > 0 && got.is_none());
    }

    #[kani::proof]
    fn step_inspect() {
        let before: u32 = kani::any();
        kani::assume(before < u32::MAX);
        let mut count = before;
        let mut s = replies();
        let reply = s.replies[0];
        let got = s.by_ref().inspect(|_| count = count + 1).next();
        assert!(got == reply && s.asked == 1, "inspect passes the reply on");
        assert!(count == before + got.is_some() as u32, "and counts it");
        kani::cover!(got.is_none());
    }

    #[kani::proof]
    fn step_peekable() {
        let mut s = replies();
        let [a, b] = s.replies;
        let mut p = s.by_ref().peekable();
        let peeked: bool = kani::any();
        if peeked {
            assert!(p.peek().copied() == a, "peek shows the first reply");
            if kani::any() {
                assert!(p.peek().copied() == a, "and shows it again");
            }
        }
        let more: bool = kani::any();
        assert!(p.next() == a, "next hands it over");
        if more {
            assert!(p.next() == b, "then asks for the second");
        }
        drop(p);
        assert!(s.asked == 1 + more as usize, "each reply is fetched once");
        kani::cover!(peeked && more);
    }

    #[kani::proof]
    fn step_peek_only() {
        let mut s = replies();
        let fetch: bool = kani::any();
        let mut p = s.by_ref().peekable();
        if fetch {
            let _ = p.peek();
        }
        drop(p);
        assert!(s.asked == fetch as usize, "making a peekable asks nothing, peeking asks once");
    }

    fn same(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && (a.is_empty() || std::ptr::eq(a.as_ptr(), b.as_ptr()))
    }

    // A slice iterator holds a slice: the part of it that is left.

    #[kani::proof]
    fn step_slice() {
        let n = any_length();
        let v: &[u8] = unsafe { std::slice::from_raw_parts(memory(n), n) };
        let mut i = v.iter();
        assert!(same(i.as_slice(), v), "made from the slice");
        let r = i.next();
        if n == 0 {
            assert!(r.is_none() && i.as_slice().is_empty(), "nothing is left");
        } else {
            assert!(std::ptr::eq(r.unwrap(), &v[0]), "the first of what is left");
            assert!(same(i.as_slice(), &v[1..]), "and the others stay");
        }
        kani::cover!(n > 1_000_000);
    }

    #[kani::proof]
    fn step_copied() {
        let reply: Option<u8> = kani::any();
        let mut asked = 0;
        let got = std::iter::from_fn(|| { asked += 1; reply.as_ref() }).copied().next();
        assert!(got == reply && asked == 1, "the source's reply, copied");
    }

    // Bounded: at most six bytes, and three names of at most one character.

    #[kani::proof]
    #[kani::unwind(8)]
    fn bounded_count() {
        let n: usize = kani::any();
        kani::assume(n <= 6);
        let mut s = any_source();
        let counted = { let mut t = s.by_ref().take(n); (&mut t).count() };
        assert!(counted == s.calls && (s.ended || counted == n), "count counts to the end");
    }
}

#[cfg(feature = "names")]
mod names {
    #[kani::proof]
    #[kani::unwind(4)]
    fn bounded_name_comparison() {
        let any = || { let n: usize = kani::any(); kani::assume(n <= 2); let b: [u8; 2] = kani::any(); kani::assume(b[0] < 0x80 && b[1] < 0x80); (n, b) };
        let ((n, a), (m, b)) = (any(), any());
        let (s, t) = (String::from(std::str::from_utf8(&a[..n]).unwrap()), String::from(std::str::from_utf8(&b[..m]).unwrap()));
        let same = n == m && (n < 1 || a[0] == b[0]) && (n < 2 || a[1] == b[1]);
        assert!((&s == &t) == same, "names are equal when their bytes are");
        assert!(((&s).cmp(&&t) == std::cmp::Ordering::Equal) == same, "ordering agrees with equality");
    }

    #[kani::proof]
    #[kani::unwind(5)]
    fn bounded_sort_dedup() {
        let names = [String::new(), String::from("a"), String::from("b")];
        let pick = || { let k: usize = kani::any(); kani::assume(k < 3); k };
        let (i, j, k) = (pick(), pick(), pick());
        let mut v = vec![&names[i], &names[j], &names[k]];
        v.sort();
        v.dedup();
        let distinct = 1 + (j != i) as usize + (k != i && k != j) as usize;
        assert!(v.len() == distinct, "sort and dedup leave one of each");
    }
}

#[cfg(feature = "equal")]
mod equal {
    use whasm::structure::{idx, ty, instr::{Expr, Instr}};

    fn against(i: &Instr) {
        assert!((*i == Instr::Else) == matches!(i, Instr::Else), "== Else");
        assert!((*i == Instr::End) == matches!(i, Instr::End), "== End");
    }

    /// One instruction of each kind; lists of labels and bodies are empty, as comparison with an
    /// instruction of another kind does not get to them.
    fn any_instr() -> Instr {
        let k: u8 = kani::any();
        match k {
            0 => Instr::Unreachable,
            1 => Instr::Nop,
            2 => Instr::Block(ty::RetVal(vec![]), Expr(vec![])),
            3 => Instr::Loop(ty::RetVal(vec![]), Expr(vec![])),
            4 => Instr::If(ty::RetVal(vec![]), Expr(vec![]), Expr(vec![])),
            5 => Instr::Else,
            6 => Instr::End,
            7 => Instr::Br(idx::Label(kani::any())),
            8 => Instr::BrIf(idx::Label(kani::any())),
            9 => Instr::BrTable(vec![], idx::Label(kani::any())),
            10 => Instr::Return,
            11 => Instr::Call(idx::Func(kani::any())),
            12 => Instr::CallIndirect(idx::Type(kani::any()), idx::Table(kani::any())),
            13 => Instr::Drop,
            14 => Instr::Select,
            15 => Instr::LocalGet(idx::Local(kani::any())),
            16 => Instr::LocalSet(idx::Local(kani::any())),
            17 => Instr::LocalTee(idx::Local(kani::any())),
            18 => Instr::GlobalGet(idx::Global(kani::any())),
            19 => Instr::GlobalSet(idx::Global(kani::any())),
            20 => Instr::I32Load(kani::any(), kani::any()),
            21 => Instr::I64Load(kani::any(), kani::any()),
            22 => Instr::F32Load(kani::any(), kani::any()),
            23 => Instr::F64Load(kani::any(), kani::any()),
            24 => Instr::I32Load8S(kani::any(), kani::any()),
            25 => Instr::I32Load8U(kani::any(), kani::any()),
            26 => Instr::I32Load16S(kani::any(), kani::any()),
            27 => Instr::I32Load16U(kani::any(), kani::any()),
            28 => Instr::I64Load8S(kani::any(), kani::any()),
            29 => Instr::I64Load8U(kani::any(), kani::any()),
            30 => Instr::I64Load16S(kani::any(), kani::any()),
            31 => Instr::I64Load16U(kani::any(), kani::any()),
            32 => Instr::I64Load32S(kani::any(), kani::any()),
            33 => Instr::I64Load32U(kani::any(), kani::any()),
            34 => Instr::I32Store(kani::any(), kani::any()),
            35 => Instr::I64Store(kani::any(), kani::any()),
            36 => Instr::F32Store(kani::any(), kani::any()),
            37 => Instr::F64Store(kani::any(), kani::any()),
            38 => Instr::I32Store8(kani::any(), kani::any()),
            39 => Instr::I32Store16(kani::any(), kani::any()),
            40 => Instr::I64Store8(kani::any(), kani::any()),
            41 => Instr::I64Store16(kani::any(), kani::any()),
            42 => Instr::I64Store32(kani::any(), kani::any()),
            43 => Instr::MemSize(idx::Mem(kani::any())),
            44 => Instr::MemGrow(idx::Mem(kani::any())),
            45 => Instr::ConstI32(kani::any()),
            46 => Instr::ConstI64(kani::any()),
            47 => Instr::ConstF32(kani::any()),
            48 => Instr::ConstF64(kani::any()),
            49 => Instr::I32Eqz,
            50 => Instr::I32Eq,
            51 => Instr::I32Ne,
            52 => Instr::I32LtS,
            53 => Instr::I32LtU,
            54 => Instr::I32GtS,
            55 => Instr::I32GtU,
            56 => Instr::I32LeS,
            57 => Instr::I32LeU,
            58 => Instr::I32GeS,
            59 => Instr::I32GeU,
            60 => Instr::I64Eqz,
            61 => Instr::I64Eq,
            62 => Instr::I64Ne,
            63 => Instr::I64LtS,
            64 => Instr::I64LtU,
            65 => Instr::I64GtS,
            66 => Instr::I64GtU,
            67 => Instr::I64LeS,
            68 => Instr::I64LeU,
            69 => Instr::I64GeS,
            70 => Instr::I64GeU,
            71 => Instr::F32Eq,
            72 => Instr::F32Ne,
            73 => Instr::F32Lt,
            74 => Instr::F32Gt,
            75 => Instr::F32Le,
            76 => Instr::F32Ge,
            77 => Instr::F64Eq,
            78 => Instr::F64Ne,
            79 => Instr::F64Lt,
            80 => Instr::F64Gt,
            81 => Instr::F64Le,
            82 => Instr::F64Ge,
            83 => Instr::I32Clz,
            84 => Instr::I32Ctz,
            85 => Instr::I32Popcnt,
            86 => Instr::I32Add,
            87 => Instr::I32Sub,
            88 => Instr::I32Mul,
            89 => Instr::I32DivS,
            90 => Instr::I32DivU,
            91 => Instr::I32RemS,
            92 => Instr::I32RemU,
            93 => Instr::I32And,
            94 => Instr::I32Or,
            95 => Instr::I32Xor,
            96 => Instr::I32Shl,
            97 => Instr::I32ShrS,
            98 => Instr::I32ShrU,
            99 => Instr::I32Rotl,
            100 => Instr::I32Rotr,
            101 => Instr::I64Clz,
            102 => Instr::I64Ctz,
            103 => Instr::I64Popcnt,
            104 => Instr::I64Add,
            105 => Instr::I64Sub,
            106 => Instr::I64Mul,
            107 => Instr::I64DivS,
            108 => Instr::I64DivU,
            109 => Instr::I64RemS,
            110 => Instr::I64RemU,
            111 => Instr::I64And,
            112 => Instr::I64Or,
            113 => Instr::I64Xor,
            114 => Instr::I64Shl,
            115 => Instr::I64ShrS,
            116 => Instr::I64ShrU,
            117 => Instr::I64Rotl,
            118 => Instr::I64Rotr,
            119 => Instr::F32Abs,
            120 => Instr::F32Neg,
            121 => Instr::F32Ceil,
            122 => Instr::F32Floor,
            123 => Instr::F32Trunc,
            124 => Instr::F32Nearest,
            125 => Instr::F32Sqrt,
            126 => Instr::F32Add,
            127 => Instr::F32Sub,
            128 => Instr::F32Mul,
            129 => Instr::F32Div,
            130 => Instr::F32Min,
            131 => Instr::F32Max,
            132 => Instr::F32Copysign,
            133 => Instr::F64Abs,
            134 => Instr::F64Neg,
            135 => Instr::F64Ceil,
            136 => Instr::F64Floor,
            137 => Instr::F64Trunc,
            138 => Instr::F64Nearest,
            139 => Instr::F64Sqrt,
            140 => Instr::F64Add,
            141 => Instr::F64Sub,
            142 => Instr::F64Mul,
            143 => Instr::F64Div,
            144 => Instr::F64Min,
            145 => Instr::F64Max,
            146 => Instr::F64Copysign,
            147 => Instr::I32WrapI64,
            148 => Instr::I32TruncF32S,
            149 => Instr::I32TruncF32U,
            150 => Instr::I32TruncF64S,
            151 => Instr::I32TruncF64U,
            152 => Instr::I64ExtendI32S,
            153 => Instr::I64ExtendI32U,
            154 => Instr::I64TruncF32S,
            155 => Instr::I64TruncF32U,
            156 => Instr::I64TruncF64S,
            157 => Instr::I64TruncF64U,
            158 => Instr::F32ConvertI32S,
            159 => Instr::F32ConvertI32U,
            160 => Instr::F32ConvertI64S,
            161 => Instr::F32ConvertI64U,
            162 => Instr::F32DemoteF64,
            163 => Instr::F64ConvertI32S,
            164 => Instr::F64ConvertI32U,
            165 => Instr::F64ConvertI64S,
            166 => Instr::F64ConvertI64U,
            167 => Instr::F64PromoteF32,
            168 => Instr::I32ReinterpretF32,
            169 => Instr::I64ReinterpretF64,
            170 => Instr::F32ReinterpretI32,
            _ => Instr::F64ReinterpretI64,
        }
    }

    #[kani::proof]
    #[kani::unwind(2)]
    fn instr_equality() {
        let i = any_instr();
        against(&i);
        kani::cover!(matches!(i, Instr::End));
        kani::cover!(matches!(i, Instr::F64ReinterpretI64));
        std::mem::forget(i);
    }
}

#[cfg(feature = "utf8")]
mod utf8 {
    /// Length of the well-formed sequence at the front, after table 3-7 of the Unicode standard.
    fn well_formed(b: &[u8]) -> Option<usize> {
        let tail = |i: usize| i < b.len() && b[i] >= 0x80 && b[i] <= 0xBF;
        let second = |lo: u8, hi: u8| 1 < b.len() && b[1] >= lo && b[1] <= hi;
        match b[0] {
            0x00..=0x7F => Some(1),
            0xC2..=0xDF if tail(1) => Some(2),
            0xE0 if second(0xA0, 0xBF) && tail(2) => Some(3),
            0xED if second(0x80, 0x9F) && tail(2) => Some(3),
            0xE1..=0xEF if b[0] != 0xED && tail(1) && tail(2) => Some(3),
            0xF0 if second(0x90, 0xBF) && tail(2) && tail(3) => Some(4),
            0xF1..=0xF3 if tail(1) && tail(2) && tail(3) => Some(4),
            0xF4 if second(0x80, 0x8F) && tail(2) && tail(3) => Some(4),
            _ => None,
        }
    }

    fn valid(b: &[u8]) -> bool {
        let mut at = 0;
        while at < b.len() {
            match well_formed(&b[at..]) { Some(k) => at += k, None => return false }
        }
        true
    }

    fn check<const N: usize>() {
        let b: [u8; N] = kani::any();
        let r = std::str::from_utf8(&b);
        assert!(r.is_ok() == valid(&b), "exactly the well-formed texts are taken");
        kani::cover!(r.is_ok());
        kani::cover!(r.is_err());
    }

    // Bounded: texts of at most four bytes.

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_utf8_1() { check::<1>() }

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_utf8_2() { check::<2>() }

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_utf8_3() { check::<3>() }

    #[kani::proof]
    #[kani::unwind(6)]
    fn bounded_utf8_4() { check::<4>() }
}
