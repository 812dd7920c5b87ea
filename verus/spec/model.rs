// Byte sources: the contract of `Iterator<Item = u8>` and of the std adaptors the crate uses.
// The adaptors are executable here and verified against their contracts; that std's adaptors of
// the same name behave like them is an assumption (listed in every evidence file).
use vstd::prelude::*;
use crate::dec::counted;
verus! {

global size_of usize == 8;

pub trait WasmBinary: Sized {
    /// What using a source never changes: for an adaptor, the rest of the source it wraps.
    type Fr;
    /// The bytes still to come.
    spec fn rest(&self) -> Seq<u8>;
    spec fn wf(&self) -> bool;
    #[verifier::prophetic]
    spec fn frame(&self) -> Self::Fr;

    fn next(&mut self) -> (r: Option<u8>)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).frame() == old(self).frame(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    ;

    fn take(&mut self, n: usize) -> (r: Take<'_, Self>)
        ensures
            *r.inner == *old(self),
            *final(r.inner) == *final(self),
            r.n == n,
    {
        Take { inner: self, n }
    }

    fn inspect_count<'b>(self, count: &'b mut u32) -> (r: Inspect<'b, Self>)
        ensures
            r.inner == self,
            *r.count == *old(count),
            *final(r.count) == *final(count),
    {
        Inspect { inner: self, count }
    }

    fn peekable(&mut self) -> (r: Peekable<'_, Self>)
        ensures
            *r.inner == *old(self),
            *final(r.inner) == *final(self),
            r.peeked is None,
    {
        Peekable { inner: self, peeked: None }
    }

    /// Modulo 2^64: std overflows there, which no input reaches.
    fn count(&mut self) -> (r: usize)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).frame() == old(self).frame(),
            final(self).rest() == Seq::<u8>::empty(),
            r as nat == counted(old(self).rest().len()),
    {
        let mut n: usize = 0;
        while let Some(_) = self.next()
            invariant
                self.wf(),
                self.frame() == old(self).frame(),
                counted((n + self.rest().len()) as nat) == counted(old(self).rest().len()),
            ensures
                self.wf(),
                self.frame() == old(self).frame(),
                self.rest().len() == 0,
                n as nat == counted(old(self).rest().len()),
            decreases self.rest().len(),
        {
            proof { counted_step(n as nat, self.rest().len()); }
            n = n.wrapping_add(1);
        }
        proof { assert(self.rest() =~= Seq::<u8>::empty()); }
        n
    }
}

proof fn counted_step(n: nat, rest: nat)
    requires
        n < 0x1_0000_0000_0000_0000,
    ensures
        n + 1 < 0x1_0000_0000_0000_0000 ==> counted((n + 1 + rest) as nat) == counted((n + (rest + 1)) as nat),
        n + 1 == 0x1_0000_0000_0000_0000 ==> counted(rest) == counted((n + (rest + 1)) as nat),
        counted(n) == n,
{
    assert((rest + 0x1_0000_0000_0000_0000) % 0x1_0000_0000_0000_0000 == rest % 0x1_0000_0000_0000_0000) by (nonlinear_arith);
}

pub struct Take<'a, B> {
    pub inner: &'a mut B,
    pub n: usize,
}

impl<'a, B: WasmBinary> WasmBinary for Take<'a, B> {
    type Fr = (Seq<u8>, B, B::Fr);

    open spec fn rest(&self) -> Seq<u8> {
        if self.n <= self.inner.rest().len() { self.inner.rest().take(self.n as int) } else { self.inner.rest() }
    }

    open spec fn wf(&self) -> bool {
        self.inner.wf()
    }

    #[verifier::prophetic]
    open spec fn frame(&self) -> Self::Fr {
        (
            self.inner.rest().skip(if self.n <= self.inner.rest().len() { self.n as int } else { self.inner.rest().len() as int }),
            *final(self.inner),
            self.inner.frame(),
        )
    }

    fn next(&mut self) -> (r: Option<u8>) {
        if self.n != 0 {
            self.n = self.n - 1;
            let r = self.inner.next();
            assert(self.frame().0 =~= old(self).frame().0);
            assert(self.rest() =~= if old(self).rest().len() > 0 { old(self).rest().drop_first() } else { old(self).rest() });
            r
        } else {
            None
        }
    }
}

pub struct Inspect<'b, B> {
    pub inner: B,
    pub count: &'b mut u32,
}

impl<'b, B: WasmBinary> WasmBinary for Inspect<'b, B> {
    type Fr = (int, u32, B::Fr);

    open spec fn rest(&self) -> Seq<u8> {
        self.inner.rest()
    }

    open spec fn wf(&self) -> bool {
        self.inner.wf() && *self.count + self.inner.rest().len() <= u32::MAX
    }

    #[verifier::prophetic]
    open spec fn frame(&self) -> Self::Fr {
        (*self.count + self.inner.rest().len(), *final(self.count), self.inner.frame())
    }

    fn next(&mut self) -> (r: Option<u8>) {
        let r = self.inner.next();
        if r.is_some() {
            *self.count = *self.count + 1;
        }
        r
    }
}

pub struct Peekable<'a, B> {
    pub inner: &'a mut B,
    pub peeked: Option<Option<u8>>,
}

impl<'a, B: WasmBinary> WasmBinary for Peekable<'a, B> {
    type Fr = (B, B::Fr);

    open spec fn rest(&self) -> Seq<u8> {
        match self.peeked {
            None => self.inner.rest(),
            Some(None) => Seq::empty(),
            Some(Some(b)) => seq![b] + self.inner.rest(),
        }
    }

    open spec fn wf(&self) -> bool {
        self.inner.wf() && (self.peeked == Some(None::<u8>) ==> self.inner.rest().len() == 0)
    }

    #[verifier::prophetic]
    open spec fn frame(&self) -> Self::Fr {
        (*final(self.inner), self.inner.frame())
    }

    fn next(&mut self) -> (r: Option<u8>) {
        let p = self.peeked;
        self.peeked = None;
        match p {
            None => self.inner.next(),
            Some(None) => {
                assert(self.rest() =~= old(self).rest());
                None
            },
            Some(Some(b)) => {
                assert(self.rest() =~= old(self).rest().drop_first());
                Some(b)
            },
        }
    }
}

impl<'a, B: WasmBinary> Peekable<'a, B> {
    pub fn peek(&mut self) -> (r: Option<u8>)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).frame() == old(self).frame(),
            final(self).rest() == old(self).rest(),
            final(self).peeked is Some,
            r is Some <==> old(self).rest().len() > 0,
            r is Some ==> r->Some_0 == old(self).rest()[0],
    {
        if self.peeked.is_none() {
            let n = self.inner.next();
            self.peeked = Some(n);
            assert(self.rest() =~= old(self).rest());
        }
        self.peeked.unwrap()
    }
}

/// `slice.iter().copied()`
pub struct Bytes<'a> {
    pub s: &'a [u8],
    pub pos: usize,
}

pub fn byte_source<'a>(s: &'a [u8]) -> (r: Bytes<'a>)
    ensures
        r.s@ == s@,
        r.pos == 0,
        r.wf(),
        r.rest() == s@,
{
    let r = Bytes { s, pos: 0 };
    assert(r.rest() =~= s@);
    r
}

impl<'a> WasmBinary for Bytes<'a> {
    type Fr = ();

    open spec fn rest(&self) -> Seq<u8> {
        self.s@.skip(self.pos as int)
    }

    open spec fn wf(&self) -> bool {
        self.pos <= self.s@.len()
    }

    #[verifier::prophetic]
    open spec fn frame(&self) -> Self::Fr {
        ()
    }

    fn next(&mut self) -> (r: Option<u8>) {
        if self.pos < self.s.len() {
            let b = self.s[self.pos];
            self.pos = self.pos + 1;
            assert(self.rest() =~= old(self).rest().drop_first());
            Some(b)
        } else {
            assert(self.rest() =~= old(self).rest());
            None
        }
    }
}

// num_traits::FromPrimitive::from_u8(x).unwrap()
pub fn u8_from_u8(x: u8) -> (r: u8) ensures r == x { x }
pub fn u16_from_u8(x: u8) -> (r: u16) ensures r == x { x as u16 }
pub fn u32_from_u8(x: u8) -> (r: u32) ensures r == x { x as u32 }
pub fn u64_from_u8(x: u8) -> (r: u64) ensures r == x { x as u64 }
pub fn i8_from_u8(x: u8) -> (r: i8) requires x <= 127 ensures r == x { x as i8 }
pub fn i16_from_u8(x: u8) -> (r: i16) ensures r == x { x as i16 }
pub fn i32_from_u8(x: u8) -> (r: i32) ensures r == x { x as i32 }
pub fn i64_from_u8(x: u8) -> (r: i64) ensures r == x { x as i64 }

// A.iter().chain(B.iter()).collect::<Vec<&T>>()
pub fn chain_collect<'a, T>(a: &'a [T], b: &'a [T]) -> (r: Vec<&'a T>)
    ensures
        r@.len() == a@.len() + b@.len(),
        forall|i: int| 0 <= i < a@.len() ==> *#[trigger] r@[i] == a@[i],
        forall|i: int| a@.len() <= i < r@.len() ==> *#[trigger] r@[i] == b@[i - a@.len()],
{
    let mut v: Vec<&'a T> = Vec::new();
    for x in it: a.iter()
        invariant
            v@.len() == it.index@,
            it.seq().len() == a@.len(),
            forall|i: int| 0 <= i < a@.len() ==> *#[trigger] it.seq()[i] == a@[i],
            forall|i: int| 0 <= i < it.index@ ==> *#[trigger] v@[i] == a@[i],
    {
        v.push(x);
    }
    for x in it: b.iter()
        invariant
            v@.len() == a@.len() + it.index@,
            it.seq().len() == b@.len(),
            forall|i: int| 0 <= i < b@.len() ==> *#[trigger] it.seq()[i] == b@[i],
            forall|i: int| 0 <= i < a@.len() ==> *#[trigger] v@[i] == a@[i],
            forall|i: int| a@.len() <= i < a@.len() + it.index@ ==> *#[trigger] v@[i] == b@[i - a@.len()],
    {
        v.push(x);
    }
    v
}

/// Every amount the parser reserves ahead of reading goes through here.
pub fn reserved(n: usize) -> (r: usize)
    requires n <= 1024,
    ensures r == n,
{
    n
}

}
