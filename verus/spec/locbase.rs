// Decoding is local: the bytes an item leaves unread do not matter to it.
use vstd::prelude::*;
use crate::dec::*;
use crate::binary::core::traits::WasmBinaryParse;
verus! {

/// r is what is left of s.
#[verifier::opaque]
pub open spec fn tail(s: Seq<u8>, r: Seq<u8>) -> bool { r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) }

/// s with t in place of what is left.
#[verifier::opaque]
pub open spec fn swap(s: Seq<u8>, r: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.take(s.len() - r.len()) + t }

/// If d succeeds on s, it leaves a tail of s, and with anything else in place of that tail it
/// succeeds with the same value and leaves exactly that.
pub open spec fn same<V>(d: spec_fn(Seq<u8>) -> Dec<V>, s: Seq<u8>, t: Seq<u8>) -> bool {
    d(s) is Ok ==> tail(s, d(s)->Ok_1) && d(swap(s, d(s)->Ok_1, t)) == Dec::Ok(d(s)->Ok_0, t)
}

/// d reads at least one byte.
pub open spec fn eats<V>(d: spec_fn(Seq<u8>) -> Dec<V>, s: Seq<u8>) -> bool {
    d(s) is Ok ==> (d(s)->Ok_1).len() < s.len()
}

pub open spec fn local_at<T: WasmBinaryParse>(s: Seq<u8>, t: Seq<u8>) -> bool { same(|x: Seq<u8>| T::dec(x), s, t) && eats(|x: Seq<u8>| T::dec(x), s) }

pub open spec fn local<T: WasmBinaryParse>() -> bool { forall|s: Seq<u8>, t: Seq<u8>| #[trigger] local_at::<T>(s, t) }

/// Appending t after the bytes an item consumes: the same thing said with concatenation.
pub proof fn appended<T: WasmBinaryParse>(p: Seq<u8>, r: Seq<u8>, t: Seq<u8>, v: T::V)
    requires
        local::<T>(),
        T::dec(p + r) == Dec::Ok(v, r),
    ensures
        T::dec(p + t) == Dec::Ok(v, t),
        p.len() > 0,
{
    reveal(tail);
    reveal(swap);
    assert(local_at::<T>(p + r, t));
    assert((p + r).take(p.len() as int) =~= p);
    assert(swap(p + r, r, t) =~= p + t);
}

pub proof fn swap2(s: Seq<u8>, r: Seq<u8>, r2: Seq<u8>, t: Seq<u8>)
    requires
        tail(s, r),
        tail(r, r2),
    ensures
        tail(s, r2),
        r2.len() <= r.len() <= s.len(),
        swap(s, r2, t).len() == s.len() - r.len() + swap(r, r2, t).len(),
        swap(s, r, swap(r, r2, t)) == swap(s, r2, t),
{
    reveal(tail);
    reveal(swap);
    assert(swap(s, r, swap(r, r2, t)) =~= swap(s, r2, t));
}

pub broadcast proof fn swap1(s: Seq<u8>, r: Seq<u8>, t: Seq<u8>)
    requires
        s.len() > 0,
        tail(s.drop_first(), r),
    ensures
        tail(s, r),
        r.len() < s.len(),
        (#[trigger] swap(s, r, t)).len() > 0,
        swap(s, r, t)[0] == s[0],
        swap(s, r, t).drop_first() == swap(s.drop_first(), r, t),
{
    reveal(tail);
    reveal(swap);
    assert(swap(s, r, t).drop_first() =~= swap(s.drop_first(), r, t));
}

pub broadcast proof fn swap0(s: Seq<u8>, t: Seq<u8>)
    ensures
        tail(s, s),
        #[trigger] swap(s, s, t) == t,
{
    reveal(tail);
    reveal(swap);
    assert(swap(s, s, t) =~= t);
}

}
