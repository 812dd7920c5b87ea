#!/usr/bin/env python3
"""Writes verus/spec/leb.rs: the per-width arithmetic lemmas behind the LEB-128 loop invariants."""
import os
out = []
P = out.append
P("""// Generated by tools/genleb.py: bit-level facts used by the LEB-128 loop invariants, per width.
use vstd::prelude::*;
use crate::dec::*;
verus! {

/// 2^shift for the shifts a LEB-128 loop goes through.
pub open spec fn w128(shift: usize) -> nat {""")
P("    " + " else ".join("if shift == %d { %s }" % (k, hex(2**k)) for k in range(0, 70, 7)) + " else { 0x40_0000_0000_0000_0000 }")
P("}")
P("""
pub proof fn byte_bits(b: u8)
    ensures
        (b & 0x7F) == b % 128,
        (b & 0x80 == 0) == (b < 128),
        (b & 0x40 == 0) == (b % 128 < 64),
        (b & 0x7F) <= 127,
{
    assert((b & 0x7F) == b % 128) by(bit_vector);
    assert((b & 0x80 == 0) == (b < 128)) by(bit_vector);
    assert((b & 0x40 == 0) == (b % 128 < 64)) by(bit_vector);
}

/// Once the weight is out of range, it no longer matters which weight it is.
pub proof fn uleb_weight(s: Seq<u8>, w1: nat, w2: nat, acc: nat, max: nat)
    requires
        w1 >= max,
        w2 >= max,
        acc < max,
    ensures
        uleb(s, w1, acc, max) == uleb(s, w2, acc, max),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = (s[0] % 128) as nat;
        if d == 0 {
            assert(d * w1 == 0 && d * w2 == 0) by(nonlinear_arith) requires d == 0;
            uleb_weight(s.drop_first(), w1 * 128, w2 * 128, acc, max);
        } else {
            assert(d * w1 >= max && d * w2 >= max) by(nonlinear_arith) requires d >= 1, w1 >= max, w2 >= max;
        }
    }
}

pub open spec fn sext(v: int, w: nat) -> nat { if v < 0 { (v + w) as nat } else { v as nat } }

pub proof fn sleb_weight(s: Seq<u8>, w1: nat, w2: nat, v: int, half: nat)
    requires
        w1 >= 2 * half,
        w2 >= 2 * half,
        -half <= v < half,
        half > 0,
    ensures
        sleb(s, w1, sext(v, w1), half) == sleb(s, w2, sext(v, w2), half),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = (s[0] % 128) as nat;
        sleb_pad(d, w1, v, half);
        sleb_pad(d, w2, v, half);
        if (d == 0 && v >= 0) || (d == 127 && v < 0) {
            sleb_weight(s.drop_first(), w1 * 128, w2 * 128, v, half);
        }
    }
}

/// A byte beyond the width is in range exactly if it repeats the sign.
pub proof fn sleb_pad(d: nat, w: nat, v: int, half: nat)
    requires
        w >= 2 * half,
        -half <= v < half,
        d < 128,
        half > 0,
    ensures
        ({
            let acc1 = sext(v, w) + d * w;
            let v1 = if d >= 64 { acc1 - w * 128 } else { acc1 as int };
            &&& (v1 >= half || v1 < -half) <==> !((d == 0 && v >= 0) || (d == 127 && v < 0))
            &&& ((d == 0 && v >= 0) || (d == 127 && v < 0)) ==> v1 == v && acc1 == sext(v, w * 128)
        }),
{
    assert(d == 0 ==> d * w == 0) by(nonlinear_arith);
    assert(d == 127 ==> d * w == w * 128 - w) by(nonlinear_arith);
    assert(d >= 1 ==> d * w >= w) by(nonlinear_arith);
    assert(d >= 64 && d <= 126 ==> d * w <= w * 128 - 2 * w) by(nonlinear_arith);
}
""")
for N in (8, 16, 32, 64):
    T = "u%d" % N
    shifts = list(range(0, N, 7))
    P("pub open spec fn pow2_%d() -> nat { %s }" % (N, hex(2**N)))
    P("""
pub proof fn uleb_step_{T}(s: Seq<u8>, result: {T}, shift: usize)
    requires
        s.len() > 0,
        shift % 7 == 0,
        shift < {N} + 7,
        shift < {N} ==> result < w128(shift),
    ensures
        ({{
            let b = s[0];
            let val = (b & 0x7F) as {T};
            let max = pow2_{N}();
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x80 == 0) == (b < 128)
            &&& shift < {N} ==> {{
                &&& ((((val << shift) >> shift) & 0x7F) != val) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& result + (b % 128) as nat * w128(shift) < max ==> (result | (val << shift)) == result + (b % 128) as nat * w128(shift)
                &&& shift + 7 < {N} ==> (result | (val << shift)) < w128((shift + 7) as usize)
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }}
            &&& shift >= {N} ==> {{
                &&& (b % 128 != 0) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& b % 128 == 0 && b >= 128 ==> uleb(s, w128(shift), result as nat, max) == uleb(s.drop_first(), w128(shift), result as nat, max)
            }}
        }}),
{{
    let b = s[0];
    let val = (b & 0x7F) as {T};
    byte_bits(b);""".format(T=T, N=N))
    for k in shifts:
        last = k + 7 >= N
        W = 2**k
        if not last:
            P("""    if shift == {k} {{
        assert((((val << {k}{T}) >> {k}{T}) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << {k}{T})) == result + val * {W:#x} && (result | (val << {k}{T})) < {W2:#x}) by(bit_vector) requires val <= 127, result < {W:#x};
    }}""".format(k=k, T=T, W=W, W2=2**(k+7)))
        else:
            lim = 2**(N-k)
            P("""    if shift == {k} {{
        assert(((((val << {k}{T}) >> {k}{T}) & 0x7F) == val) == (val < {lim})) by(bit_vector) requires val <= 127;
        assert(val < {lim} ==> (result | (val << {k}{T})) == result + val * {W:#x}) by(bit_vector) requires val <= 127, result < {W:#x};
    }}""".format(k=k, T=T, W=W, lim=lim))
    P("""    if shift >= {N} {{
        let d = (b % 128) as nat;
        assert(d * w128(shift) >= w128(shift) || d == 0) by(nonlinear_arith);
        assert(d == 0 ==> d * w128(shift) == 0) by(nonlinear_arith);
        uleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as nat, pow2_{N}());
    }}
}}
""".format(N=N))
for N in (8, 16, 32, 64):
    T = "i%d" % N
    shifts = list(range(0, N, 7))
    P("pub open spec fn half_%d() -> nat { %s }" % (N, hex(2**(N-1))))
    P("""
/// The accumulated base-128 value the specification has where the code has `result`.
pub open spec fn sacc_{T}(result: {T}, shift: usize) -> nat {{
    if shift < {N} {{ result as nat }} else {{ sext(result as int, w128(shift)) }}
}}

/// The value if the sequence ends here.
pub open spec fn sval_{T}(result: {T}, shift: usize, positive: bool) -> int {{
    if shift < {N} && !positive {{ result - w128(shift) }} else {{ result as int }}
}}

pub open spec fn sinv_{T}(result: {T}, shift: usize, positive: bool) -> bool {{
    &&& shift % 7 == 0
    &&& shift < {N} + 7
    &&& shift < {N} ==> 0 <= result < w128(shift)
    &&& shift == 0 ==> positive
    &&& shift >= {N} ==> (positive <==> result >= 0)
}}

pub proof fn sleb_step_{T}(s: Seq<u8>, result: {T}, shift: usize, positive: bool)
    requires
        s.len() > 0,
        sinv_{T}(result, shift, positive),
    ensures
        ({{
            let b = s[0];
            let val = (b & 0x7F) as {T};
            let half = half_{N}();
            let d = (b % 128) as nat;
            let acc1 = sacc_{T}(result, shift) + d * w128(shift);
            let v = if d >= 64 {{ acc1 - w128(shift) * 128 }} else {{ acc1 as int }};
            let bad = v >= half || v < -half;
            let r1 = result | (val << shift);
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x7F) <= 127
            &&& (b & 0x80 == 0) == (b < 128)
            &&& (b & 0x40 == 0) == (b % 128 < 64)
            &&& shift < {N} ==> {{
                &&& ((((val << shift) >> shift) & 0x7F) != val) == bad
                &&& !bad ==> sinv_{T}(r1, (shift + 7) as usize, b % 128 < 64)
                &&& !bad ==> sval_{T}(r1, (shift + 7) as usize, b % 128 < 64) == v
                &&& !bad ==> sacc_{T}(r1, (shift + 7) as usize) == acc1
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }}
            &&& shift >= {N} ==> {{
                &&& bad == !((d == 0 && positive) || (d == 127 && !positive))
                &&& !bad ==> v == result
                &&& !bad && b >= 128 ==> sleb(s, w128(shift), sacc_{T}(result, shift), half) == sleb(s.drop_first(), w128(shift), sacc_{T}(result, shift), half)
            }}
        }}),
{{
    let b = s[0];
    let val = (b & 0x7F) as {T};
    byte_bits(b);""".format(T=T, N=N))
    for k in shifts:
        last = k + 7 >= N
        W = 2**k
        if not last:
            P("""    if shift == {k} {{
        assert((((val << {k}u32) >> {k}u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << {k}u32)) == result + val * {W:#x} && 0 <= (result | (val << {k}u32)) < {W2:#x}) by(bit_vector) requires 0 <= val <= 127, 0 <= result < {W:#x};
    }}""".format(k=k, T=T, W=W, W2=2**(k+7)))
        else:
            lim = 2**(N-k-1)
            P("""    if shift == {k} {{
        assert(((((val << {k}u32) >> {k}u32) & 0x7F) == val) == (val < {lim} || val >= 128 - {lim})) by(bit_vector) requires 0 <= val <= 127;
        assert(val < {lim} ==> (result | (val << {k}u32)) == result + val * {W:#x}) by(bit_vector) requires 0 <= val <= 127, 0 <= result < {W:#x};
        assert(val >= 128 - {lim} ==> (result | (val << {k}u32)) == result + (val - 128) * {W:#x}) by(bit_vector) requires 0 <= val <= 127, 0 <= result < {W:#x};
    }}""".format(k=k, T=T, W=W, lim=lim))
    P("""    if shift >= {N} {{
        sleb_pad((b % 128) as nat, w128(shift), result as int, half_{N}());
        sleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as int, half_{N}());
    }}
}}

pub proof fn sleb_sign_{T}(result: {T}, shift: usize)
    requires
        shift % 7 == 0,
        0 < shift < {N},
        0 <= result < w128(shift),
    ensures
        (result | ((!(0 as {T})) << shift)) == result - w128(shift),
{{""".format(T=T, N=N))
    for k in shifts[1:]:
        P("    if shift == {k} {{ assert((result | ((!(0 as {T})) << {k}u32)) == result - {W:#x}) by(bit_vector) requires 0 <= result < {W:#x}; }}".format(k=k, T=T, W=2**k))
    P("}\n")
P("}")
open(os.path.join(os.path.dirname(__file__), "..", "verus", "spec", "leb.rs"), "w").write("\n".join(out) + "\n")
