// Generated by tools/genleb.py: bit-level facts used by the LEB-128 loop invariants, per width.
use vstd::prelude::*;
use crate::dec::*;
verus! {

/// 2^shift for the shifts a LEB-128 loop goes through.
pub open spec fn w128(shift: usize) -> nat {
    if shift == 0 { 0x1 } else if shift == 7 { 0x80 } else if shift == 14 { 0x4000 } else if shift == 21 { 0x200000 } else if shift == 28 { 0x10000000 } else if shift == 35 { 0x800000000 } else if shift == 42 { 0x40000000000 } else if shift == 49 { 0x2000000000000 } else if shift == 56 { 0x100000000000000 } else if shift == 63 { 0x8000000000000000 } else { 0x40_0000_0000_0000_0000 }
}

pub proof fn byte_bits(b: u8)
    ensures
        (b & 0x7F) == b % 128,
        (b & 0x80 == 0) == (b < 128),
        (b & 0x40 == 0) == (b % 128 < 64),
        (b & 0x7F) <= 127,
{
    assert((b & 0x7F) == b % 128) by(bit_vector);
    assert((b & 0x80 == 0) == (b < 128)) by(bit_vector);
    assert((b & 0x40 == 0) == (b % 128 < 64)) by(bit_vector);
}

/// Once the weight is out of range, it no longer matters which weight it is.
pub proof fn uleb_weight(s: Seq<u8>, w1: nat, w2: nat, acc: nat, max: nat)
    requires
        w1 >= max,
        w2 >= max,
        acc < max,
    ensures
        uleb(s, w1, acc, max) == uleb(s, w2, acc, max),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = (s[0] % 128) as nat;
        if d == 0 {
            assert(d * w1 == 0 && d * w2 == 0) by(nonlinear_arith) requires d == 0;
            uleb_weight(s.drop_first(), w1 * 128, w2 * 128, acc, max);
        } else {
            assert(d * w1 >= max && d * w2 >= max) by(nonlinear_arith) requires d >= 1, w1 >= max, w2 >= max;
        }
    }
}

pub open spec fn sext(v: int, w: nat) -> nat { if v < 0 { (v + w) as nat } else { v as nat } }

pub proof fn sleb_weight(s: Seq<u8>, w1: nat, w2: nat, v: int, half: nat)
    requires
        w1 >= 2 * half,
        w2 >= 2 * half,
        -half <= v < half,
        half > 0,
    ensures
        sleb(s, w1, sext(v, w1), half) == sleb(s, w2, sext(v, w2), half),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = (s[0] % 128) as nat;
        sleb_pad(d, w1, v, half);
        sleb_pad(d, w2, v, half);
        if (d == 0 && v >= 0) || (d == 127 && v < 0) {
            sleb_weight(s.drop_first(), w1 * 128, w2 * 128, v, half);
        }
    }
}

/// A byte beyond the width is in range exactly if it repeats the sign.
pub proof fn sleb_pad(d: nat, w: nat, v: int, half: nat)
    requires
        w >= 2 * half,
        -half <= v < half,
        d < 128,
        half > 0,
    ensures
        ({
            let acc1 = sext(v, w) + d * w;
            let v1 = if d >= 64 { acc1 - w * 128 } else { acc1 as int };
            &&& (v1 >= half || v1 < -half) <==> !((d == 0 && v >= 0) || (d == 127 && v < 0))
            &&& ((d == 0 && v >= 0) || (d == 127 && v < 0)) ==> v1 == v && acc1 == sext(v, w * 128)
        }),
{
    assert(d == 0 ==> d * w == 0) by(nonlinear_arith);
    assert(d == 127 ==> d * w == w * 128 - w) by(nonlinear_arith);
    assert(d >= 1 ==> d * w >= w) by(nonlinear_arith);
    assert(d >= 64 && d <= 126 ==> d * w <= w * 128 - 2 * w) by(nonlinear_arith);
}

pub open spec fn pow2_8() -> nat { 0x100 }

pub proof fn uleb_step_u8(s: Seq<u8>, result: u8, shift: usize)
    requires
        s.len() > 0,
        shift % 7 == 0,
        shift < 8 + 7,
        shift < 8 ==> result < w128(shift),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as u8;
            let max = pow2_8();
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x80 == 0) == (b < 128)
            &&& shift < 8 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& result + (b % 128) as nat * w128(shift) < max ==> (result | (val << shift)) == result + (b % 128) as nat * w128(shift)
                &&& shift + 7 < 8 ==> (result | (val << shift)) < w128((shift + 7) as usize)
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 8 ==> {
                &&& (b % 128 != 0) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& b % 128 == 0 && b >= 128 ==> uleb(s, w128(shift), result as nat, max) == uleb(s.drop_first(), w128(shift), result as nat, max)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as u8;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u8) >> 0u8) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 0u8)) == result + val * 0x1 && (result | (val << 0u8)) < 0x80) by(bit_vector) requires val <= 127, result < 0x1;
    }
    if shift == 7 {
        assert(((((val << 7u8) >> 7u8) & 0x7F) == val) == (val < 2)) by(bit_vector) requires val <= 127;
        assert(val < 2 ==> (result | (val << 7u8)) == result + val * 0x80) by(bit_vector) requires val <= 127, result < 0x80;
    }
    if shift >= 8 {
        let d = (b % 128) as nat;
        assert(d * w128(shift) >= w128(shift) || d == 0) by(nonlinear_arith);
        assert(d == 0 ==> d * w128(shift) == 0) by(nonlinear_arith);
        uleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as nat, pow2_8());
    }
}

pub open spec fn pow2_16() -> nat { 0x10000 }

pub proof fn uleb_step_u16(s: Seq<u8>, result: u16, shift: usize)
    requires
        s.len() > 0,
        shift % 7 == 0,
        shift < 16 + 7,
        shift < 16 ==> result < w128(shift),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as u16;
            let max = pow2_16();
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x80 == 0) == (b < 128)
            &&& shift < 16 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& result + (b % 128) as nat * w128(shift) < max ==> (result | (val << shift)) == result + (b % 128) as nat * w128(shift)
                &&& shift + 7 < 16 ==> (result | (val << shift)) < w128((shift + 7) as usize)
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 16 ==> {
                &&& (b % 128 != 0) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& b % 128 == 0 && b >= 128 ==> uleb(s, w128(shift), result as nat, max) == uleb(s.drop_first(), w128(shift), result as nat, max)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as u16;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u16) >> 0u16) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 0u16)) == result + val * 0x1 && (result | (val << 0u16)) < 0x80) by(bit_vector) requires val <= 127, result < 0x1;
    }
    if shift == 7 {
        assert((((val << 7u16) >> 7u16) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 7u16)) == result + val * 0x80 && (result | (val << 7u16)) < 0x4000) by(bit_vector) requires val <= 127, result < 0x80;
    }
    if shift == 14 {
        assert(((((val << 14u16) >> 14u16) & 0x7F) == val) == (val < 4)) by(bit_vector) requires val <= 127;
        assert(val < 4 ==> (result | (val << 14u16)) == result + val * 0x4000) by(bit_vector) requires val <= 127, result < 0x4000;
    }
    if shift >= 16 {
        let d = (b % 128) as nat;
        assert(d * w128(shift) >= w128(shift) || d == 0) by(nonlinear_arith);
        assert(d == 0 ==> d * w128(shift) == 0) by(nonlinear_arith);
        uleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as nat, pow2_16());
    }
}

pub open spec fn pow2_32() -> nat { 0x100000000 }

pub proof fn uleb_step_u32(s: Seq<u8>, result: u32, shift: usize)
    requires
        s.len() > 0,
        shift % 7 == 0,
        shift < 32 + 7,
        shift < 32 ==> result < w128(shift),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as u32;
            let max = pow2_32();
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x80 == 0) == (b < 128)
            &&& shift < 32 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& result + (b % 128) as nat * w128(shift) < max ==> (result | (val << shift)) == result + (b % 128) as nat * w128(shift)
                &&& shift + 7 < 32 ==> (result | (val << shift)) < w128((shift + 7) as usize)
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 32 ==> {
                &&& (b % 128 != 0) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& b % 128 == 0 && b >= 128 ==> uleb(s, w128(shift), result as nat, max) == uleb(s.drop_first(), w128(shift), result as nat, max)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as u32;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u32) >> 0u32) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 0u32)) == result + val * 0x1 && (result | (val << 0u32)) < 0x80) by(bit_vector) requires val <= 127, result < 0x1;
    }
    if shift == 7 {
        assert((((val << 7u32) >> 7u32) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 7u32)) == result + val * 0x80 && (result | (val << 7u32)) < 0x4000) by(bit_vector) requires val <= 127, result < 0x80;
    }
    if shift == 14 {
        assert((((val << 14u32) >> 14u32) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 14u32)) == result + val * 0x4000 && (result | (val << 14u32)) < 0x200000) by(bit_vector) requires val <= 127, result < 0x4000;
    }
    if shift == 21 {
        assert((((val << 21u32) >> 21u32) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 21u32)) == result + val * 0x200000 && (result | (val << 21u32)) < 0x10000000) by(bit_vector) requires val <= 127, result < 0x200000;
    }
    if shift == 28 {
        assert(((((val << 28u32) >> 28u32) & 0x7F) == val) == (val < 16)) by(bit_vector) requires val <= 127;
        assert(val < 16 ==> (result | (val << 28u32)) == result + val * 0x10000000) by(bit_vector) requires val <= 127, result < 0x10000000;
    }
    if shift >= 32 {
        let d = (b % 128) as nat;
        assert(d * w128(shift) >= w128(shift) || d == 0) by(nonlinear_arith);
        assert(d == 0 ==> d * w128(shift) == 0) by(nonlinear_arith);
        uleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as nat, pow2_32());
    }
}

pub open spec fn pow2_64() -> nat { 0x10000000000000000 }

pub proof fn uleb_step_u64(s: Seq<u8>, result: u64, shift: usize)
    requires
        s.len() > 0,
        shift % 7 == 0,
        shift < 64 + 7,
        shift < 64 ==> result < w128(shift),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as u64;
            let max = pow2_64();
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x80 == 0) == (b < 128)
            &&& shift < 64 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& result + (b % 128) as nat * w128(shift) < max ==> (result | (val << shift)) == result + (b % 128) as nat * w128(shift)
                &&& shift + 7 < 64 ==> (result | (val << shift)) < w128((shift + 7) as usize)
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 64 ==> {
                &&& (b % 128 != 0) == (result + (b % 128) as nat * w128(shift) >= max)
                &&& b % 128 == 0 && b >= 128 ==> uleb(s, w128(shift), result as nat, max) == uleb(s.drop_first(), w128(shift), result as nat, max)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as u64;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u64) >> 0u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 0u64)) == result + val * 0x1 && (result | (val << 0u64)) < 0x80) by(bit_vector) requires val <= 127, result < 0x1;
    }
    if shift == 7 {
        assert((((val << 7u64) >> 7u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 7u64)) == result + val * 0x80 && (result | (val << 7u64)) < 0x4000) by(bit_vector) requires val <= 127, result < 0x80;
    }
    if shift == 14 {
        assert((((val << 14u64) >> 14u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 14u64)) == result + val * 0x4000 && (result | (val << 14u64)) < 0x200000) by(bit_vector) requires val <= 127, result < 0x4000;
    }
    if shift == 21 {
        assert((((val << 21u64) >> 21u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 21u64)) == result + val * 0x200000 && (result | (val << 21u64)) < 0x10000000) by(bit_vector) requires val <= 127, result < 0x200000;
    }
    if shift == 28 {
        assert((((val << 28u64) >> 28u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 28u64)) == result + val * 0x10000000 && (result | (val << 28u64)) < 0x800000000) by(bit_vector) requires val <= 127, result < 0x10000000;
    }
    if shift == 35 {
        assert((((val << 35u64) >> 35u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 35u64)) == result + val * 0x800000000 && (result | (val << 35u64)) < 0x40000000000) by(bit_vector) requires val <= 127, result < 0x800000000;
    }
    if shift == 42 {
        assert((((val << 42u64) >> 42u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 42u64)) == result + val * 0x40000000000 && (result | (val << 42u64)) < 0x2000000000000) by(bit_vector) requires val <= 127, result < 0x40000000000;
    }
    if shift == 49 {
        assert((((val << 49u64) >> 49u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 49u64)) == result + val * 0x2000000000000 && (result | (val << 49u64)) < 0x100000000000000) by(bit_vector) requires val <= 127, result < 0x2000000000000;
    }
    if shift == 56 {
        assert((((val << 56u64) >> 56u64) & 0x7F) == val) by(bit_vector) requires val <= 127;
        assert((result | (val << 56u64)) == result + val * 0x100000000000000 && (result | (val << 56u64)) < 0x8000000000000000) by(bit_vector) requires val <= 127, result < 0x100000000000000;
    }
    if shift == 63 {
        assert(((((val << 63u64) >> 63u64) & 0x7F) == val) == (val < 2)) by(bit_vector) requires val <= 127;
        assert(val < 2 ==> (result | (val << 63u64)) == result + val * 0x8000000000000000) by(bit_vector) requires val <= 127, result < 0x8000000000000000;
    }
    if shift >= 64 {
        let d = (b % 128) as nat;
        assert(d * w128(shift) >= w128(shift) || d == 0) by(nonlinear_arith);
        assert(d == 0 ==> d * w128(shift) == 0) by(nonlinear_arith);
        uleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as nat, pow2_64());
    }
}

pub open spec fn half_8() -> nat { 0x80 }

/// The accumulated base-128 value the specification has where the code has `result`.
pub open spec fn sacc_i8(result: i8, shift: usize) -> nat {
    if shift < 8 { result as nat } else { sext(result as int, w128(shift)) }
}

/// The value if the sequence ends here.
pub open spec fn sval_i8(result: i8, shift: usize, positive: bool) -> int {
    if shift < 8 && !positive { result - w128(shift) } else { result as int }
}

pub open spec fn sinv_i8(result: i8, shift: usize, positive: bool) -> bool {
    &&& shift % 7 == 0
    &&& shift < 8 + 7
    &&& shift < 8 ==> 0 <= result < w128(shift)
    &&& shift == 0 ==> positive
    &&& shift >= 8 ==> (positive <==> result >= 0)
}

pub proof fn sleb_step_i8(s: Seq<u8>, result: i8, shift: usize, positive: bool)
    requires
        s.len() > 0,
        sinv_i8(result, shift, positive),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as i8;
            let half = half_8();
            let d = (b % 128) as nat;
            let acc1 = sacc_i8(result, shift) + d * w128(shift);
            let v = if d >= 64 { acc1 - w128(shift) * 128 } else { acc1 as int };
            let bad = v >= half || v < -half;
            let r1 = result | (val << shift);
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x7F) <= 127
            &&& (b & 0x80 == 0) == (b < 128)
            &&& (b & 0x40 == 0) == (b % 128 < 64)
            &&& shift < 8 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == bad
                &&& !bad ==> sinv_i8(r1, (shift + 7) as usize, b % 128 < 64)
                &&& !bad ==> sval_i8(r1, (shift + 7) as usize, b % 128 < 64) == v
                &&& !bad ==> sacc_i8(r1, (shift + 7) as usize) == acc1
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 8 ==> {
                &&& bad == !((d == 0 && positive) || (d == 127 && !positive))
                &&& !bad ==> v == result
                &&& !bad && b >= 128 ==> sleb(s, w128(shift), sacc_i8(result, shift), half) == sleb(s.drop_first(), w128(shift), sacc_i8(result, shift), half)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as i8;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u32) >> 0u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 0u32)) == result + val * 0x1 && 0 <= (result | (val << 0u32)) < 0x80) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x1;
    }
    if shift == 7 {
        assert(((((val << 7u32) >> 7u32) & 0x7F) == val) == (val < 1 || val >= 128 - 1)) by(bit_vector) requires 0 <= val <= 127;
        assert(val < 1 ==> (result | (val << 7u32)) == result + val * 0x80) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x80;
        assert(val >= 128 - 1 ==> (result | (val << 7u32)) == result + (val - 128) * 0x80) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x80;
    }
    if shift >= 8 {
        sleb_pad((b % 128) as nat, w128(shift), result as int, half_8());
        sleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as int, half_8());
    }
}

pub proof fn sleb_sign_i8(result: i8, shift: usize)
    requires
        shift % 7 == 0,
        0 < shift < 8,
        0 <= result < w128(shift),
    ensures
        (result | ((!(0 as i8)) << shift)) == result - w128(shift),
{
    if shift == 7 { assert((result | ((!(0 as i8)) << 7u32)) == result - 0x80) by(bit_vector) requires 0 <= result < 0x80; }
}

pub open spec fn half_16() -> nat { 0x8000 }

/// The accumulated base-128 value the specification has where the code has `result`.
pub open spec fn sacc_i16(result: i16, shift: usize) -> nat {
    if shift < 16 { result as nat } else { sext(result as int, w128(shift)) }
}

/// The value if the sequence ends here.
pub open spec fn sval_i16(result: i16, shift: usize, positive: bool) -> int {
    if shift < 16 && !positive { result - w128(shift) } else { result as int }
}

pub open spec fn sinv_i16(result: i16, shift: usize, positive: bool) -> bool {
    &&& shift % 7 == 0
    &&& shift < 16 + 7
    &&& shift < 16 ==> 0 <= result < w128(shift)
    &&& shift == 0 ==> positive
    &&& shift >= 16 ==> (positive <==> result >= 0)
}

pub proof fn sleb_step_i16(s: Seq<u8>, result: i16, shift: usize, positive: bool)
    requires
        s.len() > 0,
        sinv_i16(result, shift, positive),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as i16;
            let half = half_16();
            let d = (b % 128) as nat;
            let acc1 = sacc_i16(result, shift) + d * w128(shift);
            let v = if d >= 64 { acc1 - w128(shift) * 128 } else { acc1 as int };
            let bad = v >= half || v < -half;
            let r1 = result | (val << shift);
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x7F) <= 127
            &&& (b & 0x80 == 0) == (b < 128)
            &&& (b & 0x40 == 0) == (b % 128 < 64)
            &&& shift < 16 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == bad
                &&& !bad ==> sinv_i16(r1, (shift + 7) as usize, b % 128 < 64)
                &&& !bad ==> sval_i16(r1, (shift + 7) as usize, b % 128 < 64) == v
                &&& !bad ==> sacc_i16(r1, (shift + 7) as usize) == acc1
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 16 ==> {
                &&& bad == !((d == 0 && positive) || (d == 127 && !positive))
                &&& !bad ==> v == result
                &&& !bad && b >= 128 ==> sleb(s, w128(shift), sacc_i16(result, shift), half) == sleb(s.drop_first(), w128(shift), sacc_i16(result, shift), half)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as i16;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u32) >> 0u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 0u32)) == result + val * 0x1 && 0 <= (result | (val << 0u32)) < 0x80) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x1;
    }
    if shift == 7 {
        assert((((val << 7u32) >> 7u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 7u32)) == result + val * 0x80 && 0 <= (result | (val << 7u32)) < 0x4000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x80;
    }
    if shift == 14 {
        assert(((((val << 14u32) >> 14u32) & 0x7F) == val) == (val < 2 || val >= 128 - 2)) by(bit_vector) requires 0 <= val <= 127;
        assert(val < 2 ==> (result | (val << 14u32)) == result + val * 0x4000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x4000;
        assert(val >= 128 - 2 ==> (result | (val << 14u32)) == result + (val - 128) * 0x4000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x4000;
    }
    if shift >= 16 {
        sleb_pad((b % 128) as nat, w128(shift), result as int, half_16());
        sleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as int, half_16());
    }
}

pub proof fn sleb_sign_i16(result: i16, shift: usize)
    requires
        shift % 7 == 0,
        0 < shift < 16,
        0 <= result < w128(shift),
    ensures
        (result | ((!(0 as i16)) << shift)) == result - w128(shift),
{
    if shift == 7 { assert((result | ((!(0 as i16)) << 7u32)) == result - 0x80) by(bit_vector) requires 0 <= result < 0x80; }
    if shift == 14 { assert((result | ((!(0 as i16)) << 14u32)) == result - 0x4000) by(bit_vector) requires 0 <= result < 0x4000; }
}

pub open spec fn half_32() -> nat { 0x80000000 }

/// The accumulated base-128 value the specification has where the code has `result`.
pub open spec fn sacc_i32(result: i32, shift: usize) -> nat {
    if shift < 32 { result as nat } else { sext(result as int, w128(shift)) }
}

/// The value if the sequence ends here.
pub open spec fn sval_i32(result: i32, shift: usize, positive: bool) -> int {
    if shift < 32 && !positive { result - w128(shift) } else { result as int }
}

pub open spec fn sinv_i32(result: i32, shift: usize, positive: bool) -> bool {
    &&& shift % 7 == 0
    &&& shift < 32 + 7
    &&& shift < 32 ==> 0 <= result < w128(shift)
    &&& shift == 0 ==> positive
    &&& shift >= 32 ==> (positive <==> result >= 0)
}

pub proof fn sleb_step_i32(s: Seq<u8>, result: i32, shift: usize, positive: bool)
    requires
        s.len() > 0,
        sinv_i32(result, shift, positive),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as i32;
            let half = half_32();
            let d = (b % 128) as nat;
            let acc1 = sacc_i32(result, shift) + d * w128(shift);
            let v = if d >= 64 { acc1 - w128(shift) * 128 } else { acc1 as int };
            let bad = v >= half || v < -half;
            let r1 = result | (val << shift);
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x7F) <= 127
            &&& (b & 0x80 == 0) == (b < 128)
            &&& (b & 0x40 == 0) == (b % 128 < 64)
            &&& shift < 32 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == bad
                &&& !bad ==> sinv_i32(r1, (shift + 7) as usize, b % 128 < 64)
                &&& !bad ==> sval_i32(r1, (shift + 7) as usize, b % 128 < 64) == v
                &&& !bad ==> sacc_i32(r1, (shift + 7) as usize) == acc1
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 32 ==> {
                &&& bad == !((d == 0 && positive) || (d == 127 && !positive))
                &&& !bad ==> v == result
                &&& !bad && b >= 128 ==> sleb(s, w128(shift), sacc_i32(result, shift), half) == sleb(s.drop_first(), w128(shift), sacc_i32(result, shift), half)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as i32;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u32) >> 0u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 0u32)) == result + val * 0x1 && 0 <= (result | (val << 0u32)) < 0x80) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x1;
    }
    if shift == 7 {
        assert((((val << 7u32) >> 7u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 7u32)) == result + val * 0x80 && 0 <= (result | (val << 7u32)) < 0x4000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x80;
    }
    if shift == 14 {
        assert((((val << 14u32) >> 14u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 14u32)) == result + val * 0x4000 && 0 <= (result | (val << 14u32)) < 0x200000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x4000;
    }
    if shift == 21 {
        assert((((val << 21u32) >> 21u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 21u32)) == result + val * 0x200000 && 0 <= (result | (val << 21u32)) < 0x10000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x200000;
    }
    if shift == 28 {
        assert(((((val << 28u32) >> 28u32) & 0x7F) == val) == (val < 8 || val >= 128 - 8)) by(bit_vector) requires 0 <= val <= 127;
        assert(val < 8 ==> (result | (val << 28u32)) == result + val * 0x10000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x10000000;
        assert(val >= 128 - 8 ==> (result | (val << 28u32)) == result + (val - 128) * 0x10000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x10000000;
    }
    if shift >= 32 {
        sleb_pad((b % 128) as nat, w128(shift), result as int, half_32());
        sleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as int, half_32());
    }
}

pub proof fn sleb_sign_i32(result: i32, shift: usize)
    requires
        shift % 7 == 0,
        0 < shift < 32,
        0 <= result < w128(shift),
    ensures
        (result | ((!(0 as i32)) << shift)) == result - w128(shift),
{
    if shift == 7 { assert((result | ((!(0 as i32)) << 7u32)) == result - 0x80) by(bit_vector) requires 0 <= result < 0x80; }
    if shift == 14 { assert((result | ((!(0 as i32)) << 14u32)) == result - 0x4000) by(bit_vector) requires 0 <= result < 0x4000; }
    if shift == 21 { assert((result | ((!(0 as i32)) << 21u32)) == result - 0x200000) by(bit_vector) requires 0 <= result < 0x200000; }
    if shift == 28 { assert((result | ((!(0 as i32)) << 28u32)) == result - 0x10000000) by(bit_vector) requires 0 <= result < 0x10000000; }
}

pub open spec fn half_64() -> nat { 0x8000000000000000 }

/// The accumulated base-128 value the specification has where the code has `result`.
pub open spec fn sacc_i64(result: i64, shift: usize) -> nat {
    if shift < 64 { result as nat } else { sext(result as int, w128(shift)) }
}

/// The value if the sequence ends here.
pub open spec fn sval_i64(result: i64, shift: usize, positive: bool) -> int {
    if shift < 64 && !positive { result - w128(shift) } else { result as int }
}

pub open spec fn sinv_i64(result: i64, shift: usize, positive: bool) -> bool {
    &&& shift % 7 == 0
    &&& shift < 64 + 7
    &&& shift < 64 ==> 0 <= result < w128(shift)
    &&& shift == 0 ==> positive
    &&& shift >= 64 ==> (positive <==> result >= 0)
}

pub proof fn sleb_step_i64(s: Seq<u8>, result: i64, shift: usize, positive: bool)
    requires
        s.len() > 0,
        sinv_i64(result, shift, positive),
    ensures
        ({
            let b = s[0];
            let val = (b & 0x7F) as i64;
            let half = half_64();
            let d = (b % 128) as nat;
            let acc1 = sacc_i64(result, shift) + d * w128(shift);
            let v = if d >= 64 { acc1 - w128(shift) * 128 } else { acc1 as int };
            let bad = v >= half || v < -half;
            let r1 = result | (val << shift);
            &&& (b & 0x7F) == b % 128
            &&& (b & 0x7F) <= 127
            &&& (b & 0x80 == 0) == (b < 128)
            &&& (b & 0x40 == 0) == (b % 128 < 64)
            &&& shift < 64 ==> {
                &&& ((((val << shift) >> shift) & 0x7F) != val) == bad
                &&& !bad ==> sinv_i64(r1, (shift + 7) as usize, b % 128 < 64)
                &&& !bad ==> sval_i64(r1, (shift + 7) as usize, b % 128 < 64) == v
                &&& !bad ==> sacc_i64(r1, (shift + 7) as usize) == acc1
                &&& w128(shift) * 128 == w128((shift + 7) as usize)
            }
            &&& shift >= 64 ==> {
                &&& bad == !((d == 0 && positive) || (d == 127 && !positive))
                &&& !bad ==> v == result
                &&& !bad && b >= 128 ==> sleb(s, w128(shift), sacc_i64(result, shift), half) == sleb(s.drop_first(), w128(shift), sacc_i64(result, shift), half)
            }
        }),
{
    let b = s[0];
    let val = (b & 0x7F) as i64;
    byte_bits(b);
    if shift == 0 {
        assert((((val << 0u32) >> 0u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 0u32)) == result + val * 0x1 && 0 <= (result | (val << 0u32)) < 0x80) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x1;
    }
    if shift == 7 {
        assert((((val << 7u32) >> 7u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 7u32)) == result + val * 0x80 && 0 <= (result | (val << 7u32)) < 0x4000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x80;
    }
    if shift == 14 {
        assert((((val << 14u32) >> 14u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 14u32)) == result + val * 0x4000 && 0 <= (result | (val << 14u32)) < 0x200000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x4000;
    }
    if shift == 21 {
        assert((((val << 21u32) >> 21u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 21u32)) == result + val * 0x200000 && 0 <= (result | (val << 21u32)) < 0x10000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x200000;
    }
    if shift == 28 {
        assert((((val << 28u32) >> 28u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 28u32)) == result + val * 0x10000000 && 0 <= (result | (val << 28u32)) < 0x800000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x10000000;
    }
    if shift == 35 {
        assert((((val << 35u32) >> 35u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 35u32)) == result + val * 0x800000000 && 0 <= (result | (val << 35u32)) < 0x40000000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x800000000;
    }
    if shift == 42 {
        assert((((val << 42u32) >> 42u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 42u32)) == result + val * 0x40000000000 && 0 <= (result | (val << 42u32)) < 0x2000000000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x40000000000;
    }
    if shift == 49 {
        assert((((val << 49u32) >> 49u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 49u32)) == result + val * 0x2000000000000 && 0 <= (result | (val << 49u32)) < 0x100000000000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x2000000000000;
    }
    if shift == 56 {
        assert((((val << 56u32) >> 56u32) & 0x7F) == val) by(bit_vector) requires 0 <= val <= 127;
        assert((result | (val << 56u32)) == result + val * 0x100000000000000 && 0 <= (result | (val << 56u32)) < 0x8000000000000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x100000000000000;
    }
    if shift == 63 {
        assert(((((val << 63u32) >> 63u32) & 0x7F) == val) == (val < 1 || val >= 128 - 1)) by(bit_vector) requires 0 <= val <= 127;
        assert(val < 1 ==> (result | (val << 63u32)) == result + val * 0x8000000000000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x8000000000000000;
        assert(val >= 128 - 1 ==> (result | (val << 63u32)) == result + (val - 128) * 0x8000000000000000) by(bit_vector) requires 0 <= val <= 127, 0 <= result < 0x8000000000000000;
    }
    if shift >= 64 {
        sleb_pad((b % 128) as nat, w128(shift), result as int, half_64());
        sleb_weight(s.drop_first(), w128(shift) * 128, w128(shift), result as int, half_64());
    }
}

pub proof fn sleb_sign_i64(result: i64, shift: usize)
    requires
        shift % 7 == 0,
        0 < shift < 64,
        0 <= result < w128(shift),
    ensures
        (result | ((!(0 as i64)) << shift)) == result - w128(shift),
{
    if shift == 7 { assert((result | ((!(0 as i64)) << 7u32)) == result - 0x80) by(bit_vector) requires 0 <= result < 0x80; }
    if shift == 14 { assert((result | ((!(0 as i64)) << 14u32)) == result - 0x4000) by(bit_vector) requires 0 <= result < 0x4000; }
    if shift == 21 { assert((result | ((!(0 as i64)) << 21u32)) == result - 0x200000) by(bit_vector) requires 0 <= result < 0x200000; }
    if shift == 28 { assert((result | ((!(0 as i64)) << 28u32)) == result - 0x10000000) by(bit_vector) requires 0 <= result < 0x10000000; }
    if shift == 35 { assert((result | ((!(0 as i64)) << 35u32)) == result - 0x800000000) by(bit_vector) requires 0 <= result < 0x800000000; }
    if shift == 42 { assert((result | ((!(0 as i64)) << 42u32)) == result - 0x40000000000) by(bit_vector) requires 0 <= result < 0x40000000000; }
    if shift == 49 { assert((result | ((!(0 as i64)) << 49u32)) == result - 0x2000000000000) by(bit_vector) requires 0 <= result < 0x2000000000000; }
    if shift == 56 { assert((result | ((!(0 as i64)) << 56u32)) == result - 0x100000000000000) by(bit_vector) requires 0 <= result < 0x100000000000000; }
    if shift == 63 { assert((result | ((!(0 as i64)) << 63u32)) == result - 0x8000000000000000) by(bit_vector) requires 0 <= result < 0x8000000000000000; }
}

}
