// The standard library's check for UTF-8, verified against vstd's definition of it. The functions
// marked //@ are copied from the toolchain's own source by check/stdsrc.py on every run.
use vstd::prelude::*;
use vstd::utf8::*;

verus! {

/// The table of well-formed byte sequences: number of bytes of the first character, 0 if there is none.
pub open spec fn first_char(s: Seq<u8>) -> int {
    if s.len() >= 1 && s[0] <= 0x7f { 1 }
    else if s.len() >= 2 && 0xc2 <= s[0] <= 0xdf && tail(s[1]) { 2 }
    else if s.len() >= 3 && tail(s[2]) && (
        s[0] == 0xe0 && 0xa0 <= s[1] <= 0xbf
        || 0xe1 <= s[0] <= 0xec && tail(s[1])
        || s[0] == 0xed && 0x80 <= s[1] <= 0x9f
        || 0xee <= s[0] <= 0xef && tail(s[1])) { 3 }
    else if s.len() >= 4 && tail(s[2]) && tail(s[3]) && (
        s[0] == 0xf0 && 0x90 <= s[1] <= 0xbf
        || 0xf1 <= s[0] <= 0xf3 && tail(s[1])
        || s[0] == 0xf4 && 0x80 <= s[1] <= 0x8f) { 4 }
    else { 0 }
}

pub open spec fn tail(b: u8) -> bool { 0x80 <= b <= 0xbf }

proof fn width_2(a: u8, b: u8)
    requires 0xc0 <= a <= 0xdf, tail(b),
    ensures ({ let c = codepoint_width_2(a, b); 0 <= c <= 0x7ff && (c >= 0x80 <==> a >= 0xc2) }),
{
    assert({ let c = (((a & 0x1f) as u32) << 6) | ((b & 0x3f) as u32); c <= 0x7ff && (c >= 0x80 <==> a >= 0xc2) }) by (bit_vector)
        requires 0xc0 <= a <= 0xdf, 0x80 <= b <= 0xbf;
}

proof fn width_3(a: u8, b: u8, c: u8)
    requires 0xe0 <= a <= 0xef, tail(b), tail(c),
    ensures ({ let p = codepoint_width_3(a, b, c);
        0 <= p <= 0xffff && (p >= 0x800 <==> !(a == 0xe0 && b < 0xa0)) && (0xd800 <= p <= 0xdfff <==> a == 0xed && b >= 0xa0) }),
{
    assert({ let p = (((a & 0x0f) as u32) << 12) | (((b & 0x3f) as u32) << 6) | ((c & 0x3f) as u32);
        p <= 0xffff && (p >= 0x800 <==> !(a == 0xe0 && b < 0xa0)) && (0xd800 <= p <= 0xdfff <==> a == 0xed && b >= 0xa0) }) by (bit_vector)
        requires 0xe0 <= a <= 0xef, 0x80 <= b <= 0xbf, 0x80 <= c <= 0xbf;
}

proof fn width_4(a: u8, b: u8, c: u8, d: u8)
    requires 0xf0 <= a <= 0xf7, tail(b), tail(c), tail(d),
    ensures ({ let p = codepoint_width_4(a, b, c, d);
        (p >= 0x10000 <==> !(a == 0xf0 && b < 0x90)) && (p <= 0x10ffff <==> a < 0xf4 || a == 0xf4 && b <= 0x8f) }),
{
    assert({ let p = (((a & 0x07) as u32) << 18) | (((b & 0x3f) as u32) << 12) | (((c & 0x3f) as u32) << 6) | ((d & 0x3f) as u32);
        (p >= 0x10000 <==> !(a == 0xf0 && b < 0x90)) && (p <= 0x10ffff <==> a < 0xf4 || a == 0xf4 && b <= 0x8f) }) by (bit_vector)
        requires 0xf0 <= a <= 0xf7, 0x80 <= b <= 0xbf, 0x80 <= c <= 0xbf, 0x80 <= d <= 0xbf;
}

/// The table agrees with vstd's definition by code points.
proof fn first_char_ok(s: Seq<u8>)
    requires s.len() > 0,
    ensures
        valid_first_scalar(s) <==> first_char(s) > 0,
        first_char(s) > 0 ==> pop_first_scalar(s) == s.skip(first_char(s)),
{
    let a = s[0];
    if s.len() >= 2 && 0xc0 <= a <= 0xdf && tail(s[1]) { width_2(a, s[1]); }
    if s.len() >= 3 && 0xe0 <= a <= 0xef && tail(s[1]) && tail(s[2]) { width_3(a, s[1], s[2]); }
    if s.len() >= 4 && 0xf0 <= a <= 0xf7 && tail(s[1]) && tail(s[2]) && tail(s[3]) { width_4(a, s[1], s[2], s[3]); }
    if s.len() >= 1 && a <= 0x7f { assert((a & 0x7f) <= 0x7f) by (bit_vector); }
    if first_char(s) > 0 { assert(pop_first_scalar(s) =~= s.skip(first_char(s))); }
}

/// What is left at `i` decides.
pub open spec fn left(v: Seq<u8>, i: int) -> bool { 0 <= i <= v.len() && valid_utf8(v.skip(i)) }

proof fn step(v: Seq<u8>, i: int)
    requires 0 <= i < v.len(),
    ensures
        first_char(v.skip(i)) > 0 ==> i + first_char(v.skip(i)) <= v.len() && (left(v, i) <==> left(v, i + first_char(v.skip(i)))),
        first_char(v.skip(i)) == 0 ==> !left(v, i),
{
    let s = v.skip(i);
    first_char_ok(s);
    if first_char(s) > 0 { assert(s.skip(first_char(s)) =~= v.skip(i + first_char(s))); }
}

proof fn ascii(v: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= v.len(), forall|k: int| i <= k < j ==> v[k] <= 0x7f,
    ensures left(v, i) <==> left(v, j),
    decreases j - i,
{
    if i < j { step(v, i); ascii(v, i + 1, j); }
}

// ---- what the copied functions use

global size_of usize == 8;

pub struct Utf8Error { pub valid_up_to: usize, pub error_len: Option<u8> }

pub struct FromUtf8Error { pub bytes: Vec<u8>, pub error: Utf8Error }

/// The eight bytes at `i`: what the validation's reads through a `*const usize` yield.
#[verifier::external_body]
fn word(v: &[u8], i: usize) -> (r: usize)
    requires i + 8 <= v@.len(),
    ensures r == word_at(v@, i as int),
{ unimplemented!() }

/// Where the text lies in memory: anything.
#[verifier::external_body]
fn alignment(v: &[u8]) -> usize { unimplemented!() }

#[verifier::external_body]
fn is_multiple_of(a: usize, b: usize) -> bool { unimplemented!() }

/// `String { vec }`: a string is its bytes.
#[verifier::external_body]
fn string_of(vec: Vec<u8>) -> (r: String)
    requires valid_utf8(vec@),
    ensures r@ == decode_utf8(vec@),
{ unimplemented!() }

pub open spec fn width(b: u8) -> usize {
    if b < 0x80 { 1 } else if b < 0xc2 { 0 } else if b < 0xe0 { 2 } else if b < 0xf0 { 3 } else if b < 0xf5 { 4 } else { 0 }
}

/// A byte that is not below -64 as a signed number does not continue a character.
proof fn signed_tail()
    ensures forall|x: u8| #[trigger] (x as i8) >= -64 <==> !tail(x),
{
    assert forall|x: u8| #[trigger] (x as i8) >= -64 <==> !tail(x) by {
        assert((x as i8) >= -64i8 <==> !(0x80 <= x <= 0xbf)) by (bit_vector);
    }
}

spec fn le(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8) -> usize {
    (a as usize) | ((b as usize) << 8) | ((c as usize) << 16) | ((d as usize) << 24)
        | ((e as usize) << 32) | ((f as usize) << 40) | ((g as usize) << 48) | ((h as usize) << 56)
}

spec fn word_at(v: Seq<u8>, i: int) -> usize {
    le(v[i], v[i + 1], v[i + 2], v[i + 3], v[i + 4], v[i + 5], v[i + 6], v[i + 7])
}

proof fn le_ascii(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8)
    requires le(a, b, c, d, e, f, g, h) & 0x8080808080808080usize == 0,
    ensures a <= 0x7f, b <= 0x7f, c <= 0x7f, d <= 0x7f, e <= 0x7f, f <= 0x7f, g <= 0x7f, h <= 0x7f,
{
    assert(a <= 0x7f && b <= 0x7f && c <= 0x7f && d <= 0x7f && e <= 0x7f && f <= 0x7f && g <= 0x7f && h <= 0x7f) by (bit_vector)
        requires ((a as usize) | ((b as usize) << 8) | ((c as usize) << 16) | ((d as usize) << 24)
            | ((e as usize) << 32) | ((f as usize) << 40) | ((g as usize) << 48) | ((h as usize) << 56)) & 0x8080808080808080usize == 0;
}

proof fn word_ascii(v: Seq<u8>, i: int)
    requires 0 <= i, i + 8 <= v.len(), word_at(v, i) & 0x8080808080808080usize == 0,
    ensures forall|k: int| i <= k < i + 8 ==> v[k] <= 0x7f,
{
    le_ascii(v[i], v[i + 1], v[i + 2], v[i + 3], v[i + 4], v[i + 5], v[i + 6], v[i + 7]);
    assert forall|k: int| i <= k < i + 8 implies v[k] <= 0x7f by {
        assert(k == i || k == i + 1 || k == i + 2 || k == i + 3 || k == i + 4 || k == i + 5 || k == i + 6 || k == i + 7);
    }
}

// ---- the functions

const NONASCII_MASK: usize = 0x8080808080808080;

//@ contains_nonascii

//@ UTF8_CHAR_WIDTH

//@ utf8_char_width

//@ run_utf8_validation

//@ str_from_utf8

//@ string_from_utf8

}

fn main() {}
