// Assumed contracts of std functions that vstd does not specify. Everything here is trusted.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use crate::binary::core::byte::Byte;
use crate::binary::core::error::Error;
use crate::structure::instr::Instr;
use crate::ast::*;
verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification[ std::string::String::from_utf8 ](v: Vec<u8>) -> (r: std::result::Result<String, std::string::FromUtf8Error>)
    ensures
        match r {
            Ok(s) => vstd::utf8::valid_utf8(v@) && s@ == vstd::utf8::decode_utf8(v@),
            Err(_) => !vstd::utf8::valid_utf8(v@),
        },
;

pub uninterp spec fn other_eq(a: Instr, b: Instr) -> bool;

// derived; equality of float constants is not bit equality, so only comparison with an
// instruction without immediates is specified
impl PartialEqSpecImpl for Instr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Instr) -> bool {
        if v_instr(*other) is Plain { v_instr(*self) == v_instr(*other) } else { other_eq(*self, *other) }
    }
}

/// What `?` does to an error is what the (verified) From impl does.
pub broadcast axiom fn question_mark_from(v: std::string::FromUtf8Error, r: Error)
    ensures
        #[trigger] vstd::std_specs::control_flow::spec_from::<Error, std::string::FromUtf8Error>(v, r) ==> r == <Error as FromSpec<std::string::FromUtf8Error>>::from_spec(v),
;

/// Comparison of arrays is comparison of their elements.
pub broadcast axiom fn array_eq_char(a: &[Byte; 4], b: &[char; 4])
    ensures
        <[Byte; 4] as PartialEqSpec<[char; 4]>>::obeys_eq_spec(),
        #[trigger] <[Byte; 4] as PartialEqSpec<[char; 4]>>::eq_spec(a, b) <==> (a@[0].0 as char == b@[0] && a@[1].0 as char == b@[1] && a@[2].0 as char == b@[2] && a@[3].0 as char == b@[3]),
;

pub broadcast axiom fn array_eq_u8(a: &[Byte; 4], b: &[u8; 4])
    ensures
        <[Byte; 4] as PartialEqSpec<[u8; 4]>>::obeys_eq_spec(),
        #[trigger] <[Byte; 4] as PartialEqSpec<[u8; 4]>>::eq_spec(a, b) <==> (a@[0].0 == b@[0] && a@[1].0 == b@[1] && a@[2].0 == b@[2] && a@[3].0 == b@[3]),
;

pub broadcast group group_array_eq {
    array_eq_char,
    array_eq_u8,
}

}
