// Assumed contracts of std functions and derived comparisons used by the validator.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::structure::ty;
use crate::validation::stacks::Operand;
verus! {

impl PartialEqSpecImpl for ty::Val {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ty::Val) -> bool { *self == *other }
}
impl PartialEqSpecImpl for ty::Mut {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ty::Mut) -> bool { *self == *other }
}
impl PartialEqSpecImpl for ty::Elem {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ty::Elem) -> bool { *self == *other }
}
impl PartialEqSpecImpl for Operand {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Operand) -> bool { *self == *other }
}

pub assume_specification<T>[ std::slice::from_ref ](s: &T) -> (r: &[T])
    ensures r@ == seq![*s],
;

/// Equality as `Ord` and `PartialEq` of the element type see it.
pub uninterp spec fn eqv<T>(a: T, b: T) -> bool;

pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() && p.len() == a.len() && q.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] p[i] < a.len() && a[i] == b[p[i]] && q[p[i]] == i
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] q[i] < a.len() && p[q[i]] == i
}

/// Equal elements are next to each other.
pub open spec fn grouped<T>(a: Seq<T>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i <= j <= k < a.len() && eqv(#[trigger] a[i], #[trigger] a[k]) ==> eqv(a[i], #[trigger] a[j])
}

pub assume_specification<T>[ <[T]>::sort ](s: &mut [T])
    where T: std::cmp::Ord
    ensures
        exists|p: Seq<int>, q: Seq<int>| perm(final(s)@, old(s)@, p, q),
        grouped(final(s)@),
;

pub open spec fn dedup<T>(s: Seq<T>) -> Seq<T>
    decreases s.len(),
{
    if s.len() <= 1 { s }
    else if eqv(s[s.len() - 2], s.last()) { dedup(s.drop_last()) }
    else { dedup(s.drop_last()).push(s.last()) }
}

pub assume_specification<T, A: std::alloc::Allocator>[ std::vec::Vec::<T, A>::dedup ](v: &mut std::vec::Vec<T, A>)
    where T: std::cmp::PartialEq
    ensures final(v)@ == dedup(old(v)@),
;

pub axiom fn eqv_string(a: &String, b: &String)
    ensures eqv(a, b) <==> a@ == b@;

/// Comparison of a vector with an empty array.
pub broadcast axiom fn vec_eq_none(a: &Vec<ty::Val>, b: &[ty::Val; 0])
    ensures
        <Vec<ty::Val> as PartialEqSpec<[ty::Val; 0]>>::obeys_eq_spec(),
        #[trigger] <Vec<ty::Val> as PartialEqSpec<[ty::Val; 0]>>::eq_spec(a, b) <==> a@.len() == 0,
;

}
