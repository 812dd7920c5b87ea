// Stand-ins for std functions used by the validator that vstd does not specify.
use vstd::prelude::*;
use crate::structure::module;
verus! {

pub open spec fn names(v: Seq<&String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

// E.iter().map(|e| &e.name).collect::<Vec<&String>>()
pub fn export_names<'a>(a: &'a [module::Export]) -> (r: Vec<&'a String>)
    ensures
        names(r@) == Seq::new(a@.len(), |i: int| a@[i].name@),
{
    let mut v: Vec<&'a String> = Vec::new();
    for x in it: a.iter()
        invariant
            v@.len() == it.index@,
            it.seq().len() == a@.len(),
            forall|i: int| 0 <= i < a@.len() ==> *#[trigger] it.seq()[i] == a@[i],
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] v@[i])@ == a@[i].name@,
    {
        v.push(&x.name);
    }
    assert(names(v@) =~= Seq::new(a@.len(), |i: int| a@[i].name@));
    v
}

}
