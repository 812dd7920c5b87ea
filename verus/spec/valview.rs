// The validator's state as seen by the specification.
use vstd::prelude::*;
use crate::structure::{ty, module};
use crate::structure::ty::Val;
use crate::validation::stacks::{Operand, Frame, Stacks};
use crate::validation::context::Context;
use crate::validation::module::result;
use crate::ast::*;
use crate::valid::*;
verus! {

pub open spec fn functys<'a>(s: Seq<&'a ty::Func>) -> Seq<SFuncTy> { Seq::new(s.len(), |i: int| v_functy(*s[i])) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }

pub open spec fn cv<'a>(c: Context<'a>) -> SCtx {
    SCtx {
        types: functys(c.types@),
        funcs: functys(c.funcs@),
        tables: derefs(c.tables@),
        mems: derefs(c.mems@),
        globals: derefs(c.globals@),
        locals: derefs(c.locals@),
        ret: match c.ret { Some(r) => Some(r@), None => None },
    }
}

/// Label types, innermost first.
#[verifier::opaque]
pub open spec fn labels<'a>(fs: Seq<Frame<'a>>) -> Seq<Seq<Val>> { Seq::new(fs.len(), |i: int| fs[fs.len() - 1 - i].label@) }

/// The innermost block's own state.
#[verifier::opaque]
pub open spec fn local<'a>(s: Stacks<'a>) -> St {
    St { ops: s.operands@.skip(s.frames@.last().height as int), dead: s.frames@.last().unreachable }
}

#[verifier::opaque]
pub open spec fn swf<'a>(s: Stacks<'a>) -> bool {
    &&& forall|i: int| 0 <= i < s.frames@.len() ==> (#[trigger] s.frames@[i]).height <= s.operands@.len()
    &&& forall|i: int, j: int| 0 <= i <= j < s.frames@.len() ==> (#[trigger] s.frames@[i]).height <= (#[trigger] s.frames@[j]).height
}

/// Well-formed, and inside a block.
pub open spec fn inside<'a>(s: Stacks<'a>) -> bool { s.frames@.len() > 0 && swf(s) }

/// Nothing outside the innermost block's own operands and reachability has changed.
#[verifier::opaque]
pub open spec fn keeps<'a>(s: Stacks<'a>, d: Stacks<'a>) -> bool {
    &&& inside(d)
    &&& d.frames@.len() == s.frames@.len()
    &&& d.frames@.drop_last() =~= s.frames@.drop_last()
    &&& d.frames@.last().label == s.frames@.last().label
    &&& d.frames@.last().out == s.frames@.last().out
    &&& d.frames@.last().height == s.frames@.last().height
    &&& d.operands@.take(s.frames@.last().height as int) =~= s.operands@.take(s.frames@.last().height as int)
    &&& labels(d.frames@) =~= labels(s.frames@)
}

/// A new innermost block has been opened.
#[verifier::opaque]
pub open spec fn opened<'a>(s: Stacks<'a>, d: Stacks<'a>, label: Seq<Val>, out: Seq<Val>) -> bool {
    &&& inside(d)
    &&& d.operands@ =~= s.operands@
    &&& d.frames@.drop_last() =~= s.frames@
    &&& d.frames@.len() == s.frames@.len() + 1
    &&& d.frames@.last().label@ == label
    &&& d.frames@.last().out@ == out
    &&& d.frames@.last().height == s.operands@.len()
    &&& local(d) =~= fresh()
    &&& labels(d.frames@) =~= seq![label] + labels(s.frames@)
}

/// The results of the innermost block.
pub open spec fn outs<'a>(s: Stacks<'a>) -> Seq<Val> { s.frames@.last().out@ }

/// Operands have been added.
#[verifier::opaque]
pub open spec fn pushed<'a>(s: Stacks<'a>, d: Stacks<'a>, ts: Seq<Val>) -> bool {
    &&& d.frames@ == s.frames@
    &&& d.operands@ =~= s.operands@ + opsof(ts)
}

/// The innermost block has been closed.
#[verifier::opaque]
pub open spec fn closed<'a>(s: Stacks<'a>, d: Stacks<'a>) -> bool {
    &&& swf(d)
    &&& d.frames@ =~= s.frames@.drop_last()
    &&& d.operands@ =~= s.operands@.take(s.frames@.last().height as int)
}

/// The innermost block has been closed and its results are operands of the block around it.
#[verifier::opaque]
pub open spec fn ended<'a>(s: Stacks<'a>, d: Stacks<'a>) -> bool {
    &&& swf(d)
    &&& d.frames@ =~= s.frames@.drop_last()
    &&& d.operands@ =~= s.operands@.take(s.frames@.last().height as int) + opsof(s.frames@.last().out@)
}

/// The first arm has been closed and a block for the second one opened.
#[verifier::opaque]
pub open spec fn elsed<'a>(s: Stacks<'a>, d: Stacks<'a>) -> bool {
    &&& inside(d)
    &&& d.frames@.len() == s.frames@.len()
    &&& d.frames@.drop_last() =~= s.frames@.drop_last()
    &&& d.frames@.last().label@ =~= s.frames@.last().out@
    &&& d.frames@.last().out@ =~= s.frames@.last().out@
    &&& d.frames@.last().height == s.frames@.last().height
    &&& d.operands@ =~= s.operands@.take(s.frames@.last().height as int)
    &&& local(d) =~= fresh()
    &&& labels(d.frames@) =~= seq![s.frames@.last().out@] + labels(s.frames@.drop_last())
}

/// What validating an instruction or expression means, given what the specification says of it.
pub open spec fn steps<'a>(c: Context<'a>, d: Context<'a>, r: crate::validation::Result<()>, want: Option<St>) -> bool {
    match r {
        Ok(_) => {
            &&& want is Some
            &&& want.unwrap() == local(d.stacks)
            &&& keeps(c.stacks, d.stacks)
            &&& cv(d) == cv(c)
        },
        Err(_) => want is None,
    }
}

pub open spec fn no_stacks<'a>(s: Stacks<'a>) -> bool { s.frames@.len() == 0 && s.operands@.len() == 0 }

/// Between two items of a module: nothing is left over from the previous one.
pub open spec fn base<'a>(c: Context<'a>) -> bool { no_stacks(c.stacks) && cv(c).locals.len() == 0 && cv(c).ret is None }

pub open spec fn ready<'a>(m: SModule, c: Context<'a>, g: Context<'a>) -> bool {
    &&& cv(c) == mod_ctx(m)
    &&& cv(g) == init_ctx(m)
    &&& base(c)
    &&& base(g)
}

pub open spec fn v_ext<'a>(e: result::External<'a>) -> SExt {
    match e {
        result::External::Func(t) => SExt::Func(v_functy(*t)),
        result::External::Table(t) => SExt::Table(*t),
        result::External::Mem(t) => SExt::Mem(*t),
        result::External::Global(t) => SExt::Global(*t),
    }
}
pub open spec fn v_exts<'a>(s: Seq<result::External<'a>>) -> Seq<SExt> { Seq::new(s.len(), |i: int| v_ext(s[i])) }

}
