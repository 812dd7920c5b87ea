pub use crate::valid::*;
pub use crate::valview::*;
pub use crate::vallemmas::*;
pub use crate::structure::ty::Val;
pub use crate::ast::*;
