pub use crate::model::*;
pub use crate::dec::*;
pub use crate::ast::*;
pub use crate::lemmas::*;
pub use crate::leb::*;
pub use crate::binary::core::traits::WasmBinaryExt;
