pub mod idx;
pub mod instr;
pub mod module;
pub mod ty;