pub mod structure;
pub mod binary;
pub mod validation;