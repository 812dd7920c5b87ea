//! This module defines the parsing of low level elements required to parse higher level structures.

pub mod array;
pub mod byte;
pub mod error;
pub mod float;
pub mod result;
pub mod signed;
pub mod sized;
pub mod string;
pub mod traits;
pub mod unsigned;
pub mod vec;