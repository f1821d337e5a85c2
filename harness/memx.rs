// @attach server/src/engine/mem/mod.rs
// @feature p03
//! access to the private modules below mem/
pub use super::numbuf::Int;
