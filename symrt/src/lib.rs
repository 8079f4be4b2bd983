//! Symbolic runtime: see DESIGN.md.
#![allow(clippy::all)]
pub mod collections;
pub mod engine;
pub mod form;
pub mod poly;
pub mod rat;
pub mod smt;
pub mod sym;
pub mod time;
pub mod wide;

pub use engine::enter;
pub use sym::{cast_to, f64mod, lit, CastTo, Sym};
/// the name under which the transformed sources see the scalar type
pub use sym::Sym as f64;
