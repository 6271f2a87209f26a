//! Reference semantics used as oracles by the harnesses: a location-free AST
//! dump, a span checker and a small JavaScript interpreter.
pub mod dump;
pub mod interp;
