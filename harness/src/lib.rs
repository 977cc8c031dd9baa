//! Shared machinery of the model checkers: exhaustive runner, in-memory transport,
//! strict HTTP response parser, enumeration helpers.
#![allow(bare_trait_objects)]
pub mod runner;
pub mod wire;
pub mod gen;
pub mod dict;
pub mod forms;
pub mod srv;
pub mod sched;
pub mod rich;
#[macro_use]
pub mod tuples;
pub mod routes;
pub mod compose;
pub mod composed;
pub use crate::runner::*;
