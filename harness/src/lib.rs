#![allow(clippy::all)]
#[macro_use]
pub mod macros;
pub mod ctx;
pub mod engine;
pub mod handle;
pub mod iv;
pub mod poly;
pub mod q;
pub mod refs;
pub mod report;
pub mod shapes;
pub mod solver;
pub mod sym;
pub mod surf;
