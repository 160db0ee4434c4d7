//! gauss-quad 0.2.2 reduced to its Gauss-Legendre rule, with one addition: a hook that is offered every
//! integral first, so that the checker can sum symbolic values of the integrand exactly. The nodes and
//! weights are the crate's own.
#![allow(dead_code, unused_imports)]
mod data_api;
pub mod legendre;
pub use data_api::{Node, Weight};
pub use legendre::GaussLegendre;

pub type Hook = fn(&[(f64, f64)], f64, f64, &dyn Fn(f64) -> f64) -> Option<f64>;
thread_local! {
    pub static HOOK: std::cell::Cell<Option<Hook>> = const { std::cell::Cell::new(None) };
}
