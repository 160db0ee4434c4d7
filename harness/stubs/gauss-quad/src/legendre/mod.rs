//! Numerical integration using the Gauss-Legendre quadrature rule.
//!
//! A Gauss-Legendre quadrature rule of degree n can integrate
//! degree 2n-1 polynomials exactly.
//!
//! Evaluation point x_i of a degree n rule is the i:th root
//! of Legendre polynomial P_n and its weight is  
//! w = 2 / ((1 - x_i)(P'_n(x_i))^2).
//!
//!
//! # Example
//!
//! ```
//! use gauss_quad::legendre::GaussLegendre;
//! # use gauss_quad::legendre::GaussLegendreError;
//! use approx::assert_abs_diff_eq;
//!
//! let quad = GaussLegendre::new(10)?;
//! let integral = quad.integrate(-1.0, 1.0,
//!     |x| 0.125 * (63.0 * x.powi(5) - 70.0 * x.powi(3) + 15.0 * x)
//! );
//! assert_abs_diff_eq!(integral, 0.0);
//! # Ok::<(), GaussLegendreError>(())
//! ```

#[cfg(feature = "rayon")]
use rayon::prelude::{IntoParallelIterator, IntoParallelRefIterator, ParallelIterator};

mod bogaert;

use bogaert::NodeWeightPair;

use crate::{Node, Weight, __impl_node_weight_rule};

use std::backtrace::Backtrace;

/// A Gauss-Legendre quadrature scheme.
///
/// These rules can integrate functions on the domain [a, b].
///
/// # Examples
///
/// Basic usage:
/// ```
/// # use gauss_quad::legendre::{GaussLegendre, GaussLegendreError};
/// # use approx::assert_abs_diff_eq;
/// // initialize a Gauss-Legendre rule with 2 nodes
/// let quad = GaussLegendre::new(2)?;
///
/// // numerically integrate x^2 - 1/3 over the domain [0, 1]
/// let integral = quad.integrate(0.0, 1.0, |x| x * x - 1.0 / 3.0);
///
/// assert_abs_diff_eq!(integral, 0.0);
/// # Ok::<(), GaussLegendreError>(())
/// ```
/// The nodes and weights are computed in O(n) time,
/// so large quadrature rules are feasible:
/// ```
/// # use gauss_quad::legendre::{GaussLegendre, GaussLegendreError};
/// # use approx::assert_abs_diff_eq;
/// let quad = GaussLegendre::new(1_000_000)?;
///
/// let integral = quad.integrate(-3.0, 3.0, |x| x.sin());
///
/// assert_abs_diff_eq!(integral, 0.0);
/// # Ok::<(), GaussLegendreError>(())
/// ```
#[derive(Debug, Clone, PartialEq)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct GaussLegendre {
    node_weight_pairs: Vec<(Node, Weight)>,
}

impl GaussLegendre {
    /// Initializes a Gauss-Legendre quadrature rule of the given degree by computing the needed nodes and weights.  
    ///
    /// A rule of degree n can integrate polynomials of degree 2n-1 exactly.
    ///
    /// Uses the [algorithm by Ignace Bogaert](https://doi.org/10.1137/140954969), which has linear time
    /// complexity.
    ///
    /// # Errors
    ///
    /// Returns an error if `deg` is smaller than 2.
    pub fn new(deg: usize) -> Result<Self, GaussLegendreError> {
        if deg < 2 {
            return Err(GaussLegendreError::new());
        }

        Ok(Self {
            node_weight_pairs: (1..deg + 1)
                .map(|k: usize| NodeWeightPair::new(deg, k).into_tuple())
                .collect(),
        })
    }

    #[cfg(feature = "rayon")]
    /// Same as [`new`](GaussLegendre::new) but runs in parallel.
    ///
    /// # Errors
    ///
    /// Returns an error if `deg` is smaller than 2.
    pub fn par_new(deg: usize) -> Result<Self, GaussLegendreError> {
        if deg < 2 {
            return Err(GaussLegendreError::new());
        }

        Ok(Self {
            node_weight_pairs: (1..deg + 1)
                .into_par_iter()
                .map(|k| NodeWeightPair::new(deg, k).into_tuple())
                .collect(),
        })
    }

    fn argument_transformation(x: f64, a: f64, b: f64) -> f64 {
        0.5 * ((b - a) * x + (b + a))
    }

    fn scale_factor(a: f64, b: f64) -> f64 {
        0.5 * (b - a)
    }

    /// Perform quadrature integration of given integrand from `a` to `b`.
    ///
    /// # Example
    ///
    /// Basic usage
    /// ```
    /// # use gauss_quad::legendre::{GaussLegendre, GaussLegendreError};
    /// # use approx::assert_abs_diff_eq;
    /// let glq_rule = GaussLegendre::new(3)?;
    ///
    /// assert_abs_diff_eq!(glq_rule.integrate(-1.0, 1.0, |x| x.powi(5)), 0.0);
    ///
    /// # Ok::<(), GaussLegendreError>(())
    /// ```
    pub fn integrate<F>(&self, a: f64, b: f64, integrand: F) -> f64
    where
        F: Fn(f64) -> f64,
    {
        if let Some(hook) = crate::HOOK.with(|h| h.get()) {
            if let Some(r) = hook(&self.node_weight_pairs, a, b, &integrand) {
                return r;
            }
        }
        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)
            .sum();
        Self::scale_factor(a, b) * result
    }

    #[cfg(feature = "rayon")]
    /// Same as [`integrate`](GaussLegendre::integrate) but runs in parallel.
    ///
    /// # Example
    ///
    /// ```
    /// # use gauss_quad::legendre::{GaussLegendre, GaussLegendreError};
    /// # use approx::assert_abs_diff_eq;
    /// let glq_rule = GaussLegendre::par_new(1_000_000)?;
    ///
    /// assert_abs_diff_eq!(glq_rule.par_integrate(0.0, 1.0, |x| x.ln()), -1.0, epsilon = 1e-12);
    /// # Ok::<(), GaussLegendreError>(())
    /// ```
    pub fn par_integrate<F>(&self, a: f64, b: f64, integrand: F) -> f64
    where
        F: Fn(f64) -> f64 + Sync,
    {
        let result: f64 = self
            .node_weight_pairs
            .par_iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)
            .sum();
        Self::scale_factor(a, b) * result
    }
}

__impl_node_weight_rule! {GaussLegendre, GaussLegendreNodes, GaussLegendreWeights, GaussLegendreIter, GaussLegendreIntoIter}

/// The error returned by [`GaussLegendre::new`] if it's given a degree of 0 or 1.
#[derive(Debug)]
pub struct GaussLegendreError(Backtrace);

use core::fmt;
impl fmt::Display for GaussLegendreError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "the degree of the Gauss-Legendre quadrature rule must be at least 2"
        )
    }
}

impl GaussLegendreError {
    /// Calls [`Backtrace::capture`] and wraps the result in a `GaussLegendreError` struct.
    fn new() -> Self {
        Self(Backtrace::capture())
    }

    /// Returns a [`Backtrace`] to where the error was created.
    ///
    /// This backtrace is captured with [`Backtrace::capture`], see it for more information about how to make it display information when printed.
    #[inline]
    pub fn backtrace(&self) -> &Backtrace {
        &self.0
    }
}

impl std::error::Error for GaussLegendreError {}

