#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-6, "{}: {} vs {}", what, a, b); }
fn basis(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * basis(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * basis(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
fn square(x: f64, y: f64, s: f64) -> CompoundCurve<f64, U3> {
    CompoundCurve::from(NurbsCurve2D::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true))
}

fn main() {
    let k = KnotVector::new(vec![0., 1., 2., 3., 4., 5., 6.]);
    let (start, end, span, _) = k.regularly_spaced_span(2, 3);
    near("start", start, 2.);
    near("end", end, 4.);
    near("span", span, 2. / 3.);
}
