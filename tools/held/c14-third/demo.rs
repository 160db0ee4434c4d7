#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-6, "{}: {} vs {}", what, a, b); }
fn basis(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * basis(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * basis(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
fn square(x: f64, y: f64, s: f64) -> CompoundCurve<f64, U3> {
    CompoundCurve::from(NurbsCurve2D::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true))
}

fn main() {
    let crv = NurbsCurve2D::polyline(&[Point2::new(0., 0.), Point2::new(1., 0.), Point2::new(1., 2.), Point2::new(4., 2.)], false);
    let d = crv.try_divide_by_length(1.5).unwrap();
    let p: Vec<_> = d.iter().map(|d| crv.point_at(d.parameter())).collect();
    for (p, w) in p.iter().zip([[0., 0.], [1., 0.5], [1., 2.], [2.5, 2.], [4., 2.]]) {
        assert!((p.x - w[0]).abs() < 1e-2 && (p.y - w[1]).abs() < 1e-2, "{} {:?}", p, w);
    }
}
