#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-6, "{}: {} vs {}", what, a, b); }
fn basis(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * basis(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * basis(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
fn square(x: f64, y: f64, s: f64) -> CompoundCurve<f64, U3> {
    CompoundCurve::from(NurbsCurve2D::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true))
}

fn main() {
    let h = |x: f64, y: f64| Point4::new(x, y, x * x + y, 1.);
    let pts: Vec<Vec<Point4<f64>>> = (0..2).map(|i| (0..4).map(|j| h(i as f64, j as f64)).collect()).collect();
    let s = NurbsSurface3D::new(1, 2, vec![0., 0., 1., 1.], vec![0., 0., 0., 0.25, 1., 1., 1.], pts);
    let f = s.flip(FlipDirection::UV);
    for i in 0..=4 { for j in 0..=8 {
        let (u, v) = (i as f64 / 4., j as f64 / 8.);
        let d = s.point_at(u, v) - f.point_at(1. - u, 1. - v);
        near("same point", d.norm(), 0.);
    } }
}
