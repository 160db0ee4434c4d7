#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-6, "{}: {} vs {}", what, a, b); }
fn basis(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * basis(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * basis(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
fn square(x: f64, y: f64, s: f64) -> CompoundCurve<f64, U3> {
    CompoundCurve::from(NurbsCurve2D::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true))
}

fn main() {
    // flat on one half, strongly bent on the other
    let pts: Vec<Vec<Point4<f64>>> = (0..5).map(|i| (0..5).map(|j| {
        let z = if i >= 3 { ((j * j) % 3) as f64 * 0.6 * (i - 2) as f64 } else { 0. };
        Point4::new(i as f64, j as f64, z, 1.)
    }).collect()).collect();
    let k = vec![0., 0., 0., 1., 2., 3., 3., 3.];
    let s = NurbsSurface3D::new(2, 2, k.clone(), k, pts);
    for tol in [0.5, 0.2, 0.1, 0.05, 0.02, 0.01] {
        let t = s.tessellate(Some(AdaptiveTessellationOptions { norm_tolerance: tol, ..Default::default() }));
        let mut area = 0.;
        for f in t.faces() {
            let [a, b, c] = [t.uvs()[f[0]], t.uvs()[f[1]], t.uvs()[f[2]]];
            let d = (b - a).perp(&(c - a));
            area += d.abs() / 2.;
        }
        near("covered area", area, 9.);
    }
}
