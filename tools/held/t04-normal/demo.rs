#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-6, "{}: {} vs {}", what, a, b); }
fn basis(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * basis(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * basis(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
fn square(x: f64, y: f64, s: f64) -> CompoundCurve<f64, U3> {
    CompoundCurve::from(NurbsCurve2D::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true))
}

fn main() {
    let w = |x: f64, y: f64, z: f64| Point4::new(x, y, z, 1.);
    let kk = vec![0., 0., 4., 4.];
    let s = NurbsSurface3D::new(1, 1, kk.clone(), kk, vec![vec![w(0., 0., 0.), w(0., 4., 1.)], vec![w(4., 0., 2.), w(4., 4., 1.)]]);
    let ((a, b), (c, d)) = s.knots_domain();
    let at = |x: f64, y: f64| Point2::new(a + (b - a) * x, c + (d - c) * y);
    let trim = NurbsCurve2D::polyline(&[at(0.2, 0.2), at(0.8, 0.3), at(0.7, 0.8), at(0.3, 0.7), at(0.2, 0.2)], false);
    let t = TrimmedSurface::new(s.clone(), Some(trim.clone()), vec![]);
    let k: Vec<f64> = trim.knots().iter().cloned().skip(1).take(5).collect();
    let m = t.constrained_tessellate(TrimmedSurfaceConstraints::new(Some(k), vec![]), None).unwrap();
    for i in 0..m.uvs().len() {
        let n = s.normal_at(m.uvs()[i].x, m.uvs()[i].y);
        near("normal", (n.normalize() - m.normals()[i].normalize()).norm(), 0.);
    }
}
