#![allow(unused_imports)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-7, "{}: {} vs {}", what, a, b); }
/// independent Cox-de Boor evaluation (recursive definition)
#[allow(dead_code)]
fn n(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * n(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * n(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
#[allow(dead_code)]
fn eval3(p: usize, k: &[f64], c: &[Point3<f64>], t: f64) -> Point2<f64> {
    let last = k[k.len() - 1 - p];
    let mut s = Vector3::zeros();
    for i in 0..c.len() { s += c[i].coords * n(i, p, k, t, last); }
    Point2::new(s.x / s.z, s.y / s.z)
}

fn main() {
    let k = vec![0., 0., 0., 1., 2., 3., 4.];
    let c = vec![Point3::new(0., 0., 1.), Point3::new(2., 4., 1.), Point3::new(3., 0., 1.), Point3::new(5., 1., 1.)];
    let mut crv = NurbsCurve2D::try_new(2, c.clone(), k.clone()).unwrap();
    crv.try_clamp().unwrap();
    assert!(crv.is_clamped());
    for i in 0..9 {
        let t = i as f64 * 0.25 * 0.99;
        near("x", crv.point_at(t).x, eval3(2, &k, &c, t).x);
        near("y", crv.point_at(t).y, eval3(2, &k, &c, t).y);
    }
}
