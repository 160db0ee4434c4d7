PRE = """#![allow(unused_imports)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-7, "{}: {} vs {}", what, a, b); }
/// independent Cox-de Boor evaluation (recursive definition)
#[allow(dead_code)]
fn n(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * n(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * n(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
#[allow(dead_code)]
fn eval3(p: usize, k: &[f64], c: &[Point3<f64>], t: f64) -> Point2<f64> {
    let last = k[k.len() - 1 - p];
    let mut s = Vector3::zeros();
    for i in 0..c.len() { s += c[i].coords * n(i, p, k, t, last); }
    Point2::new(s.x / s.z, s.y / s.z)
}
"""
SEEDS = [
dict(id="c02-binomial", property="C02", file="src/curve/nurbs_curve.rs",
 old="let coef = binom.get(k, i) * w_ders[i];", new="let coef = binom.get(k, 1) * w_ders[i];",
 needs="the second derivative of a curve whose weights are not all equal",
 breaks="the second-derivative vector of a rational curve is wrong (binomial coefficient of the w'' term)",
 demo=PRE+"""
fn main() {
    let k = vec![0., 0., 0., 1., 1., 1.];
    let c = vec![Point3::new(0., 0., 1.), Point3::new(2., 4., 2.), Point3::new(3., 0., 1.)];
    let crv = NurbsCurve2D::try_new(2, c.clone(), k.clone()).unwrap();
    for t in [0.3, 0.5, 0.7] {
        let h = 1e-4;
        let d = (eval3(2, &k, &c, t + h).coords - 2. * eval3(2, &k, &c, t).coords + eval3(2, &k, &c, t - h).coords) / (h * h);
        let e = crv.second_derivative_at(t);
        assert!((d - e).norm() < 1e-3, "{} {}", d, e);
    }
}
"""),
dict(id="c04-clamp-end", property="C04", file="src/curve/nurbs_curve.rs",
 old="for _ in end_knot_count..=degree {", new="for _ in start_knot_count.max(end_knot_count)..=degree {",
 needs="a knot vector that is clamped at its start but not at its end (or with unequal end multiplicities)",
 breaks="clamping stops short at the end of the curve",
 demo=PRE+"""
fn main() {
    let k = vec![0., 0., 0., 1., 2., 3., 4.];
    let c = vec![Point3::new(0., 0., 1.), Point3::new(2., 4., 1.), Point3::new(3., 0., 1.), Point3::new(5., 1., 1.)];
    let mut crv = NurbsCurve2D::try_new(2, c.clone(), k.clone()).unwrap();
    crv.try_clamp().unwrap();
    assert!(crv.is_clamped());
    for i in 0..9 {
        let t = i as f64 * 0.25 * 0.99;
        near("x", crv.point_at(t).x, eval3(2, &k, &c, t).x);
        near("y", crv.point_at(t).y, eval3(2, &k, &c, t).y);
    }
}
"""),
dict(id="c05-clamp", property="C05", file="src/split/mod.rs",
 old="let u = self.knots().clamp(self.degree(), u);", new="let u = u.max(self.knots_domain().0);",
 needs="a split parameter beyond the end of the domain",
 breaks="splitting past the end extends the curve instead of acting at the domain end",
 demo=PRE+"""
fn main() {
    let k = vec![0., 0., 0., 1., 2., 2., 2.];
    let c = vec![Point3::new(0., 0., 1.), Point3::new(2., 4., 1.), Point3::new(3., 0., 1.), Point3::new(5., 1., 1.)];
    let crv = NurbsCurve2D::try_new(2, c.clone(), k.clone()).unwrap();
    let (head, _) = crv.try_split(3.).unwrap();
    near("end", head.knots_domain().1, 2.);
    near("x", head.point_at(2.).x, 5.);
}
"""),
dict(id="c08-origin", property="C08", file="src/knot/knot_vector.rs",
 old="let mut next = vec![*min];", new="let mut next = vec![min.min(T::zero())];",
 needs="a knot vector that starts above zero",
 breaks="the inverse of a curve whose knots start above zero lives on a shifted domain, and inverting twice does not restore it",
 demo=PRE+"""
fn main() {
    let k = vec![1., 1., 1., 2., 4., 4., 4.];
    let c = vec![Point3::new(0., 0., 1.), Point3::new(2., 4., 1.), Point3::new(3., 0., 1.), Point3::new(5., 1., 1.)];
    let crv = NurbsCurve2D::try_new(2, c.clone(), k.clone()).unwrap();
    let twice = crv.inverse().inverse();
    near("start", twice.knots()[0], 1.);
    near("end", twice.knots()[6], 4.);
}
"""),
]
