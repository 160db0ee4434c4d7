PRE = """#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
"""
SEEDS = [
dict(id="i02-merge", property="I02", file="src/intersects/surface_curve/intersection_surface_curve.rs",
 old="T::from_f64(1e-3).unwrap()", new="T::from_f64(0.1).unwrap()",
 needs="a curve that crosses the surface twice within a tenth of its parameter",
 breaks="two crossings close to each other are taken for one",
 demo=PRE+"""
fn main() {
    let w = |x: f64, y: f64| Point4::new(x, y, 0., 1.);
    let k = vec![0., 0., 2., 2.];
    let s = NurbsSurface3D::new(1, 1, k.clone(), k, vec![vec![w(0., 0.), w(0., 2.)], vec![w(2., 0.), w(2., 2.)]]);
    let p = |x: f64, z: f64| Point4::new(x, 1., z, 1.);
    let (a, b, c) = (0.21875, 0.28125, 0.5);
    let d = 0.01;
    let crv = NurbsCurve3D::try_new(1, vec![p(1., a - d), p(1., -d), p(1.0625, -d), p(1.0625, a - d)], vec![0., 0., a, b, c, c]).unwrap();
    let found = s.find_intersections(&crv, Some(CurveIntersectionSolverOptions::default().with_minimum_distance(1e-4).with_knot_domain_division(16))).unwrap();
    assert_eq!(found.len(), 2);
}
"""),
dict(id="g03-either", property="G03", file="src/bounding_box/surface_bounding_box_tree.rs",
 old="interval.0 > utol || interval.1 > vtol", new="interval.0 > utol && interval.1 > vtol",
 needs="a surface tree whose piece is within the tolerance in one direction only",
 breaks="a piece that is still long in the other direction is not divided further",
 demo=PRE+"""
fn main() {
    let w = |x: f64, y: f64| Point4::new(x, y, 0., 1.);
    let k = vec![0., 0., 2., 2.];
    let s = NurbsSurface3D::new(1, 1, k.clone(), k, vec![vec![w(0., 0.), w(0., 2.)], vec![w(2., 0.), w(2., 2.)]]);
    assert!(SurfaceBoundingBoxTree::new(&s, UVDirection::U, Some((4., 0.5))).is_dividable());
    assert!(SurfaceBoundingBoxTree::new(&s, UVDirection::U, Some((0.5, 4.))).is_dividable());
    assert!(!SurfaceBoundingBoxTree::new(&s, UVDirection::U, Some((4., 4.))).is_dividable());
}
"""),
]
