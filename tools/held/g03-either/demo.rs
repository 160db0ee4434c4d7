#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;

fn main() {
    let w = |x: f64, y: f64| Point4::new(x, y, 0., 1.);
    let k = vec![0., 0., 2., 2.];
    let s = NurbsSurface3D::new(1, 1, k.clone(), k, vec![vec![w(0., 0.), w(0., 2.)], vec![w(2., 0.), w(2., 2.)]]);
    assert!(SurfaceBoundingBoxTree::new(&s, UVDirection::U, Some((4., 0.5))).is_dividable());
    assert!(SurfaceBoundingBoxTree::new(&s, UVDirection::U, Some((0.5, 4.))).is_dividable());
    assert!(!SurfaceBoundingBoxTree::new(&s, UVDirection::U, Some((4., 4.))).is_dividable());
}
