PRE = """#![allow(unused_imports, dead_code)]
use curvo::prelude::*;
use nalgebra::*;
fn near(what: &str, a: f64, b: f64) { assert!((a - b).abs() < 1e-6, "{}: {} vs {}", what, a, b); }
fn basis(i: usize, p: usize, k: &[f64], t: f64, last: f64) -> f64 {
    if p == 0 { return if (k[i] <= t && t < k[i + 1]) || (t == last && k[i] < t && t == k[i + 1]) { 1. } else { 0. }; }
    let a = if k[i + p] > k[i] { (t - k[i]) / (k[i + p] - k[i]) * basis(i, p - 1, k, t, last) } else { 0. };
    let b = if k[i + p + 1] > k[i + 1] { (k[i + p + 1] - t) / (k[i + p + 1] - k[i + 1]) * basis(i + 1, p - 1, k, t, last) } else { 0. };
    a + b
}
fn square(x: f64, y: f64, s: f64) -> CompoundCurve<f64, U3> {
    CompoundCurve::from(NurbsCurve2D::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true))
}
"""
CU = "src/curve/nurbs_curve.rs"
SU = "src/surface/nurbs_surface.rs"
KN = "src/knot/knot_vector.rs"
SEEDS = [
dict(id="k01-close", property="K01", file=KN,
 old="if (*knot - *current.knot()).abs() > T::default_epsilon() {", new="if (*knot - *current.knot()).abs() > T::from_f64(1e-3).unwrap() {",
 needs="two different knots closer than 1e-3",
 breaks="different knots count as one knot of higher multiplicity",
 demo=PRE+"""
fn main() {
    let k = KnotVector::new(vec![0., 0., 0., 0.5, 0.5005, 1., 1., 1.]);
    let m: Vec<usize> = k.multiplicity().iter().map(|m| m.multiplicity()).collect();
    assert_eq!(m, vec![3, 1, 1, 3]);
}
"""),
dict(id="s03-unclamped", property="S03", file=KN,
 old="        let (start, end) = self.domain(degree);\n        let span = (end - start)", new="        let (start, end) = (self.first(), self.last());\n        let span = (end - start)",
 needs="regular sampling of a surface whose knots are not clamped",
 breaks="the grid of samples runs over the whole knot range instead of the domain",
 demo=PRE+"""
fn main() {
    let k = KnotVector::new(vec![0., 1., 2., 3., 4., 5., 6.]);
    let (start, end, span, _) = k.regularly_spaced_span(2, 3);
    near("start", start, 2.);
    near("end", end, 4.);
    near("span", span, 2. / 3.);
}
"""),
dict(id="c07-quartic", property="C07", file=CU,
 old="for tr in 1..oldr {", new="for tr in 1..oldr.min(3) {",
 needs="raising the degree of a curve of degree 5 or more with simple inner knots",
 breaks="one knot too few is removed between the raised segments, the raised curve deviates",
 demo=PRE+"""
fn main() {
    let k = vec![0., 0., 0., 0., 0., 0., 1., 2., 2., 2., 2., 2., 2.];
    let c: Vec<Point3<f64>> = (0..7).map(|i| Point3::new(i as f64, ((i * i) % 5) as f64, 1.)).collect();
    let crv = NurbsCurve2D::try_new(5, c, k).unwrap();
    let up = crv.try_elevate_degree(6).unwrap();
    for i in 0..=8 { let t = i as f64 * 0.25; let (a, b) = (crv.point_at(t), up.point_at(t)); near("x", a.x, b.x); near("y", a.y, b.y); }
}
"""),
dict(id="c06-thrice", property="C06", file=CU,
 old="for k in 1..t {", new="for k in 1..t.min(2) {",
 needs="removing a knot three times in one call",
 breaks="control points are shifted from the wrong place when a knot is removed three times",
 demo=PRE+"""
fn main() {
    let k = vec![0., 0., 0., 0., 1., 2., 2., 2., 2.];
    let c: Vec<Point3<f64>> = (0..5).map(|i| Point3::new(i as f64, ((i * i) % 5) as f64, 1.)).collect();
    let crv = NurbsCurve2D::try_new(3, c, k).unwrap();
    let mut more = crv.clone();
    more.try_refine_knot(vec![0.5, 0.5, 0.5]).unwrap();
    let t = more.try_remove_knot(0.5, None).unwrap();
    assert_eq!(t, 3);
    for i in 0..=8 { let t = i as f64 * 0.25; let (a, b) = (crv.point_at(t), more.point_at(t)); near("x", a.x, b.x); near("y", a.y, b.y); }
}
"""),
dict(id="c12-oblique", property="C12", file=CU,
 old="(&y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin()).normalize();", new="(&y_axis * y_radius * angle.cos() - &x_axis * y_radius * angle.sin()).normalize();",
 needs="an elliptical arc with different radii whose pieces end off the axes",
 breaks="the end tangents of elliptical arcs are those of a circle, the arc leaves the ellipse",
 demo=PRE+"""
fn main() {
    let arc = NurbsCurve2D::try_ellipse_arc(&Point2::origin(), &Vector2::new(3., 0.), &Vector2::new(0., 1.), 0.3, 1.4).unwrap();
    let (a, b) = arc.knots_domain();
    for i in 0..=8 { let p = arc.point_at(a + (b - a) * i as f64 / 8.); near("on the ellipse", p.x * p.x / 9. + p.y * p.y, 1.); }
}
"""),
dict(id="c14-third", property="C14", file=CU,
 old="acc_prev += current_length;", new="acc_prev = current_length;",
 needs="dividing by length a curve of three or more segments",
 breaks="division points on the third and later segments are misplaced",
 demo=PRE+"""
fn main() {
    let crv = NurbsCurve2D::polyline(&[Point2::new(0., 0.), Point2::new(1., 0.), Point2::new(1., 2.), Point2::new(4., 2.)], false);
    let d = crv.try_divide_by_length(1.5).unwrap();
    let p: Vec<_> = d.iter().map(|d| crv.point_at(d.parameter())).collect();
    for (p, w) in p.iter().zip([[0., 0.], [1., 0.5], [1., 2.], [2.5, 2.], [4., 2.]]) {
        assert!((p.x - w[0]).abs() < 1e-2 && (p.y - w[1]).abs() < 1e-2, "{} {:?}", p, w);
    }
}
"""),
dict(id="c15-sharp", property="C15", file=CU,
 old="                    .dot(&tangents[i])\n                    .clamp", new="                    .dot(&tangents[i])\n                    .abs()\n                    .clamp",
 needs="two consecutive frames whose tangents differ by more than a right angle",
 breaks="the frame is turned by the wrong angle and no longer follows the tangent",
 demo=PRE+"""
fn main() {
    let crv = NurbsCurve3D::polyline(&[Point3::new(0., 0., 0.), Point3::new(4., 1., 0.), Point3::new(0., 2., 1.)], false);
    let (a, b) = crv.knots_domain();
    let f = crv.compute_frenet_frames(&[a, b]);
    for f in &f { near("normal", f.normal().dot(f.tangent()), 0.); near("binormal", f.binormal().dot(f.tangent()), 0.); }
}
"""),
dict(id="g02-below", property="G02", file="src/bounding_box/mod.rs",
 old="if d0 * d1 > T::zero() {", new="if d0 > T::zero() {",
 needs="a box that lies entirely below the other in some coordinate",
 breaks="boxes on the lower side are reported as intersecting",
 demo=PRE+"""
fn main() {
    let a = BoundingBox::new(Vector2::new(0., 0.), Vector2::new(1., 1.));
    let b = BoundingBox::new(Vector2::new(2., 0.), Vector2::new(3., 1.));
    assert!(!a.intersects(&b, None));
    assert!(!b.intersects(&a, None));
}
"""),
dict(id="g05-level", property="G05", file="src/misc/polygon_boundary.rs",
 old="} else if p1.y <= c.y {", new="} else if p1.y < c.y {",
 needs="a point at the height of one of the polygon's corners",
 breaks="such points are reported as inside or outside wrongly",
 demo=PRE+"""
fn main() {
    let p = PolygonBoundary::new(vec![Point2::new(0., 0.), Point2::new(2., 1.), Point2::new(0., 3.), Point2::new(-2., 1.)]);
    assert!(p.contains(&Point2::new(0., 1.), ()).unwrap());
    assert!(!p.contains(&Point2::new(-3., 1.), ()).unwrap());
    assert!(!p.contains(&Point2::new(3., 1.), ()).unwrap());
}
"""),
dict(id="s07-weights", property="S07", file=SU,
 old="o1[D::dim() - 1] = w;", new="o1[D::dim() - 1] = T::one();",
 needs="extruding a profile with weights other than one",
 breaks="the middle of the extruded surface bulges",
 demo=PRE+"""
fn main() {
    let arc = NurbsCurve3D::try_arc(&Point3::origin(), &Vector3::x(), &Vector3::y(), 2., 0., 1.5).unwrap();
    let s = NurbsSurface3D::extrude(&arc, &Vector3::z());
    let ((a, b), (c, d)) = s.knots_domain();
    for i in 0..=4 { for j in 0..=4 {
        let p = s.point_at(a + (b - a) * i as f64 / 4., c + (d - c) * j as f64 / 4.);
        near("radius", p.x * p.x + p.y * p.y, 4.);
    } }
}
"""),
dict(id="s09-knots", property="S09", file=SU,
 old="                flipped.v_knots = flipped.v_knots.inverse();", new="                if matches!(direction, FlipDirection::V) {\n                    flipped.v_knots = flipped.v_knots.inverse();\n                }",
 needs="flipping in both directions a surface whose v knots are not symmetric",
 breaks="the flipped surface keeps the old v knots and has another shape",
 demo=PRE+"""
fn main() {
    let h = |x: f64, y: f64| Point4::new(x, y, x * x + y, 1.);
    let pts: Vec<Vec<Point4<f64>>> = (0..2).map(|i| (0..4).map(|j| h(i as f64, j as f64)).collect()).collect();
    let s = NurbsSurface3D::new(1, 2, vec![0., 0., 1., 1.], vec![0., 0., 0., 0.25, 1., 1., 1.], pts);
    let f = s.flip(FlipDirection::UV);
    for i in 0..=4 { for j in 0..=8 {
        let (u, v) = (i as f64 / 4., j as f64 / 8.);
        let d = s.point_at(u, v) - f.point_at(1. - u, 1. - v);
        near("same point", d.norm(), 0.);
    } }
}
"""),
dict(id="t01-order", property="T01", file="src/tessellation/adaptive_tessellation_node.rs",
 old="                    .rev()\n", new="",
 needs="a cell whose neighbour is refined two levels deeper along their common side",
 breaks="the points of the finer neighbour are visited in the wrong order and triangles overlap",
 demo=PRE+"""
fn main() {
    // flat on one half, strongly bent on the other
    let pts: Vec<Vec<Point4<f64>>> = (0..5).map(|i| (0..5).map(|j| {
        let z = if i >= 3 { ((j * j) % 3) as f64 * 0.6 * (i - 2) as f64 } else { 0. };
        Point4::new(i as f64, j as f64, z, 1.)
    }).collect()).collect();
    let k = vec![0., 0., 0., 1., 2., 3., 3., 3.];
    let s = NurbsSurface3D::new(2, 2, k.clone(), k, pts);
    for tol in [0.5, 0.2, 0.1, 0.05, 0.02, 0.01] {
        let t = s.tessellate(Some(AdaptiveTessellationOptions { norm_tolerance: tol, ..Default::default() }));
        let mut area = 0.;
        for f in t.faces() {
            let [a, b, c] = [t.uvs()[f[0]], t.uvs()[f[1]], t.uvs()[f[2]]];
            let d = (b - a).perp(&(c - a));
            area += d.abs() / 2.;
        }
        near("covered area", area, 9.);
    }
}
"""),
dict(id="t03-holes", property="T03", file="src/tessellation/tessellation_region.rs",
 old="                        .all(|interior| !interior.contains(&center, ()).unwrap())", new="                        .take(1)\n                        .all(|interior| !interior.contains(&center, ()).unwrap())",
 needs="a region with two or more holes",
 breaks="only the first hole stays open",
 demo=PRE+"""
fn main() {
    let r = Region::new(square(0., 0., 8.), vec![square(1., 1., 2.), square(5., 4., 2.)]);
    near("area", r.tessellate(None).unwrap().area(), 64. - 8.);
}
"""),
dict(id="t03-joints", property="T03", file="src/tessellation/tessellation_compound_curve.rs",
 old="if i != m - 1 {", new="if i == 0 {",
 needs="an open compound of three or more spans",
 breaks="inner joints are repeated",
 demo=PRE+"""
fn main() {
    let p = [Point2::new(0., 0.), Point2::new(1., 0.), Point2::new(1., 2.), Point2::new(4., 2.)];
    let c: CompoundCurve<f64, U3> = CompoundCurve::new((0..3).map(|i| NurbsCurve2D::polyline(&p[i..i + 2], false)).collect());
    assert_eq!(c.tessellate(None).len(), 4);
}
"""),
dict(id="t04-normal", property="T04", file="src/tessellation/trimmed_surface.rs",
 old="""                        let p = s.surface().point_at(uv.x, uv.y);
                        let n = s.surface().normal_at(uv.x, uv.y);
                        Vertex::new(p, n, uv.coords)
                    })
                    .collect_vec(),
                None => tess""", new="""                        let p = s.surface().point_at(uv.x, uv.y);
                        let n = s.surface().normal_at(*t, uv.y);
                        Vertex::new(p, n, uv.coords)
                    })
                    .collect_vec(),
                None => tess""",
 needs="prescribed parameters on the outer trim of a curved surface",
 breaks="normals of the prescribed vertices are taken elsewhere on the surface",
 demo=PRE+"""
fn main() {
    let arc = NurbsCurve3D::try_arc(&Point3::origin(), &Vector3::x(), &Vector3::y(), 2., 0., 1.5).unwrap();
    let s = NurbsSurface3D::extrude(&arc, &Vector3::z());
    let ((a, b), (c, d)) = s.knots_domain();
    let at = |x: f64, y: f64| Point2::new(a + (b - a) * x, c + (d - c) * y);
    let trim = NurbsCurve2D::polyline(&[at(0.2, 0.2), at(0.8, 0.3), at(0.7, 0.8), at(0.3, 0.7), at(0.2, 0.2)], false);
    let t = TrimmedSurface::new(s.clone(), Some(trim.clone()), vec![]);
    let k: Vec<f64> = trim.knots().iter().cloned().skip(1).take(5).collect();
    let m = t.constrained_tessellate(TrimmedSurfaceConstraints::new(Some(k), vec![]), None).unwrap();
    for i in 0..m.uvs().len() {
        let n = s.normal_at(m.uvs()[i].x, m.uvs()[i].y);
        near("normal", (n - m.normals()[i]).norm(), 0.);
    }
}
"""),
dict(id="s08-axis", property="S08", file=SU,
 old="let o = center + axis * s;", new="let o = if s < T::zero() { *center } else { center + axis * s };",
 needs="a profile that reaches below the centre along the axis",
 breaks="the part below the centre is turned about the wrong point of the axis",
 demo=PRE+"""
fn main() {
    let p = NurbsCurve3D::polyline(&[Point3::new(1., 0., -2.), Point3::new(2., 0., 1.)], false);
    let s = NurbsSurface3D::try_revolve(&p, &Point3::origin(), &Vector3::z(), 3.).unwrap();
    let ((a, b), (c, d)) = s.knots_domain();
    for i in 0..=4 { for j in 0..=4 {
        let v = c + (d - c) * j as f64 / 4.;
        let (p0, p1) = (s.point_at(a, v), s.point_at(a + (b - a) * i as f64 / 4., v));
        near("height", p0.z, p1.z);
        near("radius", p0.xy().coords.norm(), p1.xy().coords.norm());
    } }
}
"""),
]
