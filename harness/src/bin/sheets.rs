//! S07, S08, C15: planes, extrusions, lofts, surfaces of revolution, spheres, sweeps; moving frames.
use curvo::prelude::*;
use nalgebra::{ComplexField, Const, OPoint, OVector, Point3, Vector3};
use symcurvo::ctx::*;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;
use symcurvo::surf::*;
use symcurvo::{curve_case, plain_case};

fn dot<S: Scalar>(a: &[S], b: &[S]) -> S {
    a.iter().zip(b.iter()).fold(refs::k(0.0), |s, (x, y)| s + *x * *y)
}
fn sub<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x - *y).collect()
}
fn cross<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn comb<S: Scalar>(a: &[S], b: &[S], k: S) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x + *y * k).collect()
}

// ---------------------------------------------------------------- S07
pub trait SheetExt<S: Scalar>: Sized + SurfExt<S> {
    type Crv: Clone;
    fn plane_(o: &[S], x: &[S], y: &[S]) -> Self;
    fn extrude_(c: &Self::Crv, t: &[S]) -> Self;
    fn loft_(c: &[Self::Crv], d: Option<usize>) -> anyhow::Result<Self>;
    fn crv(g: &Geo<S>) -> Self::Crv;
    fn make_crv(p: usize, k: &[S], hom: &[Vec<S>]) -> Self::Crv;
}
macro_rules! sheet_ext {
    ($n:literal, $d:literal) => {
        impl<S: Scalar> SheetExt<S> for NurbsSurface<S, Const<$n>> {
            type Crv = NurbsCurve<S, Const<$n>>;
            fn plane_(o: &[S], x: &[S], y: &[S]) -> Self {
                Self::plane(OPoint::<S, Const<$d>>::from_slice(o), OVector::<S, Const<$d>>::from_column_slice(x), OVector::<S, Const<$d>>::from_column_slice(y))
            }
            fn extrude_(c: &Self::Crv, t: &[S]) -> Self {
                Self::extrude(c, &OVector::<S, Const<$d>>::from_column_slice(t))
            }
            fn loft_(c: &[Self::Crv], d: Option<usize>) -> anyhow::Result<Self> {
                Self::try_loft(c, d)
            }
            fn crv(g: &Geo<S>) -> Self::Crv {
                g.curve::<$n>()
            }
            fn make_crv(p: usize, k: &[S], hom: &[Vec<S>]) -> Self::Crv {
                NurbsCurve::try_new(p, hpoints(hom), k.to_vec()).unwrap()
            }
        }
    };
}
sheet_ext!(3, 2);
sheet_ext!(4, 3);

plain_case!(Plane { three: bool } "plane" |m, c| {
    if m.three { plane::<C, 4>(c) } else { plane::<C, 3>(c) }
});
fn plane<C: Ctx, const N: usize>(c: &mut C)
where
    NurbsSurface<C::S, Const<N>>: SheetExt<C::S>,
{
    let o = c.vars("o", N - 1, -10.0, 10.0);
    let x = c.vars("x", N - 1, -10.0, 10.0);
    let y = c.vars("y", N - 1, -10.0, 10.0);
    let s = NurbsSurface::<C::S, Const<N>>::plane_(&o, &x, &y);
    wellformed2(c, "plane", &s);
    c.check("degrees", s.degrees() == (1, 1));
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let ((a, b), (p, q)) = s.dom();
    c.eq("u domain", a, zero);
    c.eq("u domain end", b, one);
    c.eq("v domain", p, zero);
    c.eq("v domain end", q, one);
    let u = param1(c, "u", &[zero, one], (0.0, 1.0));
    let v = param1(c, "v", &[zero, one], (0.0, 1.0));
    let want = comb(&comb(&o, &x, u + u - one), &y, v + v - one);
    veq(c, "point of the plane", &s.pt(u, v), &want);
}
curve_case!(Extrude {} "extrude" |m, c| {
    if m.three { extrude::<C, 4>(c, &m.s, m.w) } else { extrude::<C, 3>(c, &m.s, m.w) }
});
fn extrude<C: Ctx, const N: usize>(c: &mut C, s: &Shape, w: W)
where
    NurbsSurface<C::S, Const<N>>: SheetExt<C::S>,
{
    let g = geo(c, "", s, N - 1, w);
    let t = c.vars("t", N - 1, -10.0, 10.0);
    let crv = NurbsSurface::<C::S, Const<N>>::crv(&g);
    let f = NurbsSurface::<C::S, Const<N>>::extrude_(&crv, &t);
    wellformed2(c, "extrusion", &f);
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let ((a, b), (p, q)) = f.dom();
    c.eq("u domain", a, zero);
    c.eq("u domain end", b, one);
    c.eq("v domain", p, g.domain().0);
    c.eq("v domain end", q, g.domain().1);
    let u = param1(c, "u", &[zero, one], (0.0, 1.0));
    let v = param(c, &g, s.domain());
    let want = comb(&g.at(v, 0).pop().unwrap(), &t, one - u);
    veq(c, "profile moved along the translation", &f.pt(u, v), &want);
}
// two sections of different degrees and knots
plain_case!(Loft2 { a: &'static str, b: &'static str, w: W, three: bool, deg: Option<usize> } "loft2" |m, c| {
    if m.three { loft2::<C, 4>(c, m) } else { loft2::<C, 3>(c, m) }
});
fn loft2<C: Ctx, const N: usize>(c: &mut C, m: &Loft2)
where
    NurbsSurface<C::S, Const<N>>: SheetExt<C::S>,
{
    let (sa, sb) = (shape(m.a), shape(m.b));
    let ga = geo(c, "a", &sa, N - 1, m.w);
    let gb = geo(c, "b", &sb, N - 1, m.w);
    // the sections are apart (in the first coordinate); the columns then have a length
    let gap = c.k(0.0625);
    for x in &ga.cart {
        c.assume(x[0], Rel::Le, -gap);
    }
    for x in &gb.cart {
        c.assume(gap, Rel::Le, x[0]);
    }
    let (ca, cb) = (NurbsSurface::<C::S, Const<N>>::crv(&ga), NurbsSurface::<C::S, Const<N>>::crv(&gb));
    let r = NurbsSurface::<C::S, Const<N>>::loft_(&[ca, cb], m.deg);
    let Some(s) = c.ok("the loft is built", r) else { return };
    wellformed2(c, "loft", &s);
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let ((a, b), (p, q)) = s.dom();
    c.check("degree across", s.degrees() == (sa.degree.max(sb.degree), 1));
    c.eq("v domain", p, zero);
    c.eq("v domain end", q, one);
    // the sections at the two ends, each over its own domain stretched to the common one
    let f = c.var("f", 0.0, 1.0 - GAP);
    let (da, db) = (ga.domain(), gb.domain());
    let u = a + (b - a) * f;
    let pa = ga.at(da.0 + (da.1 - da.0) * f, 0).pop().unwrap();
    let pb = gb.at(db.0 + (db.1 - db.0) * f, 0).pop().unwrap();
    veq(c, "first section", &s.pt(u, zero), &pa);
    veq(c, "second section", &s.pt(u, one), &pb);
    if m.w == W::One {
        let v = c.var("v", 0.0, 1.0 - GAP);
        veq(c, "straight in between", &s.pt(u, v), &comb(&pa, &sub(&pb, &pa), v));
    }
}
// several sections: one curve moved along a straight line by symbolic steps
plain_case!(LoftLine { a: &'static str, w: W, n: usize, deg: Option<usize> } "loft-line" |m, c| {
    type F<S> = NurbsSurface<S, Const<4>>;
    let sa = shape(m.a);
    let g = geo(c, "", &sa, 3, m.w);
    let dir = [c.ratio(2, 3), c.ratio(-1, 3), c.ratio(2, 3)];
    let mut at = vec![c.k(0.0)];
    for i in 1..m.n {
        let l = if i <= 2 { c.var(&format!("l{}", i), 0.25, 4.0) } else { c.k([1.0, 0.5, 2.0][i % 3]) };
        at.push(at[i - 1] + l);
    }
    let curves: Vec<_> = at.iter().map(|k| {
        let hom: Vec<Vec<C::S>> = g.hom.iter().map(|p| { let w = p[3]; (0..4).map(|d| if d < 3 { p[d] + dir[d] * *k * w } else { w }).collect() }).collect();
        F::<C::S>::make_crv(g.degree, &g.knots, &hom)
    }).collect();
    let r = F::<C::S>::loft_(&curves, m.deg);
    let Some(s) = c.ok("the loft is built", r) else { return };
    wellformed2(c, "loft", &s);
    c.check("degree across", s.degrees() == (sa.degree, m.deg.unwrap_or(sa.degree).min(m.n - 1)));
    let (a, b) = s.dom().0;
    let f = c.var("f", 0.0, 1.0 - GAP);
    let d = g.domain();
    let p = g.at(d.0 + (d.1 - d.0) * f, 0).pop().unwrap();
    let i = c.choice("section", m.n);
    let total = at[m.n - 1];
    veq(c, "contains the section", &s.pt(a + (b - a) * f, at[i] / total), &comb(&p, &dir, at[i]));
});
// three straight sections whose two columns step at different rates
plain_case!(LoftCols { n: usize, deg: usize, eq: bool } "loft-columns" |m, c| {
    type F<S> = NurbsSurface<S, Const<4>>;
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let dirs = [[c.ratio(2, 3), c.ratio(-1, 3), c.ratio(2, 3)], [c.ratio(0, 1), c.ratio(3, 5), c.ratio(4, 5)]];
    let org = [c.vars("p", 3, -5.0, 5.0), c.vars("q", 3, -5.0, 5.0)];
    let mut at: Vec<Vec<C::S>> = vec![];
    for j in 0..2 {
        let mut v = vec![zero];
        for i in 1..m.n {
            let l = if j == 1 && m.eq { zero } else if i <= 2 { c.var(&format!("l{}{}", j, i), 0.25, 4.0) } else { one };
            v.push(v[i - 1] + l);
        }
        at.push(v);
    }
    let pts: Vec<Vec<Vec<C::S>>> = (0..m.n).map(|i| (0..2).map(|j| comb(&org[j], &dirs[j], at[j][i])).collect()).collect();
    let curves: Vec<_> = pts.iter().map(|row| {
        let hom: Vec<Vec<C::S>> = row.iter().map(|p| p.iter().cloned().chain([one]).collect()).collect();
        F::<C::S>::make_crv(1, &[zero, zero, one, one], &hom)
    }).collect();
    let r = F::<C::S>::loft_(&curves, Some(m.deg));
    let Some(s) = c.ok("the loft is built", r) else { return };
    wellformed2(c, "loft", &s);
    // the parameter of a section: the mean over the columns of its share of the column's length
    let i = c.choice("section", m.n);
    let v = if m.eq {
        at[0][i] / at[0][m.n - 1]
    } else {
        (at[0][i] / at[0][m.n - 1] + at[1][i] / at[1][m.n - 1]) * c.k(0.5)
    };
    let f = c.var("f", 0.0, 1.0 - GAP);
    veq(c, "contains the section", &s.pt(f, v), &comb(&pts[i][0], &sub(&pts[i][1], &pts[i][0]), f));
});
fn s07(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![Box::new(Plane { three: false }), Box::new(Plane { three: true })];
    for s in all_shapes() {
        if t == Tier::Quick && s.degree > 3 {
            continue;
        }
        v.push(Box::new(Extrude { s: s.clone(), w: W::Fix, three: true }));
        v.push(Box::new(Extrude { s: s.clone(), w: W::Sym, three: s.degree < 3 }));
    }
    let th = t == Tier::Thorough;
    let mut two = vec![("d1", "d1"), ("d1", "d1i"), ("d1i", "d2"), ("d2", "d1i"), ("d2", "d2"), ("d2i", "d2n"), ("d2i", "d2m"), ("d3", "d1"), ("d1", "d3i"), ("d2i", "d3"), ("d3i", "d3n")];
    if th {
        two.extend([("d3m2", "d3i"), ("d3i", "d2m"), ("d4", "d2i"), ("d2m", "d3n"), ("d5", "d1i")]);
    }
    for (a, b) in two {
        v.push(Box::new(Loft2 { a, b, w: W::One, three: true, deg: None }));
        v.push(Box::new(Loft2 { a, b, w: W::One, three: false, deg: Some(3) }));
        v.push(Box::new(Loft2 { a, b, w: W::Fix, three: false, deg: None }));
    }
    for n in 3..=(if th { 5 } else { 4 }) {
        for a in ["d1", "d2", "d2i", "d3"] {
            for deg in [Some(1), Some(2), Some(3), None] {
                v.push(Box::new(LoftLine { a, w: W::One, n, deg }));
                if a != "d3" {
                    v.push(Box::new(LoftLine { a, w: W::Fix, n, deg }));
                }
            }
        }
    }
    for eq in [false, true] {
        v.push(Box::new(LoftCols { n: 3, deg: 1, eq }));
        v.push(Box::new(LoftCols { n: 3, deg: 2, eq }));
        v.push(Box::new(LoftCols { n: 4, deg: 1, eq }));
        if th || eq {
            v.push(Box::new(LoftCols { n: 4, deg: 2, eq }));
            v.push(Box::new(LoftCols { n: 4, deg: 3, eq }));
        }
    }
    v
}

// ---------------------------------------------------------------- S08
/// axis direction (rational length) and its length
fn axis<C: Ctx>(c: &C, i: usize) -> (Vec<C::S>, Vec<C::S>) {
    let (unit, len): ([(i64, i64); 3], (i64, i64)) = match i {
        0 => ([(0, 1), (0, 1), (1, 1)], (1, 1)),
        1 => ([(2, 3), (-1, 3), (2, 3)], (1, 1)),
        2 => ([(0, 1), (3, 5), (-4, 5)], (5, 1)),
        _ => ([(6, 7), (2, 7), (3, 7)], (1, 2)),
    };
    let u: Vec<C::S> = unit.iter().map(|(a, b)| c.ratio(*a, *b)).collect();
    let l = c.ratio(len.0, len.1);
    (u.iter().map(|x| *x * l).collect(), u)
}
fn v3<S: Scalar>(a: &[S]) -> Vector3<S> {
    Vector3::from_column_slice(a)
}
/// rotation of p about the axis through o by the angle of the given cosine and sine
fn rotate<S: Scalar>(p: &[S], o: &[S], ax: &[S], cs: S, sn: S) -> Vec<S> {
    let d = sub(p, o);
    let h = dot(&d, ax);
    let x = comb(&d, ax, -h);
    let y = cross(ax, &x);
    (0..3).map(|i| o[i] + ax[i] * h + x[i] * cs + y[i] * sn).collect()
}
curve_case!(Revolve { ax: usize, arcs: i64, on: bool, free: bool } "revolve" |m, c| {
    use std::f64::consts::{FRAC_PI_2, TAU};
    let mut g = geo(c, "", &m.s, 3, m.w);
    let (dir, unit) = axis(c, m.ax);
    let o = if m.free { vec![c.k(0.5), c.k(-1.0), c.k(2.0)] } else { c.vars("o", 3, -5.0, 5.0) };
    if !m.free {
        // control points at symbolic heights and distances, in fixed directions, from the axis
        let frame: [[(i64, i64); 3]; 2] = match m.ax {
            0 => [[(1, 1), (0, 1), (0, 1)], [(0, 1), (1, 1), (0, 1)]],
            1 => [[(2, 3), (2, 3), (-1, 3)], [(-1, 3), (2, 3), (2, 3)]],
            2 => [[(1, 1), (0, 1), (0, 1)], [(0, 1), (4, 5), (3, 5)]],
            _ => [[(2, 7), (3, 7), (-6, 7)], [(-3, 7), (6, 7), (2, 7)]],
        };
        let turn = [(1, 0, 1), (3, 4, 5), (-5, 12, 13), (-8, -15, 17)];
        for i in 0..g.cart.len() {
            let h = c.var(&format!("h{}", i), -5.0, 5.0);
            let rho = if m.on && i == 0 { c.k(0.0) } else { c.var(&format!("r{}", i), 0.25, 4.0) };
            let (x, y, z) = turn[i % 4];
            for d in 0..3 {
                let e = c.ratio(x, z) * c.ratio(frame[0][d].0, frame[0][d].1) + c.ratio(y, z) * c.ratio(frame[1][d].0, frame[1][d].1);
                g.cart[i][d] = o[d] + unit[d] * h + e * rho;
            }
            let w = g.w[i];
            g.hom[i] = g.cart[i].iter().map(|x| *x * w).chain([w]).collect();
        }
    } else {
        // one control point moves freely along the first axis, the distances are whatever they come to
        for i in 0..g.cart.len() {
            let x = if i == 0 { c.var("x", 1.0, 5.0) } else { c.k(3.0 + i as f64) };
            g.cart[i] = vec![x, c.ratio(i as i64 - 1, 3), c.k(1.0 - i as f64)];
            let w = g.w[i];
            g.hom[i] = g.cart[i].iter().map(|x| *x * w).chain([w]).collect();
        }
    }
    let crv = g.curve::<4>();
    let theta = if m.arcs == 0 {
        c.k(TAU)
    } else {
        let lo = (m.arcs - 1) as f64 * FRAC_PI_2 + 0.0625;
        let hi = m.arcs as f64 * FRAC_PI_2 - 0.0625;
        c.angle("theta", lo, hi, 2 * m.arcs, true, true)
    };
    let arcs = if m.arcs == 0 { 4 } else { m.arcs };
    let r = NurbsSurface3D::try_revolve(&crv, &Point3::from_slice(&o), &v3(&dir), theta);
    let Some(s) = c.ok("the surface is built", r) else { return };
    wellformed2(c, "surface", &s);
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let ((a, b), (p, q)) = s.dom();
    c.eq("u domain", a, zero);
    c.eq("u domain end", b, one);
    c.eq("v domain", p, g.domain().0);
    c.eq("v domain end", q, g.domain().1);
    let v = param(c, &g, m.s.domain());
    let base = g.at(v, 0).pop().unwrap();
    let mut brk = s.kn().0;
    brk.dedup();
    c.check("one piece per quarter turn", brk.len() == arcs as usize + 1);
    let i = c.choice("at", 2 * arcs as usize + 1);
    if i <= arcs as usize {
        // at a joint: turned by the joint's share of the angle
        let th = theta * c.ratio(i as i64, arcs);
        let want = rotate(&base, &o, &unit, th.cos(), th.sin());
        c.eq("joints evenly spaced", brk[i], c.ratio(i as i64, arcs));
        veq(c, "turned profile", &s.pt(brk[i], v), &want);
    } else {
        // anywhere: same height and same distance from the axis
        let k = i - arcs as usize - 1;
        let f = c.var("f", 0.0, 1.0 - GAP);
        let u = brk[k] + (brk[k + 1] - brk[k]) * f;
        let x = s.pt(u, v);
        let (d, e) = (sub(&x, &o), sub(&base, &o));
        c.eq("same height", dot(&d, &unit), dot(&e, &unit));
        c.eq("same distance from the axis", dot(&d, &d), dot(&e, &e));
    }
});
plain_case!(Sphere { ax: usize } "sphere" |m, c| {
    let (dir, unit) = axis(c, m.ax);
    let xs: [(i64, i64); 3] = match m.ax { 0 => [(3, 5), (4, 5), (0, 1)], 1 => [(2, 3), (2, 3), (-1, 3)], 2 => [(1, 1), (0, 1), (0, 1)], _ => [(-2, 7), (-3, 7), (6, 7)] };
    let xa: Vec<C::S> = xs.iter().map(|(a, b)| c.ratio(*a * 2, *b)).collect();
    let o = c.vars("o", 3, -5.0, 5.0);
    let r = c.var("r", 0.25, 4.0);
    let s = NurbsSurface3D::try_sphere(&Point3::from_slice(&o), &v3(&dir), &v3(&xa), r);
    let Some(s) = c.ok("the sphere is built", s) else { return };
    wellformed2(c, "sphere", &s);
    let ((a, b), (p, q)) = s.dom();
    let f = c.var("f", 0.0, 1.0 - GAP);
    let e = c.var("e", 0.0, 1.0 - GAP);
    let iu = c.choice("pu", 4);
    let iv = c.choice("pv", 2);
    let u = a + (b - a) * (c.k(iu as f64) + f) * c.k(0.25);
    let v = p + (q - p) * (c.k(iv as f64) + e) * c.k(0.5);
    let d = sub(&s.pt(u, v), &o);
    c.eq("at the radius", dot(&d, &d), r * r);
    // poles
    veq(c, "pole", &s.pt(u, p), &comb(&o, &unit, -r));
    veq(c, "other pole", &s.pt(u, q), &comb(&o, &unit, r));
});
// a straight rail: the sweep is the oriented profile moved along it
plain_case!(SweepLine { a: &'static str, rail: usize, deg: Option<usize> } "sweep-line" |m, c| {
    let g = geo(c, "", &shape(m.a), 3, W::One);
    let o = c.vars("o", 3, -5.0, 5.0);
    let dirs: [[(i64, i64); 3]; 3] = [[(0, 1), (0, 1), (1, 1)], [(3, 5), (4, 5), (0, 1)], [(2, 3), (-1, 3), (2, 3)]];
    let dir: Vec<C::S> = dirs[m.rail].iter().map(|(a, b)| c.ratio(*a, *b)).collect();
    let l = c.var("l", 0.5, 4.0);
    let end = comb(&o, &dir, l);
    let rail = NurbsCurve3D::polyline(&[Point3::from_slice(&o), Point3::from_slice(&end)], false);
    let profile = g.curve::<4>();
    let r = NurbsSurface3D::try_sweep(&profile, &rail, m.deg);
    let Some(s) = c.ok("the sweep is built", r) else { return };
    wellformed2(c, "sweep", &s);
    let ((a, b), (p, q)) = s.dom();
    let f = c.var("f", 0.0, 1.0 - GAP);
    let h = c.var("h", 0.0, 1.0 - GAP);
    let d = g.domain();
    let x = g.at(d.0 + (d.1 - d.0) * f, 0).pop().unwrap();
    let y = s.pt(a + (b - a) * f, p + (q - p) * h);
    // a rigid motion takes the profile's plane coordinates to the cross-section at that station:
    // the profile's z runs along the rail, and distances from the origin are kept
    let k = comb(&o, &dir, l * h);
    let e = sub(&y, &k);
    c.eq("depth along the rail", dot(&e, &dir), x[2]);
    c.eq("distance from the rail point", dot(&e, &e), dot(&x, &x));
});
fn s08(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let th = t == Tier::Thorough;
    for arcs in 0..=4 {
        for ax in 0..4 {
            for on in [false, true] {
                v.push(Box::new(Revolve { s: shape("d1"), w: W::Sym, three: true, ax, arcs, on, free: false }));
                v.push(Box::new(Revolve { s: shape("d1i"), w: W::Fix, three: true, ax, arcs, on, free: false }));
                v.push(Box::new(Revolve { s: shape("d2"), w: W::Fix, three: true, ax, arcs, on, free: false }));
                if th || !on {
                    v.push(Box::new(Revolve { s: shape("u2"), w: W::One, three: true, ax, arcs, on, free: false }));
                    v.push(Box::new(Revolve { s: shape("d2i"), w: W::One, three: true, ax, arcs, on, free: false }));
                }
            }
        }
        if arcs == 1 {
            v.push(Box::new(Revolve { s: shape("d1"), w: W::One, three: true, ax: 0, arcs, on: false, free: true }));
        }
    }
    for ax in 0..4 {
        v.push(Box::new(Sphere { ax }));
    }
    for a in ["d1", "d2"] {
        for rail in 0..3 {
            for deg in [Some(1), Some(3)] {
                v.push(Box::new(SweepLine { a, rail, deg }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C15
fn frame_checks<C: Ctx>(c: &mut C, fr: &[FrenetFrame<C::S>], crv: &NurbsCurve3D<C::S>, ts: &[C::S]) {
    let (zero, one) = (c.k(0.0), c.k(1.0));
    c.check("one frame per parameter", fr.len() == ts.len());
    for (f, t) in fr.iter().zip(ts.iter()) {
        let l = |v: &Vector3<C::S>| -> Vec<C::S> { v.iter().cloned().collect() };
        let (t_, n, b) = (l(f.tangent()), l(f.normal()), l(f.binormal()));
        let pos: Vec<C::S> = f.position().coords.iter().cloned().collect();
        veq(c, "position", &pos, &crv.pt(*t));
        let d = crv.tan(*t);
        let x = cross(&d, &t_);
        for k in x {
            c.eq("tangent along the curve", k, zero);
        }
        c.rel_tol("tangent forward", zero, Rel::Lt, dot(&d, &t_), 0.0);
        c.eq("unit tangent", dot(&t_, &t_), one);
        c.eq("unit normal", dot(&n, &n), one);
        c.eq("unit binormal", dot(&b, &b), one);
        c.eq("normal across tangent", dot(&n, &t_), zero);
        c.eq("binormal across tangent", dot(&b, &t_), zero);
        c.eq("binormal across normal", dot(&b, &n), zero);
        veq(c, "right handed", &cross(&t_, &n), &b);
    }
    for w in fr.windows(2) {
        // no twist: the normal turns with the tangent, about the axis across both tangents
        let l = |v: &Vector3<C::S>| -> Vec<C::S> { v.iter().cloned().collect() };
        let ax = cross(&l(w[0].tangent()), &l(w[1].tangent()));
        c.eq("no twist", dot(&ax, &l(w[0].normal())), dot(&ax, &l(w[1].normal())));
        let det = |a: &Vec<C::S>, b: &Vec<C::S>| dot(a, b);
        let (t0, n0, t1, n1) = (l(w[0].tangent()), l(w[0].normal()), l(w[1].tangent()), l(w[1].normal()));
        c.eq("turned by the angle between the tangents", (one + det(&t0, &t1)) * det(&n0, &n1), (one + det(&t0, &t1)) * one - det(&n0, &t1) * det(&n0, &t1));
    }
}
plain_case!(FramePoly { dirs: usize, n: usize } "frame-polyline" |m, c| {
    // a rail of straight pieces with rational directions and symbolic lengths
    let table: [[[(i64, i64); 3]; 3]; 7] = [
        [[(1, 1), (0, 1), (0, 1)], [(0, 1), (1, 1), (0, 1)], [(0, 1), (0, 1), (1, 1)]],
        [[(3, 5), (4, 5), (0, 1)], [(4, 5), (3, 5), (0, 1)], [(0, 1), (0, 1), (-1, 1)]],
        [[(2, 3), (-1, 3), (2, 3)], [(2, 3), (2, 3), (-1, 3)], [(2, 3), (-1, 3), (2, 3)]],
        [[(6, 7), (2, 7), (3, 7)], [(6, 7), (2, 7), (3, 7)], [(-2, 7), (-3, 7), (6, 7)]],
        // sharp turns, also after turns of the other kind
        [[(1, 1), (0, 1), (0, 1)], [(-3, 5), (0, 1), (4, 5)], [(3, 13), (12, 13), (-4, 13)]],
        [[(2, 3), (-1, 3), (2, 3)], [(-2, 15), (10, 15), (-11, 15)], [(-14, 75), (10, 75), (73, 75)]],
        [[(0, 1), (0, 1), (-1, 1)], [(36, 65), (48, 65), (25, 65)], [(996, 1625), (-1272, 1625), (-175, 1625)]],
    ];
    let mut pts = vec![c.vars("o", 3, -5.0, 5.0)];
    for i in 0..m.n {
        let d: Vec<C::S> = table[m.dirs][i].iter().map(|(a, b)| c.ratio(*a, *b)).collect();
        let l = c.var(&format!("l{}", i), 0.25, 4.0);
        pts.push(comb(&pts[i], &d, l));
    }
    let crv = NurbsCurve3D::polyline(&pts.iter().map(|p| Point3::from_slice(p)).collect::<Vec<_>>(), false);
    let k = crv.knots().to_vec();
    let ts: Vec<C::S> = (0..m.n).map(|i| {
        let f = c.var(&format!("f{}", i), 0.0, 1.0 - GAP);
        k[i + 1] + (k[i + 2] - k[i + 1]) * f
    }).collect();
    let fr = crv.compute_frenet_frames(&ts);
    frame_checks(c, &fr, &crv, &ts);
});
plain_case!(FramePlane { plane: usize, n: usize } "frame-planar" |m, c| {
    // a quadratic Bezier curve in a coordinate plane, symbolic control points
    let (x, y, z) = [(0, 1, 2), (1, 2, 0), (2, 0, 1)][m.plane];
    let h = c.var("h", -5.0, 5.0);
    let hom: Vec<Vec<C::S>> = (0..3).map(|i| {
        let mut p = vec![h; 3];
        p[x] = c.k([-1.0, 0.5, 3.0][i]);
        p[y] = c.var(&format!("b{}", i), -5.0, 5.0);
        p[z] = h;
        p.push(c.k(1.0));
        p
    }).collect();
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let crv = NurbsCurve3D::try_new(2, hpoints(&hom), vec![zero, zero, zero, one, one, one]).unwrap();
    let ts: Vec<C::S> = (0..m.n).map(|i| c.k([0.0, 1.0, 0.5][i])).collect();
    let fr = crv.compute_frenet_frames(&ts);
    frame_checks(c, &fr, &crv, &ts);
});
fn c15(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for dirs in 0..7 {
        for n in 1..=3 {
            v.push(Box::new(FramePoly { dirs, n }));
        }
    }
    for plane in 0..3 {
        for n in 1..=(if t == Tier::Thorough { 3 } else { 2 }) {
            v.push(Box::new(FramePlane { plane, n }));
        }
    }
    v
}

fn main() {
    main_with(vec![Prop { id: "S07", cases: s07 }, Prop { id: "S08", cases: s08 }, Prop { id: "C15", cases: c15 }]);
}
