//! C14, C16, S10: arc length and nearest points.
use curvo::prelude::*;
use symcurvo::ctx::*;
use symcurvo::handle;
use symcurvo::{curve_case, plain_case};
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;

fn dot<S: Scalar>(a: &[S], b: &[S]) -> S {
    a.iter().zip(b.iter()).fold(refs::k(0.0), |s, (x, y)| s + *x * *y)
}
fn sub<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x - *y).collect()
}
fn d2<S: Scalar>(a: &[S], b: &[S]) -> S {
    let d = sub(a, b);
    dot(&d, &d)
}

// ---------------------------------------------------------------- C16
/// a polyline over knots a unit apart, as a curve of degree 1
fn polyline<C: Ctx, const N: usize>(c: &mut C, at: &[[f64; 3]], start: f64, step: f64) -> (Vec<Vec<C::S>>, NurbsCurve<C::S, nalgebra::Const<N>>) {
    let pts: Vec<Vec<C::S>> = at.iter().map(|p| p[..N - 1].iter().map(|x| c.k(*x)).collect()).collect();
    let n = pts.len();
    let mut knots = vec![c.k(start)];
    knots.extend((0..n).map(|i| c.k(start + step * i as f64)));
    knots.push(*knots.last().unwrap());
    let h: Vec<Vec<C::S>> = pts.iter().map(|p| p.iter().cloned().chain([c.k(1.0)]).collect()).collect();
    (pts, NurbsCurve::try_new(1, hpoints(&h), knots).unwrap())
}
fn nearest<C: Ctx, const N: usize>(c: &mut C, at: &[[f64; 3]], start: f64, step: f64)
where
    NurbsCurve<C::S, nalgebra::Const<N>>: CurveExt<C::S>,
{
    let (pts, crv) = polyline::<C, N>(c, at, start, step);
    let p = c.vars("p", N - 1, -6.0, 6.0);
    let u = crv.closest(&p);
    let Some(u) = c.ok("found", u) else { return };
    c.le("in the domain", c.k(start), u);
    c.le("in the domain", u, c.k(start + step * (pts.len() - 1) as f64));
    let q = crv.closest_pt(&p).unwrap();
    veq(c, "the point is at the parameter", &q, &crv.pt(u));
    nothing_nearer(c, &q, &p, &pts);
}
fn nothing_nearer<C: Ctx>(c: &mut C, q: &[C::S], p: &[C::S], pts: &[Vec<C::S>]) {
    let best = d2(q, p);
    let i = c.choice("segment", pts.len() - 1);
    let s = c.var("s", 0.0, 1.0);
    let r: Vec<C::S> = (0..p.len()).map(|d| pts[i][d] + (pts[i + 1][d] - pts[i][d]) * s).collect();
    c.le("no point is nearer", best, d2(&r, p));
}
plain_case!(Nearest { name: &'static str, at: &'static [[f64; 3]], three: bool, knots: (f64, f64) } "nearest" |m, c| {
    if m.three {
        nearest::<C, 4>(c, m.at, m.knots.0, m.knots.1)
    } else {
        nearest::<C, 3>(c, m.at, m.knots.0, m.knots.1)
    }
});
// the nearest point over all spans of a compound curve
plain_case!(NearestSpan { spans: &'static [&'static [[f64; 3]]] } "nearest-compound" |m, c| {
    let mut pts = vec![];
    let mut spans = vec![];
    for s in m.spans {
        let (p, crv) = polyline::<C, 3>(c, s, 0.0, 1.0);
        pts.extend(p.into_iter().skip(if pts.is_empty() { 0 } else { 1 }));
        spans.push(crv);
    }
    let p = c.vars("p", 2, -6.0, 6.0);
    let q = CompoundCurve::new(spans).find_closest_point(&nalgebra::Point2::new(p[0], p[1]));
    let Some(q) = c.ok("found", q) else { return };
    nothing_nearer(c, &pv(&q), &p, &pts);
});
fn c16(_t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let mut add = |name, at: &'static [[f64; 3]], three: bool, knots: (f64, f64)| v.push(Box::new(Nearest { name, at, three, knots }));
    for three in [false, true] {
        add("line", &[[-1.0, 0.0, 0.5], [3.0, 2.0, -1.0]], three, (2.0, 3.0));
        add("corner", &[[-2.0, 0.0, 0.0], [2.0, 0.0, 1.0], [2.0, 3.0, 2.0]], three, (0.0, 1.0));
        add("sharp", &[[-2.0, 0.0, 0.0], [2.0, 0.0, 0.0], [-2.0, 3.0, 0.5]], three, (-1.0, 0.5));
    }
    add("triangle", &[[0.0, 0.0, 0.0], [3.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.0, 0.0, 0.0]], false, (0.0, 1.0));
    add("triangle", &[[0.0, 0.0, 0.0], [3.0, 3.0, 1.5], [5.0, -1.0, 5.5], [0.0, 0.0, 0.0]], true, (0.0, 1.0));
    add("square", &[[-2.0, -2.0, 0.0], [2.0, -2.0, 0.0], [2.0, 2.0, 0.0], [-2.0, 2.0, 0.0], [-2.0, -2.0, 0.0]], false, (0.0, 1.0));
    add("zigzag", &[[-3.0, 0.0, 0.0], [-2.0, 2.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [1.0, 0.0, 0.0], [2.0, 2.0, 0.0]], false, (0.0, 2.0));
    v.push(Box::new(NearestSpan { spans: &[&[[-2.0, 0.0, 0.0], [2.0, 0.0, 0.0]], &[[2.0, 0.0, 0.0], [2.0, 3.0, 0.0], [0.0, 3.0, 0.0]]] }));
    v.push(Box::new(NearestSpan { spans: &[&[[0.0, 0.0, 0.0], [3.0, 1.0, 0.0]], &[[3.0, 1.0, 0.0], [1.0, 3.0, 0.0]], &[[1.0, 3.0, 0.0], [0.0, 0.0, 0.0]]] }));
    v
}

// ---------------------------------------------------------------- S10
/// a flat rectangular patch with even parameters: corner, two perpendicular sides, degrees and knots
#[derive(Clone, Copy, Debug)]
struct Patch {
    name: &'static str,
    o: [f64; 3],
    a: [f64; 3],
    b: [f64; 3],
    u: (usize, &'static [f64]),
    v: (usize, &'static [f64]),
}
plain_case!(Foot { off: f64, side: usize, free: &'static str, within: (f64, f64), patch: Patch } "foot" |m, c| {
    let p = &m.patch;
    let grev = |(deg, k): (usize, &[f64])| -> Vec<f64> {
        let (lo, hi) = (k[deg], k[k.len() - 1 - deg]);
        (0..k.len() - deg - 1).map(|i| (k[i + 1..=i + deg].iter().sum::<f64>() / deg as f64 - lo) / (hi - lo)).collect()
    };
    let (gu, gv) = (grev(p.u), grev(p.v));
    let at = |f: f64, g: f64| -> Vec<f64> { (0..3).map(|d| p.o[d] + p.a[d] * f + p.b[d] * g).collect() };
    let hom: Vec<Vec<nalgebra::Point4<C::S>>> = gu
        .iter()
        .map(|f| gv.iter().map(|g| at(*f, *g)).map(|q| nalgebra::Point4::new(c.k(q[0]), c.k(q[1]), c.k(q[2]), c.k(1.0))).collect())
        .collect();
    let s = NurbsSurface3D::new(p.u.0, p.v.0, p.u.1.iter().map(|x| c.k(*x)).collect(), p.v.1.iter().map(|x| c.k(*x)).collect(), hom);
    // the query, in the frame of the patch: f, g along the sides, h away from it
    let n = [
        p.a[1] * p.b[2] - p.a[2] * p.b[1],
        p.a[2] * p.b[0] - p.a[0] * p.b[2],
        p.a[0] * p.b[1] - p.a[1] * p.b[0],
    ];
    let range = [m.within, (-1.0, -0.125), (1.125, 2.0)];
    let free = |c: &mut C, name: &str, i: usize| {
        let (lo, hi) = range[i];
        if m.free.contains(name) { c.var(name, lo, hi) } else { c.k(lo + 0.3125 * (hi - lo)) }
    };
    let f = free(c, "f", m.side % 3);
    let g = free(c, "g", m.side / 3);
    let h = c.k(m.off);
    let q: Vec<C::S> = (0..3).map(|d| c.k(p.o[d]) + c.k(p.a[d]) * f + c.k(p.b[d]) * g + c.k(n[d]) * h).collect();
    let uv = s.find_closest_parameter(&nalgebra::Point3::new(q[0], q[1], q[2]));
    let Some((u, v)) = c.ok("found", uv) else { return };
    for (x, (deg, k), f) in [(u, p.u, f), (v, p.v, g)] {
        let (lo, hi) = (c.k(k[deg]), c.k(k[k.len() - 1 - deg]));
        c.le("in the domain", lo, x);
        c.le("in the domain", x, hi);
        let (zero, one) = (c.k(0.0), c.k(1.0));
        let f = if f < zero { zero } else if f > one { one } else { f };
        let e = c.k(1e-4);
        c.le("the foot of the perpendicular", x, lo + (hi - lo) * f + e);
        c.le("the foot of the perpendicular", lo + (hi - lo) * f - e, x);
    }
});
// a flat patch of any four corners; the foot is given, the height over it is free
plain_case!(Askew { corners: [[f64; 2]; 4], foot: [f64; 2], flip: bool } "askew" |m, c| {
    c.keep_bits(160);
    let one = c.k(1.0);
    let h = |i: usize, j: usize| if m.flip { m.corners[2 * j + i] } else { m.corners[2 * i + j] };
    let hom = (0..2).map(|i| (0..2).map(|j| nalgebra::Point4::new(c.k(h(i, j)[0]), c.k(h(i, j)[1]), c.k(0.0), one)).collect()).collect();
    let k: Vec<C::S> = [0.0, 0.0, 1.0, 1.0].iter().map(|x| c.k(*x)).collect();
    let s = NurbsSurface3D::new(1, 1, k.clone(), k, hom);
    let f = m.foot;
    let at = |d: usize| h(0, 0)[d] * (1. - f[0]) * (1. - f[1]) + h(0, 1)[d] * (1. - f[0]) * f[1] + h(1, 0)[d] * f[0] * (1. - f[1]) + h(1, 1)[d] * f[0] * f[1];
    let q = nalgebra::Point3::new(c.k(at(0)), c.k(at(1)), c.var("h", 0.125, 2.0));
    let Some((u, v)) = c.ok("found", s.find_closest_parameter(&q)) else { return };
    let e = c.k(1e-4);
    for (x, f) in [(u, f[0]), (v, f[1])] {
        c.le("the foot of the perpendicular", x, c.k(f) + e);
        c.le("the foot of the perpendicular", c.k(f) - e, x);
    }
});
// an upright cylinder; the query's direction t (half-angle tangent, quarter) and distance are given, its height is free
plain_case!(Upright { turn: (f64, usize), r: f64, flip: bool } "upright" |m, c| {
    symcurvo::handle::allow(c.is_sym());
    c.keep_bits(160);
    let at: [[f64; 3]; 9] = [
        [1., 0., 1.], [1., 1., 1.], [0., 1., 2.], [-1., 1., 1.], [-1., 0., 1.], [-1., -1., 1.], [0., -1., 2.], [1., -1., 1.], [1., 0., 1.],
    ];
    let row = |i: usize, j: usize| nalgebra::Point4::new(c.k(at[i][0] * at[i][2]), c.k(at[i][1] * at[i][2]), c.k(2.0 * j as f64 * at[i][2]), c.k(at[i][2]));
    let ku: Vec<C::S> = [0., 0., 0., 1., 1., 2., 2., 3., 3., 4., 4., 4.].iter().map(|x| c.k(*x)).collect();
    let kv: Vec<C::S> = [0., 0., 1., 1.].iter().map(|x| c.k(*x)).collect();
    let s = if m.flip {
        NurbsSurface3D::new(1, 2, kv, ku, (0..2).map(|j| (0..9).map(|i| row(i, j)).collect()).collect())
    } else {
        NurbsSurface3D::new(2, 1, ku, kv, (0..9).map(|i| (0..2).map(|j| row(i, j)).collect()).collect())
    };
    let t = c.k(m.turn.0);
    let one = c.k(1.0);
    let (x, y) = ((one - t * t) / (one + t * t), (t + t) / (one + t * t));
    let (x, y) = [(x, y), (-y, x), (-x, -y), (y, -x)][m.turn.1];
    let z = c.var("z", 0.25, 0.875);
    let q = nalgebra::Point3::new(c.k(m.r) * x, c.k(m.r) * y, z);
    let Some((u, v)) = c.ok("found", s.find_closest_parameter(&q)) else { return };
    let p = s.point_at(u, v);
    for (got, want) in [(p.x, x), (p.y, y), (p.z, z)] {
        c.eq_tol("the nearest point", got, want, 1e-4);
    }
});
fn s10(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let patches = [
        Patch { name: "unit", o: [0.0, 0.0, 0.0], a: [2.0, 0.0, 0.0], b: [0.0, 1.0, 0.0], u: (1, &[0., 0., 1., 1.]), v: (1, &[0., 0., 1., 1.]) },
        Patch { name: "tilted", o: [1.0, -1.0, 0.5], a: [3.0, 4.0, 0.0], b: [-4.0, 3.0, 0.0], u: (1, &[1., 1., 3., 3.]), v: (1, &[0., 0., 1., 2., 2.]) },
        Patch { name: "raised", o: [0.0, 0.0, 0.0], a: [1.0, 2.0, 2.0], b: [2.0, 1.0, -2.0], u: (2, &[0., 0., 0., 1., 1., 1.]), v: (1, &[0., 0., 1., 1.]) },
    ];
    for corners in [[[0.0, 0.0], [0.0, 1.0], [2.0, 0.0], [2.0, 2.0]], [[0.0, 0.0], [-0.5, 2.0], [3.0, 0.5], [2.0, 2.0]]] {
        for foot in [[0.375, 0.625], [0.8125, 0.1875], [0.125, 0.3125], [1.0, 0.5625]] {
            v.push(Box::new(Askew { corners, foot, flip: foot[0] < foot[1] }));
        }
    }
    for (turn, flip) in [((0.25, 0), false), ((0.0078125, 0), true), ((0.984375, 3), false), ((0.40625, 2), true), ((0.6875, 1), false)] {
        for r in [0.5, 2.0] {
            v.push(Box::new(Upright { turn, r, flip }));
        }
    }
    for patch in patches {
        let mut add = |off, side, free| {
            // away from the corners of the grid that the iteration starts from, or anywhere
            v.push(Box::new(Foot { off, side, free, within: (0.53125, 0.71875), patch }));
            v.push(Box::new(Foot { off, side, free, within: (0.03125, 0.21875), patch }));
            if th {
                v.push(Box::new(Foot { off, side, free, within: (0.0, 1.0), patch }));
            }
        };
        add(0.25, 0, "f");
        add(-0.5, 0, "g");
        for side in 1..9 {
            if side % 3 == 0 || side >= 4 {
                add(if side % 3 == 0 { 0.25 } else { 0.0 }, side, "f");
            }
            if side < 3 || side >= 4 {
                add(if side < 3 { 0.25 } else { 0.0 }, side, "g");
            }
        }
        add(0.0, 4, "fg");
        if patch.name != "tilted" || th {
            add(0.0, 0, "f");
        }
        if th {
            add(0.0, 0, "g");
            add(0.0, 1, "f");
            add(0.25, 1, "f");
            add(0.25, 3, "g");
        }
    }
    v
}

// ---------------------------------------------------------------- C14
/// a curve whose length is known in closed form
struct Ruler<S: Scalar> {
    hom: Vec<Vec<S>>,
    knots: Vec<S>,
    degree: usize,
    brk: Vec<S>,
    /// length from the start of span i to the parameter t
    upto: Vec<Upto<S>>,
}
enum Upto<S> {
    /// straight motion: length = factor * (scalar(t) - scalar(start))
    Straight { factor: S, dir: Vec<S> },
    /// Pythagorean hodograph (u,v) linear from (u0,v0) to (u1,v1) on the span
    Hodograph([S; 4]),
}
impl<S: Scalar> Ruler<S> {
    fn span_len(&self, i: usize, t: S) -> S {
        let (a, b) = (self.brk[i], self.brk[i + 1]);
        match &self.upto[i] {
            Upto::Straight { factor, dir } => {
                let r = |x: S| {
                    let span = (self.degree..self.knots.len() - 1 - self.degree)
                        .filter(|k| self.knots[*k] <= a && self.knots[*k] < self.knots[*k + 1])
                        .last()
                        .unwrap();
                    refs::rational_in(self.degree, &self.knots, &self.hom, x, 0, span).pop().unwrap()
                };
                *factor * dot(dir, &sub(&r(t), &r(a)))
            }
            Upto::Hodograph([u0, v0, u1, v1]) => {
                let h = b - a;
                let s = (t - a) / h;
                let (du, dv) = (*u1 - *u0, *v1 - *v0);
                let third = refs::k::<S>(1.0) / refs::k(3.0);
                let c0 = *u0 * *u0 + *v0 * *v0;
                let c1 = *u0 * du + *v0 * dv;
                let c2 = (du * du + dv * dv) * third;
                h * s * (c0 + s * (c1 + s * c2))
            }
        }
    }
    /// length from the start of the domain to t, which lies in span i
    fn len_to(&self, i: usize, t: S) -> S {
        (0..i).fold(refs::k::<S>(0.0), |s, j| s + self.span_len(j, self.brk[j + 1])) + self.span_len(i, t)
    }
    fn total(&self) -> S {
        let n = self.upto.len();
        self.len_to(n - 1, self.brk[n])
    }
    fn locate(&self, t: S) -> usize {
        let n = self.upto.len();
        (0..n).find(|i| t < self.brk[i + 1]).unwrap_or(n - 1)
    }
    fn curve<const N: usize>(&self) -> NurbsCurve<S, nalgebra::Const<N>> {
        NurbsCurve::try_new(self.degree, hpoints(&self.hom), self.knots.clone()).unwrap()
    }
}
#[derive(Clone, Copy, Debug)]
enum Path {
    /// corners joined by straight sides (degree 1)
    Sides,
    /// monotone motion along one line
    Along,
    /// curved, with a Pythagorean hodograph
    Bent,
}
const DIRS: [[f64; 3]; 4] = [[0.6, 0.8, 0.0], [0.8, -0.6, 0.0], [0.0, 1.0, 0.0], [-0.6, 0.8, 0.0]];
const DIRS3: [[f64; 3]; 4] = [[0.25, 0.5, 0.5], [0.5, -0.25, 0.5], [0.0, 0.0, -0.75], [0.5, 0.5, 0.25]];
fn ruler<C: Ctx>(c: &mut C, path: Path, s: &Shape, w: W, three: bool, size: f64, fixed: usize, by: bool) -> Ruler<C::S> {
    let dim = if three { 3 } else { 2 };
    let knots: Vec<C::S> = s.knots.iter().map(|x| c.k(*x)).collect();
    let brk: Vec<C::S> = s.distinct().iter().map(|x| c.k(*x)).collect();
    let n = s.n();
    let w: Vec<C::S> = (0..n).map(|i| weight(c, "", i, w)).collect();
    let mut cart: Vec<Vec<C::S>> = vec![];
    let mut upto = vec![];
    match path {
        Path::Sides => {
            let mut p: Vec<C::S> = (0..dim).map(|i| c.k([1.0, -2.0, 0.5][i])).collect();
            cart.push(p.clone());
            for i in 1..n {
                let r = if fixed > 1 && by && i > 1 { c.k(size) } else { c.var(&format!("r{}", i), 0.5 * size, 2.0 * size) };
                let d = if three { DIRS3[(i - 1) % 4] } else { DIRS[(i - 1) % 4] };
                p = (0..dim).map(|j| p[j] + r * if three { c.k(d[j]) } else { c.ratio((d[j] * 10.0) as i64, 10) }).collect();
                cart.push(p.clone());
            }
            for i in 0..n - 1 {
                let d = if three { DIRS3[i % 4] } else { DIRS[i % 4] };
                // unit direction
                let dir = (0..dim).map(|j| if three { c.ratio((d[j] * 4.0) as i64, 3) } else { c.ratio((d[j] * 10.0) as i64, 10) }).collect();
                upto.push(Upto::Straight { factor: c.k(1.0), dir });
            }
        }
        Path::Along => {
            for i in 0..n {
                let x = c.var(&format!("s{}", i), (i as f64 - 0.375) * size, (i as f64 + 0.375) * size);
                let d: Vec<i64> = if three { vec![1, 2, 2] } else { vec![3, 4] };
                cart.push(d.iter().map(|k| c.ratio(*k, 1) * x).collect());
            }
            let dir: Vec<C::S> =
                if three { vec![c.ratio(1, 3), c.ratio(2, 3), c.ratio(2, 3)] } else { vec![c.ratio(3, 5), c.ratio(4, 5)] };
            for _ in 0..brk.len() - 1 {
                upto.push(Upto::Straight { factor: c.k(1.0), dir: dir.clone() });
            }
        }
        Path::Bent => {
            // u and v are linear on each span and continuous: a C1 cubic with double interior knots
            let m = brk.len() - 1;
            let u: Vec<C::S> = (0..=m)
                .map(|i| if fixed > 1 && i > 0 { c.k([1.0, 0.75, 1.5, 1.0][i] * size) } else { c.var(&format!("u{}", i), 0.5 * size, 2.0 * size) })
                .collect();
            let v: Vec<C::S> = (0..=m)
                .map(|i| if fixed > 0 { c.k([0.5, -0.75, 0.25, 1.0][i] * size) } else { c.var(&format!("v{}", i), -size, size) })
                .collect();
            let mut p = vec![c.k(-1.0), c.k(0.5)];
            cart.push(p.clone());
            let third = c.ratio(1, 3);
            for i in 0..m {
                let h = (brk[i + 1] - brk[i]) * third;
                let two = c.k(2.0);
                let (a, b, e, f) = (u[i], v[i], u[i + 1], v[i + 1]);
                let steps = [
                    [a * a - b * b, two * a * b],
                    [a * e - b * f, a * f + b * e],
                    [e * e - f * f, two * e * f],
                ];
                for (k, st) in steps.iter().enumerate() {
                    p = vec![p[0] + h * st[0], p[1] + h * st[1]];
                    // joints of a C1 curve are not control points
                    if k < 2 || i + 1 == m {
                        cart.push(p.clone());
                    }
                }
                upto.push(Upto::Hodograph([a, b, e, f]));
            }
        }
    }
    let hom = cart.iter().zip(&w).map(|(p, w)| p.iter().map(|x| *x * *w).chain([*w]).collect()).collect();
    Ruler { hom, knots, degree: s.degree, brk, upto }
}
#[derive(Clone, Copy, Debug)]
enum Ask {
    Total,
    At,
    Count(usize),
    By,
    /// as At, without a tolerance
    Default,
}
curve_case!(Length { path: Path, ask: Ask, tol: f64 } "length" |m, c| {
    handle::allow(c.is_sym());
    let size = match m.ask { Ask::Count(_) | Ask::By | Ask::Default => if matches!(m.path, Path::Bent) { 0.0625 } else { 0.004 }, _ => 1.0 };
    let r = ruler(c, m.path, &m.s, m.w, m.three, size, match m.ask { Ask::Total => 0, Ask::At | Ask::Default => 1, _ => 2 }, matches!(m.ask, Ask::By));
    let crv = r.curve::<N>();
    let n = r.upto.len();
    let near = |c: &mut C, what: &str, t: C::S, len: C::S, tol: C::S| {
        c.le("in the domain", r.brk[0], t);
        c.le("in the domain", t, r.brk[n]);
        let i = r.locate(t);
        let l = r.len_to(i, t);
        c.le(what, l, len + tol);
        c.le(what, len - tol, l);
    };
    match m.ask {
        Ask::Total => {
            let l = c.ok("length", crv.length_());
            let Some(l) = l else { return };
            c.eq("length", l, r.total());
        }
        Ask::At | Ask::Default => {
            let total = c.ok("length", crv.length_());
            let Some(total) = total else { return };
            let len = if c.choice("all of it", 2) == 1 {
                total
            } else {
                let len = c.var("len", 0.0, 100.0);
                c.assume(len, Rel::Le, total - c.k(GAP));
                len
            };
            let tol = if matches!(m.ask, Ask::Default) { c.k(1e-4) } else { c.k(m.tol) };
            let t = c.ok("parameter", crv.at_length(len, if matches!(m.ask, Ask::Default) { None } else { Some(tol) }));
            let Some(t) = t else { return };
            near(c, "length up to the parameter", t, len, tol);
        }
        Ask::Count(k) => {
            let v = c.ok("divided", crv.by_count(k));
            let Some(v) = v else { return };
            c.check("as many parts as asked for", v.len() == k + 1);
            let total = r.total();
            for (i, (t, l)) in v.iter().enumerate() {
                let len = total * c.ratio(i as i64, k as i64);
                c.eq_tol("lengths are even", *l, len, 1e-9);
                near(c, "length up to the parameter", *t, len, c.k(0.0025));
            }
        }
        Ask::By => {
            let total = r.total();
            let len = c.var("len", 0.002, 0.006);
            c.assume(len, Rel::Le, total - c.k(GAP));
            let v = c.ok("divided", crv.by_length(len));
            let Some(v) = v else { return };
            for (i, (t, l)) in v.iter().enumerate() {
                let at = len * c.k(i as f64);
                c.eq_tol("multiples of the length", *l, at, 1e-9);
                near(c, "length up to the parameter", *t, at, c.k(0.0025));
            }
            // nothing is left over
            c.rel_tol("the rest is shorter than the length", total - len * c.k(v.len() as f64), Rel::Lt, c.k(0.0), 1e-9);
        }
    }
});
// quarter circles and a side of a compound curve
plain_case!(Quarters { spans: usize } "quarters" |m, c| {
    handle::allow(c.is_sym());
    let mut spans = vec![];
    let mut total = c.k(0.0);
    let mut at = vec![c.k(1.0), c.k(-2.0)];
    for i in 0..m.spans {
        let r = c.var(&format!("r{}", i), 0.5, 4.0);
        if i == 1 {
            let b = vec![at[0] - r * c.ratio(3, 5), at[1] + r * c.ratio(4, 5)];
            spans.push(NurbsCurve2D::polyline_(&[at.clone(), b.clone()], false));
            total += r;
            at = b;
            continue;
        }
        // around a centre at the left of the start
        let o = [at[0] - r, at[1]];
        let arc = [[1.0, 0.0, 1.0], [1.0, 1.0, 1.0], [0.0, 2.0, 2.0]];
        let h: Vec<Vec<C::S>> = arc
            .iter()
            .map(|[x, y, w]| vec![o[0] * c.k(*w) + r * c.k(*x), o[1] * c.k(*w) + r * c.k(*y), c.k(*w)])
            .collect();
        let k = [0.0, 0.0, 0.0, 1.0, 1.0, 1.0].iter().map(|x| c.k(*x)).collect();
        spans.push(NurbsCurve2D::try_new(2, hpoints(&h), k).unwrap());
        total += r * c.k(std::f64::consts::FRAC_PI_2);
        at = vec![o[0], o[1] + r];
    }
    if m.spans == 1 {
        let l = spans[0].length_();
        let Some(l) = c.ok("length", l) else { return };
        c.eq("length", l, total);
        return;
    }
    let l = CompoundCurve::new(spans).try_length();
    let Some(l) = c.ok("length", l) else { return };
    c.eq("length of all spans", l, total);
});
fn c14(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let mut add = |s: &Shape, w: W, three: bool, path: Path, ask: Ask| {
        v.push(Box::new(Length { s: s.clone(), w, three, path, ask, tol: match path { Path::Sides => 0.5, Path::Along => 1.25, Path::Bent => 1.0 } }));
    };
    let sides = [
        Shape::new("d1", 1, &[0., 0., 1., 1.]),
        Shape::new("d1i", 1, &[0., 0., 1., 3., 4., 4.]),
        Shape::new("u1", 1, &[-1., 0., 1., 2., 3.]),
        Shape::new("u1e", 1, &[0., 0., 2., 3., 7.]),
    ];
    for s in &sides {
        for three in [false, true] {
            add(s, W::One, three, Path::Sides, Ask::Total);
        }
        add(s, W::Fix, false, Path::Sides, Ask::Total);
        add(s, W::One, false, Path::Sides, Ask::At);
        for k in [1, 2, 3] {
            add(s, W::One, false, Path::Sides, Ask::Count(k));
        }
        add(s, W::One, false, Path::Sides, Ask::By);
        add(s, W::One, false, Path::Sides, Ask::Default);
    }
    let along = [
        shape("d2"),
        shape("d2n"),
        shape("d3i"),
        shape("u2"),
        shape("u2s"),
        shape("u2e"),
        shape("u2q"),
        shape("u2r"),
        shape("u3h"),
        Shape::new("u2b", 2, &[-1., 0., 0., 1., 2., 3., 3., 5.]),
    ];
    for s in &along {
        add(s, W::One, false, Path::Along, Ask::Total);
        add(s, W::One, false, Path::Along, Ask::At);
        add(s, W::One, false, Path::Along, Ask::Count(2));
    }
    for s in ["d2", "d2n", "d3i"] {
        add(&shape(s), W::Fix, false, Path::Along, Ask::Total);
        add(&shape(s), W::One, true, Path::Along, Ask::Total);
    }
    let bent = [shape("d3"), shape("d3m2")];
    for s in &bent {
        add(s, W::One, false, Path::Bent, Ask::Total);
        add(s, W::One, false, Path::Bent, Ask::At);
        add(s, W::One, false, Path::Bent, Ask::Count(2));
    }
    for spans in [1, 2, 3] {
        v.push(Box::new(Quarters { spans }));
    }
    let _ = t;
    v
}

fn main() {
    main_with(vec![Prop { id: "C14", cases: c14 }, Prop { id: "C16", cases: c16 }, Prop { id: "S10", cases: s10 }]);
}
