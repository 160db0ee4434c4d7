//! G01..G05: bounding boxes, box trees and their traversal, polygon meshes, planar predicates.
use curvo::prelude::*;
use nalgebra::{Const, DimNameDiff, DimNameSub, OPoint, OVector, Point2, Point3, U1};
use symcurvo::ctx::*;
use symcurvo::handle;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;
use symcurvo::surf::*;
use symcurvo::{curve_case, plain_case};

fn comb<S: Scalar>(a: &[S], b: &[S], k: S) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x + *y * k).collect()
}
fn sub<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x - *y).collect()
}
fn dot<S: Scalar>(a: &[S], b: &[S]) -> S {
    a.iter().zip(b.iter()).fold(refs::k(0.0), |s, (x, y)| s + *x * *y)
}
/// twice the signed area of the triangle
fn area2<S: Scalar>(a: &[S], b: &[S], p: &[S]) -> S {
    (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
}
fn p2<S: Scalar>(a: &[S]) -> Point2<S> {
    Point2::new(a[0], a[1])
}

// ---------------------------------------------------------------- G01
// The box bounds the control points (linear), the curve is their weighted mean (identity), the shares
// are nonnegative (one variable): the three together put every point of the curve in the box.
fn shares<C: Ctx>(c: &mut C, what: &str, p: usize, k: &[C::S], t: C::S) -> Vec<C::S> {
    let span = refs::span_of(p, k, t);
    let n = k.len() - p - 1;
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let b: Vec<C::S> = (0..n).map(|i| refs::basis_in_span(i, p, k, t, span)).collect();
    let mut sum = zero;
    for x in &b {
        c.rel_tol(&format!("{} share not negative", what), zero, Rel::Le, *x, 1e-9);
        sum = sum + *x;
    }
    c.eq(&format!("{} shares add up to one", what), sum, one);
    b
}
fn in_box<C: Ctx>(c: &mut C, lo: &[C::S], hi: &[C::S], p: &[C::S]) {
    for d in 0..p.len() {
        c.rel_tol("low side below every control point", lo[d], Rel::Le, p[d], 1e-9);
        c.rel_tol("high side above every control point", p[d], Rel::Le, hi[d], 1e-9);
    }
}
curve_case!(BoxCurve { d: usize } "box-curve" |m, c| {
    // one symbolic coordinate, the others fixed
    let dim = N - 1;
    let k = knots(c, "", &m.s);
    let (mut cart, mut ws, mut hom) = (vec![], vec![], vec![]);
    // either the box against its control points (three of them symbolic), or the mean (all of them)
    let boxes = c.choice("claim", 2) == 0;
    let who = if boxes { c.choice("free control points from", m.s.n()) } else { 0 };
    let free: Vec<usize> = if boxes { vec![who, (who + 1) % m.s.n(), (who + 3) % m.s.n()] } else { (0..m.s.n()).collect() };
    for i in 0..m.s.n() {
        let w = weight(c, "", i, m.w);
        let p: Vec<C::S> = (0..dim).map(|d| if d == m.d && free.contains(&i) { c.var(&format!("x{}", i), -10.0, 10.0) } else { c.k(((i * 7 + d * 3) % 5) as f64 - 2.0) }).collect();
        hom.push(p.iter().map(|x| *x * w).chain([w]).collect::<Vec<_>>());
        cart.push(p);
        ws.push(w);
    }
    let crv = NurbsCurve::<C::S, Const<N>>::try_new(m.s.degree, hpoints(&hom), k.clone()).unwrap();
    if boxes {
        let (lo, hi) = crv.bbox();
        for p in &cart {
            in_box(c, &lo, &hi, p);
        }
        // and it is spanned by control points
        for side in [&lo, &hi] {
            let prod = cart.iter().fold(c.k(1.0), |s, x| s * (x[m.d] - side[m.d]));
            c.eq("each side touches a control point", prod, c.k(0.0));
        }
        return;
    }
    let dom = m.s.domain();
    let t = if c.choice("where", 2) == 0 { c.var("t", dom.0, dom.1 - GAP) } else { c.k(dom.1) };
    let b = shares(c, "control point", m.s.degree, &k, t);
    let p = crv.pt(t);
    let zero = c.k(0.0);
    let den = b.iter().zip(&ws).fold(zero, |s, (b, w)| s + *b * *w);
    for d in 0..dim {
        let num = (0..b.len()).fold(zero, |s, i| s + b[i] * ws[i] * cart[i][d]);
        c.eq("the point is the weighted mean", p[d] * den, num);
    }
});
pub struct BoxSurface {
    su: Shape,
    sv: Shape,
    w: W,
    d: usize,
}
impl Case for BoxSurface {
    fn name(&self) -> String {
        format!("box-surface-{}-{}-{:?}-{}", self.su.id(), self.sv.id(), self.w, self.d)
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let (ku, kv) = (knots(c, "u", &self.su), knots(c, "v", &self.sv));
        let (mut cart, mut ws, mut hom) = (vec![], vec![], vec![]);
        let total = self.su.n() * self.sv.n();
        let boxes = c.choice("claim", 2) == 0;
        let who = if boxes { c.choice("free control points from", total) } else { 0 };
        for i in 0..self.su.n() {
            let mut row = vec![];
            for j in 0..self.sv.n() {
                let w = if self.w == W::One { c.k(1.0) } else { c.k([1.0, 0.5, 2.0, 1.5][(i * 3 + j) % 4]) };
                let p: Vec<C::S> = (0..3).map(|d| if d == self.d && (!boxes || [who, (who + 1) % total, (who + 3) % total].contains(&(i * self.sv.n() + j))) { c.var(&format!("x{}_{}", i, j), -10.0, 10.0) } else { c.k(((i * 7 + j * 2 + d * 3) % 5) as f64) }).collect();
                row.push(p.iter().map(|x| *x * w).chain([w]).collect::<Vec<_>>());
                cart.push(p);
                ws.push(w);
            }
            hom.push(row);
        }
        let s = <NurbsSurface<C::S, Const<4>> as SurfExt<C::S>>::make(self.su.degree, self.sv.degree, &ku, &kv, &hom);
        if boxes {
            let b: BoundingBox<C::S, Const<3>> = (&s).into();
            let (lo, hi): (Vec<C::S>, Vec<C::S>) = (b.min().iter().cloned().collect(), b.max().iter().cloned().collect());
            for p in &cart {
                in_box(c, &lo, &hi, p);
            }
            return;
        }
        let (du, dv) = (self.su.domain(), self.sv.domain());
        let u = if c.choice("wu", 2) == 0 { c.var("u", du.0, du.1 - GAP) } else { c.k(du.1) };
        let v = if c.choice("wv", 2) == 0 { c.var("v", dv.0, dv.1 - GAP) } else { c.k(dv.1) };
        let p = s.pt(u, v);
        let bu = shares(c, "row", self.su.degree, &ku, u);
        let bv = shares(c, "column", self.sv.degree, &kv, v);
        let b: Vec<C::S> = bu.iter().flat_map(|x| bv.iter().map(|y| *x * *y).collect::<Vec<_>>()).collect();
        let zero = c.k(0.0);
        let den = b.iter().zip(&ws).fold(zero, |s, (b, w)| s + *b * *w);
        for d in 0..3 {
            let num = (0..b.len()).fold(zero, |s, i| s + b[i] * ws[i] * cart[i][d]);
            c.eq("the point is the weighted mean", p[d] * den, num);
        }
    }
}
plain_case!(BoxCompound { n: usize } "box-compound" |m, c| {
    // a chain of straight and quadratic spans; only the first coordinate is symbolic
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let mut x = c.var("x0", -10.0, 10.0);
    let mut spans = vec![];
    let mut cart = vec![];
    for i in 0..m.n {
        let y = c.var(&format!("x{}", i + 1), -10.0, 10.0);
        let (a, b) = (c.k(i as f64), c.k(i as f64 + 1.0));
        let pts = if i % 2 == 0 { vec![vec![x, a], vec![y, b]] } else { vec![vec![x, a], vec![c.var(&format!("z{}", i + 1), -10.0, 10.0), a], vec![y, b]] };
        let hom: Vec<Vec<C::S>> = pts.iter().map(|p| vec![p[0], p[1], one]).collect();
        let deg = pts.len() - 1;
        let k: Vec<C::S> = (0..2 * (deg + 1)).map(|j| if j <= deg { zero } else { one }).collect();
        spans.push(NurbsCurve2D::try_new(deg, hpoints(&hom), k).unwrap());
        cart.extend(pts);
        x = y;
    }
    let cc = CompoundCurve::new(spans);
    c.check("all spans kept", cc.spans().len() == m.n);
    let b: BoundingBox<C::S, Const<2>> = (&cc).into();
    let (lo, hi): (Vec<C::S>, Vec<C::S>) = (b.min().iter().cloned().collect(), b.max().iter().cloned().collect());
    for p in &cart {
        in_box(c, &lo, &hi, p);
    }
    let i = c.choice("touch", 2);
    let prod = cart.iter().fold(one, |s, x| s * (x[0] - if i == 0 { lo[0] } else { hi[0] }));
    c.eq("each side touches a control point", prod, zero);
});
fn g01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        if s.degree > 3 || (s.degree == 3 && !th && s.n() > 5) {
            continue;
        }
        v.push(Box::new(BoxCurve { s: s.clone(), w: W::Fix, three: false, d: 0 }));
        v.push(Box::new(BoxCurve { s: s.clone(), w: W::One, three: true, d: 2 }));
        if s.n() < 5 {
            v.push(Box::new(BoxCurve { s: s.clone(), w: W::Sym, three: false, d: 1 }));
        }
    }
    for (a, b) in [("d1", "d1"), ("d2", "d1"), ("d1", "d2"), ("d1i", "d1")] {
        for w in [W::One, W::Fix] {
            for d in 0..3 {
                v.push(Box::new(BoxSurface { su: shape(a), sv: shape(b), w, d }));
            }
        }
    }
    for n in 1..=3 {
        v.push(Box::new(BoxCompound { n }));
    }
    v
}

// ---------------------------------------------------------------- G02
fn boxd<C: Ctx, const N: usize>(c: &mut C, tag: &str) -> (BoundingBox<C::S, Const<N>>, Vec<C::S>, Vec<C::S>) {
    let lo = c.vars(&format!("{}l", tag), N, -10.0, 10.0);
    let sz = c.vars(&format!("{}s", tag), N, 0.0, 10.0);
    let hi = comb(&lo, &sz, c.k(1.0));
    (BoundingBox::new(OVector::<C::S, Const<N>>::from_column_slice(&lo), OVector::<C::S, Const<N>>::from_column_slice(&hi)), lo, hi)
}
plain_case!(BoxNew { n: usize } "box-new" |m, c| {
    match m.n { 1 => box_new::<C, 1>(c), 2 => box_new::<C, 2>(c), _ => box_new::<C, 3>(c) }
});
fn box_new<C: Ctx, const N: usize>(c: &mut C) {
    // two corners in any order
    let a = c.vars("a", N, -10.0, 10.0);
    let b = c.vars("b", N, -10.0, 10.0);
    let x = BoundingBox::new(OVector::<C::S, Const<N>>::from_column_slice(&a), OVector::<C::S, Const<N>>::from_column_slice(&b));
    let y: BoundingBox<C::S, Const<N>> = [OPoint::<C::S, Const<N>>::from_slice(&a), OPoint::from_slice(&b)].into_iter().collect();
    let two = c.k(2.0);
    for d in 0..N {
        let (lo, hi) = if a[d] <= b[d] { (a[d], b[d]) } else { (b[d], a[d]) };
        c.eq("min", x.min()[d], lo);
        c.eq("max", x.max()[d], hi);
        c.eq("min of points", y.min()[d], lo);
        c.eq("max of points", y.max()[d], hi);
        c.eq("center", x.center()[d] * two, lo + hi);
        c.eq("size", x.size()[d], hi - lo);
    }
    let cs = x.corners();
    c.check("corner count", cs.len() == 1 << N);
    for k in 0..1usize << N {
        // every choice of sides is a corner
        let want: Vec<C::S> = (0..N).map(|d| if k >> d & 1 == 0 { x.min()[d] } else { x.max()[d] }).collect();
        let mut prod = c.k(1.0);
        for q in &cs {
            let e: Vec<C::S> = sub(&q.coords.iter().cloned().collect::<Vec<_>>(), &want);
            prod = prod * dot(&e, &e);
        }
        let zero = c.k(0.0);
        c.eq("every corner listed", prod, zero);
    }
    // every edge joins two corners that differ in one coordinate only
    let zero = c.k(0.0);
    for (p, q) in x.lines() {
        let e: Vec<C::S> = (0..N).map(|d| q[d] - p[d]).collect();
        for i in 0..N {
            for j in 0..i {
                c.eq("edge along an axis", e[i] * e[j], zero);
            }
        }
    }
}
plain_case!(BoxContains { n: usize } "box-contains" |m, c| {
    match m.n { 1 => box_contains::<C, 1>(c), 2 => box_contains::<C, 2>(c), _ => box_contains::<C, 3>(c) }
});
fn box_contains<C: Ctx, const N: usize>(c: &mut C) {
    let (b, lo, hi) = boxd::<C, N>(c, "a");
    let p = c.vars("p", N, -20.0, 20.0);
    let got = b.contains(&OPoint::<C::S, Const<N>>::from_slice(&p));
    let mut want = true;
    for d in 0..N {
        if p[d] < lo[d] || hi[d] < p[d] {
            want = false;
            break;
        }
    }
    c.check("contains exactly the points between the sides", got == want);
}
plain_case!(BoxMeets { n: usize, tol: Option<f64> } "box-intersects" |m, c| {
    match m.n { 1 => box_meets::<C, 1>(c, m.tol), 2 => box_meets::<C, 2>(c, m.tol), _ => box_meets::<C, 3>(c, m.tol) }
});
fn box_meets<C: Ctx, const N: usize>(c: &mut C, tol: Option<f64>) {
    let (a, al, ah) = boxd::<C, N>(c, "a");
    let (b, bl, bh) = boxd::<C, N>(c, "b");
    let t = match tol { None => None, Some(x) if x < 0.0 => Some(c.var("tol", 0.0, 1.0)), Some(x) => Some(c.k(x)) };
    let got = a.intersects(&b, t);
    let back = b.intersects(&a, t);
    c.check("symmetric", got == back);
    // boxes grown by the tolerance share a point
    let two = c.k(2.0);
    let g = t.map(|t| t * two).unwrap_or(c.k(2.0 * f64::EPSILON));
    let mut want = true;
    for d in 0..N {
        if ah[d] + g < bl[d] || bh[d] + g < al[d] {
            want = false;
            break;
        }
    }
    c.check("intersects exactly when the grown boxes meet", got == want);
}
fn g02(_t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for n in 1..=3 {
        v.push(Box::new(BoxNew { n }));
        v.push(Box::new(BoxContains { n }));
        v.push(Box::new(BoxMeets { n, tol: Some(0.0) }));
        v.push(Box::new(BoxMeets { n, tol: None }));
        v.push(Box::new(BoxMeets { n, tol: Some(-1.0) }));
    }
    v
}

// ---------------------------------------------------------------- G03
/// a box tree of any geometry: an interval on the line, divided at a given place while deep enough
#[derive(Clone)]
struct Seg<S: Scalar> {
    lo: S,
    hi: S,
    depth: usize,
    path: usize,
    cuts: std::rc::Rc<Vec<S>>,
}
impl<S: Scalar> BoundingBoxTree<S, Const<2>> for Seg<S>
where
    Const<2>: DimNameSub<U1, Output = Const<1>>,
{
    fn is_dividable(&self) -> bool {
        self.depth > 0
    }
    fn try_divide(&self) -> anyhow::Result<(Self, Self)> {
        let f = self.cuts[self.depth - 1];
        let mid = self.lo + (self.hi - self.lo) * f;
        let mut a = self.clone();
        let mut b = self.clone();
        a.hi = mid;
        b.lo = mid;
        a.depth -= 1;
        b.depth -= 1;
        a.path = self.path * 2;
        b.path = self.path * 2 + 1;
        Ok((a, b))
    }
    fn bounding_box(&self) -> BoundingBox<S, DimNameDiff<Const<2>, U1>> {
        BoundingBox::new(OVector::<S, Const<1>>::new(self.lo), OVector::<S, Const<1>>::new(self.hi))
    }
}
plain_case!(Traverse { a: usize, b: usize } "traverse" |m, c| {
    let mk = |c: &mut C, tag: &str, depth: usize| {
        let lo = c.var(&format!("{}l", tag), -10.0, 10.0);
        let sz = c.var(&format!("{}s", tag), 0.125, 10.0);
        let cuts = (0..depth).map(|i| c.var(&format!("{}c{}", tag, i), 0.125, 0.875)).collect();
        Seg { lo, hi: lo + sz, depth, path: 1, cuts: std::rc::Rc::new(cuts) }
    };
    let a = mk(c, "a", m.a);
    let b = mk(c, "b", m.b);
    // a point of both
    let f = c.var("f", 0.0, 1.0);
    let g = c.var("g", 0.0, 1.0);
    let x = a.lo + (a.hi - a.lo) * f;
    let y = b.lo + (b.hi - b.lo) * g;
    c.assume(x, Rel::Eq, y);
    let r = BoundingBoxTraversal::try_traverse(a.clone(), b.clone());
    let Some(t) = c.ok("traversal succeeds", r) else { return };
    let mut seen = vec![];
    let mut found = false;
    for (p, q) in t.pairs() {
        c.check("leaves only", p.depth == 0 && q.depth == 0);
        c.check("each pair once", !seen.contains(&(p.path, q.path)));
        seen.push((p.path, q.path));
        if !found && p.lo <= x && x <= p.hi && q.lo <= x && x <= q.hi {
            found = true;
        }
    }
    c.check("a common point is in a reported pair", found);
});
// dividing a curve's tree: the two halves cover the curve, nothing else
pub struct TreeCurve {
    s: Shape,
    w: W,
    three: bool,
}
impl Case for TreeCurve {
    fn name(&self) -> String {
        format!("tree-curve-{}-{:?}-{}", self.s.id(), self.w, self.three)
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let g = geo(c, "", &self.s, if self.three { 3 } else { 2 }, self.w);
        let r = c.choice("draw", 3);
        rand::set_draws(vec![[0.0, 0.5, 1.0 - 1.0 / 1024.0][r]]);
        if self.three { tree_curve::<C, 4>(c, &g, &g.curve::<4>()) } else { tree_curve::<C, 3>(c, &g, &g.curve::<3>()) }
    }
}
fn tree_curve<C: Ctx, const N: usize>(c: &mut C, g: &Geo<C::S>, crv: &NurbsCurve<C::S, Const<N>>)
where
    NurbsCurve<C::S, Const<N>>: CurveExt<C::S> + TreeExt<C::S>,
{
    let (a, b) = g.domain();
    let r = crv.halves();
    let Some((h, t)) = c.ok("divides", r) else { return };
    let (h0, h1) = (h.knots()[h.degree()], h.knots()[h.knots().len() - 1 - h.degree()]);
    let (t0, t1) = (t.knots()[t.degree()], t.knots()[t.knots().len() - 1 - t.degree()]);
    c.eq("starts at the start", h0, a);
    c.eq("ends at the end", t1, b);
    c.eq("no gap", h1, t0);
    let q = c.k(0.4);
    c.le("the first half shrinks", h1 - h0, (b - a) * (c.k(1.0) - q));
    c.le("the second half shrinks", t1 - t0, (b - a) * (c.k(1.0) - q));
    let half = c.choice("half", 2);
    let f = c.var("f", 0.0, 1.0 - GAP);
    let (p, s, e) = if half == 0 { (&h, h0, h1) } else { (&t, t0, t1) };
    let u = s + (e - s) * f;
    veq(c, "same point", &p.pt(u), &g.at(u, 0).pop().unwrap());
}
pub trait TreeExt<S: Scalar>: Sized {
    fn halves(&self) -> anyhow::Result<(Self, Self)>;
    fn dividable(&self, tol: Option<S>) -> bool;
}
macro_rules! tree_ext {
    ($n:literal) => {
        impl<S: Scalar> TreeExt<S> for NurbsCurve<S, Const<$n>> {
            fn halves(&self) -> anyhow::Result<(Self, Self)> {
                let t = CurveBoundingBoxTree::new(self, None);
                let (a, b) = t.try_divide()?;
                Ok((a.curve_owned(), b.curve_owned()))
            }
            fn dividable(&self, tol: Option<S>) -> bool {
                CurveBoundingBoxTree::new(self, tol).is_dividable()
            }
        }
    };
}
tree_ext!(3);
tree_ext!(4);

pub struct TreeSurface {
    su: Shape,
    sv: Shape,
    dir: bool,
}
impl Case for TreeSurface {
    fn name(&self) -> String {
        format!("tree-surface-{}-{}-{}", self.su.id(), self.sv.id(), if self.dir { "u" } else { "v" })
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let g = geo2(c, "", &self.su, &self.sv, 3, W::One);
        let s = g.surface::<4>();
        let d = if self.dir { UVDirection::U } else { UVDirection::V };
        let tree = SurfaceBoundingBoxTree::new(&s, d, None);
        c.check("dividable", tree.is_dividable());
        let r = tree.try_divide();
        let Some((a, b)) = c.ok("divides", r) else { return };
        let (x, y) = (a.surface().dom(), b.surface().dom());
        let at = |d: ((C::S, C::S), (C::S, C::S)), u: bool| if u { d.0 } else { d.1 };
        let whole = s.dom();
        c.eq("starts at the start", at(x, self.dir).0, at(whole, self.dir).0);
        c.eq("no gap", at(x, self.dir).1, at(y, self.dir).0);
        c.eq("ends at the end", at(y, self.dir).1, at(whole, self.dir).1);
        let two = c.k(2.0);
        c.eq("halves", at(x, self.dir).1 * two, at(whole, self.dir).0 + at(whole, self.dir).1);
        for p in [x, y] {
            c.eq("other direction kept", at(p, !self.dir).0, at(whole, !self.dir).0);
            c.eq("other direction kept to its end", at(p, !self.dir).1, at(whole, !self.dir).1);
        }
        let half = if c.choice("half", 2) == 0 { a.surface().clone() } else { b.surface().clone() };
        let ((u0, u1), (v0, v1)) = half.dom();
        let f = c.var("f", 0.0, 1.0 - GAP);
        let h = c.var("h", 0.0, 1.0 - GAP);
        let (u, v) = (u0 + (u1 - u0) * f, v0 + (v1 - v0) * h);
        veq(c, "same point", &half.pt(u, v), &g.at(u, v));
        // pieces are divided as long as they are larger than the tolerance in either direction
        let (tu, tv) = (c.var("tu", 0.125, 8.0), c.var("tv", 0.125, 8.0));
        let (lu, lv) = (whole.0 .1 - whole.0 .0, whole.1 .1 - whole.1 .0);
        let large = SurfaceBoundingBoxTree::new(&s, d, Some((tu, tv))).is_dividable();
        if tu < lu || tv < lv {
            c.check("larger than the tolerance: divided", large);
        } else {
            c.check("within the tolerance: kept", !large);
        }
        // the next division goes the other way
        let r = a.try_divide();
        let Some((p, _)) = c.ok("divides again", r) else { return };
        let z = p.surface().dom();
        c.eq("then the other direction", (at(z, !self.dir).1) * two, at(whole, !self.dir).0 + at(whole, !self.dir).1);
        c.eq("and not this one", at(z, self.dir).1, at(x, self.dir).1);
    }
}
plain_case!(Dividable { degree: usize, n: usize } "dividable" |m, c| {
    // domain interval and tolerance symbolic
    let l = c.var("l", 0.00001, 10.0);
    let tol = c.var("tol", 0.000001, 10.0);
    let zero = c.k(0.0);
    let mut k = vec![zero; m.degree + 1];
    for i in 1..m.n - m.degree {
        k.push(l * c.ratio(i as i64, (m.n - m.degree) as i64));
    }
    k.extend(vec![l; m.degree + 1]);
    let hom: Vec<Vec<C::S>> = (0..m.n).map(|i| vec![c.k(i as f64), c.k((i * i) as f64), c.k(1.0)]).collect();
    let crv = NurbsCurve2D::try_new(m.degree, hpoints(&hom), k).unwrap();
    let got = crv.dividable(Some(tol));
    if tol < l {
        c.check("longer than the tolerance: divided", got);
    } else if m.degree > 1 || m.n < 3 {
        c.check("within the tolerance: kept", !got);
    } else if l < c.k(1e-5) {
        c.check("a short polyline piece is kept", !got);
    }
    let d = crv.dividable(None);
    c.check("by default divided", d);
});
plain_case!(TraverseLines { div: usize } "traverse-lines" |m, c| {
    let r = c.choice("draw", 3);
    rand::set_draws(vec![[0.0, 0.5, 1.0 - 1.0 / 1024.0][r], [0.5, 0.25, 0.75][r]]);
    let one = c.k(1.0);
    let p = c.vars("p", 2, -5.0, 5.0);
    let d = vec![c.var("dx", 0.25, 5.0), c.var("dy", 0.25, 5.0)];
    let e = vec![c.var("ex", 0.25, 5.0), c.var("ey", -5.0, -0.25)];
    let f = c.var("f", 0.0, 1.0 - GAP);
    let g = c.var("g", 0.0, 1.0 - GAP);
    let x = comb(&p, &d, f);
    let q = comb(&x, &e, -g);
    let h = |a: &[C::S]| vec![a[0], a[1], one];
    let zero = c.k(0.0);
    let mk = |a: &[C::S], b: &[C::S]| NurbsCurve2D::try_new(1, hpoints(&[h(a), h(b)]), vec![zero, zero, one, one]).unwrap();
    let a = mk(&p, &comb(&p, &d, one));
    let b = mk(&q, &comb(&q, &e, one));
    let ta = CurveBoundingBoxTree::new(&a, Some(c.ratio(1, m.div as i64)));
    let tb = CurveBoundingBoxTree::new(&b, Some(one));
    let r = BoundingBoxTraversal::try_traverse(ta, tb);
    let Some(t) = c.ok("traversal succeeds", r) else { return };
    let mut found = false;
    for (s, u) in t.pairs() {
        let (d0, d1) = s.curve().knots_domain();
        let (e0, e1) = u.curve().knots_domain();
        if !found && d0 <= f && f <= d1 && e0 <= g && g <= e1 {
            found = true;
        }
    }
    c.check("the crossing is in a reported pair", found);
});
fn g03(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (a, b) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)] {
        v.push(Box::new(Traverse { a, b }));
    }
    if th {
        v.push(Box::new(Traverse { a: 2, b: 2 }));
    }
    for s in clamped_shapes() {
        if s.degree <= 3 {
            v.push(Box::new(TreeCurve { s: s.clone(), w: W::One, three: s.degree < 3 }));
            if s.degree < 3 {
                v.push(Box::new(TreeCurve { s: s.clone(), w: W::Fix, three: false }));
            }
        }
    }
    for (a, b) in [("d1", "d1"), ("d2", "d1"), ("d1i", "d2"), ("d2p", "d1")] {
        for dir in [false, true] {
            v.push(Box::new(TreeSurface { su: shape(a), sv: shape(b), dir }));
        }
    }
    for (degree, n) in [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)] {
        v.push(Box::new(Dividable { degree, n }));
    }
    for div in [1, 2].into_iter().chain(if th { Some(3) } else { None }) {
        v.push(Box::new(TraverseLines { div }));
    }
    v
}

// ---------------------------------------------------------------- G04
fn fan<C: Ctx>(c: &mut C, n: usize) -> Vec<Vec<C::S>> {
    // a star-shaped polygon about the origin: fixed directions, symbolic distances
    let dirs: [(f64, f64); 8] = [(1.0, 0.0), (0.5, 0.75), (-0.25, 1.0), (-1.0, 0.5), (-0.75, -0.5), (-0.25, -1.0), (0.5, -1.0), (1.0, -0.25)];
    let pick: &[usize] = match n { 3 => &[0, 2, 5], 4 => &[0, 2, 3, 6], 5 => &[0, 1, 3, 5, 6], _ => &[0, 1, 2, 4, 5, 7] };
    pick.iter().enumerate().map(|(i, k)| {
        let r = c.var(&format!("r{}", i), 0.5, 4.0);
        vec![c.k(dirs[*k].0) * r, c.k(dirs[*k].1) * r]
    }).collect()
}
plain_case!(MeshFan { n: usize, three: bool, flip: bool } "mesh-fan" |m, c| {
    let o = c.vars("o", 3, -5.0, 5.0);
    let ring = fan(c, m.n);
    // twice the area by the boundary formula
    let mut want = c.k(0.0);
    for i in 0..m.n {
        let (a, b) = (&ring[i], &ring[(i + 1) % m.n]);
        want = want + a[0] * b[1] - a[1] * b[0];
    }
    let two = c.k(2.0);
    let faces: Vec<[usize; 3]> = (0..m.n).map(|i| { let (a, b) = (i + 1, (i + 1) % m.n + 1); if m.flip && i % 2 == 0 { [0, b, a] } else { [0, a, b] } }).collect();
    if m.three {
        // the polygon in an oblique plane
        let (ex, ey) = ([c.ratio(2, 3), c.ratio(-1, 3), c.ratio(2, 3)], [c.ratio(2, 3), c.ratio(2, 3), c.ratio(-1, 3)]);
        let mut v = vec![o.clone()];
        v.extend(ring.iter().map(|p| (0..3).map(|i| o[i] + ex[i] * p[0] + ey[i] * p[1]).collect::<Vec<_>>()));
        let mesh = PolygonMesh::new(v.iter().map(|p| Point3::from_slice(p)).collect(), faces);
        c.eq("area", mesh.area() * two, want);
        let sum = mesh.clone() + mesh.clone();
        c.eq("area of the sum", sum.area(), want);
    } else {
        let mut v = vec![o[..2].to_vec()];
        v.extend(ring.iter().map(|p| (0..2).map(|i| o[i] + p[i]).collect::<Vec<_>>()));
        let mesh = PolygonMesh::new(v.iter().map(|p| Point2::from_slice(p)).collect(), faces);
        c.eq("area", mesh.area() * two, want);
        let sum: PolygonMesh<C::S, Const<2>> = vec![mesh.clone(), mesh.clone(), mesh.clone()].into_iter().sum();
        c.eq("area of the sum", sum.area() * two, want * c.k(3.0));
    }
});
plain_case!(MeshMerge { a: usize, b: usize } "mesh-merge" |m, c| {
    let va: Vec<Point3<C::S>> = (0..m.a + 2).map(|i| Point3::from_slice(&c.vars(&format!("a{}", i), 3, -5.0, 5.0))).collect();
    let vb: Vec<Point3<C::S>> = (0..m.b + 2).map(|i| Point3::from_slice(&c.vars(&format!("b{}", i), 3, -5.0, 5.0))).collect();
    let fa: Vec<[usize; 3]> = (0..m.a).map(|i| [i, i + 1, i + 2]).collect();
    let fb: Vec<[usize; 3]> = (0..m.b).map(|i| [i + 2, i, i + 1]).collect();
    let ma = PolygonMesh::new(va.clone(), fa.clone());
    let mb = PolygonMesh::new(vb.clone(), fb.clone());
    let sum = ma.clone() + mb.clone();
    let sum2: PolygonMesh<C::S, Const<3>> = vec![ma.clone(), mb.clone()].into_iter().sum();
    for s in [sum, sum2] {
        let t = s.triangles();
        c.check("triangle count", t.len() == m.a + m.b && s.faces().len() == m.a + m.b);
        c.check("vertex count", s.vertices().len() == va.len() + vb.len());
        let want: Vec<[Point3<C::S>; 3]> = fa.iter().map(|f| [va[f[0]], va[f[1]], va[f[2]]]).chain(fb.iter().map(|f| [vb[f[0]], vb[f[1]], vb[f[2]]])).collect();
        for (x, y) in t.iter().zip(want.iter()) {
            for k in 0..3 {
                c.pt_eq("triangle corner", &x[k], &y[k]);
            }
        }
    }
});
fn g04(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for n in 3..=(if t == Tier::Thorough { 6 } else { 5 }) {
        for three in [false, true] {
            for flip in [false, true] {
                v.push(Box::new(MeshFan { n, three, flip }));
            }
        }
    }
    for (a, b) in [(0, 1), (1, 0), (1, 1), (2, 3), (3, 2)] {
        v.push(Box::new(MeshMerge { a, b }));
    }
    v
}

// ---------------------------------------------------------------- G05
fn sign<S: Scalar>(x: S) -> i32 {
    let zero = refs::k::<S>(0.0);
    if x > zero { 1 } else if x < zero { -1 } else { 0 }
}
plain_case!(Orient {} "orientation" |m, c| {
    handle::allow(c.is_sym());
    let a = c.vars("a", 2, -10.0, 10.0);
    let b = c.vars("b", 2, -10.0, 10.0);
    let p = c.vars("p", 2, -10.0, 10.0);
    let got = orientation(&p2(&a), &p2(&b), &p2(&p));
    let cyc = orientation(&p2(&b), &p2(&p), &p2(&a));
    let rev = orientation(&p2(&b), &p2(&a), &p2(&p));
    handle::allow(false);
    let s = sign(area2(&a, &b, &p));
    let o = |s: i32| match s { 1 => Orientation::CounterClockwise, -1 => Orientation::Clockwise, _ => Orientation::Collinear };
    c.check("side of the line", got == o(s));
    c.check("rotating the three keeps it", cyc == got);
    c.check("swapping two reverses it", rev == o(-s));
});
plain_case!(Segments { fixed: usize, swap: bool } "segments" |m, c| {
    handle::allow(c.is_sym());
    let table = [[(0., 0.), (4., 0.)], [(0., 0.), (2., 3.)], [(1., 1.), (-2., 2.)], [(0., -1.), (0., 3.)], [(3., 1.), (-1., -1.)]];
    let f: Vec<Vec<C::S>> = table[m.fixed].iter().map(|(x, y)| vec![c.k(*x), c.k(*y)]).collect();
    let a = c.vars("a", 2, -5.0, 5.0);
    let b = c.vars("b", 2, -5.0, 5.0);
    let s = Line::new(p2(&f[0]), p2(&f[1]));
    let t = Line::new(p2(&a), p2(&b));
    let got = if m.swap { t.intersects(&s) } else { s.intersects(&t) };
    handle::allow(false);
    // the segments cross or touch, and are not on one line
    let d = sub(&f[1], &f[0]);
    let e = sub(&b, &a);
    let w = sub(&a, &f[0]);
    let den = d[0] * e[1] - d[1] * e[0];
    let sg = sign(den);
    if sg == 0 {
        c.check("parallel segments are not reported", !got);
        return;
    }
    let zero = c.k(0.0);
    let k = |x: C::S| if sg < 0 { zero - x } else { x };
    let (ns, nt, dd) = (k(w[0] * e[1] - w[1] * e[0]), k(w[0] * d[1] - w[1] * d[0]), k(den));
    let want = zero <= ns && ns <= dd && zero <= nt && nt <= dd;
    c.check("reported exactly when the segments share a point", got == want);
});
plain_case!(InPolygon { n: usize, rev: bool, moved: bool } "polygon" |m, c| {
    handle::allow(c.is_sym());
    let mut ring = fan(c, m.n);
    if m.moved {
        let o = c.vars("o", 2, -5.0, 5.0);
        for p in ring.iter_mut() {
            *p = comb(p, &o, c.k(1.0));
        }
    }
    in_polygon(c, &ring, m.rev);
});
plain_case!(InFixed { k: usize, rev: bool } "polygon-fixed" |m, c| {
    handle::allow(c.is_sym());
    let table: [&[(f64, f64)]; 5] = [
        &[(0., 0.), (4., 0.), (4., 4.), (0., 4.)],
        &[(0., 0.), (4., 0.), (4., 4.), (2., 4.), (2., 2.), (1., 2.), (1., 4.), (0., 4.)],
        &[(0., 0.), (3., 0.), (3., 1.), (5., 1.), (5., 3.), (2., 3.), (2., 2.), (0., 2.)],
        &[(0., 0.), (4., 1.), (0., 2.), (1., 1.)],
        &[(0., 3.), (2., -2.), (-2., 1.), (2., 1.), (-2., -2.)],
    ];
    let ring: Vec<Vec<C::S>> = table[m.k].iter().map(|(x, y)| vec![c.k(*x), c.k(*y)]).collect();
    in_polygon(c, &ring, m.rev);
});
fn in_polygon<C: Ctx>(c: &mut C, ring: &[Vec<C::S>], rev: bool) {
    let q = c.vars("q", 2, -8.0, 8.0);
    let mut ring = ring.to_vec();
    if rev {
        ring.reverse();
    }
    let b = PolygonBoundary::new(ring.iter().map(|p| p2(p)).collect());
    let r = b.contains(&p2(&q), ());
    handle::allow(false);
    let Some(got) = c.ok("decided", r) else { return };
    // winding number about the point, by crossings of the vertical half line above it
    let mut wind = 0;
    let n = ring.len();
    let zero = c.k(0.0);
    for i in 0..n {
        let (a, b) = (&ring[i], &ring[(i + 1) % n]);
        let d = area2(a, b, &q);
        let (ax, bx) = (a[0] <= q[0], b[0] <= q[0]);
        if d == zero {
            // on the line of the edge: on the edge itself nothing is claimed
            let e = sub(b, a);
            let w = sub(&q, a);
            let t = dot(&e, &w);
            if zero <= t && t <= dot(&e, &e) {
                return;
            }
            continue;
        }
        if ax && !bx && d < zero {
            wind -= 1;
        } else if !ax && bx && d > zero {
            wind += 1;
        }
    }
    c.check("inside exactly when the boundary winds around the point", got == (wind != 0));
}
plain_case!(SegClosest { three: bool } "segment-closest" |m, c| {
    let dim = if m.three { 3 } else { 2 };
    let a = c.vars("a", dim, -5.0, 5.0);
    let q = c.vars("q", dim, -5.0, 5.0);
    let dirs: Vec<C::S> = if m.three { vec![c.ratio(2, 3), c.ratio(-1, 3), c.ratio(2, 3)] } else { vec![c.ratio(3, 5), c.ratio(4, 5)] };
    let l = c.var("l", 0.25, 5.0);
    let b = comb(&a, &dirs, l);
    let u0 = c.var("u0", -5.0, 5.0);
    let u1 = c.var("u1", -5.0, 5.0);
    let (u, p): (C::S, Vec<C::S>) = if m.three {
        let (u, p) = segment_closest_point(&Point3::from_slice(&q), &Point3::from_slice(&a), &Point3::from_slice(&b), u0, u1);
        (u, p.coords.iter().cloned().collect())
    } else {
        let (u, p) = segment_closest_point(&p2(&q), &p2(&a), &p2(&b), u0, u1);
        (u, p.coords.iter().cloned().collect())
    };
    let f = c.var("f", 0.0, 1.0);
    let x = comb(&a, &sub(&b, &a), f);
    let (e, g) = (sub(&p, &q), sub(&x, &q));
    c.rel_tol("no point of the segment is closer", dot(&e, &e), Rel::Le, dot(&g, &g), 1e-9);
    // the parameter runs from u0 to u1 with the point from end to end
    let along = dot(&sub(&p, &a), &dirs);
    c.eq("parameter of the point", (u - u0) * l, (u1 - u0) * along);
    veq(c, "on the segment", &p, &comb(&a, &dirs, along));
});
plain_case!(Flat { three: bool } "flat" |m, c| {
    let tol = c.var("tol", 0.001, 1.0);
    if m.three {
        let v: Vec<Vec<C::S>> = (0..3).map(|i| c.vars(&format!("p{}", i), 3, -5.0, 5.0)).collect();
        let p: Vec<Point3<C::S>> = v.iter().map(|x| Point3::from_slice(x)).collect();
        let got = three_points_are_flat(&p[0], &p[1], &p[2], tol);
        let (d, e) = (sub(&v[1], &v[0]), sub(&v[2], &v[0]));
        let a2 = dot(&d, &d) * dot(&e, &e) - dot(&d, &e) * dot(&d, &e);
        c.check("squared parallelogram area below the tolerance", got == (a2 < tol));
    } else {
        let v: Vec<Vec<C::S>> = (0..3).map(|i| c.vars(&format!("p{}", i), 2, -5.0, 5.0)).collect();
        let got = three_points_are_flat(&p2(&v[0]), &p2(&v[1]), &p2(&v[2]), tol);
        let a = area2(&v[0], &v[1], &v[2]);
        c.check("parallelogram area below the tolerance", got == (a < tol && -tol < a));
    }
});
fn g05(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![Box::new(Orient {})];
    for fixed in 0..(if th { 5 } else { 3 }) {
        for swap in [false, true] {
            v.push(Box::new(Segments { fixed, swap }));
        }
    }
    for n in 3..=(if th { 5 } else { 4 }) {
        for rev in [false, true] {
            v.push(Box::new(InPolygon { n, rev, moved: false }));
        }
    }
    v.push(Box::new(InPolygon { n: 3, rev: false, moved: true }));
    for k in 0..5 {
        for rev in [false, true] {
            v.push(Box::new(InFixed { k, rev }));
        }
    }
    for three in [false, true] {
        v.push(Box::new(SegClosest { three }));
        v.push(Box::new(Flat { three }));
    }
    v
}

fn main() {
    main_with(vec![
        Prop { id: "G01", cases: g01 },
        Prop { id: "G02", cases: g02 },
        Prop { id: "G03", cases: g03 },
        Prop { id: "G04", cases: g04 },
        Prop { id: "G05", cases: g05 },
    ]);
}
