//! Enumerated concrete shapes (degrees, knot patterns) with symbolic geometry.
use crate::ctx::*;
use curvo::prelude::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, DimName, OPoint, OVector};

#[derive(Clone, Debug)]
pub struct Shape {
    pub name: &'static str,
    pub degree: usize,
    pub knots: Vec<f64>,
    /// interior knots are symbolic, each within 45% of the gap to its neighbours
    pub symk: bool,
}
impl Shape {
    pub fn new(name: &'static str, degree: usize, knots: &[f64]) -> Shape {
        Shape { name, degree, knots: knots.to_vec(), symk: false }
    }
    pub fn sym(mut self) -> Shape {
        self.symk = true;
        self
    }
    pub fn id(&self) -> String {
        format!("{}{}", self.name, if self.symk { "~" } else { "" })
    }
    pub fn n(&self) -> usize {
        self.knots.len() - self.degree - 1
    }
    pub fn domain(&self) -> (f64, f64) {
        (self.knots[self.degree], self.knots[self.knots.len() - 1 - self.degree])
    }
    pub fn distinct(&self) -> Vec<f64> {
        let (a, b) = self.domain();
        let mut v: Vec<f64> = self.knots.iter().cloned().filter(|x| *x >= a && *x <= b).collect();
        v.dedup();
        v
    }
    pub fn mult(&self, x: f64) -> usize {
        self.knots.iter().filter(|k| **k == x).count()
    }
    pub fn clamped(&self) -> bool {
        self.mult(self.knots[0]) > self.degree && self.mult(*self.knots.last().unwrap()) > self.degree
    }
}

pub fn clamped_shapes() -> Vec<Shape> {
    vec![
        Shape::new("d1", 1, &[0., 0., 1., 1.]),
        Shape::new("d1i", 1, &[0., 0., 1., 3., 4., 4.]),
        Shape::new("d2", 2, &[0., 0., 0., 1., 1., 1.]),
        Shape::new("d2i", 2, &[0., 0., 0., 1., 2., 2., 2.]),
        Shape::new("d2n", 2, &[-1., -1., -1., 0.25, 2., 3., 3., 3.]),
        Shape::new("d2p", 2, &[1., 1., 1., 2., 4., 4., 4.]),
        Shape::new("d2m", 2, &[0., 0., 0., 1., 1., 3., 3., 3.]),
        Shape::new("d3", 3, &[0., 0., 0., 0., 1., 1., 1., 1.]),
        Shape::new("d3i", 3, &[0., 0., 0., 0., 0.5, 1., 1., 1., 1.]),
        Shape::new("d3n", 3, &[0., 0., 0., 0., 1., 1.5, 4., 5., 5., 5., 5.]),
        Shape::new("d3m2", 3, &[0., 0., 0., 0., 1., 1., 2., 2., 2., 2.]),
        Shape::new("d3m3", 3, &[0., 0., 0., 0., 1., 1., 1., 2., 2., 2., 2.]),
        Shape::new("d3m12", 3, &[0., 0., 0., 0., 1., 2., 2., 3., 3., 3., 3.]),
        Shape::new("d4", 4, &[0., 0., 0., 0., 0., 1., 1., 2., 2., 2., 2., 2.]),
        Shape::new("d5", 5, &[0., 0., 0., 0., 0., 0., 2., 3., 3., 3., 3., 3., 3.]),
    ]
}
pub fn unclamped_shapes() -> Vec<Shape> {
    vec![
        Shape::new("u1", 1, &[0., 1., 2., 3., 4.]),
        Shape::new("u2", 2, &[0., 1., 2., 3., 4., 5., 6.]),
        Shape::new("u2n", 2, &[-3., -2., 0., 0.5, 2., 3.5, 4.]),
        Shape::new("u3", 3, &[0., 1., 2., 3., 4., 5., 6., 7., 8.]),
        Shape::new("u2s", 2, &[0., 0., 0., 1., 2., 3., 4.]),
        Shape::new("u2e", 2, &[1., 2., 3., 4.5, 6., 6., 6.]),
        Shape::new("u3e", 3, &[-2., -1., -0.5, 0., 1., 2., 2., 2., 2.]),
        Shape::new("u2r", 2, &[-2., -1., 0., 0., 1., 2., 3.]),
        Shape::new("u2q", 2, &[0., 1., 2., 2.5, 4., 4., 5., 6.]),
        Shape::new("u3rq", 3, &[-2., -1., 0., 0., 0., 1., 3., 3., 4., 4., 5.]),
        Shape::new("u3h", 3, &[0., 0., 1., 2., 4., 5., 6., 6., 6.]),
    ]
}
pub fn all_shapes() -> Vec<Shape> {
    let mut v = clamped_shapes();
    v.extend(unclamped_shapes());
    v
}
pub fn shape(name: &str) -> Shape {
    all_shapes().into_iter().find(|s| s.name == name).unwrap()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W {
    /// unit weights
    One,
    /// symbolic positive weights
    Sym,
    /// fixed unequal weights
    Fix,
}

/// control data: cartesian coordinates then weight, per control point
pub struct Geo<S: Scalar> {
    pub degree: usize,
    pub knots: Vec<S>,
    /// distinct knots of the domain and their multiplicities
    pub brk: Vec<S>,
    pub mult: Vec<usize>,
    pub cart: Vec<Vec<S>>,
    pub w: Vec<S>,
    pub hom: Vec<Vec<S>>,
}
impl<S: Scalar> Geo<S> {
    pub fn domain(&self) -> (S, S) {
        (self.knots[self.degree], self.knots[self.knots.len() - 1 - self.degree])
    }
    /// reference derivatives 0..=order at t
    pub fn at(&self, t: S, order: usize) -> Vec<Vec<S>> {
        crate::refs::rational(self.degree, &self.knots, &self.hom, t, order)
    }
    pub fn at_span(&self, t: S, order: usize, span: usize) -> Vec<Vec<S>> {
        crate::refs::rational_in(self.degree, &self.knots, &self.hom, t, order, span)
    }
    pub fn curve<const N: usize>(&self) -> NurbsCurve<S, Const<N>> {
        NurbsCurve::try_new(self.degree, hpoints::<S, Const<N>>(&self.hom), self.knots.clone()).unwrap()
    }
}
pub fn geo<C: Ctx>(c: &mut C, tag: &str, s: &Shape, dim: usize, w: W) -> Geo<C::S> {
    let n = s.n();
    let knots = knots(c, tag, s);
    let d = s.distinct();
    let brk = d.iter().map(|x| knots[s.knots.iter().position(|y| y == x).unwrap()]).collect();
    let mult = d.iter().map(|x| s.mult(*x)).collect();
    let mut g = Geo { degree: s.degree, knots, brk, mult, cart: vec![], w: vec![], hom: vec![] };
    for i in 0..n {
        let p: Vec<C::S> = (0..dim)
            .map(|d| c.var(&format!("{}{}{}", tag, ["x", "y", "z"][d], i), -10.0, 10.0))
            .collect();
        let wi = weight(c, tag, i, w);
        g.hom.push(p.iter().map(|x| *x * wi).chain([wi]).collect());
        g.cart.push(p);
        g.w.push(wi);
    }
    g
}
pub fn weight<C: Ctx>(c: &mut C, tag: &str, i: usize, w: W) -> C::S {
    match w {
        W::One => c.k(1.0),
        W::Sym => c.var(&format!("{}w{}", tag, i), 0.25, 4.0),
        W::Fix => c.k([1.0, 0.5, 2.0, 1.5, 0.75, 3.0][i % 6]),
    }
}

pub fn hpoints<S: Scalar, D: DimName>(h: &[Vec<S>]) -> Vec<OPoint<S, D>>
where
    DefaultAllocator: Allocator<D>,
{
    h.iter()
        .map(|v| OPoint::from(OVector::<S, D>::from_iterator(v.iter().cloned())))
        .collect()
}

pub fn knots<C: Ctx>(c: &mut C, tag: &str, s: &Shape) -> Vec<C::S> {
    if !s.symk {
        return s.knots.iter().map(|x| c.k(*x)).collect();
    }
    let mut d = s.knots.clone();
    d.dedup();
    let mut vals = vec![];
    for i in 0..d.len() {
        if i == 0 || i + 1 == d.len() || d[i] == s.domain().0 || d[i] == s.domain().1 {
            vals.push(c.k(d[i]));
        } else {
            vals.push(c.var(&format!("{}knot{}", tag, i), d[i] - 0.4375 * (d[i] - d[i - 1]), d[i] + 0.4375 * (d[i + 1] - d[i])));
        }
    }
    s.knots.iter().map(|x| vals[d.iter().position(|y| y == x).unwrap()]).collect()
}

/// homogeneous control rows of a curve, as plain vectors
pub fn rows<S: Scalar, const N: usize>(c: &NurbsCurve<S, Const<N>>) -> Vec<Vec<S>> {
    c.control_points().iter().map(|p| p.coords.iter().cloned().collect()).collect()
}

/// reference evaluation straight from a curve's own data
pub fn ref_point<S: Scalar, const N: usize>(c: &NurbsCurve<S, Const<N>>, t: S) -> Vec<S> {
    crate::refs::rational(c.degree(), c.knots().as_slice(), &rows(c), t, 0).pop().unwrap()
}

pub const GAP: f64 = 1.0 / 1048576.0;

/// a parameter of the domain: symbolic over the half-open domain, or one of the breakpoints
pub fn param<C: Ctx>(c: &mut C, g: &Geo<C::S>, dom: (f64, f64)) -> C::S {
    let ch = c.choice("where", 1 + g.brk.len());
    if ch == 0 {
        c.var("t", dom.0, dom.1 - GAP)
    } else {
        g.brk[ch - 1]
    }
}

/// a symbolic parameter strictly inside [a,b], away from both ends by GAP
pub fn inside<C: Ctx>(c: &mut C, name: &str, a: f64, b: f64) -> C::S {
    c.var(name, a + GAP, b - GAP)
}

/// dimension-erased access to the public curve API
pub trait CurveExt<S: Scalar>: Sized + Clone {
    fn pt(&self, t: S) -> Vec<S>;
    fn tan(&self, t: S) -> Vec<S>;
    fn d2(&self, t: S) -> Vec<S>;
    fn pt_tan(&self, t: S) -> (Vec<S>, Vec<S>);
    fn dehom(&self) -> Vec<Vec<S>>;
    fn closed(&self) -> bool;
    fn samples(&self, a: S, b: S, n: usize) -> Vec<Vec<S>>;
    fn samples_with(&self, a: S, b: S, n: usize) -> Vec<(S, Vec<S>)>;
    fn split(&self, t: S) -> anyhow::Result<(Self, Self)>;
    fn trim(&self, a: S, b: S) -> anyhow::Result<Vec<Self>>;
    fn matrix(&self, m: &[Vec<S>]) -> Self;
    fn tess(&self, tol: Option<S>) -> Vec<Vec<S>>;
    fn bbox(&self) -> (Vec<S>, Vec<S>);
    fn polyline_(pts: &[Vec<S>], norm: bool) -> Self;
    fn interpolate_(pts: &[Vec<S>], degree: usize) -> anyhow::Result<Self>;
    fn periodic_interpolate_(pts: &[Vec<S>], degree: usize, ks: KnotStyle) -> anyhow::Result<Self>;
    fn periodic_(pts: &[Vec<S>], degree: usize) -> anyhow::Result<Self>;
    fn length_(&self) -> anyhow::Result<S>;
    fn at_length(&self, l: S, tol: Option<S>) -> anyhow::Result<S>;
    fn by_length(&self, l: S) -> anyhow::Result<Vec<(S, S)>>;
    fn by_count(&self, n: usize) -> anyhow::Result<Vec<(S, S)>>;
    fn closest(&self, p: &[S]) -> anyhow::Result<S>;
    fn closest_pt(&self, p: &[S]) -> anyhow::Result<Vec<S>>;
}
pub fn pv<S: Scalar, D: DimName>(p: &OPoint<S, D>) -> Vec<S>
where
    DefaultAllocator: Allocator<D>,
{
    p.coords.iter().cloned().collect()
}
macro_rules! curve_ext {
    ($n:literal, $m:literal) => {
        impl<S: Scalar> CurveExt<S> for NurbsCurve<S, Const<$n>> {
            fn pt(&self, t: S) -> Vec<S> {
                pv(&self.point_at(t))
            }
            fn tan(&self, t: S) -> Vec<S> {
                self.tangent_at(t).iter().cloned().collect()
            }
            fn d2(&self, t: S) -> Vec<S> {
                self.second_derivative_at(t).iter().cloned().collect()
            }
            fn pt_tan(&self, t: S) -> (Vec<S>, Vec<S>) {
                let (p, v) = self.point_tangent_at(t);
                (pv(&p), v.iter().cloned().collect())
            }
            fn dehom(&self) -> Vec<Vec<S>> {
                self.dehomogenized_control_points().iter().map(pv).collect()
            }
            fn closed(&self) -> bool {
                self.is_closed()
            }
            fn samples(&self, a: S, b: S, n: usize) -> Vec<Vec<S>> {
                self.sample_regular_range(a, b, n).iter().map(pv).collect()
            }
            fn samples_with(&self, a: S, b: S, n: usize) -> Vec<(S, Vec<S>)> {
                self.sample_regular_range_with_parameter(a, b, n).iter().map(|(t, p)| (*t, pv(p))).collect()
            }
            fn split(&self, t: S) -> anyhow::Result<(Self, Self)> {
                self.try_split(t)
            }
            fn trim(&self, a: S, b: S) -> anyhow::Result<Vec<Self>> {
                self.try_trim_range((a, b))
            }
            fn matrix(&self, m: &[Vec<S>]) -> Self {
                let mm = nalgebra::SMatrix::<S, $n, $n>::from_fn(|i, j| m[i][j]);
                self.transformed(&mm)
            }
            fn tess(&self, tol: Option<S>) -> Vec<Vec<S>> {
                self.tessellate(tol).iter().map(pv).collect()
            }
            fn bbox(&self) -> (Vec<S>, Vec<S>) {
                let b = BoundingBox::from(self);
                (b.min().iter().cloned().collect(), b.max().iter().cloned().collect())
            }
            fn polyline_(pts: &[Vec<S>], norm: bool) -> Self {
                Self::polyline(&hpoints::<S, Const<$m>>(pts), norm)
            }
            fn interpolate_(pts: &[Vec<S>], degree: usize) -> anyhow::Result<Self> {
                Self::try_interpolate(&hpoints::<S, Const<$m>>(pts), degree)
            }
            fn periodic_interpolate_(pts: &[Vec<S>], degree: usize, ks: KnotStyle) -> anyhow::Result<Self> {
                Self::try_periodic_interpolate(&hpoints::<S, Const<$m>>(pts), degree, ks)
            }
            fn periodic_(pts: &[Vec<S>], degree: usize) -> anyhow::Result<Self> {
                Self::try_periodic(&hpoints::<S, Const<$m>>(pts), degree)
            }
            fn length_(&self) -> anyhow::Result<S> {
                self.try_length()
            }
            fn at_length(&self, l: S, tol: Option<S>) -> anyhow::Result<S> {
                self.try_parameter_at_length(l, tol)
            }
            fn by_length(&self, l: S) -> anyhow::Result<Vec<(S, S)>> {
                Ok(self.try_divide_by_length(l)?.iter().map(|p| (p.parameter(), p.length())).collect())
            }
            fn by_count(&self, n: usize) -> anyhow::Result<Vec<(S, S)>> {
                Ok(self.try_divide_by_count(n)?.iter().map(|p| (p.parameter(), p.length())).collect())
            }
            fn closest(&self, p: &[S]) -> anyhow::Result<S> {
                self.find_closest_parameter(&hpoints::<S, Const<$m>>(&[p.to_vec()])[0])
            }
            fn closest_pt(&self, p: &[S]) -> anyhow::Result<Vec<S>> {
                self.find_closest_point(&hpoints::<S, Const<$m>>(&[p.to_vec()])[0]).map(|x| pv(&x))
            }
        }
    };
}
curve_ext!(3, 2);
curve_ext!(4, 3);

pub fn veq<C: Ctx>(c: &mut C, what: &str, a: &[C::S], b: &[C::S]) {
    c.check(&format!("{} dimension", what), a.len() == b.len());
    for i in 0..a.len().min(b.len()) {
        c.eq(&format!("{}[{}]", what, i), a[i], b[i]);
    }
}

/// knot vectors must be equal entry by entry
pub fn knots_eq<C: Ctx>(c: &mut C, what: &str, a: &[C::S], b: &[C::S]) {
    c.check(&format!("{} length", what), a.len() == b.len());
    for i in 0..a.len().min(b.len()) {
        c.eq(&format!("{}[{}]", what, i), a[i], b[i]);
    }
}
/// structural validity of a curve: lengths agree, knots ascend
pub fn wellformed<C: Ctx, const N: usize>(c: &mut C, what: &str, crv: &NurbsCurve<C::S, Const<N>>) {
    let k = crv.knots().to_vec();
    c.check(
        &format!("{}: {} knots for {} control points of degree {}", what, k.len(), crv.control_points().len(), crv.degree()),
        k.len() == crv.control_points().len() + crv.degree() + 1,
    );
    for i in 1..k.len() {
        c.le(&format!("{}: knots ascend at {}", what, i), k[i - 1], k[i]);
    }
}

/// u is at least GAP away from the knot x
pub fn off<C: Ctx>(c: &mut C, u: C::S, x: C::S) {
    let gap = c.k(GAP);
    if u < x {
        c.assume(u + gap, Rel::Le, x);
    } else {
        c.assume(x + gap, Rel::Le, u);
    }
}
pub fn affine<C: Ctx>(c: &mut C, dim: usize) -> Vec<Vec<C::S>> {
    let mut m = vec![];
    for i in 0..dim {
        let mut row: Vec<C::S> = (0..dim).map(|j| c.var(&format!("m{}{}", i, j), -3.0, 3.0)).collect();
        row.push(c.var(&format!("m{}t", i), -10.0, 10.0));
        m.push(row);
    }
    let mut last = vec![c.k(0.0); dim];
    last.push(c.k(1.0));
    m.push(last);
    m
}
pub fn apply<S: Scalar>(m: &[Vec<S>], p: &[S]) -> Vec<S> {
    let d = p.len();
    (0..d)
        .map(|i| {
            let mut r = m[i][d];
            for j in 0..d {
                r += m[i][j] * p[j];
            }
            r
        })
        .collect()
}
