//! Surfaces: concrete knot patterns, symbolic control nets, erased access.
use crate::ctx::*;
use crate::refs;
use crate::shapes::*;
use curvo::prelude::*;
use nalgebra::{Const, OPoint};

pub struct Geo2<S: Scalar> {
    pub pu: usize,
    pub pv: usize,
    pub ku: Vec<S>,
    pub kv: Vec<S>,
    pub bu: Vec<S>,
    pub bv: Vec<S>,
    pub cart: Vec<Vec<Vec<S>>>,
    pub w: Vec<Vec<S>>,
    pub hom: Vec<Vec<Vec<S>>>,
}
impl<S: Scalar> Geo2<S> {
    pub fn at(&self, u: S, v: S) -> Vec<S> {
        refs::rational2(self.pu, self.pv, &self.ku, &self.kv, &self.hom, u, v, 0, 0)
    }
    pub fn d(&self, u: S, v: S, du: usize, dv: usize) -> Vec<S> {
        refs::rational2(self.pu, self.pv, &self.ku, &self.kv, &self.hom, u, v, du, dv)
    }
    pub fn du(&self) -> (S, S) {
        (self.ku[self.pu], self.ku[self.ku.len() - 1 - self.pu])
    }
    pub fn dv(&self) -> (S, S) {
        (self.kv[self.pv], self.kv[self.kv.len() - 1 - self.pv])
    }
    pub fn surface<const N: usize>(&self) -> NurbsSurface<S, Const<N>>
    where
        NurbsSurface<S, Const<N>>: SurfExt<S>,
    {
        <NurbsSurface<S, Const<N>> as SurfExt<S>>::make(self.pu, self.pv, &self.ku, &self.kv, &self.hom)
    }
}
pub fn geo2<C: Ctx>(c: &mut C, tag: &str, su: &Shape, sv: &Shape, dim: usize, w: W) -> Geo2<C::S> {
    let ku = knots(c, &format!("{}u", tag), su);
    let kv = knots(c, &format!("{}v", tag), sv);
    let pick = |k: &Vec<C::S>, s: &Shape| -> Vec<C::S> { s.distinct().iter().map(|x| k[s.knots.iter().position(|y| y == x).unwrap()]).collect() };
    let bu = pick(&ku, su);
    let bv = pick(&kv, sv);
    let mut g = Geo2 { pu: su.degree, pv: sv.degree, ku, kv, bu, bv, cart: vec![], w: vec![], hom: vec![] };
    for i in 0..su.n() {
        let (mut rc, mut rw, mut rh) = (vec![], vec![], vec![]);
        for j in 0..sv.n() {
            let p: Vec<C::S> = (0..dim).map(|d| c.var(&format!("{}{}{}_{}", tag, ["x", "y", "z"][d], i, j), -10.0, 10.0)).collect();
            let wi = match w {
                W::One => c.k(1.0),
                W::Sym => c.var(&format!("{}w{}_{}", tag, i, j), 0.25, 4.0),
                W::Fix => c.k([1.0, 0.5, 2.0, 1.5, 0.75, 3.0, 1.25][(3 * i + 2 * j) % 7]),
            };
            rh.push(p.iter().map(|x| *x * wi).chain([wi]).collect::<Vec<_>>());
            rc.push(p);
            rw.push(wi);
        }
        g.cart.push(rc);
        g.w.push(rw);
        g.hom.push(rh);
    }
    g
}
/// a parameter: symbolic over the half-open domain or a breakpoint
pub fn param1<C: Ctx>(c: &mut C, name: &str, brk: &[C::S], dom: (f64, f64)) -> C::S {
    let ch = c.choice(&format!("where-{}", name), 1 + brk.len());
    if ch == 0 {
        c.var(name, dom.0, dom.1 - GAP)
    } else {
        brk[ch - 1]
    }
}
pub fn rows2<S: Scalar, const N: usize>(s: &NurbsSurface<S, Const<N>>) -> Vec<Vec<Vec<S>>>
where
    NurbsSurface<S, Const<N>>: SurfExt<S>,
{
    s.ctrl()
}
/// structural validity
pub fn wellformed2<C: Ctx, X: SurfExt<C::S>>(c: &mut C, what: &str, s: &X) {
    let (pu, pv) = s.degrees();
    let (ku, kv) = s.kn();
    let r = s.ctrl();
    c.check(&format!("{}: u knots match rows", what), ku.len() == r.len() + pu + 1);
    for row in &r {
        c.check(&format!("{}: v knots match columns", what), kv.len() == row.len() + pv + 1);
    }
    for i in 1..ku.len() {
        c.le(&format!("{}: u knots ascend", what), ku[i - 1], ku[i]);
    }
    for i in 1..kv.len() {
        c.le(&format!("{}: v knots ascend", what), kv[i - 1], kv[i]);
    }
}

pub trait SurfExt<S: Scalar>: Sized + Clone {
    fn make(pu: usize, pv: usize, ku: &[S], kv: &[S], hom: &[Vec<Vec<S>>]) -> Self;
    fn pt(&self, u: S, v: S) -> Vec<S>;
    fn ders(&self, u: S, v: S, n: usize) -> Vec<Vec<Vec<S>>>;
    fn degrees(&self) -> (usize, usize);
    fn kn(&self) -> (Vec<S>, Vec<S>);
    fn dom(&self) -> ((S, S), (S, S));
    fn ctrl(&self) -> Vec<Vec<Vec<S>>>;
    fn dehom(&self) -> Vec<Vec<Vec<S>>>;
    fn samples(&self, a: usize, b: usize) -> Vec<Vec<Vec<S>>>;
    fn sample_ders(&self, a: usize, b: usize, n: usize) -> Vec<Vec<Vec<Vec<Vec<S>>>>>;
    fn iso(&self, t: S, d: UVDirection) -> anyhow::Result<(usize, Vec<S>, Vec<Vec<S>>)>;
    fn boundaries(&self) -> anyhow::Result<Vec<(usize, Vec<S>, Vec<Vec<S>>)>>;
    fn split2(&self, t: S, d: UVDirection) -> anyhow::Result<(Self, Self)>;
    fn refine(&mut self, k: Vec<S>, d: UVDirection) -> anyhow::Result<()>;
    fn matrix(&self, m: &[Vec<S>]) -> Self;
    fn interval(&self) -> (S, S);
    fn dom_at(&self, d: UVDirection) -> (S, S);
    fn transposed(&self) -> Vec<Vec<Vec<S>>>;
    fn flipped(&self, d: FlipDirection) -> Self;
}
macro_rules! surf_ext {
    ($n:literal) => {
        impl<S: Scalar> SurfExt<S> for NurbsSurface<S, Const<$n>> {
            fn make(pu: usize, pv: usize, ku: &[S], kv: &[S], hom: &[Vec<Vec<S>>]) -> Self {
                let pts: Vec<Vec<OPoint<S, Const<$n>>>> = hom.iter().map(|r| hpoints::<S, Const<$n>>(r)).collect();
                NurbsSurface::new(pu, pv, ku.to_vec(), kv.to_vec(), pts)
            }
            fn pt(&self, u: S, v: S) -> Vec<S> {
                pv(&self.point_at(u, v))
            }
            fn ders(&self, u: S, v: S, n: usize) -> Vec<Vec<Vec<S>>> {
                self.rational_derivatives(u, v, n).iter().map(|r| r.iter().map(|x| x.iter().cloned().collect()).collect()).collect()
            }
            fn degrees(&self) -> (usize, usize) {
                (self.u_degree(), self.v_degree())
            }
            fn kn(&self) -> (Vec<S>, Vec<S>) {
                (self.u_knots().to_vec(), self.v_knots().to_vec())
            }
            fn dom(&self) -> ((S, S), (S, S)) {
                self.knots_domain()
            }
            fn ctrl(&self) -> Vec<Vec<Vec<S>>> {
                self.control_points().iter().map(|r| r.iter().map(|p| p.coords.iter().cloned().collect()).collect()).collect()
            }
            fn dehom(&self) -> Vec<Vec<Vec<S>>> {
                self.dehomogenized_control_points().iter().map(|r| r.iter().map(|p| p.coords.iter().cloned().collect()).collect()).collect()
            }
            fn samples(&self, a: usize, b: usize) -> Vec<Vec<Vec<S>>> {
                self.regular_sample_points(a, b).iter().map(|r| r.iter().map(pv).collect()).collect()
            }
            fn sample_ders(&self, a: usize, b: usize, n: usize) -> Vec<Vec<Vec<Vec<Vec<S>>>>> {
                self.regular_sample_rational_derivatives(a, b, n)
                    .iter()
                    .map(|r| r.iter().map(|q| q.iter().map(|x| x.iter().map(|y| y.iter().cloned().collect()).collect()).collect()).collect())
                    .collect()
            }
            fn iso(&self, t: S, d: UVDirection) -> anyhow::Result<(usize, Vec<S>, Vec<Vec<S>>)> {
                self.try_isocurve(t, d).map(|c| (c.degree(), c.knots().to_vec(), rows(&c)))
            }
            fn boundaries(&self) -> anyhow::Result<Vec<(usize, Vec<S>, Vec<Vec<S>>)>> {
                self.try_boundary_curves().map(|b| b.iter().map(|c| (c.degree(), c.knots().to_vec(), rows(c))).collect())
            }
            fn split2(&self, t: S, d: UVDirection) -> anyhow::Result<(Self, Self)> {
                self.try_split(SplitSurfaceOption::new(t, d))
            }
            fn refine(&mut self, k: Vec<S>, d: UVDirection) -> anyhow::Result<()> {
                self.try_refine_knot(k, d)
            }
            fn matrix(&self, m: &[Vec<S>]) -> Self {
                let mm = nalgebra::SMatrix::<S, $n, $n>::from_fn(|i, j| m[i][j]);
                self.transformed(&mm)
            }
            fn interval(&self) -> (S, S) {
                self.knots_domain_interval()
            }
            fn dom_at(&self, d: UVDirection) -> (S, S) {
                self.knots_domain_at(d)
            }
            fn transposed(&self) -> Vec<Vec<Vec<S>>> {
                self.transposed_control_points().iter().map(|r| r.iter().map(|p| p.coords.iter().cloned().collect()).collect()).collect()
            }
            fn flipped(&self, d: FlipDirection) -> Self {
                self.flip(d)
            }
        }
    };
}
surf_ext!(3);
surf_ext!(4);

/// a case over a surface: struct, name and dispatch on the dimension
#[macro_export]
macro_rules! surf_case {
    ($T:ident { $($f:ident : $ft:ty),* } $prefix:literal |$me:ident, $c:ident| $body:block) => {
        pub struct $T {
            pub su: $crate::shapes::Shape,
            pub sv: $crate::shapes::Shape,
            pub w: $crate::shapes::W,
            pub three: bool,
            $(pub $f: $ft,)*
        }
        impl $T {
            #[allow(unused_variables)]
            fn go<C: $crate::ctx::Ctx, const N: usize>(&self, $c: &mut C)
            where
                curvo::prelude::NurbsSurface<C::S, nalgebra::Const<N>>: $crate::surf::SurfExt<C::S>,
            {
                let $me = self;
                $body
            }
        }
        impl $crate::ctx::Case for $T {
            fn name(&self) -> String {
                #[allow(unused_mut)]
                let mut s = format!("{}-{}-{}-{:?}-{}", $prefix, self.su.id(), self.sv.id(), self.w, if self.three { "3d" } else { "2d" });
                $(s += &format!("-{:?}", self.$f);)*
                s.replace(' ', "")
            }
            fn run<C: $crate::ctx::Ctx>(&self, c: &mut C) {
                if self.three {
                    self.go::<C, 4>(c)
                } else {
                    self.go::<C, 3>(c)
                }
            }
        }
    };
}
