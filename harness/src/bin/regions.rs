//! R01..R03, J01: chains of curves, regions, trimmed surfaces, serialization.
use curvo::prelude::*;
use nalgebra::{Const, Matrix3, Matrix4, Point2, Point3};
use symcurvo::ctx::*;
use symcurvo::plain_case;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;
use symcurvo::surf::*;

fn comb<S: Scalar>(a: &[S], b: &[S], k: S) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x + *y * k).collect()
}

/// one span of a chain; kinds are told apart by the length of their domain
#[derive(Clone)]
struct Piece<S: Scalar> {
    p: usize,
    knots: Vec<S>,
    hom: Vec<Vec<S>>,
    len: f64,
    inner: Vec<f64>,
}
impl<S: Scalar> Piece<S> {
    /// the point at a distance from the start of the domain
    fn at(&self, x: S) -> Vec<S> {
        refs::rational(self.p, &self.knots, &self.hom, self.knots[self.p] + x, 0).pop().unwrap()
    }
    fn curve(&self) -> NurbsCurve2D<S> {
        NurbsCurve2D::try_new(self.p, hpoints(&self.hom), self.knots.clone()).unwrap()
    }
    fn curve3(&self) -> NurbsCurve3D<S> {
        let h: Vec<Vec<S>> = self.hom.iter().map(|p| vec![p[0], p[1], p[0] + p[1], p[2]]).collect();
        NurbsCurve3D::try_new(self.p, hpoints(&h), self.knots.clone()).unwrap()
    }
}
fn piece<C: Ctx>(c: &mut C, tag: &str, kind: char, a: &[C::S], b: &[C::S]) -> Piece<C::S> {
    let one = c.k(1.0);
    let h = |p: &[C::S], w: C::S| vec![p[0] * w, p[1] * w, w];
    let free = |c: &mut C, i: usize| c.vars(&format!("{}m{}", tag, i), 2, -5.0, 5.0);
    let (p, k, hom, inner): (usize, &[f64], Vec<Vec<C::S>>, &[f64]) = match kind {
        'A' => (1, &[0., 0., 1., 1.], vec![h(a, one), h(b, one)], &[]),
        'B' => {
            let m = free(c, 0);
            (2, &[2., 2., 2., 4., 4., 4.], vec![h(a, one), h(&m, c.k(2.0)), h(b, c.k(0.5))], &[])
        }
        'C' => {
            let (m, n) = (free(c, 0), free(c, 1));
            (2, &[0., 0., 0., 1., 3., 3., 3.], vec![h(a, one), h(&m, one), h(&n, one), h(b, one)], &[1.0])
        }
        'D' => (1, &[-1., 0., 4., 5.], vec![h(a, one), h(b, one)], &[]),
        _ => {
            // a free interior knot
            let m = free(c, 0);
            let x = c.var(&format!("{}k", tag), 1.0, 4.0);
            let z = |v: f64| c.k(v);
            let knots = vec![z(0.), z(0.), x, z(5.), z(5.)];
            return Piece { p: 1, knots, hom: vec![h(a, one), h(&m, one), h(b, one)], len: 5.0, inner: vec![] };
        }
    };
    let knots: Vec<C::S> = k.iter().map(|x| c.k(*x)).collect();
    Piece { p, len: k[k.len() - 1 - p] - k[p], knots, hom, inner: inner.to_vec() }
}
/// spans joined end to end, straight on (open) or around a 3-4-5 triangle
fn chain<C: Ctx>(c: &mut C, kinds: &str, closed: bool) -> Vec<Piece<C::S>> {
    let n = kinds.len();
    let o = c.vars("o", 2, -5.0, 5.0);
    let mut pts = vec![o.clone()];
    if closed {
        let s = c.var("s", 0.25, 2.0);
        let dirs = [[0.0, 0.0], [3.0, 0.0], [3.0, 4.0]];
        for d in dirs.iter().take(n).skip(1) {
            pts.push(vec![o[0] + s * c.k(d[0]), o[1] + s * c.k(d[1])]);
        }
        pts.push(o);
    } else {
        let d = vec![c.ratio(3, 5), c.ratio(4, 5)];
        for i in 0..n {
            let l = if n > 3 { c.k([1.0, 2.5, 0.5, 3.0][i % 4]) } else { c.var(&format!("l{}", i), 0.25, 5.0) };
            let q = comb(&pts[i], &d, l);
            pts.push(q);
        }
    }
    kinds.chars().enumerate().map(|(i, k)| piece(c, &format!("s{}", i), k, &pts[i], &pts[i + 1])).collect()
}
fn length_of<C: Ctx>(c: &mut C, ps: &[Piece<C::S>]) -> (C::S, f64) {
    let t: f64 = ps.iter().map(|p| p.len).sum();
    (c.k(t), t)
}
/// the chain's own point at a distance from its start, in the piece i
fn chain_at<S: Scalar>(ps: &[Piece<S>], i: usize, x: S) -> Vec<S> {
    let before: f64 = ps[..i].iter().map(|p| p.len).sum();
    ps[i].at(x - refs::k(before))
}
/// a distance along the chain and its piece: inside a piece, or on a joint
fn along<C: Ctx>(c: &mut C, name: &str, ps: &[Piece<C::S>], joints: bool) -> (usize, C::S) {
    let n = ps.len();
    let i = c.choice(&format!("{}-piece", name), if joints { 2 * n + 1 } else { n });
    let at = |i: usize| -> f64 { ps[..i].iter().map(|p| p.len).sum() };
    if i < n {
        let x = inside(c, name, at(i), at(i + 1));
        for k in &ps[i].inner {
            let k = c.k(at(i) + *k);
            off(c, x, k);
        }
        (i, x)
    } else {
        let j = i - n;
        (j.min(n - 1), c.k(at(j)))
    }
}

// ---------------------------------------------------------------- R01
plain_case!(Join { kinds: &'static str, closed: bool, three: bool } "join" |m, c| {
    let ps = chain(c, m.kinds, m.closed);
    let n = ps.len();
    // any order, any direction
    let mut left: Vec<usize> = (0..n).collect();
    let mut given = vec![];
    let masks = [0b0000, 0b0101, 0b0011, 0b1110];
    let mask = if n > 3 { masks[c.choice("turned", 4)] } else { 0 };
    for i in 0..n {
        let k = c.choice(&format!("order{}", i), left.len());
        given.push((left.remove(k), if n > 3 { mask >> i & 1 == 1 } else { c.choice(&format!("turned{}", i), 2) == 1 }));
    }
    if m.three {
        let spans: Vec<NurbsCurve3D<C::S>> = given.iter().map(|(i, r)| if *r { ps[*i].curve3().inverse() } else { ps[*i].curve3() }).collect();
        let cc = CompoundCurve::new(spans);
        let info: Vec<(C::S, C::S)> = cc.spans().iter().map(|s| s.knots_domain()).collect();
        let closed = cc.is_closed();
        let ends = (pv(&cc.first_point()), pv(&cc.end_point()));
        joined(c, m.closed, &ps, given[0], &info, closed, ends, |t| cc.point_at(t).map(|p| pv(&p)));
    } else {
        let spans: Vec<NurbsCurve2D<C::S>> = given.iter().map(|(i, r)| if *r { ps[*i].curve().inverse() } else { ps[*i].curve() }).collect();
        let cc = CompoundCurve::new(spans);
        let info: Vec<(C::S, C::S)> = cc.spans().iter().map(|s| s.knots_domain()).collect();
        let closed = cc.is_closed();
        let ends = (pv(&cc.first_point()), pv(&cc.end_point()));
        joined(c, m.closed, &ps, given[0], &info, closed, ends, |t| cc.point_at(t).map(|p| pv(&p)));
    }
});
#[allow(clippy::too_many_arguments)]
fn joined<C: Ctx>(c: &mut C, loops: bool, ps: &[Piece<C::S>], first: (usize, bool), info: &[(C::S, C::S)], closed: bool, ends: (Vec<C::S>, Vec<C::S>), at: impl Fn(C::S) -> Option<Vec<C::S>>) {
    let n = ps.len();
    let flat = |c: &C, v: Vec<C::S>| -> Vec<C::S> { let _ = c; v };
    c.check("every span kept", info.len() == n);
    if info.len() != n {
        return;
    }
    // aligned domains from zero
    let mut t = c.k(0.0);
    let mut ids = vec![];
    for (a, b) in info {
        c.eq("domain starts where the previous ends", *a, t);
        t = *b;
        let l = *b - *a;
        ids.push(ps.iter().position(|p| l == c.k(p.len)));
    }
    if ids.iter().any(|x| x.is_none()) {
        c.check("every span's length kept", false);
        return;
    }
    let ids: Vec<usize> = ids.into_iter().flatten().collect();
    let fwd = if loops {
        let f = (0..n).all(|i| ids[(i + 1) % n] == (ids[i] + 1) % n);
        let b = (0..n).all(|i| ids[i] == (ids[(i + 1) % n] + 1) % n);
        c.check("spans in order around the loop", f || b);
        if f && b { !first.1 } else { f }
    } else {
        let f = (0..n).all(|i| ids[i] == i);
        let b = (0..n).all(|i| ids[i] == n - 1 - i);
        c.check("spans in order along the chain", f || b);
        if f && b { !first.1 } else { f }
    };
    c.check("closed exactly for a loop", closed == loops);
    let dim = ends.0.len();
    let lift = |v: Vec<C::S>| -> Vec<C::S> { if dim == 3 { vec![v[0], v[1], v[0] + v[1]] } else { v } };
    let zero = c.k(0.0);
    let tip = |p: &Piece<C::S>, start: bool| -> Vec<C::S> { let l: C::S = refs::k(p.len); p.at(if start { zero } else { l }) };
    veq(c, "first point", &ends.0, &lift(tip(&ps[ids[0]], fwd)));
    veq(c, "end point", &ends.1, &lift(tip(&ps[ids[n - 1]], !fwd)));
    let i = c.choice("in", n);
    let p = &ps[ids[i]];
    let x = inside(c, "x", 0.0, p.len);
    for k in &p.inner {
        let k = c.k(*k);
        off(c, x, k);
    }
    let l = c.k(p.len);
    let got = at(info[i].0 + if fwd { x } else { l - x });
    c.check("evaluates inside its domain", got.is_some());
    if let Some(g) = got {
        let want = flat(c, lift(p.at(x)));
        veq(c, "the span's own point", &g, &want);
    }
    let got = at(info[i].1);
    c.check("evaluates at the joint", got.is_some());
    if let Some(g) = got {
        let want = lift(tip(p, !fwd));
        veq(c, "the joint", &g, &want);
    }
    let out = c.var("out", 0.0625, 5.0);
    let (lo, hi) = (info[0].0 - out, info[n - 1].1 + out);
    c.check("nothing before the start", at(lo).is_none());
    c.check("nothing after the end", at(hi).is_none());
}
fn r01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for kinds in ["A", "B", "C", "D", "AB", "DB", "CD", "ABC", "DAB", "EA"] {
        v.push(Box::new(Join { kinds, closed: false, three: false }));
    }
    for kinds in ["AB", "BC", "ABC", "DBA"] {
        v.push(Box::new(Join { kinds, closed: true, three: false }));
    }
    v.push(Box::new(Join { kinds: "AB", closed: false, three: true }));
    v.push(Box::new(Join { kinds: "BA", closed: true, three: true }));
    v.push(Box::new(Join { kinds: "ABCD", closed: false, three: false }));
    if th {
        v.push(Box::new(Join { kinds: "EBDC", closed: false, three: true }));
        v.push(Box::new(Join { kinds: "ABD", closed: false, three: true }));
    }
    v
}

// ---------------------------------------------------------------- R02
fn compound<S: Scalar>(ps: &[Piece<S>]) -> CompoundCurve<S, Const<3>> {
    // spans already in order: only the domains are aligned
    let mut at = 0.0;
    ps.iter()
        .map(|p| {
            let s: S = refs::k::<S>(at) - p.knots[p.p];
            at += p.len;
            NurbsCurve2D::try_new(p.p, hpoints(&p.hom), p.knots.iter().map(|k| *k + s).collect()).unwrap()
        })
        .collect()
}
plain_case!(Turn { kinds: &'static str, closed: bool } "inverse" |m, c| {
    let ps = chain(c, m.kinds, m.closed);
    let cc = compound(&ps);
    let inv = cc.inverse();
    let (l, _) = length_of(c, &ps);
    let (i, x) = along(c, "x", &ps, true);
    let want = chain_at(&ps, i, x);
    let a = cc.point_at(x);
    c.check("the curve evaluates", a.is_some());
    if let Some(a) = a {
        veq(c, "the curve", &pv(&a), &want);
    }
    let b = inv.point_at(l - x);
    c.check("the inverse evaluates", b.is_some());
    if let Some(b) = b {
        veq(c, "the inverse runs backwards", &pv(&b), &want);
    }
    let mut t = c.k(0.0);
    for s in inv.spans() {
        let (a, b) = s.knots_domain();
        c.eq("domains of the inverse in order", a, t);
        t = b;
    }
    c.eq("same total domain", t, l);
    c.check("closed alike", inv.is_closed() == m.closed && cc.is_closed() == m.closed);
    let twice = inv.inverse();
    for (s, o) in twice.spans().iter().zip(cc.spans()) {
        c.check("twice: degree", s.degree() == o.degree());
        knots_eq(c, "twice: knots", s.knots().as_slice(), o.knots().as_slice());
        for (p, q) in s.control_points().iter().zip(o.control_points()) {
            c.pt_eq("twice: control point", p, q);
        }
    }
});
plain_case!(Move { kinds: &'static str } "transform" |m, c| {
    let ps = chain(c, m.kinds, false);
    let cc = compound(&ps);
    let a = affine(c, 2);
    let mat = Matrix3::from_fn(|i, j| a[i][j]);
    let r = Region::new(cc.clone(), vec![cc.inverse(), cc.clone()]).transformed(&mat);
    let tr = cc.transformed(&mat);
    let (i, x) = along(c, "x", &ps, true);
    let want = apply(&a, &chain_at(&ps, i, x));
    let (l, _) = length_of(c, &ps);
    c.check("both holes kept", r.interiors().len() == 2);
    for (what, p) in [("compound", tr.point_at(x)), ("exterior", r.exterior().point_at(x)), ("first hole", r.interiors()[0].point_at(l - x)), ("second hole", r.interiors()[1].point_at(x))] {
        c.check(&format!("{} evaluates", what), p.is_some());
        if let Some(p) = p {
            veq(c, &format!("image of the point: {}", what), &pv(&p), &want);
        }
    }
});
plain_case!(RegionTurn { kinds: &'static str } "region-inverse" |m, c| {
    let ps = chain(c, m.kinds, false);
    let cc = compound(&ps);
    let r = Region::new(cc.clone(), vec![cc.inverse(), cc.clone()]).inverse();
    let (i, x) = along(c, "x", &ps, false);
    let want = chain_at(&ps, i, x);
    let (l, _) = length_of(c, &ps);
    c.check("both holes kept", r.interiors().len() == 2);
    for (what, p) in [("exterior", r.exterior().point_at(l - x)), ("first hole", r.interiors()[0].point_at(x)), ("second hole", r.interiors()[1].point_at(l - x))] {
        c.check(&format!("{} evaluates", what), p.is_some());
        if let Some(p) = p {
            veq(c, &format!("runs backwards: {}", what), &pv(&p), &want);
        }
    }
    let (e, ins) = r.clone().into_tuple();
    c.check("parts", &e == r.exterior() && ins == r.interiors() && r.clone().into_exterior() == e && r.into_interiors() == ins);
    let whole: Region<C::S> = cc.clone().into();
    c.check("from a compound curve", whole.exterior() == &cc && whole.interiors().is_empty());
});
// kept parts of the domain, in the order of the result
plain_case!(Cut { kinds: &'static str, closed: bool } "trim" |m, c| {
    let ps = chain(c, m.kinds, m.closed);
    let cc = compound(&ps);
    let (_, a) = along(c, "a", &ps, true);
    let (_, b) = along(c, "b", &ps, true);
    // apart from each other by GAP
    off(c, a, b);
    let r = cc.try_trim_range((a, b));
    let Some(r) = c.ok("trim succeeds", r) else { return };
    let (l, total) = length_of(c, &ps);
    let zero = c.k(0.0);
    let keep = if a < b { vec![(a, b)] } else { vec![(zero, b), (a, l)] };
    let mut sum = zero;
    let mut want = zero;
    for (x, y) in &keep {
        want += *y - *x;
    }
    let gap = c.k(GAP);
    for s in &r {
        let (x, y) = s.knots_domain();
        sum += y - x;
        let slack = c.k(1e-9);
        let inside = keep.iter().any(|(p, q)| *p - slack <= x && y <= *q + slack);
        c.check("nothing outside the range", inside);
        c.check("no empty piece", y - x >= gap);
    }
    // disjoint pieces
    for i in 0..r.len() {
        for j in 0..i {
            let (p, q) = (r[i].knots_domain(), r[j].knots_domain());
            let slack = c.k(1e-9);
            c.check("no part twice", p.1 <= q.0 + slack || q.1 <= p.0 + slack);
        }
    }
    c.eq("nothing of the range missing", sum, want);
    if r.is_empty() {
        return;
    }
    let i = c.choice("piece", total as usize);
    if i >= r.len() {
        return;
    }
    let (x, y) = r[i].knots_domain();
    let f = c.var("f", GAP, 1.0 - GAP);
    let t = x + (y - x) * f;
    let whole = cc.point_at(t);
    c.check("the curve evaluates", whole.is_some());
    if let Some(w) = whole {
        veq(c, "same point", &pv(&r[i].point_at(t)), &pv(&w));
    }
});
fn r02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for kinds in ["A", "C", "AB", "DB", "ABC", "CDA", "EB"] {
        v.push(Box::new(Turn { kinds, closed: false }));
        v.push(Box::new(Move { kinds }));
        v.push(Box::new(RegionTurn { kinds }));
    }
    for kinds in ["AB", "ABC", "DCB"] {
        v.push(Box::new(Turn { kinds, closed: true }));
    }
    for kinds in ["A", "AB", "BA", "ABC", "CDA", "DB"].into_iter().chain(if th { vec!["ABCD", "DCBA"] } else { vec![] }) {
        v.push(Box::new(Cut { kinds, closed: false }));
    }
    v.push(Box::new(Cut { kinds: "AB", closed: true }));
    v
}

// ---------------------------------------------------------------- R03
struct Trimmed<S: Scalar> {
    g: Geo2<S>,
    uv: Vec<Piece<S>>,
}
impl<S: Scalar> Trimmed<S> {
    fn build(&self, exterior: bool) -> TrimmedSurface<S> {
        let mut cs: Vec<NurbsCurve2D<S>> = self.uv.iter().map(|p| p.curve()).collect();
        let e = if exterior { Some(cs.remove(0)) } else { None };
        TrimmedSurface::new(self.g.surface::<4>(), e, cs)
    }
}
/// curves in the middle of the parameter domain
fn trimmed<C: Ctx>(c: &mut C, su: &str, sv: &str, kinds: &str) -> Trimmed<C::S> {
    let (su, sv) = (shape(su), shape(sv));
    let g = geo2(c, "", &su, &sv, 3, W::One);
    let (du, dv) = (su.domain(), sv.domain());
    let uv = kinds
        .chars()
        .enumerate()
        .map(|(i, k)| {
            let mut p = |n: &str| vec![c.var(&format!("{}u{}", n, i), du.0, du.1), c.var(&format!("{}v{}", n, i), dv.0, dv.1)];
            let (a, b) = (p("a"), p("b"));
            let mut q = piece(c, &format!("t{}", i), k, &a, &b);
            if k == 'B' {
                // the middle control point also inside
                let m = vec![c.var(&format!("mu{}", i), du.0, du.1), c.var(&format!("mv{}", i), dv.0, dv.1)];
                let w = q.hom[1][2];
                q.hom[1] = vec![m[0] * w, m[1] * w, w];
            }
            q
        })
        .collect();
    Trimmed { g, uv }
}
plain_case!(TrimTurn { su: &'static str, sv: &'static str, kinds: &'static str, exterior: bool } "trimmed-inverse" |m, c| {
    let d = trimmed(c, m.su, m.sv, m.kinds);
    let s = d.build(m.exterior);
    let inv = s.inverse();
    c.check("same curves", inv.interiors().len() == s.interiors().len() && inv.exterior().is_some() == m.exterior);
    let ((u0, u1), (v0, v1)) = s.surface().knots_domain();
    let ((p0, p1), (q0, q1)) = inv.surface().knots_domain();
    let i = c.choice("curve", d.uv.len());
    let pick = |t: &TrimmedSurface<C::S>| if m.exterior { if i == 0 { t.exterior().unwrap().clone() } else { t.interiors()[i - 1].clone() } } else { t.interiors()[i].clone() };
    let (a, b) = (pick(&s), pick(&inv));
    let (a0, a1) = a.knots_domain();
    let (b0, b1) = b.knots_domain();
    c.eq("same length of domain", a1 - a0, b1 - b0);
    let x = c.var("x", GAP, d.uv[i].len - GAP);
    let here = d.uv[i].at(x);
    // the reversed surface has the point S(u, v) at the mirrored parameters: the curve must pass there
    let f = b.point_at(b1 - x);
    c.eq("curve follows the surface: u", f.x - p0, u1 - here[0]);
    c.eq("curve follows the surface: v", f.y - q0, v1 - here[1]);
    let _ = (u0, v0, p1, q1);
    if m.su == "d1" && m.sv == "d1" {
        let q = inv.surface().point_at(f.x, f.y);
        let w = s.surface().point_at(here[0], here[1]);
        c.pt_eq("same point in space", &q, &w);
    }
});
plain_case!(TrimMove { su: &'static str, sv: &'static str, kinds: &'static str, exterior: bool } "trimmed-transform" |m, c| {
    let d = trimmed(c, m.su, m.sv, m.kinds);
    let s = d.build(m.exterior);
    let a = affine(c, 3);
    let mat = Matrix4::from_fn(|i, j| a[i][j]);
    let t = s.transformed(&mat);
    c.check("trimming curves kept", t.exterior() == s.exterior() && t.interiors() == s.interiors());
    let i = c.choice("curve", d.uv.len());
    let crv = if m.exterior { if i == 0 { t.exterior().unwrap().clone() } else { t.interiors()[i - 1].clone() } } else { t.interiors()[i].clone() };
    let x = c.var("x", GAP, d.uv[i].len - GAP);
    let f = crv.point_at(crv.knots_domain().0 + x);
    let here = d.uv[i].at(x);
    veq(c, "curve", &pv(&f), &here);
    let (su, sv) = (shape(m.su), shape(m.sv));
    let u = param1(c, "u", &d.g.bu, su.domain());
    let v = param1(c, "v", &d.g.bv, sv.domain());
    veq(c, "image of the surface", &pv(&t.surface().point_at(u, v)), &apply(&a, &d.g.at(u, v)));
});
fn r03(_t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in [("d1", "d1"), ("d2", "d1"), ("d1i", "d2"), ("d2p", "d1"), ("u1", "d1"), ("d1", "u2n")] {
        for (kinds, exterior) in [("A", true), ("AA", true), ("BA", true), ("AB", false)] {
            v.push(Box::new(TrimTurn { su, sv, kinds, exterior }));
        }
        v.push(Box::new(TrimMove { su, sv, kinds: "AB", exterior: true }));
        v.push(Box::new(TrimMove { su, sv, kinds: "BA", exterior: false }));
    }
    v
}

// ---------------------------------------------------------------- J01
fn round<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> anyhow::Result<T> {
    let s = serde_json::to_string(x)?;
    Ok(serde_json::from_str(&s)?)
}
fn same_curve<C: Ctx, const N: usize>(c: &mut C, a: &NurbsCurve<C::S, Const<N>>, b: &NurbsCurve<C::S, Const<N>>) {
    c.check("degree", a.degree() == b.degree());
    knots_eq(c, "knots", a.knots().as_slice(), b.knots().as_slice());
    c.check("control point count", a.control_points().len() == b.control_points().len());
    for (p, q) in a.control_points().iter().zip(b.control_points()) {
        c.pt_eq("control point", p, q);
    }
}
plain_case!(JsonCurve { name: &'static str, three: bool } "json-curve" |m, c| {
    let s = shape(m.name);
    let g = geo(c, "", &s, if m.three { 3 } else { 2 }, W::Sym);
    if m.three {
        let a = g.curve::<4>();
        let r = round(&a);
        if let Some(b) = c.ok("comes back", r) {
            same_curve(c, &a, &b);
            c.check("equal", a == b);
        }
    } else {
        let a = g.curve::<3>();
        let r = round(&a);
        if let Some(b) = c.ok("comes back", r) {
            same_curve(c, &a, &b);
            c.check("equal", a == b);
        }
    }
});
plain_case!(JsonSurface { su: &'static str, sv: &'static str } "json-surface" |m, c| {
    let g = geo2(c, "", &shape(m.su), &shape(m.sv), 3, W::Sym);
    let a = g.surface::<4>();
    let r = round(&a);
    if let Some(b) = c.ok("comes back", r) {
        same_surface(c, &a, &b);
    }
});
fn same_surface<C: Ctx>(c: &mut C, a: &NurbsSurface3D<C::S>, b: &NurbsSurface3D<C::S>) {
    c.check("degrees", a.u_degree() == b.u_degree() && a.v_degree() == b.v_degree());
    knots_eq(c, "u knots", a.u_knots().as_slice(), b.u_knots().as_slice());
    knots_eq(c, "v knots", a.v_knots().as_slice(), b.v_knots().as_slice());
    let (x, y) = (a.ctrl(), b.ctrl());
    c.check("net size", x.len() == y.len());
    for (r, s) in x.iter().zip(y.iter()) {
        c.check("row size", r.len() == s.len());
        for (p, q) in r.iter().zip(s.iter()) {
            veq(c, "control point", p, q);
        }
    }
}
plain_case!(JsonRegion { kinds: &'static str, holes: usize } "json-region" |m, c| {
    let ps = chain(c, m.kinds, false);
    let cc = compound(&ps);
    let one = compound(&ps[..1]);
    let a = Region::new(cc.clone(), vec![one; m.holes]);
    let r = round(&cc);
    if let Some(b) = c.ok("compound curve comes back", r) {
        c.check("span count", b.spans().len() == cc.spans().len());
        for (p, q) in b.spans().iter().zip(cc.spans()) {
            same_curve(c, p, q);
        }
    }
    let r = round(&a);
    if let Some(b) = c.ok("region comes back", r) {
        c.check("holes", b.interiors().len() == m.holes);
        c.check("exterior spans", b.exterior().spans().len() == ps.len());
        for (x, y) in [(b.exterior(), a.exterior())].into_iter().chain(b.interiors().iter().zip(a.interiors())) {
            for (p, q) in x.spans().iter().zip(y.spans()) {
                same_curve(c, p, q);
            }
        }
    }
});
plain_case!(JsonTrimmed { su: &'static str, sv: &'static str, kinds: &'static str, exterior: bool } "json-trimmed" |m, c| {
    let d = trimmed(c, m.su, m.sv, m.kinds);
    let a = d.build(m.exterior);
    let r = round(&a);
    if let Some(b) = c.ok("comes back", r) {
        same_surface(c, a.surface(), b.surface());
        c.check("exterior", a.exterior().is_some() == b.exterior().is_some());
        c.check("interiors", a.interiors().len() == b.interiors().len());
        if let (Some(x), Some(y)) = (a.exterior(), b.exterior()) {
            same_curve(c, x, y);
        }
        for (x, y) in a.interiors().iter().zip(b.interiors()) {
            same_curve(c, x, y);
        }
    }
});
plain_case!(JsonKnots {} "json-knots" |m, c| {
    let k: Vec<C::S> = (0..5).map(|i| c.var(&format!("k{}", i), -5.0, 5.0)).collect();
    let a = KnotVector::new(k.clone());
    let r = round(&a);
    if let Some(b) = c.ok("comes back", r) {
        knots_eq(c, "knots", b.as_slice(), &k);
    }
});
// a field left out or given twice is refused
plain_case!(JsonBroken {} "json-broken" |m, c| {
    let g = geo(c, "", &shape("d2"), 2, W::One);
    let a = g.curve::<3>();
    let v = serde_json::to_value(&a).unwrap();
    for f in ["control_points", "degree", "knots"] {
        let mut w = v.clone();
        let had = w.as_object_mut().unwrap().remove(f).is_some();
        c.check("field written", had);
        c.check("curve without a field refused", serde_json::from_value::<NurbsCurve2D<C::S>>(w).is_err());
    }
    let s = serde_json::to_string(&a).unwrap();
    let twice = format!("{},\"degree\":2}}", &s[..s.len() - 1]);
    c.check("field twice refused", serde_json::from_str::<NurbsCurve2D<C::S>>(&twice).is_err());
    let g = geo2(c, "s", &shape("d1"), &shape("d2"), 3, W::One);
    let v = serde_json::to_value(g.surface::<4>()).unwrap();
    let names: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
    for f in names {
        let mut w = v.clone();
        w.as_object_mut().unwrap().remove(&f);
        c.check("surface without a field refused", serde_json::from_value::<NurbsSurface3D<C::S>>(w).is_err());
    }
});
fn j01(_t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![Box::new(JsonKnots {}), Box::new(JsonBroken {})];
    for name in ["d1", "d2n", "d3m12", "u2", "u3e"] {
        for three in [false, true] {
            v.push(Box::new(JsonCurve { name, three }));
        }
    }
    for (su, sv) in [("d1", "d2"), ("d2i", "d1"), ("u2", "d3"), ("d3", "u1")] {
        v.push(Box::new(JsonSurface { su, sv }));
        for (kinds, exterior) in [("A", true), ("A", false), ("BAC", true), ("AB", false)] {
            v.push(Box::new(JsonTrimmed { su, sv, kinds, exterior }));
        }
    }
    for holes in 0..3 {
        v.push(Box::new(JsonRegion { kinds: "ABD", holes }));
        v.push(Box::new(JsonRegion { kinds: "C", holes }));
    }
    v
}
#[allow(dead_code)]
fn anchor(_: Point2<f64>, _: Point3<f64>) {}

fn main() {
    main_with(vec![
        Prop { id: "R01", cases: r01 },
        Prop { id: "R02", cases: r02 },
        Prop { id: "R03", cases: r03 },
        Prop { id: "J01", cases: j01 },
    ]);
}
