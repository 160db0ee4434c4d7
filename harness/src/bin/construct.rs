//! C06, C07, C10..C13, C18: building and rebuilding curves.
use curvo::prelude::*;
use nalgebra::{ComplexField, Const, OVector, Point2, Point3, Vector2, Vector3};
use symcurvo::ctx::*;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;
use symcurvo::{curve_case, plain_case};

fn breaks(s: &Shape) -> usize {
    s.distinct().len()
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rem {
    /// insert a fresh parameter this often, then remove it
    Fresh(usize),
    /// insert an existing interior knot this often, then remove it
    Knot(usize, usize),
    /// remove an existing interior knot of an arbitrary curve
    Plain(usize),
    /// a value that is no knot
    Absent,
    /// the first or the last knot
    End(bool),
}
curve_case!(Remove { what: Rem } "remove" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let orig: NurbsCurve<C::S, Const<N>> = g.curve::<N>();
    let mut crv = orig.clone();
    let (a, b) = m.s.domain();
    let knot;
    let mut added = 0;
    match m.what {
        Rem::Fresh(n) => {
            knot = inside(c, "k", a, b);
            for x in g.brk.iter() {
                off(c, knot, *x);
            }
            let r = crv.try_refine_knot(vec![knot; n]);
            c.ok("insertion succeeds", r);
            added = n;
        }
        Rem::Knot(i, n) => {
            knot = g.brk[i];
            let r = crv.try_refine_knot(vec![knot; n]);
            c.ok("insertion succeeds", r);
            added = n;
        }
        Rem::Plain(i) => knot = g.brk[i],
        Rem::Absent => {
            knot = inside(c, "k", a, b);
            for x in g.brk.iter() {
                off(c, knot, *x);
            }
        }
        Rem::End(last) => knot = if last { *g.knots.last().unwrap() } else { g.knots[0] },
    }
    let before = crv.clone();
    let tol = 0.25;
    let r = crv.try_remove_knot(knot, Some(c.k(tol)));
    if matches!(m.what, Rem::Absent | Rem::End(_)) {
        c.check("such a knot is refused", r.is_err());
        knots_eq(c, "knots as before", crv.knots().as_slice(), before.knots().as_slice());
        for (p, q) in rows(&crv).iter().zip(rows(&before).iter()) {
            veq(c, "control point as before", p, q);
        }
        return;
    }
    let n = match c.ok("removal succeeds", r) {
        Some(n) => n,
        None => return,
    };
    c.check("at least the inserted copies are removed", n >= added);
    wellformed(c, "result", &crv);
    c.check("degree kept", crv.degree() == orig.degree());
    // the knot vector lost exactly n copies of the knot
    let mut want = before.knots().to_vec();
    let pos = want.iter().position(|k| *k == knot).unwrap();
    c.check("no more copies than there were", n <= want.len() - pos);
    for _ in 0..n.min(want.len() - pos) {
        want.remove(pos);
    }
    knots_eq(c, "knots", crv.knots().as_slice(), &want);
    if n == added {
        for (p, q) in rows(&crv).iter().zip(g.hom.iter()) {
            veq(c, "control point restored", p, q);
        }
    } else if n == added + 1 && m.w == W::One {
        // a knot that is not redundant may go as long as the curve stays within the tolerance
        let t = param(c, &g, m.s.domain());
        let p = refs::rational(crv.degree(), crv.knots().as_slice(), &rows(&crv), t, 0).pop().unwrap();
        let q = g.at(t, 0).pop().unwrap();
        let zero = c.k(0.0);
        let d2 = p.iter().zip(q.iter()).fold(zero, |s, (x, y)| s + (*x - *y) * (*x - *y));
        c.rel_tol("the curve moves by no more than the tolerance", d2, Rel::Le, c.k(tol * tol * 1.0001), 0.0);
    }
});
fn c06(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let mut names = vec!["d1", "d1i", "d2", "d2i", "d2n", "d2m", "d3", "d3i", "d3m2", "u2", "u2n", "u1", "u3"];
    if t == Tier::Thorough {
        names.extend(["d3n", "d3m12", "d4", "u3e", "d2p", "u2s"]);
    }
    for n in names {
        let s = shape(n);
        let p = s.degree;
        for k in 1..=p {
            v.push(Box::new(Remove { s: s.clone(), w: W::One, three: true, what: Rem::Fresh(k) }));
            if p <= 2 && s.clamped() {
                v.push(Box::new(Remove { s: s.clone(), w: W::Fix, three: false, what: Rem::Fresh(k) }));
            }
            if p <= 2 && k == 1 && s.n() <= 4 {
                v.push(Box::new(Remove { s: s.clone(), w: W::Sym, three: false, what: Rem::Fresh(k) }));
            }
        }
        let d = s.distinct();
        for i in 1..d.len() - 1 {
            let mu = s.mult(d[i]);
            for k in 1..=(p.saturating_sub(mu)) {
                v.push(Box::new(Remove { s: s.clone(), w: W::One, three: false, what: Rem::Knot(i, k) }));
            }
            v.push(Box::new(Remove { s: s.clone(), w: W::One, three: false, what: Rem::Plain(i) }));
        }
        v.push(Box::new(Remove { s: s.clone(), w: W::Sym, three: true, what: Rem::Absent }));
        for e in [false, true] {
            v.push(Box::new(Remove { s: s.clone(), w: W::Sym, three: true, what: Rem::End(e) }));
        }
    }
    v
}

// ---------------------------------------------------------------- C07
curve_case!(Elevate { inc: usize } "elevate" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv: NurbsCurve<C::S, Const<N>> = g.curve::<N>();
    let r = crv.try_elevate_degree(m.s.degree + m.inc);
    if let Some(e) = c.ok("elevation succeeds", r) {
        wellformed(c, "elevated", &e);
        c.check("degree", e.degree() == m.s.degree + m.inc);
        // every breakpoint gains the increment, so that the continuity stays what it was
        let mut want = vec![];
        for (x, k) in g.brk.iter().zip(g.mult.iter()) {
            want.extend(vec![*x; k + m.inc]);
        }
        knots_eq(c, "knots", e.knots().as_slice(), &want);
        let t = param(c, &g, m.s.domain());
        let p = refs::rational(e.degree(), e.knots().as_slice(), &rows(&e), t, 0).pop().unwrap();
        veq(c, "shape", &p, &g.at(t, 0).pop().unwrap());
    }
});
curve_case!(NoElevate {} "no-elevate" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv: NurbsCurve<C::S, Const<N>> = g.curve::<N>();
    for target in 0..=m.s.degree {
        let r = crv.try_elevate_degree(target);
        if let Some(e) = c.ok("a target not above the degree is accepted", r) {
            c.check("degree kept", e.degree() == m.s.degree);
            knots_eq(c, "knots kept", e.knots().as_slice(), &g.knots);
            for (p, q) in rows(&e).iter().zip(g.hom.iter()) {
                veq(c, "control point kept", p, q);
            }
        }
    }
});
fn c07(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in clamped_shapes() {
        let most = if t == Tier::Thorough { 6 } else { 4 };
        for inc in 1..=most {
            for w in [W::One, W::Fix, W::Sym] {
                v.push(Box::new(Elevate { s: s.clone(), w, three: w != W::Fix, inc }));
            }
            if s.degree <= 3 && inc <= 2 && breaks(&s) > 2 {
                v.push(Box::new(Elevate { s: s.clone().sym(), w: W::One, three: false, inc }));
            }
        }
        v.push(Box::new(NoElevate { s: s.clone(), w: W::Sym, three: true }));
    }
    // higher degrees, with inner knots of every multiplicity
    let ends = |p: usize, inner: &[f64], end: f64| {
        let mut k = vec![0.0; p + 1];
        k.extend_from_slice(inner);
        k.extend(vec![end; p + 1]);
        k
    };
    let mut high = vec![
        Shape::new("d4n", 4, &ends(4, &[1., 2., 2., 2., 2.5, 2.5, 3., 3., 3., 3.], 4.)),
        Shape::new("d5n", 5, &ends(5, &[1., 1.5, 2., 2., 2., 3., 3., 3., 3.], 4.)),
        Shape::new("d6", 6, &ends(6, &[1., 3.], 4.)),
        Shape::new("d7", 7, &ends(7, &[1., 3., 3., 3.5, 3.5, 3.5], 4.)),
    ];
    if t == Tier::Thorough {
        high.push(Shape::new("d5m", 5, &ends(5, &[1., 1., 1., 1., 1., 2., 2., 3.], 4.)));
        high.push(Shape::new("d8", 8, &ends(8, &[0.5, 3., 3.], 4.)));
    }
    for s in high {
        for inc in 1..=if t == Tier::Thorough { 4 } else { 2 } {
            for w in [W::One, W::Fix, W::Sym] {
                v.push(Box::new(Elevate { s: s.clone(), w, three: w != W::Fix, inc }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C13
/// points whose consecutive chords have the given symbolic lengths (directions rational)
fn chain<C: Ctx>(c: &mut C, n: usize, dim: usize, free: usize, lo: f64) -> (Vec<Vec<C::S>>, Vec<C::S>) {
    let dirs: [[(i64, i64); 3]; 6] = [
        [(3, 5), (4, 5), (0, 1)],
        [(1, 1), (0, 1), (0, 1)],
        [(-5, 13), (12, 13), (0, 1)],
        [(-1, 1), (0, 1), (0, 1)],
        [(4, 5), (-3, 5), (0, 1)],
        [(-8, 17), (-15, 17), (0, 1)],
    ];
    let dirs3: [[(i64, i64); 3]; 6] = [
        [(1, 3), (2, 3), (2, 3)],
        [(2, 7), (3, 7), (6, 7)],
        [(-2, 3), (1, 3), (2, 3)],
        [(6, 7), (2, 7), (-3, 7)],
        [(4, 9), (4, 9), (7, 9)],
        [(-1, 1), (0, 1), (0, 1)],
    ];
    let mut p: Vec<Vec<C::S>> = vec![(0..dim).map(|d| c.var(["px", "py", "pz"][d], -5.0, 5.0)).collect()];
    let mut lens = vec![];
    for i in 1..n {
        let l = if i <= free { c.var(&format!("l{}", i), lo, 4.0) } else { c.k([1.0, 0.5, 2.0, 1.5, 3.0, 0.75][i % 6]) };
        let q: Vec<C::S> = (0..dim)
            .map(|d| {
                let (a, b) = if dim == 2 { dirs[(i - 1) % 6][d] } else { dirs3[(i - 1) % 6][d] };
                p[i - 1][d] + l * c.ratio(a, b)
            })
            .collect();
        p.push(q);
        lens.push(l);
    }
    (p, lens)
}
plain_case!(Poly { n: usize, three: bool, norm: bool, free: bool } "polyline" |m, c| {
    if m.three { poly::<C, 4>(c, m) } else { poly::<C, 3>(c, m) }
});
fn poly<C: Ctx, const N: usize>(c: &mut C, m: &Poly)
where
    NurbsCurve<C::S, Const<N>>: CurveExt<C::S>,
{
    let (p, lens) = if m.free {
        let p: Vec<Vec<C::S>> = (0..m.n).map(|i| (0..N - 1).map(|d| c.var(&format!("p{}{}", i, d), -10.0, 10.0)).collect()).collect();
        (p, vec![])
    } else {
        chain(c, m.n, N - 1, m.n, 0.0625)
    };
    if m.free {
        // distinct neighbours
        for i in 1..m.n {
            c.assume(p[i - 1][0] + c.k(0.0625), Rel::Le, p[i][0]);
        }
    }
    let crv = NurbsCurve::<C::S, Const<N>>::polyline_(&p, m.norm);
    wellformed(c, "polyline", &crv);
    c.check("degree one", crv.degree() == 1);
    let k = crv.knots().to_vec();
    c.check("two knots more than points", k.len() == m.n + 2);
    let zero = c.k(0.0);
    c.eq("domain starts at zero", crv.knots_domain().0, zero);
    let mut acc = zero;
    for i in 0..m.n {
        if i > 0 {
            // the length of chord i-1: exact, or by its square
            let dk = k[i + 1] - k[i];
            if m.free {
                if !m.norm {
                    let d2 = (0..N - 1).fold(zero, |s, d| s + (p[i][d] - p[i - 1][d]) * (p[i][d] - p[i - 1][d]));
                    c.eq("knot step is the chord length", dk * dk, d2);
                    c.le("knot step is positive", zero, dk);
                }
            } else {
                acc += lens[i - 1];
                let total = lens.iter().fold(zero, |s, l| s + *l);
                c.eq("knot is the length so far", k[i + 1], if m.norm { acc / total } else { acc });
            }
        }
        veq(c, "passes through its points", &crv.pt(k[i + 1]), &p[i]);
        if m.norm && i == m.n - 1 {
            c.eq("normalized domain ends at one", k[i + 1], c.k(1.0));
        }
    }
    // straight in between
    let f = c.var("f", 0.0, 1.0 - GAP);
    let i = c.choice("piece", m.n - 1);
    let t = k[i + 1] + (k[i + 2] - k[i + 1]) * f;
    let want: Vec<C::S> = (0..N - 1).map(|d| p[i][d] + (p[i + 1][d] - p[i][d]) * f).collect();
    veq(c, "straight between its points", &crv.pt(t), &want);
}
curve_case!(Renorm {} "normalize" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let mut crv: NurbsCurve<C::S, Const<N>> = g.curve::<N>();
    crv.normalize_knots();
    wellformed(c, "normalized", &crv);
    let (a, b) = crv.knots_domain();
    c.eq("domain starts at zero", a, c.k(0.0));
    c.eq("domain ends at one", b, c.k(1.0));
    let t = param(c, &g, m.s.domain());
    let (s, e) = g.domain();
    let want = g.at(t, 0).pop().unwrap();
    let rk: Vec<C::S> = g.knots.iter().map(|k| (*k - s) / (e - s)).collect();
    knots_eq(c, "knots", crv.knots().as_slice(), &rk);
    veq(c, "same point at the proportional parameter", &crv.pt((t - s) / (e - s)), &want);
    c.check("degree", crv.degree() == m.s.degree);
});
curve_case!(Lift {} "lift" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv: NurbsCurve<C::S, Const<N>> = g.curve::<N>();
    // dehomogenized curve: the same knots over the cartesian control points
    for (p, q) in crv.dehom().iter().zip(g.cart.iter()) {
        veq(c, "dehomogenized control point", p, q);
    }
});
plain_case!(Up { s: &'static str, w: W } "elevate-dimension" |m, c| {
    let s = shape(m.s);
    let g = geo(c, "", &s, 2, m.w);
    let crv = g.curve::<3>();
    let up: NurbsCurve3D<C::S> = crv.elevate_dimension();
    wellformed(c, "elevated", &up);
    knots_eq(c, "knots", up.knots().as_slice(), &g.knots);
    let t = param(c, &g, s.domain());
    let mut want = g.at(t, 0).pop().unwrap();
    want.push(c.k(0.0));
    veq(c, "same curve in the plane z = 0", &up.pt(t), &want);
    // dropping the weight keeps degree, knots and the cartesian control points
    let flat: NurbsCurve<C::S, Const<2>> = crv.dehomogenize();
    c.check("dehomogenized degree", flat.degree() == s.degree);
    knots_eq(c, "dehomogenized knots", flat.knots().as_slice(), &g.knots);
    for (p, q) in flat.control_points().iter().zip(g.cart.iter()) {
        veq(c, "dehomogenized point", &pv(p), q);
    }
    let cast: NurbsCurve2D<C::S> = crv.cast();
    c.check("cast degree", cast.degree() == s.degree);
    knots_eq(c, "cast knots", cast.knots().as_slice(), &g.knots);
    for (p, q) in rows(&cast).iter().zip(g.hom.iter()) {
        veq(c, "cast control point", p, q);
    }
});
fn c13(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for n in 2..=(if t == Tier::Thorough { 6 } else { 4 }) {
        for three in [false, true] {
            for norm in [false, true] {
                v.push(Box::new(Poly { n, three, norm, free: false }));
                if n <= 3 {
                    v.push(Box::new(Poly { n, three, norm, free: true }));
                }
            }
        }
    }
    for s in all_shapes() {
        if t == Tier::Quick && s.degree > 3 {
            continue;
        }
        v.push(Box::new(Renorm { s: s.clone(), w: W::Fix, three: true }));
        v.push(Box::new(Renorm { s: s.clone(), w: W::Sym, three: false }));
        v.push(Box::new(Lift { s: s.clone(), w: W::Sym, three: true }));
        v.push(Box::new(Up { s: s.name, w: W::Sym }));
        v.push(Box::new(Up { s: s.name, w: W::Fix }));
    }
    v
}

// ---------------------------------------------------------------- C18
plain_case!(Valid { p: usize, n: usize, k: usize } "valid" |m, c| {
    let pts: Vec<Vec<C::S>> = (0..m.n).map(|i| (0..3).map(|d| c.var(&format!("p{}{}", i, d), 0.25, 4.0)).collect()).collect();
    let knots: Vec<C::S> = (0..m.k).map(|i| c.k(i as f64)).collect();
    let r = NurbsCurve2D::try_new(m.p, hpoints(&pts), knots.clone());
    let good = m.n > m.p && m.k == m.n + m.p + 1;
    c.check("accepted exactly when the counts fit", r.is_ok() == good);
    if let Ok(crv) = r {
        wellformed(c, "curve", &crv);
        c.check("degree", crv.degree() == m.p);
        knots_eq(c, "knots", crv.knots().as_slice(), &knots);
        for (a, b) in rows(&crv).iter().zip(pts.iter()) {
            veq(c, "control point", a, b);
        }
        let w = crv.weights();
        for (a, b) in w.iter().zip(pts.iter()) {
            c.eq("weight", *a, b[2]);
        }
    }
});
plain_case!(Sorted { n: usize } "sorted" |m, c| {
    // knots in any order come out ascending, as the same multiset
    let k: Vec<C::S> = (0..m.n + 2).map(|i| c.var(&format!("k{}", i), -5.0, 5.0)).collect();
    for i in 0..k.len() {
        for j in 0..i {
            off(c, k[i], k[j]);
        }
    }
    let pts: Vec<Vec<C::S>> = (0..m.n).map(|i| vec![c.k(i as f64), c.k(1.0), c.k(1.0)]).collect();
    let r = NurbsCurve2D::try_new(1, hpoints(&pts), k.clone());
    if let Some(crv) = c.ok("accepted", r) {
        wellformed(c, "curve", &crv);
        let out = crv.knots().to_vec();
        for x in k.iter() {
            c.check("every knot is still there", out.iter().any(|y| *y == *x));
        }
    }
});
curve_case!(Pred { how: usize } "closed" |m, c| {
    let mut g = geo(c, "", &m.s, N - 1, m.w);
    let n = g.hom.len();
    let p = g.degree;
    let clamped = m.s.clamped();
    let gap = c.k(0.015625);
    match m.how {
        // closed by construction
        0 => {
            if clamped {
                g.cart[n - 1] = g.cart[0].clone();
                let w = g.w[n - 1];
                g.hom[n - 1] = g.cart[0].iter().map(|x| *x * w).chain([w]).collect();
            } else {
                for i in 0..p {
                    g.hom[n - p + i] = g.hom[i].clone();
                }
            }
        }
        // the ends are apart
        _ => {
            let d = g.domain();
            let (a, b) = (g.at(d.0, 0).pop().unwrap(), g.at(d.1, 0).pop().unwrap());
            c.assume(a[0] + gap, Rel::Le, b[0]);
        }
    }
    let crv: NurbsCurve<C::S, Const<N>> = g.curve::<N>();
    c.check("clamped", crv.is_clamped() == clamped);
    c.check("closed", crv.closed() == (m.how == 0));
});
fn c18(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for p in 1..=3 {
        for n in 1..=5usize {
            for k in (n + p).saturating_sub(1)..=(n + p + 3) {
                v.push(Box::new(Valid { p, n, k }));
            }
        }
    }
    for n in 2..=(if t == Tier::Thorough { 4 } else { 3 }) {
        v.push(Box::new(Sorted { n }));
    }
    for s in all_shapes() {
        if s.degree > 3 {
            continue;
        }
        for how in 0..2 {
            let w = if how == 0 { W::Sym } else { W::One };
            if how == 0 && !s.clamped() && s.name != "u2" && s.name != "u3" && s.name != "u1" {
                continue;
            }
            if how == 0 && s.n() < s.degree + 2 && !s.clamped() {
                continue;
            }
            v.push(Box::new(Pred { s: s.clone(), w, three: s.degree % 2 == 0, how }));
        }
    }
    v
}

// ---------------------------------------------------------------- C12
#[derive(Clone, Copy, Debug)]
pub enum Axes {
    Plain,
    Turned,
    Space,
    Skew,
}
/// unit axes with rational entries
fn axes<C: Ctx>(c: &C, a: Axes, dim: usize) -> (Vec<C::S>, Vec<C::S>) {
    let r = |v: [(i64, i64); 3]| -> Vec<C::S> { v[..dim].iter().map(|(n, d)| c.ratio(*n, *d)).collect() };
    match a {
        Axes::Plain => (r([(1, 1), (0, 1), (0, 1)]), r([(0, 1), (1, 1), (0, 1)])),
        Axes::Turned => (r([(3, 5), (4, 5), (0, 1)]), r([(-4, 5), (3, 5), (0, 1)])),
        Axes::Space => (r([(2, 3), (-1, 3), (2, 3)]), r([(2, 3), (2, 3), (-1, 3)])),
        Axes::Skew => (r([(1, 1), (0, 1), (0, 1)]), r([(3, 5), (4, 5), (0, 1)])),
    }
}
/// coordinates of p - center along the (not necessarily orthogonal) unit axes
fn coords<S: Scalar>(p: &[S], center: &[S], x: &[S], y: &[S]) -> (S, S, S) {
    let dot = |a: &[S], b: &[S]| a.iter().zip(b.iter()).map(|(p, q)| *p * *q).fold(S::from_f64(0.0).unwrap(), |s, v| s + v);
    let d: Vec<S> = p.iter().zip(center.iter()).map(|(a, b)| *a - *b).collect();
    let (xx, xy, yy) = (dot(x, x), dot(x, y), dot(y, y));
    let (dx, dy) = (dot(&d, x), dot(&d, y));
    let det = xx * yy - xy * xy;
    let u = (dx * yy - dy * xy) / det;
    let v = (dy * xx - dx * xy) / det;
    // squared distance from the plane of the axes
    let off: Vec<S> = (0..d.len()).map(|i| d[i] - u * x[i] - v * y[i]).collect();
    (u, v, dot(&off, &off))
}
#[derive(Clone, Copy, Debug)]
pub enum Conic {
    Circle,
    Ellipse,
    Arc,
    EllipseArc,
}
plain_case!(Round { kind: Conic, axes: Axes, three: bool, arcs: i64 } "round" |m, c| {
    if m.three { round::<C, 4, 3>(c, m) } else { round::<C, 3, 2>(c, m) }
});
pub trait RoundExt<S: Scalar>: Sized {
    fn circle(center: &[S], x: &[S], y: &[S], r: S) -> anyhow::Result<Self>;
    fn ellipse(center: &[S], x: &[S], y: &[S]) -> anyhow::Result<Self>;
    fn arc(center: &[S], x: &[S], y: &[S], r: S, a: S, b: S) -> anyhow::Result<Self>;
    fn earc(center: &[S], x: &[S], y: &[S], a: S, b: S) -> anyhow::Result<Self>;
}
macro_rules! round_ext {
    ($n:literal, $p:ident, $v:ident) => {
        impl<S: Scalar> RoundExt<S> for NurbsCurve<S, Const<$n>> {
            fn circle(o: &[S], x: &[S], y: &[S], r: S) -> anyhow::Result<Self> {
                Self::try_circle(&$p::from_slice(o), &$v::from_column_slice(x), &$v::from_column_slice(y), r)
            }
            fn ellipse(o: &[S], x: &[S], y: &[S]) -> anyhow::Result<Self> {
                Self::try_ellipse(&$p::from_slice(o), &$v::from_column_slice(x), &$v::from_column_slice(y))
            }
            fn arc(o: &[S], x: &[S], y: &[S], r: S, a: S, b: S) -> anyhow::Result<Self> {
                Self::try_arc(&$p::from_slice(o), &$v::from_column_slice(x), &$v::from_column_slice(y), r, a, b)
            }
            fn earc(o: &[S], x: &[S], y: &[S], a: S, b: S) -> anyhow::Result<Self> {
                Self::try_ellipse_arc(&$p::from_slice(o), &$v::from_column_slice(x), &$v::from_column_slice(y), a, b)
            }
        }
    };
}
round_ext!(3, Point2, Vector2);
round_ext!(4, Point3, Vector3);
fn round<C: Ctx, const N: usize, const D: usize>(c: &mut C, m: &Round)
where
    NurbsCurve<C::S, Const<N>>: CurveExt<C::S> + RoundExt<C::S>,
{
    use std::f64::consts::{FRAC_PI_2, PI, TAU};
    let (x, y) = axes(c, m.axes, D);
    let o: Vec<C::S> = (0..D).map(|i| c.var(&format!("o{}", i), -5.0, 5.0)).collect();
    let a = c.var("a", 0.25, 4.0);
    let (full, ell) = match m.kind {
        Conic::Circle => (true, false),
        Conic::Ellipse => (true, true),
        Conic::Arc => (false, false),
        Conic::EllipseArc => (false, true),
    };
    let b = if ell { c.var("b", 0.25, 4.0) } else { a };
    let scale = |v: &[C::S], k: C::S| -> Vec<C::S> { v.iter().map(|p| *p * k).collect() };
    // the angles
    let (start, theta) = if full {
        (c.k(0.0), c.k(TAU))
    } else {
        // start in the first or fourth quadrant around zero; the sweep selects the number of pieces
        let lo = m.arcs as f64 * FRAC_PI_2;
        let hi = if m.arcs == 1 { PI - 0.125 } else { (m.arcs + 1) as f64 * FRAC_PI_2 - 0.0625 };
        let lo = if m.arcs == 1 { 0.125 } else { lo + 0.0625 };
        // (an elliptic arc starts on the x axis)
        let s = if ell { c.k(0.0) } else { c.angle("start", -PI / 2.0, PI / 2.0, 1, true, false) };
        let th = c.angle("theta", lo, hi, 2 * m.arcs, true, true);
        (s, th)
    };
    let end = start + theta;
    let r = match m.kind {
        Conic::Circle => NurbsCurve::<C::S, Const<N>>::circle(&o, &scale(&x, c.k(2.0)), &scale(&y, c.k(0.5)), a),
        Conic::Ellipse => NurbsCurve::<C::S, Const<N>>::ellipse(&o, &scale(&x, a), &scale(&y, b)),
        Conic::Arc => NurbsCurve::<C::S, Const<N>>::arc(&o, &scale(&x, c.k(2.0)), &scale(&y, c.k(3.0)), a, start, end),
        Conic::EllipseArc => NurbsCurve::<C::S, Const<N>>::earc(&o, &scale(&x, a), &scale(&y, b), start, end),
    };
    let crv = match c.ok("the curve is built", r) {
        Some(crv) => crv,
        None => return,
    };
    wellformed(c, "curve", &crv);
    c.check("clamped", crv.is_clamped());
    let (da, db) = crv.knots_domain();
    c.eq("domain starts at the start angle", da, start);
    c.eq("domain ends at the end angle", db, end);
    let mut brk = crv.knots().to_vec();
    brk.dedup();
    let zero = c.k(0.0);
    let one = c.k(1.0);
    let n = brk.len() - 1;
    // the point at a breakpoint is the point at its angle
    if full || n as i64 == m.arcs {
        let i = c.choice("piece", n + 1);
        let th = if full { c.k(TAU * i as f64 / n as f64) } else { start + theta * c.ratio(i as i64, n as i64) };
        c.eq("breakpoint angle", brk[i], th);
        let (u, v, offp) = coords(&crv.pt(brk[i]), &o, &x, &y);
        c.eq("point at a breakpoint: x", u, a * th.cos());
        c.eq("point at a breakpoint: y", v, b * th.sin());
        c.eq("in the plane", offp, zero);
    } else {
        c.check("number of pieces", false);
    }
    // anywhere else: on the conic, running counterclockwise
    let i = c.choice("span", n);
    let f = c.var("f", 0.0, 1.0 - GAP);
    let t = brk[i] + (brk[i + 1] - brk[i]) * f;
    let p = crv.pt(t);
    let (u, v, offp) = coords(&p, &o, &x, &y);
    c.eq("on the conic", u * u / (a * a) + v * v / (b * b), one);
    c.eq("in the plane of the axes", offp, zero);
    if f64::from(m.arcs as i32) < 2.5 || full {
        let d = crv.tan(t);
        let q: Vec<C::S> = d.iter().zip(o.iter()).map(|(d, o)| *d + *o).collect();
        let (du, dv, _) = coords(&q, &o, &x, &y);
        c.rel_tol("runs from the x axis towards the y axis", zero, Rel::Lt, u * dv - v * du, 0.0);
    }
}
plain_case!(RoundBad { three: bool } "round-bad" |m, c| {
    // an end angle not above the start angle is refused
    let o = vec![c.k(0.0); if m.three { 3 } else { 2 }];
    let (x, y) = axes(c, Axes::Plain, o.len());
    let s = c.var("s", -6.0, 6.0);
    let d = c.var("d", 0.0, 6.0);
    let r = if m.three {
        NurbsCurve3D::<C::S>::arc(&o, &x, &y, c.k(1.0), s, s - d).is_err()
    } else {
        NurbsCurve2D::<C::S>::arc(&o, &x, &y, c.k(1.0), s, s - d).is_err()
    };
    c.check("an empty or backward sweep is refused", r);
});
fn c12(_t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (axes, three) in [(Axes::Plain, false), (Axes::Turned, false), (Axes::Space, true)] {
        v.push(Box::new(Round { kind: Conic::Circle, axes, three, arcs: 4 }));
        v.push(Box::new(Round { kind: Conic::Ellipse, axes, three, arcs: 4 }));
        for arcs in 1..=3 {
            v.push(Box::new(Round { kind: Conic::Arc, axes, three, arcs }));
            v.push(Box::new(Round { kind: Conic::EllipseArc, axes, three, arcs }));
        }
    }
    v.push(Box::new(Round { kind: Conic::Ellipse, axes: Axes::Skew, three: false, arcs: 4 }));
    v.push(Box::new(RoundBad { three: false }));
    v.push(Box::new(RoundBad { three: true }));
    v
}

// ---------------------------------------------------------------- C10
plain_case!(Interp { n: usize, p: usize, three: bool, free: usize } "interpolate" |m, c| {
    if m.three { interp::<C, 4>(c, m) } else { interp::<C, 3>(c, m) }
});
fn interp<C: Ctx, const N: usize>(c: &mut C, m: &Interp)
where
    NurbsCurve<C::S, Const<N>>: CurveExt<C::S>,
{
    let (p, lens) = chain(c, m.n, N - 1, m.free, 0.25);
    let r = NurbsCurve::<C::S, Const<N>>::interpolate_(&p, m.p);
    if m.n <= m.p {
        c.check("too few points are refused", r.is_err());
        return;
    }
    if let Some(crv) = c.ok("interpolation succeeds", r) {
        wellformed(c, "curve", &crv);
        c.check("degree", crv.degree() == m.p);
        c.check("as many control points as points", crv.control_points().len() == m.n);
        c.check("clamped", crv.is_clamped());
        let (a, b) = crv.knots_domain();
        c.eq("domain starts at zero", a, c.k(0.0));
        c.eq("domain ends at one", b, c.k(1.0));
        for w in crv.weights() {
            c.eq("not rational", w, c.k(1.0));
        }
        let zero = c.k(0.0);
        let total = lens.iter().fold(zero, |s, l| s + *l);
        let i = c.choice("at", m.n);
        let t = lens[..i].iter().fold(zero, |s, l| s + *l) / total;
        veq(c, "passes through its points in proportion to the chords", &crv.pt(t), &p[i]);
    }
}
fn c10(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let th = t == Tier::Thorough;
    for p in 1..=3usize {
        for n in 1.max(p)..=(if th { 7 } else { 6 }) {
            for free in 0..=(if th { 2 } else { 1 }) {
                v.push(Box::new(Interp { n, p, three: (n + p) % 2 == 0, free }));
            }
            if n <= 4 && !th {
                v.push(Box::new(Interp { n, p, three: false, free: 2 }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C11
plain_case!(Periodic { n: usize, p: usize, three: bool } "periodic" |m, c| {
    if m.three { periodic::<C, 4>(c, m) } else { periodic::<C, 3>(c, m) }
});
fn periodic<C: Ctx, const N: usize>(c: &mut C, m: &Periodic)
where
    NurbsCurve<C::S, Const<N>>: CurveExt<C::S>,
{
    let pts: Vec<Vec<C::S>> = (0..m.n).map(|i| (0..N - 1).map(|d| c.var(&format!("p{}{}", i, d), -10.0, 10.0)).collect()).collect();
    let r = NurbsCurve::<C::S, Const<N>>::periodic_(&pts, m.p);
    if m.n <= m.p {
        c.check("too few points are refused", r.is_err());
        return;
    }
    if let Some(crv) = c.ok("the curve is built", r) {
        wellformed(c, "curve", &crv);
        c.check("degree", crv.degree() == m.p);
        let (a, b) = crv.knots_domain();
        c.eq("one unit per point", b - a, c.k(m.n as f64));
        c.check("reported as closed", crv.closed());
        // the uniform B-spline of the cyclic control points
        let i = c.choice("span", m.n);
        let f = c.var("f", 0.0, 1.0 - GAP);
        let knots: Vec<C::S> = (0..2 * m.p + 2).map(|k| c.k(k as f64)).collect();
        let one = c.k(1.0);
        let rows: Vec<Vec<C::S>> = (0..=m.p).map(|k| pts[(i + k) % m.n].iter().cloned().chain([one]).collect()).collect();
        let want = refs::rational(m.p, &knots, &rows, c.k(m.p as f64) + f, 0).pop().unwrap();
        let t = a + c.k(i as f64) + f;
        veq(c, "uniform B-spline of the cyclic points", &crv.pt(t), &want);
        // smooth across the seam
        veq(c, "closed", &crv.pt(a), &crv.pt(b));
        if m.p >= 2 {
            veq(c, "tangents agree at the seam", &crv.tan(a), &crv.tan(b));
        }
        if m.p >= 3 {
            veq(c, "second derivatives agree at the seam", &crv.d2(a), &crv.d2(b));
        }
    }
}
plain_case!(PerInterp { n: usize, p: usize, style: usize } "periodic-interpolate" |m, c| {
    let style = || match m.style { 0 => KnotStyle::Uniform, 1 => KnotStyle::Chordal, _ => KnotStyle::Centripetal };
    // squares with rational sides for the chordal styles, anything for the uniform one
    let pts: Vec<Vec<C::S>> = if m.style == 0 {
        (0..m.n).map(|i| (0..2).map(|d| c.var(&format!("p{}{}", i, d), -10.0, 10.0)).collect()).collect()
    } else {
        // closed polygons with rational chords: points on the unit circle at rational angles, scaled and moved
        let circ = [(1, 0, 1), (3, 4, 5), (-7, 24, 25), (-117, 44, 125), (-7, -24, 25), (3, -4, 5)];
        let pick: &[usize] = match m.n { 2 => &[0, 1], 3 => &[0, 2, 4], 4 => &[0, 1, 2, 4], 5 => &[0, 1, 2, 4, 5], _ => &[0, 1, 2, 3, 4, 5] };
        let k = if m.style == 2 { c.k(4.0) } else { c.var("k", 0.5, 3.0) };
        let (ox, oy) = (c.var("ox", -5.0, 5.0), c.var("oy", -5.0, 5.0));
        pick.iter().map(|i| { let (x, y, d) = circ[*i]; vec![ox + k * c.ratio(x, d), oy + k * c.ratio(y, d)] }).collect()
    };
    let r = NurbsCurve::<C::S, Const<3>>::periodic_interpolate_(&pts, m.p, style());
    if m.n <= m.p {
        c.check("too few points are refused", r.is_err());
        return;
    }
    if let Some(crv) = c.ok("the curve is built", r) {
        wellformed(c, "curve", &crv);
        let (a, b) = crv.knots_domain();
        let k = crv.knots().to_vec();
        c.check("reported as closed", crv.closed());
        veq(c, "closed", &crv.pt(a), &crv.pt(b));
        veq(c, "tangents agree at the seam", &crv.tan(a), &crv.tan(b));
        if m.p >= 3 {
            veq(c, "second derivatives agree at the seam", &crv.d2(a), &crv.d2(b));
        }
        for i in 0..m.n {
            veq(c, "passes through its points at its knots", &crv.pt(k[m.p + i]), &pts[i]);
        }
        // the steps follow the style: equal, by the chord, by its square root
        let zero = c.k(0.0);
        let chord2 = |i: usize| (0..2).fold(zero, |s, d| s + (pts[(i + 1) % m.n][d] - pts[i][d]) * (pts[(i + 1) % m.n][d] - pts[i][d]));
        let s0 = k[m.p + 1] - k[m.p];
        for i in 1..m.n {
            let si = k[m.p + i + 1] - k[m.p + i];
            match m.style {
                0 => c.eq("equal steps", si, s0),
                1 => c.eq("steps in proportion to the chords", si * si * chord2(0), s0 * s0 * chord2(i)),
                _ => c.eq("steps in proportion to the roots of the chords", si * si * si * si * chord2(0), s0 * s0 * s0 * s0 * chord2(i)),
            }
        }
    }
});
fn c11(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for p in 1..=(if t == Tier::Thorough { 5 } else { 4 }) {
        for n in p..=(p + 3) {
            v.push(Box::new(Periodic { n, p, three: n % 2 == 0 }));
        }
    }
    for (p, n) in [(2, 2), (3, 3), (2, 3), (2, 5), (3, 4), (3, 5), (3, 6)] {
        for style in 0..3 {
            if style == 2 && n > (if t == Tier::Thorough { 5 } else { 4 }) {
                continue;
            }
            v.push(Box::new(PerInterp { n, p, style }));
        }
    }
    v
}

#[allow(dead_code)]
fn anchor(_: OVector<f64, Const<3>>) {}

fn main() {
    main_with(vec![
        Prop { id: "C06", cases: c06 },
        Prop { id: "C07", cases: c07 },
        Prop { id: "C10", cases: c10 },
        Prop { id: "C11", cases: c11 },
        Prop { id: "C12", cases: c12 },
        Prop { id: "C13", cases: c13 },
        Prop { id: "C18", cases: c18 },
    ]);
}
