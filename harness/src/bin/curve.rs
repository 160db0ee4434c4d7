//! C01..C05, C08, C09: evaluation, derivatives and the shape-preserving operations of curves.
use curvo::prelude::*;
use nalgebra::{ComplexField, Const};
use symcurvo::ctx::*;
use symcurvo::curve_case;
use symcurvo::report::*;
use symcurvo::shapes::*;

// ---------------------------------------------------------------- C01
curve_case!(Eval {} "eval" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 0);
    veq(c, "point", &crv.pt(t), &r[0]);
});
curve_case!(Samples { n: usize } "samples" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let (a, b) = m.s.domain();
    let (a, b) = if c.choice("range", 2) == 0 {
        (c.k(a), c.k(b))
    } else {
        let s = c.var("a", a, b);
        let e = c.var("b", a, b);
        c.assume(s, Rel::Lt, e);
        (s, e)
    };
    let p = crv.samples(a, b, m.n);
    let q = crv.samples_with(a, b, m.n);
    c.check("sample count", p.len() == m.n && q.len() == m.n);
    for i in 0..m.n.min(p.len()).min(q.len()) {
        let t = a + (b - a) * c.ratio(i as i64, m.n as i64 - 1);
        c.eq("sample parameter", q[i].0, t);
        let r = g.at(t, 0);
        veq(c, "sample", &p[i], &r[0]);
        veq(c, "sample with parameter", &q[i].1, &r[0]);
    }
});
curve_case!(Data {} "data" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let d = crv.dehom();
    let w = crv.weights();
    c.check("counts", d.len() == m.s.n() && w.len() == m.s.n());
    for i in 0..d.len().min(w.len()).min(m.s.n()) {
        veq(c, "dehomogenized control point", &d[i], &g.cart[i]);
        c.eq("weight", w[i], g.w[i]);
    }
    let (a, b) = crv.knots_domain();
    let (da, db) = g.domain();
    c.eq("domain start", a, da);
    c.eq("domain end", b, db);
    c.eq("domain interval", crv.knots_domain_interval(), db - da);
    let lo = m.s.domain().0 - 5.0;
    let hi = m.s.domain().1 + 5.0;
    let u = c.var("u", lo, hi);
    let v = crv.knots_constrain(u);
    c.le("constrained below end", v, db);
    c.le("constrained above start", da, v);
    if u >= da && u <= db {
        c.eq("inside is unchanged", u, v);
    } else if u < da {
        c.eq("below goes to start", v, da);
    } else {
        c.eq("above goes to end", v, db);
    }
});
fn c01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        for w in [W::One, W::Sym] {
            for three in [false, true] {
                v.push(Box::new(Eval { s: s.clone(), w, three }));
            }
        }
        v.push(Box::new(Data { s: s.clone(), w: W::Sym, three: s.degree % 2 == 0 }));
    }
    for n in symk(t) {
        v.push(Box::new(Eval { s: shape(n).sym(), w: if n.starts_with("u3") { W::One } else { W::Fix }, three: false }));
    }
    for (s, n) in [("d1i", 3), ("d2", 2), ("d2i", 4), ("u2", 3), ("d3i", 3), ("d3m2", 5), ("u3", 3)] {
        v.push(Box::new(Samples { s: shape(s), w: if n == 3 { W::Sym } else { W::One }, three: n == 4, n }));
    }
    v
}
fn symk(t: Tier) -> Vec<&'static str> {
    match t {
        Tier::Quick => vec!["d1i", "d2i", "d2n", "d2m", "d3i", "u2", "u2n", "d3m2", "u3"],
        Tier::Thorough => vec!["d1i", "d2i", "d2n", "d2m", "d3i", "u2", "u2n", "d3m2", "u3", "d3n", "d3m3", "d3m12", "u3h", "d4", "d5"],
    }
}

// ---------------------------------------------------------------- C02
curve_case!(Deriv {} "deriv" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 2);
    veq(c, "tangent", &crv.tan(t), &r[1]);
    veq(c, "second derivative", &crv.d2(t), &r[2]);
    let (p, d) = crv.pt_tan(t);
    veq(c, "point of point_tangent", &p, &r[0]);
    veq(c, "tangent of point_tangent", &d, &r[1]);
});
fn c02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        for w in [W::One, W::Fix, W::Sym] {
            if w == W::Sym && s.degree > 3 && t == Tier::Quick {
                continue;
            }
            for three in [false, true] {
                v.push(Box::new(Deriv { s: s.clone(), w, three }));
            }
        }
    }
    for n in symk(t) {
        v.push(Box::new(Deriv { s: shape(n).sym(), w: W::One, three: false }));
    }
    v
}

// ---------------------------------------------------------------- C03
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ins {
    /// one symbolic parameter
    One,
    /// the same symbolic parameter k times
    Rep(usize),
    /// two ascending symbolic parameters
    Two,
    /// an interior knot, k more times
    At(usize, usize),
    /// interior knot i once, and a symbolic parameter after it
    Mix(usize),
}
fn insert_list<C: Ctx>(c: &mut C, ins: Ins, g: &Geo<C::S>, dom: (f64, f64)) -> Vec<C::S> {
    let (a, b) = dom;
    match ins {
        Ins::One => {
            let u = inside(c, "u", a, b);
            for x in g.brk.iter() {
                off(c, u, *x);
            }
            vec![u]
        }
        Ins::Rep(k) => {
            let u = inside(c, "u", a, b);
            // stay off the knots: multiplicity is At's business
            for x in g.brk.iter() {
                off(c, u, *x);
            }
            vec![u; k]
        }
        Ins::Two => {
            let u = inside(c, "u", a, b);
            let v = inside(c, "v", a, b);
            let gap = c.k(GAP);
            c.assume(u + gap, Rel::Le, v);
            // insertion points at a knot exactly are covered by At and Mix
            for x in g.brk.iter() {
                off(c, u, *x);
                off(c, v, *x);
            }
            vec![u, v]
        }
        Ins::At(i, k) => vec![g.brk[i]; k],
        Ins::Mix(i) => {
            let u = inside(c, "u", a, b);
            let gap = c.k(GAP);
            c.assume(g.brk[i] + gap, Rel::Le, u);
            for x in g.brk.iter().skip(i + 1) {
                off(c, u, *x);
            }
            vec![g.brk[i], u]
        }
    }
}
fn sorted<C: Ctx>(c: &mut C, old: &[C::S], add: &[C::S]) -> Vec<C::S> {
    let _ = c;
    let mut v = old.to_vec();
    for x in add {
        let i = v.iter().position(|y| *y > *x).unwrap_or(v.len());
        v.insert(i, *x);
    }
    v
}
curve_case!(Refine { ins: Ins } "refine" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let mut crv = g.curve::<N>();
    let list = insert_list(c, m.ins, &g, m.s.domain());
    let r = crv.try_refine_knot(list.clone());
    c.ok("refine succeeds", r);
    let want = sorted(c, &g.knots, &list);
    knots_eq(c, "knots", crv.knots().as_slice(), &want);
    wellformed(c, "refined", &crv);
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 0);
    veq(c, "shape", &crv.pt(t), &r[0]);
});
curve_case!(RefineNone {} "refine-none" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let mut crv = g.curve::<N>();
    let r = crv.try_refine_knot(vec![]);
    c.ok("empty refinement succeeds", r);
    knots_eq(c, "knots", crv.knots().as_slice(), &g.knots);
    for (a, b) in rows(&crv).iter().zip(g.hom.iter()) {
        veq(c, "control", a, b);
    }
});
curve_case!(AddKnot { ins: Ins } "add" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let mut crv = g.curve::<N>();
    let list = insert_list(c, m.ins, &g, m.s.domain());
    for u in &list {
        let r = crv.try_add_knot(*u);
        c.ok("add succeeds", r);
    }
    let want = sorted(c, &g.knots, &list);
    knots_eq(c, "knots", crv.knots().as_slice(), &want);
    wellformed(c, "added", &crv);
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 0);
    veq(c, "shape", &crv.pt(t), &r[0]);
});
curve_case!(AddOutside {} "add-outside" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let mut crv = g.curve::<N>();
    let (a, b) = (m.s.knots[0], *m.s.knots.last().unwrap());
    let u = if c.choice("side", 2) == 0 { c.var("u", a - 9.0, a - GAP) } else { c.var("u", b + GAP, b + 9.0) };
    let r = crv.try_add_knot(u);
    c.check("knot outside the knot range is refused", r.is_err());
    knots_eq(c, "knots", crv.knots().as_slice(), &g.knots);
    for (a, b) in rows(&crv).iter().zip(g.hom.iter()) {
        veq(c, "control", a, b);
    }
});
fn c03(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        let p = s.degree;
        let mut list = vec![Ins::One, Ins::Two];
        for k in 2..=p {
            list.push(Ins::Rep(k));
        }
        let d = s.distinct();
        for i in 1..d.len() - 1 {
            let room = p.saturating_sub(s.mult(d[i]));
            for k in 1..=room {
                list.push(Ins::At(i, k));
            }
            if room > 0 {
                list.push(Ins::Mix(i));
            }
        }
        for ins in list {
            for w in [W::One, W::Sym] {
                let heavy = p >= 4 && w == W::Sym;
                if heavy && t == Tier::Quick && ins != Ins::One {
                    continue;
                }
                v.push(Box::new(Refine { s: s.clone(), w, three: p == 2, ins }));
                v.push(Box::new(AddKnot { s: s.clone(), w, three: p == 3, ins }));
            }
        }
        v.push(Box::new(RefineNone { s: s.clone(), w: W::Sym, three: false }));
        v.push(Box::new(AddOutside { s: s.clone(), w: W::Sym, three: false }));
    }
    for n in symk(t) {
        v.push(Box::new(Refine { s: shape(n).sym(), w: W::One, three: false, ins: Ins::One }));
        v.push(Box::new(AddKnot { s: shape(n).sym(), w: W::One, three: false, ins: Ins::One }));
    }
    v
}

// ---------------------------------------------------------------- C04
curve_case!(ClampC {} "clamp" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let mut crv = g.curve::<N>();
    c.check("is_clamped beforehand", crv.is_clamped() == m.s.clamped());
    let r = crv.try_clamp();
    c.ok("clamp succeeds", r);
    wellformed(c, "clamped", &crv);
    c.check("is_clamped afterwards", crv.is_clamped());
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 0);
    veq(c, "shape", &crv.pt(t), &r[0]);
});
curve_case!(Bezier {} "bezier" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let r = crv.try_decompose_bezier_segments();
    let segs = match c.ok("decompose succeeds", r) {
        Some(s) => s,
        None => return,
    };
    let p = m.s.degree;
    // every segment is one polynomial piece, clamped; they abut
    let mut prev: Option<C::S> = None;
    for (i, s) in segs.iter().enumerate() {
        c.check("segment degree", s.degree() == p);
        c.check("segment has degree+1 control points", s.control_points().len() == p + 1);
        wellformed(c, "segment", s);
        let (a, b) = s.knots_domain();
        c.rel_tol("segment is not empty", a, Rel::Lt, b, -GAP / 2.0);
        let k = s.knots().to_vec();
        for j in 0..=p {
            c.eq("clamped start", k[j], a);
            c.eq("clamped end", k[p + 1 + j], b);
        }
        if let Some(x) = prev {
            c.eq(&format!("segments {} and {} abut", i - 1, i), x, a);
        }
        prev = Some(b);
    }
    let (da, db) = g.domain();
    if m.s.clamped() {
        c.eq("first segment starts the domain", segs[0].knots_domain().0, da);
        c.eq("last segment ends the domain", segs[segs.len() - 1].knots_domain().1, db);
        c.check("one segment per nonempty span", segs.len() + 1 == g.brk.len());
    }
    // on every nonempty span of the domain the covering segment traces the curve
    let i = c.choice("span", g.brk.len() - 1);
    let (a, b) = (g.brk[i], g.brk[i + 1]);
    let f = c.var("f", 0.0, 1.0 - GAP);
    let t = a + (b - a) * f;
    let span = span_index(&g, i);
    let cover: Vec<usize> = (0..segs.len()).filter(|j| { let (x, y) = segs[*j].knots_domain(); (x - a).abs() < c.k(1e-7) && (y - b).abs() < c.k(1e-7) }).collect();
    c.check("exactly one segment covers the span", cover.len() == 1);
    if cover.len() == 1 {
        let r = g.at_span(t, 0, span);
        veq(c, "segment shape", &segs[cover[0]].pt(t), &r[0]);
    }
});
/// index of the i-th nonempty span of the domain
fn span_index<S: Scalar>(g: &Geo<S>, i: usize) -> usize {
    let mut s = g.degree + g.mult[0] - 1;
    // first breakpoint is the domain start: its last occurrence
    let first_copies = g.knots.iter().filter(|k| **k == g.brk[0]).count();
    let before = g.knots.iter().filter(|k| **k < g.brk[0]).count();
    s = before + first_copies - 1 + 0 * s;
    for j in 1..=i {
        s += g.mult[j];
    }
    s
}
fn c04(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        for w in [W::One, W::Fix, W::Sym] {
            if w == W::Sym && s.degree > 3 && t == Tier::Quick {
                continue;
            }
            v.push(Box::new(ClampC { s: s.clone(), w, three: s.degree == 2 }));
            v.push(Box::new(Bezier { s: s.clone(), w, three: s.degree == 3 }));
        }
    }
    for n in symk(t) {
        if n == "u3" && t == Tier::Quick {
            continue;
        }
        v.push(Box::new(ClampC { s: shape(n).sym(), w: W::One, three: false }));
        v.push(Box::new(Bezier { s: shape(n).sym(), w: W::One, three: false }));
    }
    v
}

// ---------------------------------------------------------------- C05
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Sym,
    Knot(usize),
}
fn at_param<C: Ctx>(c: &mut C, name: &str, at: At, g: &Geo<C::S>, dom: (f64, f64)) -> C::S {
    match at {
        At::Sym => {
            let u = inside(c, name, dom.0, dom.1);
            for x in g.brk.iter() {
                off(c, u, *x);
            }
            u
        }
        At::Knot(i) => g.brk[i],
    }
}
/// curve `p` must trace the original over [a,b]
fn piece<C: Ctx, const N: usize>(c: &mut C, what: &str, p: &NurbsCurve<C::S, Const<N>>, g: &Geo<C::S>, a: C::S, b: C::S)
where
    NurbsCurve<C::S, Const<N>>: CurveExt<C::S>,
{
    wellformed(c, what, p);
    let (x, y) = p.knots_domain();
    c.eq(&format!("{} domain start", what), x, a);
    c.eq(&format!("{} domain end", what), y, b);
    c.check(&format!("{} degree", what), p.degree() == g.degree);
    match c.choice(&format!("{} where", what), 3) {
        0 => {
            let f = c.var("f", 0.0, 1.0 - GAP);
            let t = a + (b - a) * f;
            let r = g.at(t, 0);
            // a discontinuity of the curve has two values: only the derivative is one-sided here
            veq(c, &format!("{} shape", what), &p.pt(t), &r[0]);
        }
        1 => {
            let r = g.at(a, 0);
            veq(c, &format!("{} start point", what), &p.pt(a), &r[0]);
        }
        _ => {
            let r = g.at(b, 0);
            veq(c, &format!("{} end point", what), &p.pt(b), &r[0]);
        }
    }
}
curve_case!(SplitC { at: At } "split" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let u = at_param(c, "u", m.at, &g, m.s.domain());
    let r = crv.split(u);
    if let Some((l, r)) = c.ok("split succeeds", r) {
        let (a, b) = g.domain();
        if c.choice("side", 2) == 0 {
            piece(c, "head", &l, &g, a, u);
        } else {
            piece(c, "tail", &r, &g, u, b);
        }
    }
});
curve_case!(SplitOut {} "split-outside" |m, c| {
    // parameters outside the domain behave like the nearest end: the nonempty half is the whole curve
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let (x, y) = m.s.domain();
    let (a, b) = g.domain();
    if c.choice("end", 2) == 0 {
        let u = c.var("u", x - 5.0, x);
        let r = crv.split(u);
        if let Some((_, r)) = c.ok("split succeeds", r) {
            piece(c, "tail", &r, &g, a, b);
        }
    } else {
        let u = c.var("u", y, y + 5.0);
        let r = crv.split(u);
        if let Some((l, _)) = c.ok("split succeeds", r) {
            piece(c, "head", &l, &g, a, b);
        }
    }
});
curve_case!(TrimC { p: At, q: At } "trim" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let u = at_param(c, "u", m.p, &g, m.s.domain());
    let v = at_param(c, "v", m.q, &g, m.s.domain());
    c.assume(u + c.k(GAP), Rel::Le, v);
    let (a, b) = g.domain();
    if c.choice("order", 2) == 0 {
        let r = crv.trim(u, v);
        if let Some(r) = c.ok("trim succeeds", r) {
            c.check("one piece", r.len() == 1);
            piece(c, "inside", &r[0], &g, u, v);
        }
    } else {
        let r = crv.trim(v, u);
        if let Some(r) = c.ok("trim succeeds", r) {
            c.check("two pieces", r.len() == 2);
            if c.choice("which", 2) == 0 {
                piece(c, "after", &r[0], &g, v, b);
            } else {
                piece(c, "before", &r[1], &g, a, u);
            }
        }
    }
});
fn c05(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        let d = s.distinct();
        let mut ats = vec![At::Sym];
        for i in 1..d.len() - 1 {
            ats.push(At::Knot(i));
        }
        for at in ats.iter() {
            for w in [W::One, W::Sym] {
                if w == W::Sym && s.degree > 3 && t == Tier::Quick {
                    continue;
                }
                v.push(Box::new(SplitC { s: s.clone(), w, three: s.degree == 2, at: *at }));
            }
        }
        if s.clamped() {
            v.push(Box::new(SplitOut { s: s.clone(), w: W::Fix, three: s.degree == 1 }));
        }
        if s.degree > 3 && t == Tier::Quick {
            continue;
        }
        let w = if s.degree <= 2 { W::Sym } else { W::One };
        v.push(Box::new(TrimC { s: s.clone(), w, three: s.degree == 2, p: At::Sym, q: At::Sym }));
        if d.len() > 2 {
            v.push(Box::new(TrimC { s: s.clone(), w, three: s.degree == 3, p: At::Knot(1), q: At::Sym }));
            v.push(Box::new(TrimC { s: s.clone(), w, three: s.degree == 1, p: At::Sym, q: At::Knot(d.len() - 2) }));
        }
        if d.len() > 3 {
            v.push(Box::new(TrimC { s: s.clone(), w, three: false, p: At::Knot(1), q: At::Knot(2) }));
        }
    }
    for n in symk(t) {
        v.push(Box::new(SplitC { s: shape(n).sym(), w: W::One, three: false, at: At::Sym }));
        if shape(n).distinct().len() > 2 {
            v.push(Box::new(SplitC { s: shape(n).sym(), w: W::One, three: false, at: At::Knot(1) }));
        }
    }
    v
}

// ---------------------------------------------------------------- C08
curve_case!(InvertC {} "invert" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let inv = crv.inverse();
    wellformed(c, "inverted", &inv);
    c.check("degree", inv.degree() == m.s.degree);
    let (a, b) = g.domain();
    let (x, y) = inv.knots_domain();
    c.eq("domain length", y - x, b - a);
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 0);
    veq(c, "reversed shape", &inv.pt(y - (t - a)), &r[0]);
    let back = inv.inverse();
    knots_eq(c, "twice: knots", back.knots().as_slice(), &g.knots);
    for (p, q) in rows(&back).iter().zip(g.hom.iter()) {
        veq(c, "twice: control points", p, q);
    }
});
fn c08(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        for w in [W::One, W::Sym] {
            for three in [false, true] {
                v.push(Box::new(InvertC { s: s.clone(), w, three }));
            }
        }
    }
    for n in symk(t) {
        v.push(Box::new(InvertC { s: shape(n).sym(), w: if n.starts_with("u3") { W::One } else { W::Fix }, three: false }));
    }
    v
}

// ---------------------------------------------------------------- C09
curve_case!(TransformC {} "transform" |m, c| {
    let g = geo(c, "", &m.s, N - 1, m.w);
    let crv = g.curve::<N>();
    let a = affine(c, N - 1);
    let tr = crv.matrix(&a);
    wellformed(c, "transformed", &tr);
    knots_eq(c, "knots", tr.knots().as_slice(), &g.knots);
    let w = tr.weights();
    for i in 0..w.len().min(g.w.len()) {
        c.eq("weights kept", w[i], g.w[i]);
    }
    let t = param(c, &g, m.s.domain());
    let r = g.at(t, 0);
    veq(c, "image of the point", &tr.pt(t), &apply(&a, &r[0]));
});
fn c09(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        for w in [W::One, W::Sym] {
            if w == W::Sym && s.degree > 3 && t == Tier::Quick {
                continue;
            }
            for three in [false, true] {
                v.push(Box::new(TransformC { s: s.clone(), w, three }));
            }
        }
    }
    v
}

fn main() {
    main_with(vec![
        Prop { id: "C01", cases: c01 },
        Prop { id: "C02", cases: c02 },
        Prop { id: "C03", cases: c03 },
        Prop { id: "C04", cases: c04 },
        Prop { id: "C05", cases: c05 },
        Prop { id: "C08", cases: c08 },
        Prop { id: "C09", cases: c09 },
    ]);
}
