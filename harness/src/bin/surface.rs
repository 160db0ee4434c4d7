//! S01..S06, S09: evaluation, derivatives and the shape-preserving operations of surfaces.
use curvo::prelude::*;
use nalgebra::Const;
use symcurvo::ctx::*;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;
use symcurvo::surf::*;
use symcurvo::surf_case;

/// pairs of knot patterns (u, v)
fn pairs(t: Tier) -> Vec<(Shape, Shape)> {
    let mut v = vec![
        ("d1", "d1"), ("d1i", "d2"), ("d2", "d1"), ("d2", "d2"), ("d2i", "d2m"), ("d3", "d2"), ("d2", "d3i"), ("d1", "d3"), ("u2", "d2"),
        ("d2", "u2n"), ("u1", "u2r"), ("d2p", "d1i"), ("d3m2", "d1"), ("u2q", "d1"),
    ];
    if t == Tier::Thorough {
        v.extend([("d3i", "d3m3"), ("d3m12", "d2n"), ("u3", "d3"), ("d4", "d2i"), ("d1", "d5"), ("u2e", "u2s"), ("d3", "u3e"), ("d5", "d1i")]);
    }
    v.into_iter().map(|(a, b)| (shape(a), shape(b))).collect()
}

// ---------------------------------------------------------------- S01
surf_case!(Eval {} "eval" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let u = param1(c, "u", &g.bu, m.su.domain());
    let v = param1(c, "v", &g.bv, m.sv.domain());
    veq(c, "point", &s.pt(u, v), &g.at(u, v));
});
surf_case!(Data {} "data" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    c.check("degrees", s.degrees() == (g.pu, g.pv));
    let ((a, b), (x, y)) = s.dom();
    c.eq("u domain start", a, g.du().0);
    c.eq("u domain end", b, g.du().1);
    c.eq("v domain start", x, g.dv().0);
    c.eq("v domain end", y, g.dv().1);
    let (iu, iv) = s.interval();
    c.eq("u interval", iu, b - a);
    c.eq("v interval", iv, y - x);
    let (p, q) = s.dom_at(UVDirection::U);
    c.eq("domain by direction u", q - p, b - a);
    let (p, q) = s.dom_at(UVDirection::V);
    c.eq("domain by direction v", q - p, y - x);
    let d = s.dehom();
    let tr = s.transposed();
    c.check("rows", d.len() == m.su.n() && tr.len() == m.sv.n());
    for i in 0..m.su.n().min(d.len()) {
        c.check("columns", d[i].len() == m.sv.n());
        for j in 0..m.sv.n().min(d[i].len()) {
            veq(c, "dehomogenized control point", &d[i][j], &g.cart[i][j]);
            veq(c, "transposed control point", &tr[j][i], &g.hom[i][j]);
        }
    }
});
fn s01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for w in [W::One, W::Fix, W::Sym] {
            v.push(Box::new(Eval { su: su.clone(), sv: sv.clone(), w, three: true }));
            if su.degree + sv.degree <= 4 {
                v.push(Box::new(Eval { su: su.clone(), sv: sv.clone(), w, three: false }));
            }
        }
        v.push(Box::new(Data { su: su.clone(), sv: sv.clone(), w: W::Sym, three: true }));
    }
    for (a, b) in [("d1i", "d2i"), ("d2m", "d1i"), ("u2", "d2n"), ("d3i", "d1i")] {
        v.push(Box::new(Eval { su: shape(a).sym(), sv: shape(b).sym(), w: W::One, three: true }));
    }
    v
}

// ---------------------------------------------------------------- S02
surf_case!(Deriv { order: usize } "deriv" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let u = param1(c, "u", &g.bu, m.su.domain());
    let v = param1(c, "v", &g.bv, m.sv.domain());
    let d = s.ders(u, v, m.order);
    c.check("rows of derivatives", d.len() == m.order + 1);
    for k in 0..=m.order {
        for l in 0..=(m.order - k) {
            veq(c, &format!("derivative ({},{})", k, l), &d[k][l], &g.d(u, v, k, l));
        }
    }
});
pub struct Normal {
    su: Shape,
    sv: Shape,
    w: W,
}
fn cross<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot<S: Scalar>(a: &[S], b: &[S]) -> S {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
impl Case for Normal {
    fn name(&self) -> String {
        format!("normal-{}-{}-{:?}", self.su.id(), self.sv.id(), self.w)
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let g = geo2(c, "", &self.su, &self.sv, 3, self.w);
        let s = g.surface::<4>();
        let u = param1(c, "u", &g.bu, self.su.domain());
        let v = param1(c, "v", &g.bv, self.sv.domain());
        let n = s.normal_at(u, v);
        let want = cross(&g.d(u, v, 1, 0), &g.d(u, v, 0, 1));
        veq(c, "normal", n.as_slice(), &want);
    }
}
fn s02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for w in [W::One, W::Fix] {
            for order in [1, 2] {
                // both cubic and rational: out of reach
                if w == W::Fix && su.degree.min(sv.degree) > 2 {
                    continue;
                }
                v.push(Box::new(Deriv { su: su.clone(), sv: sv.clone(), w, three: order == 1, order }));
            }
            if su.degree + sv.degree <= 4 {
                v.push(Box::new(Deriv { su: su.clone(), sv: sv.clone(), w, three: false, order: 3 }));
                if su.degree + sv.degree <= 3 {
                    v.push(Box::new(Deriv { su: su.clone(), sv: sv.clone(), w, three: false, order: 4 }));
                }
            }
            if su.degree + sv.degree <= 4 && (w == W::One || su.degree + sv.degree <= 3) {
                v.push(Box::new(Normal { su: su.clone(), sv: sv.clone(), w }));
            }
        }
        if su.degree * sv.degree <= 2 {
            v.push(Box::new(Deriv { su: su.clone(), sv: sv.clone(), w: W::Sym, three: false, order: 1 }));
        }
    }
    v
}

// ---------------------------------------------------------------- S03
surf_case!(Sample { divs: (usize, usize) } "sample" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let (du, dv) = m.divs;
    let p = s.samples(du, dv);
    c.check("rows of samples", p.len() == du + 1);
    let us = reg(c, g.du(), du);
    let vs = reg(c, g.dv(), dv);
    for i in 0..=du {
        c.check("columns of samples", p[i].len() == dv + 1);
        for j in 0..=dv {
            veq(c, "sample", &p[i][j], &g.at(us[i], vs[j]));
        }
    }
});
fn reg<C: Ctx>(c: &mut C, d: (C::S, C::S), n: usize) -> Vec<C::S> {
    (0..=n).map(|i| if i == n { d.1 } else { d.0 + (d.1 - d.0) * c.ratio(i as i64, n as i64) }).collect()
}
surf_case!(SampleDers { divs: (usize, usize), order: usize } "sample-ders" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let (du, dv) = m.divs;
    let d = s.sample_ders(du, dv, m.order);
    c.check("rows of samples", d.len() == du + 1);
    let us = reg(c, g.du(), du);
    let vs = reg(c, g.dv(), dv);
    for i in 0..=du {
        c.check("columns of samples", d[i].len() == dv + 1);
        for j in 0..=dv {
            for k in 0..=m.order {
                for l in 0..=(m.order - k) {
                    veq(c, &format!("derivative ({},{}) of a sample", k, l), &d[i][j][k][l], &g.d(us[i], vs[j], k, l));
                }
            }
        }
    }
});
/// the normals and the regular tessellation; control net: a sloped sheet so that normals exist
pub struct Tess {
    su: Shape,
    sv: Shape,
    divs: (usize, usize),
}
impl Case for Tess {
    fn name(&self) -> String {
        format!("tess-{}-{}-{:?}", self.su.id(), self.sv.id(), self.divs).replace(' ', "")
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let mut g = geo2(c, "", &self.su, &self.sv, 3, W::One);
        // x and y run with the indices, so that the tangents are independent; z stays symbolic in one point
        let (nu, nv) = (self.su.n(), self.sv.n());
        for i in 0..nu {
            for j in 0..nv {
                let mut z = c.k(((i * 7 + j * 3) % 5) as f64 * 0.5);
                if i == nu / 2 && j == nv / 2 {
                    z = g.cart[i][j][2];
                }
                let q = vec![c.k(i as f64 * 2.0), c.k(j as f64 + 0.5 * i as f64), z];
                g.hom[i][j] = q.iter().cloned().chain([c.k(1.0)]).collect();
                g.cart[i][j] = q;
            }
        }
        let s = g.surface::<4>();
        let (du, dv) = self.divs;
        let us = reg(c, g.du(), du);
        let vs = reg(c, g.dv(), dv);
        let nn = s.regular_sample_normals(du, dv);
        let t = s.regular_tessellate(du, dv);
        let n = (du + 1) * (dv + 1);
        c.check("counts", nn.len() == du + 1 && t.points().len() == n && t.normals().len() == n && t.uvs().len() == n && t.faces().len() == 2 * du * dv);
        for i in 0..=du {
            for j in 0..=dv {
                let k = i * (dv + 1) + j;
                c.eq("uv u", t.uvs()[k].x, us[i]);
                c.eq("uv v", t.uvs()[k].y, vs[j]);
                veq(c, "tessellation point", &pv(&t.points()[k]), &g.at(us[i], vs[j]));
                let want = cross(&g.d(us[i], vs[j], 1, 0), &g.d(us[i], vs[j], 0, 1));
                for (what, x) in [("normal", &nn[i][j]), ("tessellation normal", &t.normals()[k])] {
                    let x: Vec<C::S> = x.iter().cloned().collect();
                    c.eq(&format!("{} has unit length", what), dot(&x, &x), c.k(1.0));
                    let z = cross(&x, &want);
                    for q in z {
                        c.eq(&format!("{} is parallel to the surface normal", what), q, c.k(0.0));
                    }
                    let zero = c.k(0.0);
                    c.rel_tol(&format!("{} points along the surface normal", what), zero, Rel::Lt, dot(&x, &want), 0.0);
                }
            }
        }
        // every cell of the grid is covered by two triangles, consistently oriented in uv
        let mut cells = vec![0usize; du * dv];
        for f in t.faces() {
            c.check("indices in range", f.iter().all(|i| *i < n));
            if !f.iter().all(|i| *i < n) {
                continue;
            }
            let iu = f.iter().map(|i| i / (dv + 1)).collect::<Vec<_>>();
            let iv = f.iter().map(|i| i % (dv + 1)).collect::<Vec<_>>();
            let (a, b) = (*iu.iter().min().unwrap(), *iv.iter().min().unwrap());
            c.check("a triangle stays in one cell", iu.iter().all(|x| *x <= a + 1) && iv.iter().all(|x| *x <= b + 1));
            let area = (iu[1] as i64 - iu[0] as i64) * (iv[2] as i64 - iv[0] as i64) - (iu[2] as i64 - iu[0] as i64) * (iv[1] as i64 - iv[0] as i64);
            c.check("triangles are oriented like the surface normal", area == 1);
            if a < du && b < dv {
                cells[a * dv + b] += 1;
            }
        }
        c.check("two triangles per cell", cells.iter().all(|x| *x == 2));
        // the two triangles of a cell share a diagonal: their corner sets cover the four corners
        for (q, pair) in t.faces().chunks(2).enumerate() {
            let mut all: Vec<usize> = pair.iter().flat_map(|f| f.iter().cloned()).collect();
            all.sort();
            all.dedup();
            c.check(&format!("cell {} is covered without overlap", q), all.len() == 4);
        }
    }
}
fn s03(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for w in [W::One, W::Fix, W::Sym] {
            for divs in [(1, 2), (3, 2)] {
                v.push(Box::new(Sample { su: su.clone(), sv: sv.clone(), w, three: true, divs }));
            }
        }
        for order in [0, 1, 2] {
            v.push(Box::new(SampleDers { su: su.clone(), sv: sv.clone(), w: W::One, three: true, divs: (2, 3), order }));
            if su.degree * sv.degree <= 4 {
                v.push(Box::new(SampleDers { su: su.clone(), sv: sv.clone(), w: W::Fix, three: false, divs: (2, 1), order }));
            }
        }
        if su.degree * sv.degree <= 4 {
            for divs in [(1, 1), (2, 1), (1, 2), (2, 3)] {
                v.push(Box::new(Tess { su: su.clone(), sv: sv.clone(), divs }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- S04
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ins {
    None,
    One,
    Rep(usize),
    Two,
    At(usize, usize),
}
fn insert_list<C: Ctx>(c: &mut C, ins: Ins, brk: &[C::S], dom: (f64, f64)) -> Vec<C::S> {
    let mut one = |c: &mut C, n: &str| {
        let u = inside(c, n, dom.0, dom.1);
        for x in brk.iter() {
            off(c, u, *x);
        }
        u
    };
    match ins {
        Ins::None => vec![],
        Ins::One => vec![one(c, "k")],
        Ins::Rep(k) => vec![one(c, "k"); k],
        Ins::Two => {
            let (a, b) = (one(c, "k"), one(c, "l"));
            let gap = c.k(GAP);
            c.assume(a + gap, Rel::Le, b);
            vec![a, b]
        }
        Ins::At(i, k) => vec![brk[i]; k],
    }
}
fn sorted<S: Scalar>(old: &[S], add: &[S]) -> Vec<S> {
    let mut v = old.to_vec();
    for x in add {
        let i = v.iter().position(|y| *y > *x).unwrap_or(v.len());
        v.insert(i, *x);
    }
    v
}
surf_case!(Refine { dir: UVDirection, ins: Ins } "refine" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let mut s = g.surface::<N>();
    let isu = m.dir == UVDirection::U;
    let list = if isu { insert_list(c, m.ins, &g.bu, m.su.domain()) } else { insert_list(c, m.ins, &g.bv, m.sv.domain()) };
    let r = s.refine(list.clone(), m.dir);
    c.ok("refine succeeds", r);
    let (ku, kv) = s.kn();
    knots_eq(c, "u knots", &ku, &if isu { sorted(&g.ku, &list) } else { g.ku.clone() });
    knots_eq(c, "v knots", &kv, &if isu { g.kv.clone() } else { sorted(&g.kv, &list) });
    wellformed2(c, "refined", &s);
    let u = param1(c, "u", &g.bu, m.su.domain());
    let v = param1(c, "v", &g.bv, m.sv.domain());
    veq(c, "shape", &s.pt(u, v), &g.at(u, v));
});
fn s04(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for dir in [UVDirection::U, UVDirection::V] {
            let s = if dir == UVDirection::U { &su } else { &sv };
            let mut list = vec![Ins::None, Ins::One];
            if s.degree > 1 {
                list.push(Ins::Rep(s.degree));
            }
            if su.degree + sv.degree <= 4 {
                list.push(Ins::Two);
            }
            let d = s.distinct();
            for i in 1..d.len() - 1 {
                if s.degree > s.mult(d[i]) {
                    list.push(Ins::At(i, s.degree - s.mult(d[i])));
                }
            }
            for ins in list {
                v.push(Box::new(Refine { su: su.clone(), sv: sv.clone(), w: W::One, three: true, dir, ins }));
                if su.degree + sv.degree <= 4 && ins != Ins::Two {
                    v.push(Box::new(Refine { su: su.clone(), sv: sv.clone(), w: W::Fix, three: false, dir, ins }));
                }
                if su.degree + sv.degree <= 3 && ins == Ins::One {
                    v.push(Box::new(Refine { su: su.clone(), sv: sv.clone(), w: W::Sym, three: false, dir, ins }));
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- S05
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Sym,
    Knot(usize),
    Below,
    Above,
}
surf_case!(SplitS { dir: UVDirection, at: At } "split" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let isu = m.dir == UVDirection::U;
    let (brk, dom, ends) = if isu { (g.bu.clone(), m.su.domain(), g.du()) } else { (g.bv.clone(), m.sv.domain(), g.dv()) };
    let (k, cut) = match m.at {
        At::Sym => {
            let k = inside(c, "k", dom.0, dom.1);
            for x in brk.iter() {
                off(c, k, *x);
            }
            (k, k)
        }
        At::Knot(i) => (brk[i], brk[i]),
        At::Below => (c.var("k", dom.0 - 5.0, dom.0), ends.0),
        At::Above => (c.var("k", dom.1, dom.1 + 5.0), ends.1),
    };
    let r = s.split2(k, m.dir);
    if let Some((head, tail)) = c.ok("split succeeds", r) {
        let side = match m.at {
            At::Below => 1,
            At::Above => 0,
            _ => c.choice("side", 2),
        };
        let (p, a, b) = if side == 0 { (head, ends.0, cut) } else { (tail, cut, ends.1) };
        wellformed2(c, "piece", &p);
        c.check("degrees", p.degrees() == (g.pu, g.pv));
        let (du, dv) = p.dom();
        let (mine, other, other_want) = if isu { (du, dv, g.dv()) } else { (dv, du, g.du()) };
        c.eq("piece starts at", mine.0, a);
        c.eq("piece ends at", mine.1, b);
        c.eq("other direction starts at", other.0, other_want.0);
        c.eq("other direction ends at", other.1, other_want.1);
        let t = match c.choice("place", 3) {
            0 => {
                let f = c.var("f", 0.0, 1.0 - GAP);
                a + (b - a) * f
            }
            1 => a,
            _ => b,
        };
        let (u, v) = if isu {
            (t, param1(c, "v", &g.bv, m.sv.domain()))
        } else {
            (param1(c, "u", &g.bu, m.su.domain()), t)
        };
        veq(c, "shape", &p.pt(u, v), &g.at(u, v));
    }
});
fn s05(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for dir in [UVDirection::U, UVDirection::V] {
            let s = if dir == UVDirection::U { &su } else { &sv };
            let mut list = vec![At::Sym];
            for i in 1..s.distinct().len() - 1 {
                list.push(At::Knot(i));
            }
            if s.clamped() {
                list.push(At::Below);
                list.push(At::Above);
            }
            for at in list {
                v.push(Box::new(SplitS { su: su.clone(), sv: sv.clone(), w: W::One, three: true, dir, at }));
                if su.clamped() && sv.clamped() && (su.degree + sv.degree <= 3 || (su.degree + sv.degree == 4 && at != At::Sym)) {
                    v.push(Box::new(SplitS { su: su.clone(), sv: sv.clone(), w: W::Fix, three: false, dir, at }));
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- S06
/// the curve (degree, knots, rows) traces the surface along the fixed parameter
#[allow(clippy::too_many_arguments)]
fn traces<C: Ctx>(c: &mut C, what: &str, g: &Geo2<C::S>, crv: &(usize, Vec<C::S>, Vec<Vec<C::S>>), fixed_u: bool, t: C::S, other: C::S) {
    let (p, k, r) = crv;
    let want_p = if fixed_u { g.pv } else { g.pu };
    c.check(&format!("{} degree", what), *p == want_p);
    c.check(&format!("{} is well-formed", what), k.len() == r.len() + p + 1);
    knots_eq(c, &format!("{} knots", what), k, if fixed_u { &g.kv } else { &g.ku });
    let (u, v) = if fixed_u { (t, other) } else { (other, t) };
    let x = refs::rational(*p, k, r, other, 0).pop().unwrap();
    veq(c, what, &x, &g.at(u, v));
}
surf_case!(Iso { dir: UVDirection, at: At } "iso" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let isu = m.dir == UVDirection::U;
    let (brk, dom) = if isu { (g.bu.clone(), m.su.domain()) } else { (g.bv.clone(), m.sv.domain()) };
    let t = match m.at {
        At::Knot(i) => brk[i],
        _ => {
            let k = inside(c, "k", dom.0, dom.1);
            for x in brk.iter() {
                off(c, k, *x);
            }
            k
        }
    };
    let other = if isu { param1(c, "v", &g.bv, m.sv.domain()) } else { param1(c, "u", &g.bu, m.su.domain()) };
    let r = s.iso(t, m.dir);
    if let Some(crv) = c.ok("isocurve exists", r) {
        traces(c, "isocurve", &g, &crv, isu, t, other);
    }
});
surf_case!(Boundary {} "boundary" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let r = s.boundaries();
    if let Some(b) = c.ok("boundary curves exist", r) {
        let side = c.choice("side", 4);
        let (fixed_u, t) = [(true, g.du().0), (false, g.dv().0), (true, g.du().1), (false, g.dv().1)][side];
        let other = if fixed_u { param1(c, "v", &g.bv, m.sv.domain()) } else { param1(c, "u", &g.bu, m.su.domain()) };
        traces(c, "boundary curve", &g, &b[side], fixed_u, t, other);
    }
});
fn s06(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for dir in [UVDirection::U, UVDirection::V] {
            let s = if dir == UVDirection::U { &su } else { &sv };
            let mut list = vec![At::Sym];
            for i in 0..s.distinct().len() {
                list.push(At::Knot(i));
            }
            for at in list {
                v.push(Box::new(Iso { su: su.clone(), sv: sv.clone(), w: W::One, three: true, dir, at }));
                if su.degree + sv.degree <= 4 {
                    v.push(Box::new(Iso { su: su.clone(), sv: sv.clone(), w: W::Sym, three: false, dir, at }));
                }
            }
        }
        v.push(Box::new(Boundary { su: su.clone(), sv: sv.clone(), w: W::Sym, three: su.degree == 2 }));
    }
    v
}

// ---------------------------------------------------------------- S09
surf_case!(TransformS {} "transform" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let a = affine(c, N - 1);
    let tr = s.matrix(&a);
    let (ku, kv) = tr.kn();
    knots_eq(c, "u knots", &ku, &g.ku);
    knots_eq(c, "v knots", &kv, &g.kv);
    let ctrl = tr.ctrl();
    c.check("net size", ctrl.len() == m.su.n() && ctrl.iter().all(|r| r.len() == m.sv.n()));
    for i in 0..m.su.n() {
        for j in 0..m.sv.n() {
            c.eq("weights kept", ctrl[i][j][N - 1], g.w[i][j]);
            let p = apply(&a, &g.cart[i][j]);
            for d in 0..N - 1 {
                c.eq("control point image", ctrl[i][j][d], p[d] * g.w[i][j]);
            }
        }
    }
});
surf_case!(TransformPoint {} "transform-point" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let a = affine(c, N - 1);
    let tr = s.matrix(&a);
    let u = param1(c, "u", &g.bu, m.su.domain());
    let v = param1(c, "v", &g.bv, m.sv.domain());
    veq(c, "image of the point", &tr.pt(u, v), &apply(&a, &g.at(u, v)));
});
surf_case!(Flip {} "flip" |m, c| {
    let g = geo2(c, "", &m.su, &m.sv, N - 1, m.w);
    let s = g.surface::<N>();
    let op = c.choice("op", 4);
    let (f, ru, rv) = match op {
        0 => (s.flipped(FlipDirection::U), true, false),
        1 => (s.flipped(FlipDirection::V), false, true),
        2 => (s.flipped(FlipDirection::UV), true, true),
        _ => (s.inverse(), true, true),
    };
    wellformed2(c, "flipped", &f);
    c.check("degrees", f.degrees() == (g.pu, g.pv));
    let ((a, b), (x, y)) = f.dom();
    let ((p, q), (r, t)) = (g.du(), g.dv());
    c.eq("u length", b - a, q - p);
    c.eq("v length", y - x, t - r);
    let (ku, kv) = f.kn();
    if !ru {
        knots_eq(c, "u knots kept", &ku, &g.ku);
    } else {
        c.eq("u knots start", ku[0], g.ku[0]);
    }
    if !rv {
        knots_eq(c, "v knots kept", &kv, &g.kv);
    } else {
        c.eq("v knots start", kv[0], g.kv[0]);
    }
    let u = param1(c, "u", &g.bu, m.su.domain());
    let v = param1(c, "v", &g.bv, m.sv.domain());
    let fu = if ru { b - (u - p) } else { u };
    let fv = if rv { y - (v - r) } else { v };
    veq(c, "reversed shape", &f.pt(fu, fv), &g.at(u, v));
    let twice = match op {
        0 => f.flipped(FlipDirection::U),
        1 => f.flipped(FlipDirection::V),
        2 => f.flipped(FlipDirection::UV),
        _ => f.inverse(),
    };
    let (ku, kv) = twice.kn();
    knots_eq(c, "twice: u knots", &ku, &g.ku);
    knots_eq(c, "twice: v knots", &kv, &g.kv);
    let ctrl = twice.ctrl();
    for i in 0..m.su.n() {
        for j in 0..m.sv.n() {
            veq(c, "twice: control point", &ctrl[i][j], &g.hom[i][j]);
        }
    }
});
fn s09(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in pairs(t) {
        for w in [W::One, W::Sym] {
            v.push(Box::new(TransformS { su: su.clone(), sv: sv.clone(), w, three: true }));
            v.push(Box::new(TransformS { su: su.clone(), sv: sv.clone(), w, three: false }));
            if w == W::One || su.degree + sv.degree <= 4 {
                v.push(Box::new(Flip { su: su.clone(), sv: sv.clone(), w, three: true }));
            }
        }
        if su.degree + sv.degree <= 4 {
            v.push(Box::new(TransformPoint { su: su.clone(), sv: sv.clone(), w: W::Fix, three: true }));
        }
    }
    v
}
#[allow(dead_code)]
fn anchor(_: NurbsSurface<f64, Const<4>>) {}

fn main() {
    main_with(vec![
        Prop { id: "S01", cases: s01 },
        Prop { id: "S02", cases: s02 },
        Prop { id: "S03", cases: s03 },
        Prop { id: "S04", cases: s04 },
        Prop { id: "S05", cases: s05 },
        Prop { id: "S06", cases: s06 },
        Prop { id: "S09", cases: s09 },
    ]);
}
