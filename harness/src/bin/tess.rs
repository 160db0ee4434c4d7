//! C17, T01, T02: tessellation of curves and surfaces.
use curvo::prelude::*;
use nalgebra::Const;
use std::collections::HashMap;
use symcurvo::ctx::*;
use symcurvo::plain_case;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;
use symcurvo::surf::*;

fn dot<S: Scalar>(a: &[S], b: &[S]) -> S {
    a.iter().zip(b.iter()).fold(refs::k(0.0), |s, (x, y)| s + *x * *y)
}
fn sub<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().zip(b.iter()).map(|(x, y)| *x - *y).collect()
}
fn cross<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// the random draws, all alike; returns where between the ends they look
fn draws<C: Ctx>(c: &mut C) -> f64 {
    let r = [0.0, 0.5, 1.0 - 1.0 / 1024.0][c.choice("draws", 3)];
    rand::set_draws(vec![r]);
    0.5_f64 + 0.2_f64 * r
}

// ---------------------------------------------------------------- C17
// A graph over its own parameter: x(t) = t, so that every returned point tells its parameter.
fn graph<C: Ctx>(c: &mut C, s: &Shape, free: &[usize], amp: f64, dim: usize) -> Geo<C::S> {
    let mut g = geo(c, "", s, 1, W::One);
    let p = c.k(s.degree as f64);
    for i in 0..s.n() {
        let x = (1..=s.degree).fold(c.k(0.0), |a, j| a + g.knots[i + j]) / p;
        let mut v = vec![x];
        for d in 1..dim {
            v.push(if free.contains(&i) { c.var(&format!("h{}_{}", d, i), -amp, amp) } else { c.k(0.0) });
        }
        g.cart[i] = v.clone();
        v.push(c.k(1.0));
        g.hom[i] = v;
    }
    g
}
fn samples<C: Ctx>(c: &mut C, g: &Geo<C::S>, pts: &[Vec<C::S>], tol: C::S, dom: (f64, f64), looked: f64, quadratic: bool) {
    let dim = pts[0].len();
    let (a, b) = g.domain();
    c.check("at least both ends", pts.len() >= 2);
    c.eq("starts at the start", pts[0][0], a);
    c.eq("ends at the end", pts[pts.len() - 1][0], b);
    for p in pts {
        veq(c, "on the curve", p, &g.at(p[0], 0).pop().unwrap());
    }
    for w in pts.windows(2) {
        let gap = c.k((dom.1 - dom.0) / 4096.0);
        c.le("in order, none twice", w[0][0] + gap, w[1][0]);
    }
    // between neighbours the curve departs from the chord by no more than the tolerance allows
    let i = c.choice("gap", 9);
    if i + 1 >= pts.len() || dim != 2 {
        return;
    }
    let (p, q) = (&pts[i], &pts[i + 1]);
    // at the place looked at; a single quadratic is then flat everywhere
    let at = if quadratic { c.choice("at", 4) } else { 0 };
    let f = c.k([looked, 0.5, 0.125, 0.6875][at]);
    let m = g.at(p[0] + (q[0] - p[0]) * f, 0).pop().unwrap();
    let (d, e) = (sub(q, p), sub(&m, p));
    let area = d[0] * e[1] - d[1] * e[0];
    let slack = if at > 0 { c.k(1.25) * tol } else { tol };
    c.le("flat between neighbours", area, slack);
    c.le("flat between neighbours, other side", -slack, area);
}
plain_case!(Graph { name: &'static str, free: &'static [usize], amp: f64, tol: f64 } "graph" |m, c| {
    let s = shape(m.name);
    let looked = draws(c);
    let g = graph(c, &s, m.free, m.amp, 2);
    let crv = g.curve::<3>();
    // the tolerance itself is free in an octave
    let tol = if m.tol > 0.0 { c.var("tol", m.tol, m.tol * 2.0) } else { c.k(0.001) };
    let pts = crv.tess(if m.tol > 0.0 { Some(tol) } else { None });
    samples(c, &g, &pts, tol, s.domain(), looked, s.distinct().len() == 2 && s.degree == 2);
});
// run through in a short or a long parameter interval
plain_case!(Paced { name: &'static str, free: &'static [usize], amp: f64, tol: f64, pace: f64 } "graph-paced" |m, c| {
    let s = shape(m.name);
    let looked = draws(c);
    let g = graph(c, &s, m.free, m.amp, 2);
    let knots = g.knots.iter().map(|k| *k * c.k(m.pace)).collect();
    let crv = NurbsCurve2D::try_new(s.degree, hpoints(&g.hom), knots).unwrap();
    let tol = c.var("tol", m.tol, m.tol * 2.0);
    let pts = crv.tess(Some(tol));
    samples(c, &g, &pts, tol, s.domain(), looked, s.distinct().len() == 2 && s.degree == 2);
});
plain_case!(Graph3 { name: &'static str, free: &'static [usize], amp: f64, tol: f64 } "graph-3d" |m, c| {
    let s = shape(m.name);
    let looked = draws(c);
    let g = graph(c, &s, m.free, m.amp, 3);
    let crv = g.curve::<4>();
    let tol = c.k(m.tol);
    let pts = crv.tess(Some(tol));
    samples(c, &g, &pts, tol, s.domain(), looked, s.distinct().len() == 2 && s.degree == 2);
});
// a curve that is flat enough as it is comes back as its two ends
plain_case!(Straight { name: &'static str } "straight" |m, c| {
    let s = shape(m.name);
    draws(c);
    let mut g = geo(c, "", &s, 1, W::One);
    let o = c.vars("o", 2, -5.0, 5.0);
    let d = c.vars("d", 2, 1.0, 5.0);
    let p = c.k(s.degree as f64);
    for i in 0..s.n() {
        let x = (1..=s.degree).fold(c.k(0.0), |a, j| a + g.knots[i + j]) / p;
        g.cart[i] = vec![o[0] + d[0] * x, o[1] + d[1] * x];
        g.hom[i] = vec![g.cart[i][0], g.cart[i][1], c.k(1.0)];
    }
    let tol = c.var("tol", 0.001, 1.0);
    let pts = g.curve::<3>().tess(Some(tol));
    c.check("two points", pts.len() == 2);
    let (a, b) = g.domain();
    veq(c, "start", &pts[0], &g.at(a, 0).pop().unwrap());
    veq(c, "end", &pts[pts.len() - 1], &g.at(b, 0).pop().unwrap());
});
// a degree 1 curve is returned as its own corners
plain_case!(Poly { name: &'static str, three: bool } "polyline" |m, c| {
    let s = shape(m.name);
    let g = geo(c, "", &s, if m.three { 3 } else { 2 }, W::Sym);
    let pts = if m.three { g.curve::<4>().tess(None) } else { g.curve::<3>().tess(None) };
    c.check("one point per corner", pts.len() == s.n());
    for (i, p) in pts.iter().enumerate() {
        let t = g.knots[i + 1];
        veq(c, "corner", p, &g.at(t, 0).pop().unwrap());
    }
});
// closed curves whose ends meet are not collapsed
plain_case!(Bulge {} "closed" |m, c| {
    draws(c);
    let one = c.k(1.0);
    let o = c.vars("o", 2, -5.0, 5.0);
    let h = c.var("h", 1.0, 3.0);
    let zero = c.k(0.0);
    let pts: Vec<Vec<C::S>> = vec![vec![o[0], o[1], one], vec![o[0] + h, o[1] + h, one], vec![o[0] - h, o[1] + h, one], vec![o[0], o[1], one]];
    let crv = NurbsCurve2D::try_new(3, hpoints(&pts), vec![zero, zero, zero, zero, one, one, one, one]).unwrap();
    let tol = c.k(0.25);
    let r = crv.tess(Some(tol));
    c.check("more than the two ends", r.len() > 2);
    veq(c, "start", &r[0], &o);
    veq(c, "end", &r[r.len() - 1], &o);
});
// chains: each joint once, a loop closed
plain_case!(Chain { n: usize, closed: bool, curved: bool } "chain" |m, c| {
    draws(c);
    let one = c.k(1.0);
    let zero = c.k(0.0);
    let o = c.vars("o", 2, -5.0, 5.0);
    let s = c.var("s", 0.5, 1.0);
    let at: [[f64; 2]; 4] = [[0., 0.], [3., 0.], [3., 4.], [-1., 4.]];
    let mut corners: Vec<Vec<C::S>> = (0..m.n + usize::from(!m.closed)).map(|i| vec![o[0] + s * c.k(at[i][0]), o[1] + s * c.k(at[i][1])]).collect();
    if m.closed {
        corners.push(o.clone());
    }
    let mut want: Vec<Vec<C::S>> = vec![];
    let mut spans = vec![];
    let tol = c.k(1.0);
    for i in 0..m.n {
        let (a, b) = (&corners[i], &corners[i + 1]);
        let crv = if m.curved && i % 2 == 1 {
            let mid: Vec<C::S> = vec![(a[0] + b[0]) / c.k(2.0) + c.k(0.5), (a[1] + b[1]) / c.k(2.0) - c.k(0.25)];
            let h = |p: &[C::S]| vec![p[0], p[1], one];
            NurbsCurve2D::try_new(2, hpoints(&[h(a), h(&mid), h(b)]), vec![zero, zero, zero, one, one, one]).unwrap()
        } else {
            let h = |p: &[C::S]| vec![p[0], p[1], one];
            NurbsCurve2D::try_new(1, hpoints(&[h(a), h(b)]), vec![zero, zero, one, one]).unwrap()
        };
        let mut t = crv.tess(Some(tol));
        t.pop();
        want.extend(t);
        spans.push(crv);
    }
    want.push(corners[m.n].clone());
    let cc: CompoundCurve<C::S, Const<3>> = spans.into_iter().collect();
    let got = cc.tessellate(Some(tol));
    c.check("each joint once", got.len() == want.len());
    for (p, q) in got.iter().zip(want.iter()) {
        veq(c, "the spans' points in turn", &pv(p), q);
    }
});
fn c17(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![Box::new(Bulge {})];
    let list: &[(&str, &'static [usize], f64, f64)] = &[
        ("d2", &[1], 1.0, 0.125),
        ("d2", &[0, 1, 2], 0.5, 0.0625),
        ("d2p", &[1, 2], 0.25, 0.125),
        ("d2m", &[1, 3], 0.25, 0.25),
        ("d3", &[1], 0.5, 0.0625),
        ("d3m2", &[2, 3], 0.25, 0.0625),
        ("u2", &[2], 0.25, 0.125),
        ("u2n", &[1, 2], 0.125, 0.125),
    ];
    for (name, free, amp, tol) in list {
        v.push(Box::new(Graph { name, free, amp: *amp, tol: *tol }));
    }
    for (name, free, amp, tol, pace) in [("d2", &[1][..], 0.5, 0.0625, 1.0 / 1024.0), ("d3", &[1], 0.5, 0.0625, 1.0 / 65536.0), ("u2", &[2], 0.25, 0.125, 1024.0)] {
        v.push(Box::new(Paced { name, free, amp, tol, pace }));
    }
    v.push(Box::new(Graph { name: "d2", free: &[1], amp: 0.0625, tol: 0.0 }));
    v.push(Box::new(Graph3 { name: "d2", free: &[1], amp: 1.0, tol: 0.0625 }));
    v.push(Box::new(Graph3 { name: "d3", free: &[2], amp: 1.0, tol: 0.0625 }));
    for name in ["d2", "d2i", "d2n", "d3", "d3n", "u2", "u3e"] {
        v.push(Box::new(Straight { name }));
    }
    for name in ["d1", "d1i", "u1"] {
        for three in [false, true] {
            v.push(Box::new(Poly { name, three }));
        }
    }
    for n in 1..=(if th { 4 } else { 3 }) {
        for curved in [false, true] {
            if n < 4 {
                v.push(Box::new(Chain { n, closed: false, curved }));
            }
            if n > 1 {
                v.push(Box::new(Chain { n, closed: true, curved }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- T01, T02
/// the mesh as seen from outside; parameters are concrete
struct Mesh<S: Scalar> {
    p: Vec<Vec<S>>,
    n: Vec<Vec<S>>,
    uv: Vec<[S; 2]>,
    key: Vec<usize>,
    keys: Vec<[S; 2]>,
    f: Vec<[usize; 3]>,
}
fn mesh<S: Scalar>(t: &SurfaceTessellation3D<S>) -> Mesh<S> {
    let uv: Vec<[S; 2]> = t.uvs().iter().map(|x| [x.x, x.y]).collect();
    let mut keys: Vec<[S; 2]> = vec![];
    let key = uv
        .iter()
        .map(|x| match keys.iter().position(|y| y == x) {
            Some(i) => i,
            None => {
                keys.push(*x);
                keys.len() - 1
            }
        })
        .collect();
    Mesh { p: t.points().iter().map(pv).collect(), n: t.normals().iter().map(|x| x.iter().cloned().collect()).collect(), uv, key, keys, f: t.faces().clone() }
}
/// the triangles cover the parameter rectangle exactly once and fit together along their edges
fn covers<C: Ctx>(c: &mut C, m: &Mesh<C::S>, du: (C::S, C::S), dv: (C::S, C::S)) {
    let zero = c.k(0.0);
    let mut sum = zero;
    let mut edges: HashMap<(usize, usize), i32> = HashMap::new();
    let sizes = m.p.len() == m.n.len() && m.p.len() == m.uv.len();
    c.check("as many points, normals and parameters", sizes);
    for f in &m.f {
        c.check("indices in range", f.iter().all(|i| *i < m.uv.len()));
        let [a, b, d] = f.map(|i| m.uv[i]);
        let ar = (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0]);
        c.le("no triangle turned over", zero, ar);
        sum += ar;
        let k = f.map(|i| m.key[i]);
        for (x, y) in [(k[0], k[1]), (k[1], k[2]), (k[2], k[0])] {
            if x != y {
                *edges.entry((x, y)).or_insert(0) += 1;
                *edges.entry((y, x)).or_insert(0) -= 1;
            }
        }
    }
    for x in &m.keys {
        c.check("inside the domain", du.0 <= x[0] && x[0] <= du.1 && dv.0 <= x[1] && x[1] <= dv.1);
    }
    c.eq("covers the domain", sum, (du.1 - du.0) * (dv.1 - dv.0) * c.k(2.0));
    let mut open = 0;
    for ((x, y), k) in &edges {
        if *k == 0 {
            continue;
        }
        let (a, b) = (m.keys[*x], m.keys[*y]);
        let side = (a[0] == b[0] && (a[0] == du.0 || a[0] == du.1)) || (a[1] == b[1] && (a[1] == dv.0 || a[1] == dv.1));
        if !side {
            open += 1;
        }
    }
    c.check("no gap along an edge", open == 0);
}
/// vertices lie on the surface with its unit normal
fn lies<C: Ctx>(c: &mut C, m: &Mesh<C::S>, g: &Geo2<C::S>, kind: Kind) {
    let n = m.p.len();
    let one = c.k(1.0);
    let zero = c.k(0.0);
    let mut seen: Vec<Option<usize>> = vec![None; m.keys.len()];
    let (du, dv) = (g.du(), g.dv());
    for i in 0..n {
        let [u, v] = m.uv[i];
        // where the surface has no normal any finite one will do
        let pole = match kind {
            Kind::Ball | Kind::Cone => v == dv.1,
            Kind::BallT => u == du.1,
            _ => false,
        };
        if let Some(j) = seen[m.key[i]] {
            veq(c, "same place, same point", &m.p[i], &m.p[j]);
            if !pole {
                veq(c, "same place, same normal", &m.n[i], &m.n[j]);
            }
            continue;
        }
        seen[m.key[i]] = Some(i);
        veq(c, "on the surface", &m.p[i], &g.at(u, v));
        if pole {
            c.le("a finite normal", dot(&m.n[i], &m.n[i]), one + one);
            continue;
        }
        c.eq("unit normal", dot(&m.n[i], &m.n[i]), one);
        let (a, b) = (g.d(u, v, 1, 0), g.d(u, v, 0, 1));
        c.eq("normal across u", dot(&m.n[i], &a), zero);
        c.eq("normal across v", dot(&m.n[i], &b), zero);
        let z = cross(&a, &b);
        c.le("normal on the side of the surface", zero, dot(&z, &m.n[i]));
    }
}
/// surfaces whose unit normals are rational at dyadic parameters
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// tilted by a free angle
    Plane,
    /// two strips at free angles (u of degree 1)
    Crease,
    /// a quarter of a cylinder around a free axis along v
    Arc,
    /// an eighth of a sphere, the pole at the end of v
    Ball,
    /// the same with the parameters exchanged
    BallT,
    /// a quarter of a cone with the apex at the end of v
    Cone,
}
fn surface<C: Ctx>(c: &mut C, su: &Shape, sv: &Shape, kind: Kind) -> Geo2<C::S> {
    let mut g = geo2(c, "", su, sv, 3, W::One);
    let one = c.k(1.0);
    let two = c.k(2.0);
    let o = c.vars("o", 3, -5.0, 5.0);
    let r = c.var("r", 0.5, 4.0);
    let avg = |k: &[C::S], i: usize, p: usize, d: C::S| (1..=p).fold(one - one, |a, j| a + k[i + j]) / d;
    let (dp, dq) = (c.k(su.degree as f64), c.k(sv.degree as f64));
    // the quarter circle: (1-t^2, 2t) / (1+t^2)
    let zero = one - one;
    let arc = [[one, zero, one], [one, one, one], [zero, two, two]];
    let turn: Vec<C::S> = match kind {
        Kind::Plane => vec![c.var("s0", -0.5, 0.5)],
        Kind::Crease => vec![c.var("s0", -0.5, 0.5), c.var("s1", -0.5, 0.5)],
        _ => vec![],
    };
    for i in 0..su.n() {
        for j in 0..sv.n() {
            let x = avg(&g.ku, i, su.degree, dp);
            let y = avg(&g.kv, j, sv.degree, dq);
            let (lx, w): (Vec<C::S>, C::S) = match kind {
                Kind::Plane => {
                    let s = turn[0];
                    (vec![(one - s * s) * x, y, two * s * x], one)
                }
                Kind::Crease => {
                    let m = g.ku[1 + su.n() / 2];
                    let (a, b) = if x <= m { (x, zero) } else { (m, x - m) };
                    let (s, t) = (turn[0], turn[1]);
                    (vec![(one - s * s) * a + (one - t * t) * b, y, two * s * a + two * t * b], one)
                }
                Kind::Arc => (vec![arc[i][0], arc[i][1], y * arc[i][2]], arc[i][2]),
                Kind::Cone => {
                    let f = c.k(3.0) * (one - y);
                    (vec![f * arc[i][0], f * arc[i][1], c.k(4.0) * y * arc[i][2]], arc[i][2])
                }
                Kind::Ball => (vec![arc[i][0] * arc[j][0], arc[i][1] * arc[j][0], arc[i][2] * arc[j][1]], arc[i][2] * arc[j][2]),
                Kind::BallT => (vec![arc[j][0] * arc[i][0], arc[j][1] * arc[i][0], arc[j][2] * arc[i][1]], arc[i][2] * arc[j][2]),
            };
            // p = o + r * local, in homogeneous coordinates
            let mut h: Vec<C::S> = (0..3).map(|d| o[d] * w + r * lx[d]).collect();
            h.push(w);
            g.cart[i][j] = vec![];
            g.hom[i][j] = h;
        }
    }
    g
}
fn options<C: Ctx>(tol: C::S, divs: (usize, usize), depth: (usize, usize)) -> AdaptiveTessellationOptions<C::S> {
    AdaptiveTessellationOptions { norm_tolerance: tol, min_divs_u: divs.0, min_divs_v: divs.1, min_depth: depth.0, max_depth: depth.1 }
}
/// along the edges of the cells the normals turn by no more than the tolerance; cells with a corner where the
/// surface has no normal are not divided any further
fn smooth<C: Ctx>(c: &mut C, m: &Mesh<C::S>, tol: C::S, pole: &[bool]) {
    // triangles that share an edge belong to one cell
    let mut cell: Vec<usize> = (0..m.f.len()).collect();
    let mut by_edge: HashMap<(usize, usize), usize> = HashMap::new();
    for (i, f) in m.f.iter().enumerate() {
        for (x, y) in [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])] {
            if let Some(j) = by_edge.insert((x.min(y), x.max(y)), i) {
                let (a, b) = (cell[i], cell[j]);
                cell.iter_mut().for_each(|k| if *k == a { *k = b });
            }
        }
    }
    let touched: std::collections::HashSet<usize> =
        m.f.iter().enumerate().filter(|(_, f)| f.iter().any(|x| pole[*x])).map(|(i, _)| cell[i]).collect();
    let mut free = std::collections::HashSet::new();
    for (i, f) in m.f.iter().enumerate() {
        if !touched.contains(&cell[i]) {
            free.extend(f.iter().cloned());
        }
    }
    let mut inner: HashMap<(usize, usize), usize> = HashMap::new();
    for f in &m.f {
        for (x, y) in [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])] {
            *inner.entry((x.min(y), x.max(y))).or_insert(0) += 1;
        }
    }
    let mut done = std::collections::HashSet::new();
    for ((x, y), k) in &inner {
        let (kx, ky) = (m.key[*x].min(m.key[*y]), m.key[*x].max(m.key[*y]));
        if *k == 1 && kx != ky && free.contains(x) && free.contains(y) && done.insert((kx, ky)) {
            let d = sub(&m.n[*x], &m.n[*y]);
            c.le("refined to the tolerance", dot(&d, &d), tol);
        }
    }
}
plain_case!(Adaptive { su: &'static str, sv: &'static str, kind: Kind, divs: (usize, usize), depth: (usize, usize), tol: (f64, f64) } "adaptive" |m, c| {
    let (su, sv) = (shape(m.su), shape(m.sv));
    let g = surface(c, &su, &sv, m.kind);
    let s = g.surface::<4>();
    let tol = c.var("tol", m.tol.0, m.tol.1);
    let t = mesh(&s.tessellate(Some(options::<C>(tol, m.divs, m.depth))));
    covers(c, &t, g.du(), g.dv());
    lies(c, &t, &g, m.kind);
    // how wide and how narrow a cell of the base grid is, and what the depths make of it
    let span = |k: &[C::S], p: usize, n: usize, d: usize| {
        if p < 2 {
            let w: Vec<C::S> = (1..k.len() - 2).map(|i| k[i + 1] - k[i]).collect();
            (w.iter().fold(w[0], |a, b| if *b < a { *b } else { a }), w.iter().fold(w[0], |a, b| if *b > a { *b } else { a }))
        } else {
            let w = (k[n] - k[p]) / c.k(d.max(2 * (n - 1)) as f64);
            (w, w)
        }
    };
    let base = [span(&g.ku, su.degree, su.n(), m.divs.0), span(&g.kv, sv.degree, sv.n(), m.divs.1)];
    for f in &t.f {
        let [a, b, d] = f.map(|i| t.uv[i]);
        let ar = (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0]);
        c.le("divided as often as asked at least", ar, base[0].1 * base[1].1 * c.k(0.5f64.powi(m.depth.0 as i32)));
        for d in 0..2 {
            let x = f.map(|i| t.uv[i][d]);
            for (a, b) in [(0, 1), (1, 2), (2, 0)] {
                let e = if x[a] < x[b] { x[b] - x[a] } else { x[a] - x[b] };
                let fine = c.k(0.5f64.powi(m.depth.1.max(m.depth.0) as i32));
                if x[a] != x[b] && m.depth.1 < 8 {
                    c.le("no finer than the depth limit", base[d].0 * fine, e);
                }
            }
        }
    }
    if m.depth.1 > 7 {
        let pole: Vec<bool> = t
            .uv
            .iter()
            .map(|[u, v]| match m.kind {
                Kind::Ball | Kind::Cone => *v == g.dv().1,
                Kind::BallT => *u == g.du().1,
                _ => false,
            })
            .collect();
        smooth(c, &t, tol, &pole);
    }
    if m.kind == Kind::Plane && m.depth.0 == 0 {
        // flat: the base grid, whatever the tolerance
        let cells = |p: usize, n: usize, d: usize, k: usize| if p < 2 { k } else { d.max(2 * (n - 1)) };
        let want = cells(su.degree, su.n(), m.divs.0, su.knots.len() - 3) * cells(sv.degree, sv.n(), m.divs.1, sv.knots.len() - 3);
        c.check("a flat surface is not refined", t.f.len() == 2 * want);
    }
});
plain_case!(Plain { su: &'static str, sv: &'static str, kind: Kind } "grid" |m, c| {
    let (su, sv) = (shape(m.su), shape(m.sv));
    let g = surface(c, &su, &sv, m.kind);
    let s = g.surface::<4>();
    let t = mesh(&s.tessellate(None));
    covers(c, &t, g.du(), g.dv());
    lies(c, &t, &g, m.kind);
});
fn t01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (su, sv) in [("d1", "d1"), ("d2", "d1"), ("d1i", "d2"), ("d2n", "d2"), ("u2", "d1"), ("d3", "u1"), ("d1", "u2"), ("d2n", "d2n")] {
        v.push(Box::new(Plain { su, sv, kind: Kind::Plane }));
        for divs in [(1, 1), (3, 5)] {
            for depth in [(0, 0), (1, 1), (2, 3), (3, 3)] {
                if divs == (1, 1) || depth.0 < 2 || th {
                    v.push(Box::new(Adaptive { su, sv, kind: Kind::Plane, divs, depth, tol: (0.0625, 3.0) }));
                }
            }
        }
    }
    for (su, sv, kind) in [("d1i", "d1", Kind::Crease), ("d1i", "d2", Kind::Crease), ("d2", "d1", Kind::Arc), ("d2", "d2", Kind::Arc), ("d2", "d2", Kind::Ball), ("d2", "d2", Kind::BallT), ("d2", "d1", Kind::Cone)] {
        v.push(Box::new(Plain { su, sv, kind }));
        for depth in [1, 2, 3] {
            v.push(Box::new(Adaptive { su, sv, kind, divs: (1, 1), depth: (0, depth), tol: (0.0078125, 1.0) }));
        }
        v.push(Box::new(Adaptive { su, sv, kind, divs: (1, 3), depth: (1, 2), tol: (0.0078125, 1.0) }));
        if kind != Kind::Crease {
            v.push(Box::new(Adaptive { su, sv, kind, divs: (1, 1), depth: (0, 8), tol: (if th { 0.0078125 } else { 0.03125 }, 1.0) }));
        }
    }
    v
}

/// the sides in the order u_min, u_max, v_min, v_max
fn constraints<S: Scalar>(lists: &[Option<Vec<S>>; 4]) -> BoundaryConstraints<S> {
    let mut b = BoundaryConstraints::new();
    if let Some(l) = &lists[0] {
        b = b.with_v_parameters_at_u_min(l.clone());
    }
    if let Some(l) = &lists[1] {
        b = b.with_v_parameters_at_u_max(l.clone());
    }
    if let Some(l) = &lists[2] {
        b = b.with_u_parameters_at_v_min(l.clone());
    }
    if let Some(l) = &lists[3] {
        b = b.with_u_parameters_at_v_max(l.clone());
    }
    b
}
// the parameters of the constrained sides: concrete fractions, or free where `free` says so
plain_case!(Sides { su: &'static str, sv: &'static str, kind: Kind, lists: [&'static [f64]; 4], free: bool, depth: Option<(usize, usize)> } "sides" |m, c| {
    let (su, sv) = (shape(m.su), shape(m.sv));
    let g = surface(c, &su, &sv, m.kind);
    let s = g.surface::<4>();
    let (du, dv) = (g.du(), g.dv());
    let mut lists: [Option<Vec<C::S>>; 4] = [None, None, None, None];
    for k in 0..4 {
        if m.lists[k].is_empty() {
            continue;
        }
        let (a, b) = if k < 2 { dv } else { du };
        let n = m.lists[k].len();
        let mut l = vec![];
        for (i, f) in m.lists[k].iter().enumerate() {
            let f = if m.free && i > 0 && i + 1 < n {
                c.var(&format!("f{}_{}", k, i), *f - 0.09375, *f + 0.09375)
            } else {
                c.k(*f)
            };
            l.push(a + (b - a) * f);
        }
        lists[k] = Some(l);
    }
    let opt = m.depth.map(|d| (c.var("tol", 0.03125, 1.0), d));
    let t = mesh(&s.constrained_tessellate(constraints(&lists), opt.map(|(tol, d)| options::<C>(tol, (1, 1), d))));
    covers(c, &t, du, dv);
    lies(c, &t, &g, m.kind);
    for k in 0..4 {
        let Some(l) = &lists[k] else { continue };
        let (along, across, end) = match k { 0 => (1, 0, du.0), 1 => (1, 0, du.1), 2 => (0, 1, dv.0), _ => (0, 1, dv.1) };
        let side: Vec<C::S> = t.keys.iter().filter(|x| x[across] == end).map(|x| x[along]).collect();
        for x in l {
            c.check("each parameter asked for is there", side.iter().any(|y| y == x));
        }
        for y in &side {
            c.check("no other parameter is", l.iter().any(|x| y == x));
        }
    }
});
const NO: &[f64] = &[];
fn t02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let l2: &'static [f64] = &[0.0, 1.0];
    let l3: &'static [f64] = &[0.0, 0.375, 1.0];
    let l4: &'static [f64] = &[0.0, 0.25, 0.625, 1.0];
    let l5: &'static [f64] = &[0.0, 0.125, 0.5, 0.75, 1.0];
    let sets: &[[&'static [f64]; 4]] = &[
        [NO, NO, l3, NO],
        [NO, NO, NO, l4],
        [l4, NO, NO, NO],
        [NO, l3, NO, NO],
        [NO, NO, l3, l5],
        [l2, l4, NO, NO],
        [l3, l3, l4, l4],
        [l4, l4, l3, NO],
        [l2, l2, l2, l2],
    ];
    for (su, sv) in [("d1", "d1"), ("d2", "d1"), ("d1", "d2"), ("d2", "d2"), ("d2n", "d3")] {
        for lists in sets {
            v.push(Box::new(Sides { su, sv, kind: Kind::Plane, lists: *lists, free: false, depth: None }));
            v.push(Box::new(Sides { su, sv, kind: Kind::Plane, lists: *lists, free: false, depth: Some((0, 2)) }));
            if th || su != "d2n" {
                v.push(Box::new(Sides { su, sv, kind: Kind::Plane, lists: *lists, free: false, depth: Some((2, 2)) }));
            }
        }
        for i in [0, 3, 5] {
            if th || su != "d2n" {
                v.push(Box::new(Sides { su, sv, kind: Kind::Plane, lists: sets[i], free: true, depth: None }));
            }
        }
    }
    // known finding: sides so unlike one another that the cells between them fold
    v.push(Box::new(Sides { su: "d2", sv: "d2", kind: Kind::Plane, lists: [l5, l2, l3, l4], free: false, depth: Some((2, 2)) }));
    v.push(Box::new(Sides { su: "d2", sv: "d2", kind: Kind::Plane, lists: [l5, l2, l3, l4], free: false, depth: None }));
    v.push(Box::new(Sides { su: "d2", sv: "d1", kind: Kind::Arc, lists: [l5, l3, l3, l4], free: false, depth: None }));
    for (su, sv, kind) in [("d2", "d1", Kind::Arc), ("d2", "d2", Kind::Arc), ("d1i", "d2", Kind::Crease)] {
        for lists in sets {
            for depth in [None, Some((0, 2)), Some((1, 3))] {
                v.push(Box::new(Sides { su, sv, kind, lists: *lists, free: false, depth }));
            }
        }
    }
    v
}

fn main() {
    main_with(vec![Prop { id: "C17", cases: c17 }, Prop { id: "T01", cases: t01 }, Prop { id: "T02", cases: t02 }]);
}
