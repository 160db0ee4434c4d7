//! P01, I01, B01: containment, intersections and boolean operations of polygons in the plane.
use curvo::prelude::operation::BooleanOperation;
use curvo::prelude::*;
use nalgebra::Point2;
use symcurvo::ctx::*;
use symcurvo::plain_case;
use symcurvo::report::*;
use symcurvo::shapes::*;

type At = &'static [[f64; 2]];

/// a closed polygon over knots a unit apart, or (lengths) over its own arc length
fn polygon<C: Ctx>(c: &C, at: At, lengths: bool) -> NurbsCurve2D<C::S> {
    let n = at.len();
    let mut k = vec![0.0];
    for i in 0..n {
        let (a, b) = (at[i], at[(i + 1) % n]);
        let l = ((b[0] - a[0]).powi(2) + (b[1] - a[1]).powi(2)).sqrt();
        k.push(k[i] + if lengths { l } else { 1.0 });
    }
    let mut knots = vec![c.k(0.0)];
    knots.extend(k.iter().map(|x| c.k(*x)));
    knots.push(c.k(*k.last().unwrap()));
    let h: Vec<Vec<C::S>> = (0..=n).map(|i| vec![c.k(at[i % n][0]), c.k(at[i % n][1]), c.k(1.0)]).collect();
    NurbsCurve2D::try_new(1, hpoints(&h), knots).unwrap()
}
fn inside(at: At, x: f64, y: f64) -> bool {
    let n = at.len();
    (0..n)
        .filter(|i| {
            let (a, b) = (at[*i], at[(*i + 1) % n]);
            (a[1] > y) != (b[1] > y) && x < a[0] + (y - a[1]) / (b[1] - a[1]) * (b[0] - a[0])
        })
        .count()
        % 2
        == 1
}
fn dist(at: At, x: f64, y: f64) -> f64 {
    let n = at.len();
    (0..n)
        .map(|i| {
            let (a, b) = (at[i], at[(i + 1) % n]);
            let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
            let s = (((x - a[0]) * dx + (y - a[1]) * dy) / (dx * dx + dy * dy)).clamp(0.0, 1.0);
            (x - a[0] - s * dx).hypot(y - a[1] - s * dy)
        })
        .fold(f64::MAX, f64::min)
}
/// runs of cells of side g, row by row, that stay further than far from the polygon, with the side they are on
fn runs(at: At, g: f64, far: f64) -> Vec<([f64; 4], bool)> {
    let lo = |d: usize| at.iter().map(|p| p[d]).fold(f64::MAX, f64::min) - 2.0 * g;
    let hi = |d: usize| at.iter().map(|p| p[d]).fold(f64::MIN, f64::max) + 2.0 * g;
    let mut out: Vec<([f64; 4], bool)> = vec![];
    let mut y = lo(1);
    while y < hi(1) {
        let mut x = lo(0);
        let mut open = false;
        while x < hi(0) {
            // the cell is within half its diagonal of its centre
            let (mx, my) = (x + 0.5 * g, y + 0.5 * g);
            if dist(at, mx, my) > far + g * std::f64::consts::FRAC_1_SQRT_2 {
                let i = inside(at, mx, my);
                match out.last_mut() {
                    Some((b, j)) if open && *j == i => b[1] = x + g,
                    _ => out.push(([x, x + g, y, y + g], i)),
                }
                open = true;
            } else {
                open = false;
            }
            x += g;
        }
        y += g;
    }
    out
}
fn solver<C: Ctx>(c: &C, distance: f64, division: usize) -> CurveIntersectionSolverOptions<C::S> {
    CurveIntersectionSolverOptions::default()
        .with_minimum_distance(c.k(distance))
        .with_knot_domain_division(division)
}

// ---------------------------------------------------------------- P01
#[derive(Clone, Copy, Debug)]
enum Made {
    /// one curve
    Curve,
    /// one curve over its arc length
    Lengths,
    /// a compound of this many runs of sides
    Compound(usize),
    /// a compound of two runs, the second of which starts slightly off the end of the first
    Gapped,
}
plain_case!(Within { name: &'static str, at: At, made: Made, distance: f64, division: usize, cell: f64, draws: f64 } "within" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    let cells = runs(m.at, m.cell, m.distance);
    let i = c.choice("cell", cells.len());
    let ([x0, x1, y0, y1], want) = cells[i];
    let p = Point2::new(c.var("x", x0, x1), c.var("y", y0, y1));
    let option = Some(solver(c, m.distance, m.division));
    let got = match m.made {
        Made::Curve => polygon(c, m.at, false).contains(&p, option),
        Made::Lengths => polygon(c, m.at, true).contains(&p, option),
        Made::Compound(_) | Made::Gapped => {
            let n = m.at.len();
            let (k, gap) = match m.made {
                Made::Compound(k) => (k, c.k(0.0)),
                _ => (2, c.var("gap", -1.0 / 65536.0, 1.0 / 65536.0)),
            };
            let spans = (0..k)
                .map(|j| {
                    let (a, b) = (j * n / k, (j + 1) * n / k);
                    let mut h: Vec<Vec<C::S>> = (a..=b).map(|i| vec![c.k(m.at[i % n][0]), c.k(m.at[i % n][1]), c.k(1.0)]).collect();
                    if j == 1 {
                        h[0][1] = h[0][1] + gap;
                    }
                    let mut knots = vec![c.k(0.0)];
                    knots.extend((0..=b - a).map(|i| c.k(i as f64)));
                    knots.push(c.k((b - a) as f64));
                    NurbsCurve2D::try_new(1, hpoints(&h), knots).unwrap()
                })
                .collect();
            CompoundCurve::new(spans).contains(&p, option)
        }
    };
    let Some(got) = c.ok("decided", got) else { return };
    c.check(if want { "a point inside is contained" } else { "a point outside is not contained" }, got == want);
});
const SQUARE: At = &[[0.0, 0.0], [2.0, 0.0], [2.0, 2.0], [0.0, 2.0]];
const SPIKE: At = &[[0.0, 0.0], [4.0, 0.0], [4.0, 1.0], [2.25, 1.0], [2.0, 4.0], [1.75, 1.0], [0.0, 1.0]];
const TRIANGLE: At = &[[0.0, 0.0], [0.0, 3.0], [4.0, 0.0]];
const NOTCH: At = &[[0.0, 0.0], [3.0, 0.0], [3.0, 3.0], [0.0, 3.0], [0.0, 2.0], [2.0, 2.0], [2.0, 1.0], [0.0, 1.0]];
const DIAMOND: At = &[[0.0, -2.0], [2.0, 0.0], [0.0, 2.0], [-2.0, 0.0]];
fn p01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for (name, at) in [("square", SQUARE), ("spike", SPIKE), ("triangle", TRIANGLE), ("notch", NOTCH), ("diamond", DIAMOND)] {
        let mut add = |made, draws| v.push(Box::new(Within { name, at, made, distance: 0.0625, division: 8, cell: if th { 0.125 } else { 0.25 }, draws }));
        add(Made::Curve, 0.5);
        add(Made::Compound(2), 0.5);
        if name == "diamond" || th {
            add(Made::Gapped, 0.5);
        }
        if name == "triangle" || name == "notch" {
            add(Made::Lengths, 0.5);
            add(Made::Curve, 0.125);
        }
        if th {
            add(Made::Curve, 0.875);
            add(Made::Compound(3), 0.25);
        }
    }
    for (name, form, reach) in [
        ("round", Form::Round([0.0, 0.0], 1.0, 0), 1.5),
        ("round-down", Form::Round([0.25, -0.5], 2.0, 3), 3.0),
        ("bar", Form::Bar([0.0, 0.0], [2.0, 0.5], [0.96, 0.28]), 2.5),
    ] {
        v.push(Box::new(WithinForm { name, form, step: reach / 8.0, reach, division: 32, draws: 0.5 }));
    }
    v
}

// ---------------------------------------------------------------- I01
#[derive(Clone, Copy, Debug)]
enum Axes {
    Plain,
    /// along (3/5, 4/5)
    Turned,
}
fn turn<C: Ctx>(c: &C, axes: Axes, p: &[C::S]) -> Vec<C::S> {
    match axes {
        Axes::Plain => p.to_vec(),
        Axes::Turned => {
            let (a, b) = (c.ratio(3, 5), c.ratio(4, 5));
            vec![p[0] * a - p[1] * b, p[0] * b + p[1] * a]
        }
    }
}
/// a path with sides along the axes, at unit speed, moved by d and then turned: as runs of sides
fn paths<C: Ctx>(c: &C, at: At, closed: bool, d: &[C::S; 2], axes: Axes, runs: usize) -> Vec<NurbsCurve2D<C::S>> {
    let n = at.len();
    let m = if closed { n + 1 } else { n };
    (0..runs)
        .map(|r| {
            let (i0, i1) = (r * (m - 1) / runs, (r + 1) * (m - 1) / runs);
            let mut k = vec![before(at, i0)];
            for i in i0..i1 {
                let (a, b) = (at[i], at[(i + 1) % n]);
                k.push(k[i - i0] + (b[0] - a[0]).abs() + (b[1] - a[1]).abs());
            }
            let mut knots = vec![c.k(k[0])];
            knots.extend(k.iter().map(|x| c.k(*x)));
            knots.push(c.k(*k.last().unwrap()));
            let h: Vec<Vec<C::S>> = (i0..=i1)
                .map(|i| {
                    let mut p = turn(c, axes, &[c.k(at[i % n][0]) + d[0], c.k(at[i % n][1]) + d[1]]);
                    p.push(c.k(1.0));
                    p
                })
                .collect();
            NurbsCurve2D::try_new(1, hpoints(&h), knots).unwrap()
        })
        .collect()
}
/// intervals of offsets of b along one axis in which no side of b comes within far of a parallel side of a,
/// cut at the multiples of grid with a hairline left out around each
fn offsets(a: &[[f64; 2]], b: &[[f64; 2]], d: usize, far: f64, grid: f64, hair: f64) -> Vec<(f64, f64)> {
    let mut at: Vec<f64> = a.iter().flat_map(|p| b.iter().map(move |q| p[d] - q[d])).collect();
    at.sort_by(|x, y| x.partial_cmp(y).unwrap());
    at.dedup();
    let mut v = vec![(at[0] - 2.0 * grid, at[0] - far)];
    v.extend(at.windows(2).map(|w| (w[0] + far, w[1] - far)));
    v.push((at[at.len() - 1] + far, at[at.len() - 1] + 2.0 * grid));
    let mut out = vec![];
    for (x, y) in v.into_iter().filter(|(x, y)| x < y) {
        let mut k = (x / grid).floor() * grid;
        while k < y {
            let (l, h) = ((k + hair).max(x), (k + grid - hair).min(y));
            if l < h {
                out.push((l, h));
            }
            k += grid;
        }
    }
    out
}
fn middle((a, b): (f64, f64)) -> f64 {
    0.5 * (a + b)
}
/// crossings of the sides of a with those of b at an offset: parameters up to constants, in the order along a
fn crossings(a: At, ca: bool, b: At, cb: bool, o: [f64; 2]) -> Vec<(usize, usize)> {
    let sides = |p: At, c: bool| if c { p.len() } else { p.len() - 1 };
    let mut v: Vec<(usize, usize, f64)> = vec![];
    for i in 0..sides(a, ca) {
        let (p, q) = (a[i], a[(i + 1) % a.len()]);
        for j in 0..sides(b, cb) {
            let (r, s) = (b[j], b[(j + 1) % b.len()]);
            let (r, s) = ([r[0] + o[0], r[1] + o[1]], [s[0] + o[0], s[1] + o[1]]);
            let d = if p[0] == q[0] { 1 } else { 0 };
            // a side owns its start: there only the point between two sides in a row can be met
            let within = |x: f64, y: f64, z: f64| x == z || x.min(y) < z && z < x.max(y);
            // side i runs along d, side j across it
            if r[d] == s[d] && within(p[d], q[d], r[d]) && within(r[1 - d], s[1 - d], p[1 - d]) {
                v.push((i, j, (r[d] - p[d]).abs()));
            }
        }
    }
    v.sort_by(|x, y| x.0.cmp(&y.0).then(x.2.partial_cmp(&y.2).unwrap()));
    v.into_iter().map(|(i, j, _)| (i, j)).collect()
}
fn before(at: At, i: usize) -> f64 {
    (0..i).map(|k| (at[(k + 1) % at.len()][0] - at[k][0]).abs() + (at[(k + 1) % at.len()][1] - at[k][1]).abs()).sum()
}
plain_case!(Meet { name: &'static str, axes: Axes, parts: (usize, usize), division: usize, draws: f64, grid: f64, a: (At, bool), b: (At, bool) } "meet" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    let dip = m.name.starts_with("dip");
    let far = if dip { 1.0 / 128.0 } else { 0.125 };
    let (ox, oy) = (offsets(m.a.0, m.b.0, 0, far, m.grid, m.grid / 16.0), offsets(m.a.0, m.b.0, 1, far, m.grid, m.grid / 16.0));
    let seam = dip || m.name.starts_with("seam");
    let ix = if seam { (0.0, 0.0) } else { ox[c.choice("dx", ox.len())] };
    let iy = oy[c.choice("dy", oy.len())];
    let dx = if seam { c.k(0.0) } else { c.var("dx", ix.0, ix.1) };
    let d = [dx, c.var("dy", iy.0, iy.1)];
    let zero = [c.k(0.0), c.k(0.0)];
    let mut a = paths(c, m.a.0, m.a.1, &zero, m.axes, m.parts.0.max(1));
    let mut b = paths(c, m.b.0, m.b.1, &d, m.axes, m.parts.1.max(1));
    let option = Some(solver(c, 1e-5, m.division));
    type It<S> = ((Point2<S>, S), (Point2<S>, S));
    let mut found: Vec<It<C::S>> = if m.parts.0 == 0 {
        let (a, b) = (a.remove(0), b.remove(0));
        let Some(v) = c.ok("found", a.find_intersections(&b, option)) else { return };
        v.iter().map(|it| (it.a().clone(), it.b().clone())).collect()
    } else if m.parts.1 == 0 {
        let (a, b) = (CompoundCurve::new(a), b.remove(0));
        let Some(v) = c.ok("found", a.find_intersections(&b, option)) else { return };
        v.iter().map(|it| ((it.a().1, it.a().2), (it.b().1, it.b().2))).collect()
    } else {
        let (a, b) = (CompoundCurve::new(a), CompoundCurve::new(b));
        let Some(v) = c.ok("found", a.find_intersections(&b, option)) else { return };
        v.iter().map(|it| ((it.a().1, it.a().2), (it.b().1, it.b().2))).collect()
    };
    if m.parts.1 > 0 {
        // in the order of the spans of the second
        found.sort_by(|x, y| x.0 .1.partial_cmp(&y.0 .1).unwrap());
    }
    let want = crossings(m.a.0, m.a.1, m.b.0, m.b.1, [middle(ix), middle(iy)]);
    c.check("every crossing once", found.len() == want.len());
    if found.len() != want.len() {
        return;
    }
    for (it, (i, j)) in found.iter().zip(want) {
        // sides i of a and j of b, one along each axis
        let (p, q) = (m.a.0[i], m.a.0[(i + 1) % m.a.0.len()]);
        let (r, s) = (m.b.0[j], m.b.0[(j + 1) % m.b.0.len()]);
        let k = if p[0] == q[0] { 1 } else { 0 };
        let up = |x: f64, y: f64| c.k(if y > x { 1.0 } else { -1.0 });
        let ta = c.k(before(m.a.0, i)) + up(p[k], q[k]) * (c.k(r[k]) + d[k] - c.k(p[k]));
        let tb = c.k(before(m.b.0, j)) + up(r[1 - k], s[1 - k]) * (c.k(p[1 - k]) - c.k(r[1 - k]) - d[1 - k]);
        let mut at = vec![c.k(p[1 - k]), c.k(r[k]) + d[k]];
        if k == 0 {
            at.reverse();
        }
        let at = turn(c, m.axes, &at);
        // the start of a closed curve may as well be given as its end
        let (ra, rb, half) = (c.k(before(m.a.0, m.a.0.len())), c.k(before(m.b.0, m.b.0.len())), c.k(0.5));
        let around = |t: C::S, want: C::S, round: C::S| if seam && t > want + round * half { t - round } else { t };
        c.eq_tol("parameter on the first", around(it.0 .1, ta, ra), ta, 1e-4);
        c.eq_tol("parameter on the second", around(it.1 .1, tb, rb), tb, 1e-4);
        for e in 0..2 {
            c.eq_tol("point on the first", it.0 .0[e], at[e], 1e-4);
            c.eq_tol("point on the second", it.1 .0[e], at[e], 1e-4);
        }
    }
});
/// a curve given by control points and weights over a domain
type Bez = (&'static [[f64; 3]], f64, f64);
// two curves moved together; where they cross: parameters on both
plain_case!(Rigid { name: &'static str, spin: bool, division: usize, draws: f64, a: Bez, b: Bez, at: &'static [[f64; 2]] } "rigid" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    c.keep_bits(192);
    let (x, y) = (c.var("x", -4.0, 4.0), c.var("y", -4.0, 4.0));
    let (cs, sn) = if m.spin {
        let t = c.angle("t", 0.0, 1.5, 1, true, true);
        (num_traits::Float::cos(t), num_traits::Float::sin(t))
    } else {
        (c.k(1.0), c.k(0.0))
    };
    let curve = |c: &C, b: &Bez| {
        let n = b.0.len();
        let h: Vec<Vec<C::S>> = b.0
            .iter()
            .map(|p| {
                let (u, v, w) = (c.k(p[0]), c.k(p[1]), c.k(p[2]));
                vec![(u * cs - v * sn + x) * w, (u * sn + v * cs + y) * w, w]
            })
            .collect();
        let knots = (0..2 * n).map(|i| c.k(if i < n { b.1 } else { b.2 })).collect();
        NurbsCurve2D::try_new(n - 1, hpoints(&h), knots).unwrap()
    };
    let (a, b) = (curve(c, &m.a), curve(c, &m.b));
    let found = a.find_intersections(&b, Some(solver(c, 1e-5, m.division)));
    let Some(found) = c.ok("found", found) else { return };
    c.check("every crossing once", found.len() == m.at.len());
    if found.len() != m.at.len() {
        return;
    }
    for (it, at) in found.iter().zip(m.at) {
        c.eq_tol("parameter on the first", it.a().1, c.k(at[0]), 1e-4);
        c.eq_tol("parameter on the second", it.b().1, c.k(at[1]), 1e-4);
        let (p, q) = (a.pt(c.k(at[0])), b.pt(c.k(at[1])));
        for e in 0..2 {
            c.eq_tol("point on the first", it.a().0[e], p[e], 1e-4);
            c.eq_tol("point on the second", it.b().0[e], q[e], 1e-4);
        }
    }
});
/// (t, t^2) over [-2, 3]
const PARABOLA: Bez = (&[[-2.0, 4.0, 1.0], [0.5, -6.0, 1.0], [3.0, 9.0, 1.0]], -2.0, 3.0);
/// (t, t + 2) over [-3, 4]
const OBLIQUE: Bez = (&[[-3.0, -1.0, 1.0], [4.0, 6.0, 1.0]], -3.0, 4.0);
/// (t, t^3 - t) over [-2, 2]
const CUBIC: Bez = (&[[-2.0, -6.0, 1.0], [-2.0 / 3.0, 26.0 / 3.0, 1.0], [2.0 / 3.0, -26.0 / 3.0, 1.0], [2.0, 6.0, 1.0]], -2.0, 2.0);
/// (t, 0) over [-3, 3]
const FLAT: Bez = (&[[-3.0, 0.0, 1.0], [3.0, 0.0, 1.0]], -3.0, 3.0);
const FLOOR: At = &[[0.0, 0.0], [2.0, 0.0]];
const DIP: At = &[[1.0, 0.21875], [1.0, 0.0], [1.0625, 0.0], [1.0625, 0.21875]];
const STAIRS: At = &[[0.0, 0.0], [2.0, 0.0], [2.0, 2.0], [6.0, 2.0]];
const BAR: At = &[[0.0, 0.0], [3.0, 0.0], [3.0, 1.0], [0.0, 1.0]];
const LINE: At = &[[0.0, 0.0], [0.0, 4.0]];
const HOOK: At = &[[0.0, 0.0], [0.0, 4.0], [2.0, 4.0], [2.0, 2.0]];
fn i01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for axes in [Axes::Plain, Axes::Turned] {
        for (name, a, b) in [
            ("line-stairs", (LINE, false), (STAIRS, false)),
            ("stairs-hook", (STAIRS, false), (HOOK, false)),
            ("square-line", (SQUARE, true), (LINE, false)),
            ("square-square", (SQUARE, true), (SQUARE, true)),
            ("square-bar", (SQUARE, true), (BAR, true)),
        ] {
            let mut add = |parts, division, draws| v.push(Box::new(Meet { name, a, b, parts, axes, division, draws, grid: 0.5 }));
            add((0, 0), 2, 0.5);
            let (p, q) = (a.0.len() / 2, b.0.len() / 2);
            if matches!(axes, Axes::Plain) || th {
                add((p, 0), 2, 0.5);
                add((p, q), 2, 0.5);
                if th {
                    add((2 * p, q), 4, 0.5);
                    add((0, 0), 4, 0.25);
                }
            }
        }
    }
    // round and slanted ones, moved together
    for (name, a, b, _, _, count) in pairs() {
        for (a, b) in [(a, b), (b, a)] {
            v.push(Box::new(MeetForm { name, division: 32, draws: 0.5, a, b, count }));
        }
    }
    // there and back within a short way
    for (name, a, b) in [("dip-second", FLOOR, DIP), ("dip-first", DIP, FLOOR)] {
        for axes in [Axes::Plain, Axes::Turned] {
            v.push(Box::new(Meet { name, a: (a, false), b: (b, false), parts: (0, 0), axes, division: 16, draws: 0.5, grid: 1.0 / 32.0 }));
        }
    }
    // one boundary's start, or a joint, on the other
    for (name, a, b) in [("seam-first", SEAM, TALL), ("seam-second", TALL, SEAM), ("seam-both", SEAM, SEAMED), ("seam-both2", SEAMED, SEAM)] {
        for parts in [(0, 0), (2, 0), (2, 3), (3, 2)] {
            for axes in [Axes::Plain, Axes::Turned] {
                if th || parts.0 == 0 || matches!(axes, Axes::Plain) {
                    v.push(Box::new(Meet { name, a: (a, true), b: (b, true), parts, axes, division: 2, draws: 0.5, grid: 0.5 }));
                }
            }
        }
    }
    for (name, a, b, at) in [
        ("parabola-line", PARABOLA, OBLIQUE, &[[-1.0, -1.0], [2.0, 2.0]] as &[[f64; 2]]),
        ("line-parabola", OBLIQUE, PARABOLA, &[[-1.0, -1.0], [2.0, 2.0]]),
        ("cubic-line", CUBIC, FLAT, &[[-1.0, -1.0], [0.0, 0.0], [1.0, 1.0]]),
        ("line-line", OBLIQUE, FLAT, &[[-2.0, -2.0]]),
    ] {
        for (spin, division, draws) in [(false, 64, 0.5), (false, 16, 0.0625), (true, if name == "line-line" { 4 } else { 16 }, 0.5)] {
            if spin && !th && (name == "cubic-line" || name == "line-parabola") {
                continue;
            }
            v.push(Box::new(Rigid { name, a, b, at, spin, division, draws }));
        }
    }
    v
}

// ---------------------------------------------------------------- B01
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Or,
    And,
    Less,
}
impl Op {
    fn of(self, p: bool, q: bool) -> bool {
        match self {
            Op::Or => p || q,
            Op::And => p && q,
            Op::Less => p && !q,
        }
    }
    fn op(self) -> BooleanOperation {
        match self {
            Op::Or => BooleanOperation::Union,
            Op::And => BooleanOperation::Intersection,
            Op::Less => BooleanOperation::Difference,
        }
    }
}
fn turn_back<C: Ctx>(c: &C, axes: Axes, p: &[C::S]) -> [C::S; 2] {
    match axes {
        Axes::Plain => [p[0], p[1]],
        Axes::Turned => {
            let (a, b) = (c.ratio(3, 5), c.ratio(4, 5));
            [p[0] * a + p[1] * b, p[1] * a - p[0] * b]
        }
    }
}
/// the corners of a boundary made of polylines, which has to be one closed chain
fn corners<C: Ctx>(c: &mut C, axes: Axes, b: &CompoundCurve<C::S, nalgebra::U3>) -> Vec<[C::S; 2]> {
    let mut v: Vec<[C::S; 2]> = vec![];
    let spans = b.spans();
    for (i, s) in spans.iter().enumerate() {
        c.check("boundary of straight sides", s.degree() == 1);
        let p: Vec<[C::S; 2]> = s.dehomogenized_control_points().iter().map(|p| turn_back(c, axes, &[p.x, p.y])).collect();
        let next = &spans[(i + 1) % spans.len()].dehomogenized_control_points()[0];
        let next = turn_back(c, axes, &[next.x, next.y]);
        for e in 0..2 {
            c.eq_tol("boundary closed", p[p.len() - 1][e], next[e], 1e-4);
        }
        v.extend(&p[..p.len() - 1]);
    }
    v
}
fn enclosed<C: Ctx>(loops: &[Vec<[C::S; 2]>], p: [C::S; 2]) -> bool {
    let mut odd = false;
    for l in loops {
        for i in 0..l.len() {
            let (a, b) = (l[i], l[(i + 1) % l.len()]);
            let (u, v) = (a[1] > p[1], b[1] > p[1]);
            if u != v {
                // left of the side
                let s = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1]);
                if (s > p[0] - p[0]) == v {
                    odd = !odd;
                }
            }
        }
    }
    odd
}
/// coordinates of the corners of a and of b moved by d, in order: value at the middle of the cell, and symbolic
fn lines<C: Ctx>(c: &C, a: &[At], b: &[At], e: usize, d: C::S, mid: f64) -> Vec<(f64, C::S)> {
    let mut v: Vec<(f64, C::S)> = a.iter().flat_map(|l| l.iter()).map(|p| (p[e], c.k(p[e]))).collect();
    v.extend(b.iter().flat_map(|l| l.iter()).map(|p| (p[e] + mid, c.k(p[e]) + d)));
    v.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    v.dedup_by(|x, y| x.0 == y.0);
    v
}
/// compares regions with what the operation makes of the loops of a and of b moved by d
fn compare<C: Ctx>(c: &mut C, axes: Axes, regions: &[Region<C::S>], op: Op, a: &[At], b: &[At], d: [C::S; 2], mid: [f64; 2]) {
    let mut loops: Vec<Vec<Vec<[C::S; 2]>>> = vec![];
    for r in regions {
        let mut l = vec![corners(c, axes, r.exterior())];
        for i in r.interiors() {
            l.push(corners(c, axes, i));
        }
        loops.push(l);
    }
    let (xs, ys) = (lines(c, a, b, 0, d[0], mid[0]), lines(c, a, b, 1, d[1], mid[1]));
    let half = c.k(0.5);
    let mut area = c.k(0.0);
    let all = |l: &[At], x: f64, y: f64| l.iter().filter(|l| inside(l, x, y)).count() % 2 == 1;
    let (mut lost, mut extra) = (0, 0);
    for i in 0..xs.len() - 1 {
        for j in 0..ys.len() - 1 {
            let (x, y) = (0.5 * (xs[i].0 + xs[i + 1].0), 0.5 * (ys[j].0 + ys[j + 1].0));
            let want = op.of(all(a, x, y), all(b, x - mid[0], y - mid[1]));
            let p = [(xs[i].1 + xs[i + 1].1) * half, (ys[j].1 + ys[j + 1].1) * half];
            let got = loops.iter().filter(|l| enclosed::<C>(l, p)).count();
            if want {
                area = area + (xs[i + 1].1 - xs[i].1) * (ys[j + 1].1 - ys[j].1);
            }
            match (want, got) {
                (true, 1) | (false, 0) => {}
                (true, 0) => lost += 1,
                _ => extra += 1,
            }
        }
    }
    c.check("nothing of the result is missing", lost == 0);
    c.check("nothing is in the result that should not be, or twice", extra == 0);
    let mut sum = c.k(0.0);
    for l in &loops {
        for (k, l) in l.iter().enumerate() {
            let mut s = c.k(0.0);
            for i in 0..l.len() {
                let (p, q) = (l[i], l[(i + 1) % l.len()]);
                s = s + (p[0] * q[1] - p[1] * q[0]) * half;
            }
            let s = if s < c.k(0.0) { -s } else { s };
            sum = if k == 0 { sum + s } else { sum - s };
        }
    }
    c.eq_tol("area", sum, area, 1e-3);
}
/// an offset of b from a, symbolic in the directions that are free
fn offset_cell<C: Ctx>(c: &mut C, a: &[At], b: &[At], grid: f64, free: [bool; 2], at_seam: bool) -> ([C::S; 2], [f64; 2]) {
    let (fa, fb): (Vec<[f64; 2]>, Vec<[f64; 2]>) = (a.concat(), b.concat());
    let ox = offsets(&fa, &fb, 0, 0.125, grid, grid / 16.0);
    let oy = offsets(&fa, &fb, 1, 0.125, grid, grid / 16.0);
    let seam = at_seam;
    let ix = if seam { (0.0, 0.0) } else { ox[c.choice("dx", ox.len())] };
    let iy = oy[c.choice("dy", oy.len())];
    let mid = [middle(ix), middle(iy)];
    let dx = if free[0] { c.var("dx", ix.0, ix.1) } else { c.k(mid[0]) };
    let dy = if free[1] { c.var("dy", iy.0, iy.1) } else { c.k(mid[1]) };
    ([dx, dy], mid)
}
plain_case!(Joined { name: &'static str, op: Op, free: [bool; 2], axes: Axes, parts: (usize, usize), division: usize, draws: f64, grid: f64, a: At, b: At } "joined" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    if matches!(m.axes, Axes::Turned) {
        c.keep_bits(192);
    }
    let (d, mid) = offset_cell(c, &[m.a], &[m.b], m.grid, m.free, m.name.starts_with("seam"));
    let zero = [c.k(0.0), c.k(0.0)];
    let mut a = paths(c, m.a, true, &zero, m.axes, m.parts.0.max(1));
    let mut b = paths(c, m.b, true, &d, m.axes, m.parts.1.max(1));
    let option = Some(solver(c, 1.0 / 64.0, m.division));
    let clip = match (m.parts.0, m.parts.1) {
        (0, 0) => a.remove(0).boolean(m.op.op(), &b.remove(0), option),
        (_, 0) => CompoundCurve::new(a).boolean(m.op.op(), &b.remove(0), option),
        (0, _) => a.remove(0).boolean(m.op.op(), &CompoundCurve::new(b), option),
        _ => CompoundCurve::new(a).boolean(m.op.op(), &CompoundCurve::new(b), option),
    };
    let Some(clip) = c.ok("decided", clip) else { return };
    compare(c, m.axes, clip.regions(), m.op, &[m.a], &[m.b], d, mid);
});
/// starts in the middle of its lower side
const SEAM: At = &[[1.0, 0.0], [2.0, 0.0], [2.0, 2.0], [0.0, 2.0], [0.0, 0.0]];
/// a side along the line through that start
const TALL: At = &[[1.0, -1.0], [3.0, -1.0], [3.0, 1.0], [1.0, 1.0]];
/// the same, starting in the middle of that side
const SEAMED: At = &[[1.0, 0.0], [1.0, -1.0], [3.0, -1.0], [3.0, 1.0], [1.0, 1.0]];
const SMALL: At = &[[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]];
const CLOCKWISE: At = &[[0.0, 0.0], [0.0, 2.0], [2.0, 2.0], [2.0, 0.0]];
const ELL: At = &[[0.0, 0.0], [2.0, 0.0], [2.0, 1.0], [1.0, 1.0], [1.0, 2.0], [0.0, 2.0]];
const CUP: At = &[[0.0, 0.0], [3.0, 0.0], [3.0, 2.0], [2.0, 2.0], [2.0, 1.0], [1.0, 1.0], [1.0, 2.0], [0.0, 2.0]];
// two boundaries that cross at an angle, or round ones, moved together by a free translation
#[derive(Clone, Copy, Debug)]
enum Form {
    /// middle, half length, half width, direction
    Bar([f64; 2], [f64; 2], [f64; 2]),
    /// centre, radius, first quarter
    Round([f64; 2], f64, usize),
}
impl Form {
    fn curve<C: Ctx>(&self, c: &C, d: &[C::S; 2]) -> NurbsCurve2D<C::S> {
        let (degree, at, knots): (usize, Vec<[f64; 3]>, Vec<f64>) = match self {
            Form::Bar(o, [l, w], [x, y]) => (
                1,
                [[-l, -w], [*l, -w], [*l, *w], [-l, *w], [-l, -w]].iter().map(|[a, b]| [o[0] + a * x - b * y, o[1] + a * y + b * x, 1.0]).collect(),
                vec![0.0, 0.0, 2.0 * l, 2.0 * (l + w), 4.0 * l + 2.0 * w, 4.0 * (l + w), 4.0 * (l + w)],
            ),
            Form::Round(o, r, first) => {
                let turn = |p: [f64; 2]| [p, [-p[1], p[0]], [-p[0], -p[1]], [p[1], -p[0]]];
                let mut v = vec![];
                for q in 0..4 {
                    let (e, k) = ((q + first) % 4, if q % 2 == 0 { [1.0, 1.0, 2.0] } else { [2.0, 1.0, 1.0] });
                    for (i, p) in [[1.0, 0.0], [1.0, 1.0], [0.0, 1.0]].into_iter().enumerate().skip(if q == 0 { 0 } else { 1 }) {
                        let p = turn(p)[e];
                        v.push([o[0] + r * p[0], o[1] + r * p[1], k[i]]);
                    }
                }
                (2, v, vec![0., 0., 0., 1., 1., 2., 2., 3., 3., 4., 4., 4.])
            }
        };
        let h: Vec<Vec<C::S>> = at.iter().map(|p| vec![(c.k(p[0]) + d[0]) * c.k(p[2]), (c.k(p[1]) + d[1]) * c.k(p[2]), c.k(p[2])]).collect();
        NurbsCurve2D::try_new(degree, hpoints(&h), knots.iter().map(|k| c.k(*k)).collect()).unwrap()
    }
    /// above zero inside, below outside
    fn depth<C: Ctx>(&self, c: &C, p: &[C::S; 2]) -> C::S {
        match self {
            Form::Bar(o, [l, w], [x, y]) => {
                let (a, b) = (p[0] - c.k(o[0]), p[1] - c.k(o[1]));
                let (u, v) = (a * c.k(*x) + b * c.k(*y), b * c.k(*x) - a * c.k(*y));
                let abs = |x: C::S| if x < c.k(0.0) { -x } else { x };
                let (u, v) = (c.k(*l) - abs(u), c.k(*w) - abs(v));
                if u < v { u } else { v }
            }
            Form::Round(o, r, _) => {
                let (a, b) = (p[0] - c.k(o[0]), p[1] - c.k(o[1]));
                (c.k(r * r) - a * a - b * b) / c.k(2.0 * r)
            }
        }
    }
}
// a round or turned boundary and a point at a fixed place by it, moved together by a free translation
plain_case!(WithinForm { name: &'static str, form: Form, step: f64, reach: f64, division: usize, draws: f64 } "within-form" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    c.keep_bits(160);
    let n = (2.0 * m.reach / m.step) as usize;
    let o = match m.form { Form::Bar(o, ..) | Form::Round(o, ..) => o };
    let at = |i: usize, k: f64| (i as f64 + 0.5 + k) * m.step - m.reach;
    let (i, j) = (c.choice("column", n), c.choice("row", n));
    let p = [o[0] + at(i, 0.03125), o[1] + at(j, 0.046875)];
    let d = [c.var("x", -4.0, 4.0), c.var("y", -4.0, 4.0)];
    let crv = m.form.curve(c, &d);
    let depth = m.form.depth(c, &[c.k(p[0]), c.k(p[1])]);
    let far = c.k(1.0 / 32.0);
    if -far < depth && depth < far {
        return;
    }
    let want = depth > far;
    let got = crv.contains(&Point2::new(c.k(p[0]) + d[0], c.k(p[1]) + d[1]), Some(solver(c, 1e-4, m.division)));
    let Some(got) = c.ok("decided", got) else { return };
    c.check(if want { "a point inside is contained" } else { "a point outside is not contained" }, got == want);
});
plain_case!(Slanted { name: &'static str, op: Op, division: usize, draws: f64, a: Form, hole: Option<Form>, b: Form, loops: [(usize, usize); 3], areas: [f64; 3] } "slanted" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    c.keep_bits(160);
    let d = [c.var("x", -4.0, 4.0), c.var("y", -4.0, 4.0)];
    let (a, b) = (m.a.curve(c, &d), m.b.curve(c, &d));
    let option = Some(solver(c, 1e-4, m.division));
    let clip = match m.hole {
        None => a.boolean(m.op.op(), &b, option),
        Some(h) => Region::new(a.into(), vec![h.curve(c, &d).into()]).boolean(m.op.op(), &b, option),
    };
    let Some(clip) = c.ok("decided", clip) else { return };
    let (outer, inner) = m.loops[m.op as usize];
    let regions = clip.regions();
    c.check("as many regions", regions.len() == outer);
    c.check("as many holes", regions.iter().map(|r| r.interiors().len()).sum::<usize>() == inner);
    let (tol, mut area) = (1e-3, c.k(0.0));
    for r in regions {
        for (i, l) in [r.exterior()].into_iter().chain(r.interiors().iter()).enumerate() {
            let mut pts: Vec<[C::S; 2]> = vec![];
            let mut twice = c.k(0.0);
            let mut last: Option<[C::S; 2]> = None;
            for s in l.spans() {
                let (k0, k1) = s.knots_domain();
                let w = [0.0, 1.0, 0.1875, 0.5, 0.8125].map(|f| { let p = s.point_at(k0 + (k1 - k0) * c.k(f)); [p.x - d[0], p.y - d[1]] });
                let (p, q) = (w[0], w[1]);
                if let Some(e) = last {
                    c.eq_tol("joined", e[0], p[0], tol);
                    c.eq_tol("joined", e[1], p[1], tol);
                }
                if s.degree() == 1 {
                    let h: Vec<[C::S; 2]> = s.control_points().iter().map(|p| [p.x - d[0], p.y - d[1]]).collect();
                    for w in h.windows(2) {
                        twice = twice + w[0][0] * w[1][1] - w[0][1] * w[1][0];
                    }
                }
                pts.push(p);
                pts.extend(&w[2..]);
                last = Some(q);
            }
            if let Some(e) = last {
                c.eq_tol("closed", e[0], pts[0][0], tol);
                c.eq_tol("closed", e[1], pts[0][1], tol);
            }
            let zero = c.k(0.0);
            let twice = if twice < zero { -twice } else { twice };
            area = if i == 0 { area + twice } else { area - twice };
            for p in &pts {
                let (mut x, y) = (m.a.depth(c, p), m.b.depth(c, p));
                if let Some(h) = m.hole {
                    let h = -h.depth(c, p);
                    x = if h < x { h } else { x };
                }
                let e = c.k(tol);
                let flat = |x: C::S| -e < x && x < e;
                let on = match m.op {
                    Op::Or => flat(x) && y < e || flat(y) && x < e,
                    Op::And => flat(x) && y > -e || flat(y) && x > -e,
                    Op::Less => flat(x) && y < e || flat(y) && x > -e,
                };
                c.check("on the border of the result", on);
            }
        }
    }
    if m.hole.is_none() && matches!((m.a, m.b), (Form::Bar(..), Form::Bar(..))) {
        c.eq_tol("area", area, c.k(2.0 * m.areas[m.op as usize]), 1e-2);
    }
});
/// pairs of boundaries: regions and holes of union, intersection and difference, their areas (of bars), crossings
type Pair = (&'static str, Form, Form, [(usize, usize); 3], [f64; 3], usize);
fn pairs() -> Vec<Pair> {
    let cross = [(1, 0), (1, 0), (2, 0)];
    let lens = [(1, 0), (1, 0), (1, 0)];
    let flat = Form::Bar([0.0, 0.0], [4.0, 0.5], [1.0, 0.0]);
    vec![
        ("bars", flat, Form::Bar([0.125, 0.0625], [4.0, 0.5], [12.0 / 13.0, 5.0 / 13.0]), cross, [13.4, 2.6, 5.4], 4),
        ("bars-steep", Form::Bar([0.25, 0.0], [3.0, 0.5], [-0.6, 0.8]), flat, cross, [12.75, 1.25, 4.75], 4),
        ("rounds", Form::Round([0.0, 0.0], 1.0, 0), Form::Round([1.0, 0.25], 1.25, 1), lens, [0.0; 3], 2),
        ("rounds-side", Form::Round([0.0, 0.0], 1.0, 2), Form::Round([-0.75, -0.875], 0.5, 3), lens, [0.0; 3], 2),
        ("bars-shallow", Form::Bar([0.0, 0.0], [4.0, 0.25], [40.0 / 41.0, 9.0 / 41.0]), Form::Bar([0.0625, 0.0], [4.0, 0.25], [1.0, 0.0]), cross, [8.0 - 41.0 / 36.0, 41.0 / 36.0, 4.0 - 41.0 / 36.0], 4),
        ("rounds-within", Form::Round([0.25, 0.0], 2.0, 1), Form::Round([0.0, 0.5], 0.75, 3), [(1, 0), (1, 0), (1, 1)], [0.0; 3], 0),
        ("rounds-apart", Form::Round([0.0, 0.0], 1.0, 1), Form::Round([1.5, 1.5], 1.0, 2), [(2, 0), (0, 0), (1, 0)], [0.0; 3], 0),
        ("rounds-bar", Form::Round([0.0, 0.25], 1.0, 1), Form::Bar([0.5, 0.0], [2.0, 0.25], [0.96, -0.28]), [(1, 0), (1, 0), (2, 0)], [0.0; 3], 4),
        ("round-tip", Form::Round([0.0, 0.0], 1.0, 3), Form::Bar([1.75, 0.5], [1.0, 0.25], [0.96, 0.28]), lens, [0.0; 3], 2),
        ("bar-round", Form::Bar([0.0, 0.0], [3.0, 0.5], [0.8, 0.6]), Form::Round([0.125, 0.0], 1.5, 0), cross, [0.0; 3], 4),
    ]
}
plain_case!(MeetForm { name: &'static str, division: usize, draws: f64, a: Form, b: Form, count: usize } "meet-form" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    c.keep_bits(160);
    let d = [c.var("x", -4.0, 4.0), c.var("y", -4.0, 4.0)];
    let (a, b) = (m.a.curve(c, &d), m.b.curve(c, &d));
    let Some(found) = c.ok("found", a.find_intersections(&b, Some(solver(c, 1e-4, m.division)))) else { return };
    c.check("every crossing once", found.len() == m.count);
    let mut last: Option<C::S> = None;
    for it in &found {
        let (p, q) = (a.pt(it.a().1), b.pt(it.b().1));
        for e in 0..2 {
            c.eq_tol("the first's point at its parameter", it.a().0[e], p[e], 1e-6);
            c.eq_tol("the second's point at its parameter", it.b().0[e], q[e], 1e-6);
            c.eq_tol("the same point", p[e], q[e], 1e-4);
        }
        if let Some(l) = last {
            c.le("in order, apart", l + c.k(1e-2), it.a().1);
        }
        last = Some(it.a().1);
    }
});
fn b01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for op in [Op::Or, Op::And, Op::Less] {
        let mut add = |name, a, b, parts, axes, draws| {
            for free in [[true, false], [false, true]] {
                if !th && !free[0] && (name == "square-clockwise" || name == "bar-ell" || name == "bar-square") {
                    continue;
                }
                v.push(Box::new(Joined { name, op, free, axes, parts, division: 2, draws, grid: 0.5, a, b }));
            }
        };
        add("square-square", SQUARE, SQUARE, (0, 0), Axes::Plain, 0.5);
        add("square-small", SQUARE, SMALL, (0, 0), Axes::Plain, 0.5);
        add("square-clockwise", SQUARE, CLOCKWISE, (2, 0), Axes::Plain, 0.5);
        add("small-ell", SMALL, ELL, (0, 2), Axes::Plain, 0.5);
        add("bar-square", BAR, SQUARE, (2, 2), Axes::Plain, 0.5);
        add("bar-ell", BAR, ELL, (0, 3), Axes::Plain, 0.5);
        add("cup-bar", CUP, BAR, (0, 0), Axes::Plain, 0.5);
        for (name, a, b, loops, areas, _) in pairs() {
            v.push(Box::new(Slanted { name, op, division: 32, draws: 0.5, a, hole: None, b, loops, areas }));
        }
        // one boundary's start, or a joint, on the other
        for (name, a, b) in [("seam-first", SEAM, TALL), ("seam-second", TALL, SEAM), ("seam-both", SEAM, SEAMED), ("seam-both2", SEAMED, SEAM)] {
            for parts in [(0, 0), (2, 0), (2, 3)] {
                if !th && (parts == (2, 3)) != name.starts_with("seam-both") || parts == (2, 0) && !th {
                    continue;
                }
                v.push(Box::new(Joined { name, op, free: [false, true], axes: Axes::Plain, parts, division: 2, draws: 0.5, grid: 0.5, a, b }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- B02
/// what a region is joined with
#[derive(Clone, Copy, Debug)]
enum With {
    Curve,
    Compound,
    Region,
}
fn boundary<C: Ctx>(c: &C, at: At, d: &[C::S; 2]) -> CompoundCurve<C::S, nalgebra::U3> {
    CompoundCurve::new(paths(c, at, true, d, Axes::Plain, 1))
}
plain_case!(Joined2 { name: &'static str, op: Op, with: With, along: usize, still: f64, grid: f64, a: &'static [At], b: &'static [At] } "regions" |m, c| {
    rand::set_draws(vec![0.5]);
    symcurvo::handle::allow(c.is_sym());
    let (fa, fb): (Vec<[f64; 2]>, Vec<[f64; 2]>) = (m.a.concat(), m.b.concat());
    let cells = offsets(&fa, &fb, m.along, 0.125, m.grid, m.grid / 16.0);
    let cell = cells[c.choice("d", cells.len())];
    let mut d = [c.k(m.still); 2];
    let mut mid = [m.still; 2];
    d[m.along] = c.var("d", cell.0, cell.1);
    mid[m.along] = middle(cell);
    let zero = [c.k(0.0), c.k(0.0)];
    let region = |c: &C, l: &[At], d| Region::new(boundary(c, l[0], d), l[1..].iter().map(|l| boundary(c, l, d)).collect());
    let a = region(c, m.a, &zero);
    let option = Some(solver(c, 1.0 / 64.0, 2));
    let clip = match m.with {
        With::Curve => a.boolean(m.op.op(), &paths(c, m.b[0], true, &d, Axes::Plain, 1).remove(0), option),
        With::Compound => a.boolean(m.op.op(), &boundary(c, m.b[0], &d), option),
        With::Region => a.boolean(m.op.op(), &region(c, m.b, &d), option),
    };
    let Some(clip) = c.ok("decided", clip) else { return };
    compare(c, Axes::Plain, clip.regions(), m.op, m.a, m.b, d, mid);
});
const RING: &[At] = &[&[[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [0.0, 4.0]], &[[1.0, 1.0], [3.0, 1.0], [3.0, 3.0], [1.0, 3.0]]];
const WIDE: &[At] = &[&[[0.0, 0.0], [3.0, 0.0], [3.0, 1.0], [0.0, 1.0]]];
const CUPS: &[At] = &[CUP];
const FRAME: &[At] = &[&[[0.0, 0.0], [2.0, 0.0], [2.0, 2.0], [0.0, 2.0]], &[[0.5, 0.5], [1.5, 0.5], [1.5, 1.5], [0.5, 1.5]]];
const UNIT: &[At] = &[SMALL];
fn b02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for op in [Op::Or, Op::And, Op::Less] {
        let mut add = |name, with, along, still, a, b| v.push(Box::new(Joined2 { name, op, with, along, still, grid: 0.5, a, b }));
        add("ring-bar", With::Curve, 1, 1.625, RING, WIDE);
        add("ring-unit", With::Compound, 0, 1.625, RING, UNIT);
        add("ring-cup", With::Compound, 1, 0.25, RING, CUPS);
        add("frame-ring", With::Region, 1, -1.25, FRAME, RING);
        add("frame-ring", With::Region, 1, -2.25, FRAME, RING);
        add("ring-frame", With::Region, 1, 2.25, RING, FRAME);
        if th {
            add("frame-ring", With::Region, 0, -2.25, FRAME, RING);
            add("ring-frame", With::Region, 1, 1.25, RING, FRAME);
            add("frame-ring", With::Region, 1, 0.25, FRAME, RING);
            add("ring-bar", With::Curve, 0, 0.25, RING, WIDE);
            add("ring-cup", With::Compound, 0, 0.25, RING, CUPS);
        }
        for (name, b, loops) in [
            ("ring-through", Form::Bar([0.125, 0.0], [3.0, 0.25], [0.96, 0.28]), [(1, 2), (2, 0), (2, 0)]),
            ("ring-into", Form::Bar([2.5, 0.5], [1.0, 0.25], [0.96, 0.28]), [(1, 1), (1, 0), (1, 1)]),
            ("ring-round", Form::Round([1.5, -0.5], 1.0, 3), [(1, 1), (1, 0), (1, 0)]),
            ("ring-off", Form::Round([2.5, 2.5], 1.0, 3), [(2, 1), (0, 0), (1, 1)]),
        ] {
            let (a, hole) = (Form::Round([0.0, 0.0], 2.0, 0), Some(Form::Round([0.125, 0.25], 1.0, 1)));
            v.push(Box::new(Slanted { name, op, division: 32, draws: 0.5, a, hole, b, loops, areas: [0.0; 3] }));
        }
    }
    v
}

fn main() {
    main_with(vec![Prop { id: "B01", cases: b01 }, Prop { id: "B02", cases: b02 }, Prop { id: "I01", cases: i01 }, Prop { id: "P01", cases: p01 }]);
}
