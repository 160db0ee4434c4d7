//! I02: curves through surfaces.
use curvo::prelude::*;
use nalgebra::Point3;
use symcurvo::ctx::*;
use symcurvo::plain_case;
use symcurvo::report::*;
use symcurvo::shapes::*;

type Flat = &'static [[f64; 2]];
type Path = &'static [[f64; 3]];

fn solver<C: Ctx>(c: &C, distance: f64, division: usize) -> CurveIntersectionSolverOptions<C::S> {
    CurveIntersectionSolverOptions::default()
        .with_minimum_distance(c.k(distance))
        .with_knot_domain_division(division)
}
/// intervals of offsets that keep every q + offset at least far from every p,
/// cut at the multiples of grid with a hairline left out around each
fn offsets(p: &[f64], q: &[f64], far: f64, grid: f64, hair: f64) -> Vec<(f64, f64)> {
    let mut at: Vec<f64> = p.iter().flat_map(|p| q.iter().map(move |q| p - q)).collect();
    at.sort_by(|x, y| x.partial_cmp(y).unwrap());
    at.dedup();
    let mut v = vec![(at[0] - grid, at[0] - far)];
    v.extend(at.windows(2).map(|w| (w[0] + far, w[1] - far)));
    v.push((at[at.len() - 1] + far, at[at.len() - 1] + grid));
    let mut out = vec![];
    for (x, y) in v.into_iter().filter(|(x, y)| x < y) {
        let mut k = (x / grid).floor() * grid;
        while k < y {
            let (l, h) = ((k + hair).max(x), (k + grid - hair).min(y));
            if l < h {
                out.push((l, h));
            }
            k += grid;
        }
    }
    out
}
fn middle((a, b): (f64, f64)) -> f64 {
    0.5 * (a + b)
}
fn lengths(n: usize, step: impl Fn(usize) -> f64) -> Vec<f64> {
    let mut k = vec![0.0];
    for i in 0..n {
        k.push(k[i] + step(i));
    }
    k
}
fn dist<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 {
    (0..N).map(|i| (a[i] - b[i]).abs()).sum()
}
fn knots<C: Ctx>(c: &C, at: &[f64]) -> Vec<C::S> {
    let mut k = vec![c.k(at[0])];
    k.extend(at.iter().map(|x| c.k(*x)));
    k.push(c.k(at[at.len() - 1]));
    k
}
// a sheet over a profile in the plane of x and z, as wide as given along y, and an axis-aligned path
plain_case!(Pierce { name: &'static str, profile: Flat, width: f64, path: Path, free: [bool; 3], flip: bool, division: usize, draws: f64, grid: f64, far: f64 } "pierce" |m, c| {
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    let (far, hair) = (m.far, m.grid / 16.0);
    let dims: [Vec<f64>; 3] = [m.profile.iter().map(|p| p[0]).collect(), vec![0.0, m.width], m.profile.iter().map(|p| p[1]).collect()];
    let mut d = vec![];
    let mut mid = [0.0; 3];
    for e in 0..3 {
        let along: Vec<f64> = m.path.iter().map(|p| p[e]).collect();
        // an offset that is not free is tried at the middle of larger cells
        let cells = if m.free[e] { offsets(&dims[e], &along, far, m.grid, hair) } else { offsets(&dims[e], &along, far, 1.0, hair) };
        let cell = cells[c.choice(["dx", "dy", "dz"][e], cells.len())];
        mid[e] = middle(cell);
        d.push(if m.free[e] { c.var(["dx", "dy", "dz"][e], cell.0, cell.1) } else { c.k(mid[e]) });
    }
    let nu = m.profile.len();
    let ku = lengths(nu - 1, |i| dist(&m.profile[i], &m.profile[i + 1]));
    let kv = [0.0, m.width];
    let kt = lengths(m.path.len() - 1, |i| dist(&m.path[i], &m.path[i + 1]));
    let pts = m.profile
        .iter()
        .map(|p| kv.iter().map(|y| nalgebra::Point4::new(c.k(p[0]), c.k(*y), c.k(p[1]), c.k(1.0))).collect::<Vec<_>>())
        .collect::<Vec<_>>();
    let (ku2, kv2) = (knots(c, &ku), knots(c, &kv));
    let sheet = if m.flip {
        let t = (0..2).map(|j| (0..nu).map(|i| pts[i][j]).collect()).collect();
        NurbsSurface3D::new(1, 1, kv2, ku2, t)
    } else {
        NurbsSurface3D::new(1, 1, ku2, kv2, pts)
    };
    let h: Vec<Vec<C::S>> = m.path
        .iter()
        .map(|p| (0..3).map(|e| c.k(p[e]) + d[e]).chain([c.k(1.0)]).collect())
        .collect();
    let path = NurbsCurve3D::try_new(1, hpoints(&h), knots(c, &kt)).unwrap();
    let Some(found) = c.ok("found", sheet.find_intersections(&path, Some(solver(c, 1e-5, m.division)))) else { return };
    // crossings in the order along the path
    let mut want: Vec<(usize, usize, f64)> = vec![];
    let within = |x: f64, y: f64, z: f64| x.min(y) < z && z < x.max(y);
    for j in 0..m.path.len() - 1 {
        let at = |i: usize, e: usize| m.path[i][e] + mid[e];
        for i in 0..nu - 1 {
            let (p, q) = (m.profile[i], m.profile[i + 1]);
            // the facet runs along axis a and is crossed along axis b
            let (a, b, pa, qa, pb) = if p[1] == q[1] { (0, 2, p[0], q[0], p[1]) } else { (2, 0, p[1], q[1], p[0]) };
            if m.path[j][b] != m.path[j + 1][b] && within(at(j, b), at(j + 1, b), pb) && within(pa, qa, at(j, a)) && within(0.0, m.width, at(j, 1)) {
                want.push((j, i, (pb - at(j, b)).abs()));
            }
        }
    }
    want.sort_by(|x, y| x.0.cmp(&y.0).then(x.2.partial_cmp(&y.2).unwrap()));
    c.check("every crossing once", found.len() == want.len());
    if found.len() != want.len() {
        return;
    }
    for (it, (j, i, _)) in found.iter().zip(want) {
        let (p, q) = (m.profile[i], m.profile[i + 1]);
        let (a, b, pa, qa, pb) = if p[1] == q[1] { (0, 2, p[0], q[0], p[1]) } else { (2, 0, p[1], q[1], p[0]) };
        let up = |x: f64, y: f64| c.k(if y > x { 1.0 } else { -1.0 });
        let mut at = [c.k(0.0); 3];
        at[a] = c.k(m.path[j][a]) + d[a];
        at[1] = c.k(m.path[j][1]) + d[1];
        at[b] = c.k(pb);
        let u = c.k(ku[i]) + up(pa, qa) * (at[a] - c.k(pa));
        let v = at[1];
        let t = c.k(kt[j]) + up(m.path[j][b], m.path[j + 1][b]) * (c.k(pb) - c.k(m.path[j][b]) - d[b]);
        let (s, r) = (it.a(), it.b());
        let (gu, gv) = if m.flip { (s.1 .1, s.1 .0) } else { s.1 };
        c.eq_tol("first parameter on the surface", gu, u, 1e-4);
        c.eq_tol("second parameter on the surface", gv, v, 1e-4);
        c.eq_tol("parameter on the curve", r.1, t, 1e-4);
        let (ps, pr): (Point3<C::S>, Point3<C::S>) = (s.0, r.0);
        for e in 0..3 {
            c.eq_tol("point on the surface", ps[e], at[e], 1e-4);
            c.eq_tol("point on the curve", pr[e], at[e], 1e-4);
        }
    }
});
/// rows of control points with weights, all knots clamped
type Sheet = (&'static [&'static [[f64; 4]]], f64);
// a sheet and a curve moved together; where they meet: parameter of the curve, parameters on the sheet
plain_case!(Rigid { name: &'static str, which: usize, draws: f64 } "rigid" |m, c| {
    let (_, division, sheet, given, at) = SETS[m.which];
    rand::set_draws(vec![m.draws]);
    symcurvo::handle::allow(c.is_sym());
    c.keep_bits(192);
    let d = [c.var("x", -4.0, 4.0), c.var("y", -4.0, 4.0), c.var("z", -4.0, 4.0)];
    let place = |c: &C, p: &[f64; 4]| {
        let w = c.k(p[3]);
        nalgebra::Point4::new((c.k(p[0]) + d[0]) * w, (c.k(p[1]) + d[1]) * w, (c.k(p[2]) + d[2]) * w, w)
    };
    let clamped = |c: &C, n: usize, end: f64| (0..2 * n).map(|i| c.k(if i < n { 0.0 } else { end })).collect::<Vec<_>>();
    let (nu, nv) = (sheet.0.len(), sheet.0[0].len());
    let sheet: NurbsSurface3D<C::S> = NurbsSurface3D::new(nu - 1, nv - 1, clamped(c, nu, sheet.1), clamped(c, nv, sheet.1), sheet.0.iter().map(|r| r.iter().map(|p| place(c, p)).collect()).collect());
    let n = given.len();
    let line = NurbsCurve3D::try_new(n - 1, given.iter().map(|p| place(c, p)).collect(), clamped(c, n, 1.0)).unwrap();
    let Some(found) = c.ok("found", sheet.find_intersections(&line, Some(solver(c, 1e-5, division)))) else { return };
    c.check("every crossing once", found.len() == at.len());
    if found.len() != at.len() {
        return;
    }
    for (it, at) in found.iter().zip(at) {
        let ((p, (u, v)), (q, t)) = (it.a().clone(), it.b().clone());
        for (what, got, want) in [("parameter on the curve", t, at[0]), ("first parameter on the surface", u, at[1]), ("second parameter on the surface", v, at[2])] {
            let w = c.k(want);
            c.eq_tol(what, got, w, 1e-2);
        }
        let (a, b) = (sheet.point_at(u, v), line.point_at(t));
        for e in 0..3 {
            c.eq_tol("point on the surface", p[e], a[e], 1e-9);
            c.eq_tol("point on the curve", q[e], b[e], 1e-9);
            c.eq_tol("the points coincide", p[e], q[e], 1e-5);
        }
    }
});
const TILT: Sheet = (&[&[[0.0, 0.0, 0.0, 1.0], [0.0, 2.0, 1.0, 1.0]], &[[2.0, 0.5, 0.5, 1.0], [2.0, 2.5, 1.5, 1.0]]], 2.0);
const SADDLE: Sheet = (&[&[[0.0, 0.0, 0.0, 1.0], [0.0, 1.0, 1.0, 1.0]], &[[1.0, 0.0, 1.0, 1.0], [1.0, 1.0, 0.0, 1.0]]], 1.0);
/// z = x (2 - x) over x in [0, 2]
const VAULT: Sheet = (&[&[[0.0, 0.0, 0.0, 1.0], [0.0, 1.0, 0.0, 1.0]], &[[1.0, 0.0, 2.0, 1.0], [1.0, 1.0, 2.0, 1.0]], &[[2.0, 0.0, 0.0, 1.0], [2.0, 1.0, 0.0, 1.0]]], 2.0);
type Set = (&'static str, usize, Sheet, &'static [[f64; 4]], &'static [[f64; 3]]);
const SETS: &[Set] = &[
    ("tilt", 4, TILT, &[[1.0, 1.25, -1.0, 1.0], [1.0, 1.25, 2.5, 1.0]], &[[0.5, 1.0, 1.0]]),
    ("tilt-slant", 4, TILT, &[[0.5, 0.625, -0.125, 1.0], [1.5, 1.375, 1.125, 1.0]], &[[2.0 / 3.0, 7.0 / 6.0, 5.0 / 6.0]]),
    ("tilt-bend", 8, TILT, &[[0.5, 0.625, -0.375, 1.0], [1.0, 1.0, 3.125, 1.0], [1.5, 1.375, -0.125, 1.0]], BEND),
    ("saddle", 8, SADDLE, &[[0.25, 0.5, 0.0, 1.0], [0.25, 0.5, 1.0, 1.0]], &[[0.5, 0.25, 0.5]]),
    ("vault", 8, VAULT, &[[0.0, 0.5, 0.75, 1.0], [2.0, 0.5, 0.75, 1.0]], &[[0.25, 0.5, 1.0], [0.75, 1.5, 1.0]]),
    ("vault-off", 8, VAULT, &[[0.0, 0.5, 1.25, 1.0], [2.0, 0.5, 1.25, 1.0]], &[]),
    ("vault-weights", 8, VAULT, &[[0.0, 0.5, 0.75, 1.0], [2.0, 0.5, 0.75, 2.0]], &[[1.0 / 7.0, 0.5, 1.0], [0.6, 1.5, 1.0]]),
];
// x = 1/2 + t, y = 5/8 + 3/4 t (so u = x, v = 1/2 + t/2), z = -3/8 + 7 t - 27/4 t^2 against 3/8 + t/2
const BEND: &[[f64; 3]] = &[[0.13404, 0.63404, 0.56702], [0.82892, 1.32892, 0.91446]];
const TILE: Flat = &[[0.0, 0.0], [2.0, 0.0]];
const STEP: Flat = &[[0.0, 0.0], [2.0, 0.0], [2.0, 2.0]];
const TUB: Flat = &[[0.0, 1.0], [0.0, 0.0], [2.0, 0.0], [2.0, 1.0]];
const DIP: Path = &[[1.0, 1.0, 0.21875], [1.0, 1.0, 0.0], [1.0625, 1.0, 0.0], [1.0625, 1.0, 0.21875]];
const PIN: Path = &[[0.0, 0.0, 0.0], [0.0, 0.0, 2.0]];
const HOOK: Path = &[[0.0, 0.0, 0.0], [0.0, 0.0, 2.0], [0.0, 1.0, 2.0], [0.0, 1.0, 0.0]];
const ELBOW: Path = &[[0.0, 0.0, 0.0], [0.0, 0.0, 1.5], [1.5, 0.0, 1.5]];
fn i02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let all = [true; 3];
    let mut add = |name, profile, width, path, free, flip, draws| v.push(Box::new(Pierce { name, profile, width, path, free, flip, division: 4, draws, grid: 0.5, far: 0.125 }));
    let (x, y, z) = ([true, false, false], [false, true, false], [false, false, true]);
    add("tile-pin", TILE, 2.0, PIN, [true, false, true], false, 0.5);
    add("tile-pin", TILE, 2.0, PIN, y, true, 0.125);
    add("tile-hook", TILE, 1.0, HOOK, y, false, 0.5);
    add("step-elbow", STEP, 1.0, ELBOW, x, false, 0.5);
    add("step-elbow", STEP, 1.0, ELBOW, z, true, 0.5);
    add("tub-elbow", TUB, 1.0, ELBOW, x, false, 0.5);
    // down and up again within a short way
    for (free, flip) in [(z, false), (x, true)] {
        v.push(Box::new(Pierce { name: "tile-dip", profile: TILE, width: 2.0, path: DIP, free, flip, division: 16, draws: 0.5, grid: 1.0 / 32.0, far: 1.0 / 128.0 }));
    }
    for (which, set) in SETS.iter().enumerate() {
        v.push(Box::new(Rigid { name: set.0, which, draws: 0.5 }));
    }
    let mut add = |name, profile, width, path, free, flip, draws| v.push(Box::new(Pierce { name, profile, width, path, free, flip, division: 4, draws, grid: 0.5, far: 0.125 }));
    if t == Tier::Thorough {
        add("deep-tile-pin", TILE, 2.0, PIN, all, false, 0.5);
        add("deep-tub-elbow", TUB, 1.0, ELBOW, z, false, 0.875);
        add("deep-tub-hook", TUB, 2.0, HOOK, [true, true, false], true, 0.5);
    }
    v
}

// ---------------------------------------------------------------- R04
/// corner, directions of u and v (unit vectors across each other) and their lengths
type Patch = ([f64; 3], [f64; 3], [f64; 3], [f64; 2]);
/// coordinates along u and v, height over the patch, weight
type Trim = (usize, &'static [[f64; 4]]);
// trimming curves over a flat patch, one control point free: by projection or by closest points
plain_case!(Project { along: bool, patch: usize, trim: usize, free: usize, what: usize, scale: f64 } "project" |m, c| {
    rand::set_draws(vec![0.5]);
    symcurvo::handle::allow(c.is_sym());
    if m.patch == 2 {
        c.keep_bits(160);
    }
    let (o, eu, ev, size) = PATCHES[m.patch];
    let en = [eu[1] * ev[2] - eu[2] * ev[1], eu[2] * ev[0] - eu[0] * ev[2], eu[0] * ev[1] - eu[1] * ev[0]];
    let (degree, trim) = TRIMS[m.trim];
    // as fast as the rays used for the projection, so that the quasi-Newton steps are exact
    let speed = 4.0;
    let at = |c: &C, u: C::S, v: C::S, h: C::S| -> Vec<C::S> { (0..3).map(|e| c.k(o[e]) + c.k(eu[e]) * u + c.k(ev[e]) * v + c.k(en[e]) * h).collect() };
    let z = c.k(0.0);
    let pts = (0..2)
        .map(|i| (0..2).map(|j| { let p = at(c, c.k(i as f64 * size[0]), c.k(j as f64 * size[1]), z); nalgebra::Point4::new(p[0], p[1], p[2], c.k(1.0)) }).collect())
        .collect();
    let s: NurbsSurface3D<C::S> = NurbsSurface3D::new(1, 1, knots(c, &[0.0, size[0] / speed]), knots(c, &[0.0, size[1] / speed]), pts);
    let n = trim.len();
    let mut kn = vec![c.k(0.0); degree + 1];
    kn.extend((1..n - degree).map(|i| c.k(i as f64)));
    kn.extend(vec![c.k((n - degree) as f64); degree + 1]);
    let mut want: Vec<Vec<C::S>> = vec![];
    let mut hom: Vec<Vec<C::S>> = vec![];
    for (i, t) in trim.iter().enumerate() {
        let mut q = [c.k(t[0] * size[0]), c.k(t[1] * size[1]), c.k(t[2])];
        if i == 1 && m.free < 3 {
            // near the middle of the patch, the height around 1
            let cell = c.choice("cell", 3) as f64;
            let l = if m.free < 2 { 0.25 * size[m.free] } else { 1.0 } + 0.3125 * cell;
            q[m.free] = c.var("q", l + 1.0 / 256.0, l + 1.0 / 16.0 - 1.0 / 256.0);
        }
        let w = c.k(t[3]);
        let p = at(c, q[0], q[1], q[2]);
        hom.push(p.iter().map(|x| *x * w).chain([w]).collect());
        want.push(vec![q[0] * w / c.k(speed), q[1] * w / c.k(speed), w]);
    }
    let crv = NurbsCurve3D::try_new(degree, hpoints(&hom), kn.clone()).unwrap();
    let (ex, inn) = match m.what {
        0 => (Some(crv.clone()), vec![]),
        1 => (None, vec![crv.clone()]),
        _ => (Some(crv.clone()), vec![crv.clone(), crv.clone()]),
    };
    let made = if m.along {
        let d = nalgebra::Vector3::new(-c.k(en[0] * m.scale), -c.k(en[1] * m.scale), -c.k(en[2] * m.scale));
        TrimmedSurface::try_projection(s.clone(), d, ex, inn)
    } else {
        TrimmedSurface::try_map_closest_point(s.clone(), ex, inn)
    };
    let Some(made) = c.ok("trimmed", made) else { return };
    for (p, q) in made.surface().control_points().iter().flatten().zip(s.control_points().iter().flatten()) {
        for e in 0..4 {
            c.eq("the surface is kept", p[e], q[e]);
        }
    }
    c.check("an exterior if one was given", made.exterior().is_some() == (m.what != 1));
    c.check("every interior", made.interiors().len() == m.what);
    for g in made.exterior().into_iter().chain(made.interiors()) {
        c.check("degree", g.degree() == degree);
        c.check("control points", g.control_points().len() == n);
        if g.control_points().len() != n {
            return;
        }
        for (x, y) in g.knots().iter().zip(kn.iter()) {
            c.eq("knots", *x, *y);
        }
        for (p, q) in g.control_points().iter().zip(want.iter()) {
            for e in 0..3 {
                c.eq_tol("parameters on the surface", p[e], q[e], 1e-3);
            }
        }
    }
});
const PATCHES: &[Patch] = &[
    ([0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [4.0, 2.0]),
    ([1.0, -2.0, 0.5], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [2.0, 2.0]),
    // across (3/5, -4/5, 0)
    ([0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.8, 0.6, 0.0], [16.0, 16.0]),
];
const TRIMS: &[Trim] = &[
    (1, &[[0.25, 0.25, 2.0, 1.0], [0.5, 0.375, 2.0, 1.0], [0.75, 0.75, 2.0, 1.0]]),
    (2, &[[0.25, 0.25, 2.0, 1.0], [0.5, 0.375, 2.0, 2.0], [0.75, 0.75, 2.0, 0.5]]),
    // slanted
    (1, &[[0.375, 0.375, 16.0, 1.0], [0.375, 0.625, 16.0, 1.0], [0.625, 0.625, 4.0, 1.0], [0.625, 0.375, 4.0, 1.0], [0.375, 0.375, 16.0, 1.0]]),
];
fn r04(_: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for along in [true, false] {
        for (patch, trim, free, what, scale) in [
            (0, 0, 0, 0, 1.0),
            (0, 0, 1, 1, 0.125),
            (0, 1, 0, 1, 8.0),
            (1, 0, 1, 2, 1.0),
            (1, 1, 0, 0, 0.125),
            (2, 2, 3, 1, 1.0),
            (2, 2, 3, 0, 0.0625),
        ] {
            if scale != 1.0 && !along && patch < 2 {
                continue;
            }
            v.push(Box::new(Project { along, patch, trim, free, what, scale }));
        }
    }
    v
}

fn main() {
    main_with(vec![Prop { id: "R04", cases: r04 }, Prop { id: "I02", cases: i02 }]);
}
