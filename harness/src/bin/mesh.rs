//! T03, T04: triangulation of regions and of trimmed surfaces.
use std::collections::HashMap;
use curvo::prelude::*;
use nalgebra::{Point2, U3};
use symcurvo::ctx::*;
use symcurvo::plain_case;
use symcurvo::report::*;
use symcurvo::shapes::*;

type At = &'static [[f64; 2]];

/// a closed polygon in runs of sides, one corner of which may be moved
fn loops<C: Ctx>(c: &C, pts: &[[C::S; 2]], runs: usize) -> CompoundCurve<C::S, U3> {
    let n = pts.len();
    let spans = (0..runs)
        .map(|r| {
            let (a, b) = (r * n / runs, (r + 1) * n / runs);
            let h: Vec<Vec<C::S>> = (a..=b).map(|i| vec![pts[i % n][0], pts[i % n][1], c.k(1.0)]).collect();
            let mut knots = vec![c.k(a as f64)];
            knots.extend((a..=b).map(|i| c.k(i as f64)));
            knots.push(c.k(b as f64));
            NurbsCurve2D::try_new(1, hpoints(&h), knots).unwrap()
        })
        .collect();
    CompoundCurve::new(spans)
}
fn doubled<C: Ctx>(c: &C, p: &[Point2<C::S>]) -> C::S {
    let mut s = c.k(0.0);
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        s = s + a.x * b.y - a.y * b.x;
    }
    s
}
/// where the corners of a loop, which are well apart, are among the vertices
fn places<C: Ctx>(c: &mut C, vertices: &[Point2<C::S>], corners: &[[C::S; 2]]) -> Option<Vec<usize>> {
    let near = c.k(1.0 / 16.0);
    let mut out = vec![];
    for p in corners {
        let found = vertices.iter().position(|v| {
            let d = [v.x - p[0], v.y - p[1]];
            d[0] < near && d[0] > -near && d[1] < near && d[1] > -near
        });
        c.check("every corner is a vertex", found.is_some());
        let i = found?;
        for e in 0..2 {
            c.eq("vertex", vertices[i][e], p[e]);
        }
        out.push(i);
    }
    Some(out)
}
/// faces over vertices cover the inside of the loops of vertices (indices, counter-clockwise outside, clockwise holes) exactly once
fn covers<C: Ctx>(c: &mut C, vertices: &[Point2<C::S>], faces: &[[usize; 3]], around: &[Vec<usize>]) {
    let mut edges = std::collections::BTreeMap::new();
    let mut sum = c.k(0.0);
    let zero = c.k(0.0);
    for f in faces {
        let t: Vec<_> = f.iter().map(|i| vertices[*i]).collect();
        let a = doubled(c, &t);
        c.rel_tol("face runs counter-clockwise", a, Rel::Gt, zero, 0.0);
        sum = sum + a;
        for i in 0..3 {
            *edges.entry((f[i], f[(i + 1) % 3])).or_insert(0) += 1;
        }
    }
    c.check("no side is shared by faces on the same side of it", edges.values().all(|n| *n == 1));
    let mut border: std::collections::BTreeSet<(usize, usize)> =
        edges.keys().filter(|(a, b)| !edges.contains_key(&(*b, *a))).cloned().collect();
    let mut want = c.k(0.0);
    for l in around {
        let p: Vec<_> = l.iter().map(|i| vertices[*i]).collect();
        want = want + doubled(c, &p);
        for i in 0..l.len() {
            let side = (l[i], l[(i + 1) % l.len()]);
            c.check("sides of the boundary are sides of the mesh", border.remove(&side));
        }
    }
    c.check("the mesh has no other border", border.is_empty());
    c.eq_tol("area", sum, want, 1e-9);
}

// ---------------------------------------------------------------- T03
#[derive(Clone, Copy, Debug)]
struct Hole {
    at: At,
    /// the hole moves by up to this much
    play: f64,
}
plain_case!(Filled { name: &'static str, runs: usize, corner: usize, play: f64, backwards: bool, at: At, holes: &'static [Hole] } "filled" |m, c| {
    symcurvo::handle::allow(c.is_sym());
    let mut pts: Vec<[C::S; 2]> = m.at.iter().map(|p| [c.k(p[0]), c.k(p[1])]).collect();
    if m.play > 0.0 {
        let d = [c.var("dx", -m.play, m.play), c.var("dy", -m.play, m.play)];
        for e in 0..2 {
            pts[m.corner][e] = pts[m.corner][e] + d[e];
        }
    }
    let mut holes = vec![];
    for (i, h) in m.holes.iter().enumerate() {
        let d = if h.play > 0.0 {
            [c.var(&format!("hx{}", i), -h.play, h.play), c.var(&format!("hy{}", i), -h.play, h.play)]
        } else {
            [c.k(0.0); 2]
        };
        holes.push(h.at.iter().map(|p| [c.k(p[0]) + d[0], c.k(p[1]) + d[1]]).collect::<Vec<_>>());
    }
    // holes as given run the same way as the outside
    let mut given = pts.clone();
    let mut inner = holes.clone();
    if m.backwards {
        given.reverse();
        inner.iter_mut().for_each(|h| h.reverse());
    }
    let region = Region::new(loops(c, &given, m.runs), inner.iter().map(|h| loops(c, h, m.runs)).collect());
    let Some(mesh) = c.ok("meshed", region.tessellate(None)) else { return };
    let all: Vec<[C::S; 2]> = given.iter().chain(inner.iter().flatten()).cloned().collect();
    let n = mesh.vertices().len();
    c.check("the vertices are the corners", n == all.len());
    if n != all.len() {
        return;
    }
    let mut around = vec![];
    for (k, l) in std::iter::once(&given).chain(inner.iter()).enumerate() {
        let Some(mut v) = places(c, mesh.vertices(), l) else { return };
        if (k > 0) != m.backwards {
            v.reverse();
        }
        around.push(v);
    }
    covers(c, &mesh.vertices().to_vec(), mesh.faces(), &around);
});
// a boundary of curves, sampled as it is tessellated alone
plain_case!(Round { name: &'static str, shape: usize, tol: f64, play: f64, hole: Option<Hole> } "round" |m, c| {
    c.keep_bits(96);
    symcurvo::handle::allow(c.is_sym());
    let o = if m.play > 0.0 { [c.var("x", -m.play, m.play), c.var("y", -m.play, m.play)] } else { [c.k(0.0); 2] };
    let x = nalgebra::Vector2::new(c.k(1.0), c.k(0.0));
    let y = nalgebra::Vector2::new(c.k(0.0), c.k(1.0));
    let two = c.k(2.0);
    let outer: CompoundCurve<C::S, U3> = if m.shape == 0 {
        let Some(circle) = c.ok("circle", NurbsCurve2D::try_circle(&Point2::new(o[0], o[1]), &x, &y, two)) else { return };
        CompoundCurve::from(circle)
    } else {
        // half a disc and its diameter
        let Some(arc) = c.ok("arc", NurbsCurve2D::try_arc(&Point2::new(o[0], o[1]), &x, &y, two, c.k(0.0), c.k(std::f64::consts::PI))) else { return };
        let (_, end) = arc.knots_domain();
        let (a, b) = (arc.point_at(arc.knots_domain().0), arc.point_at(end));
        CompoundCurve::new(vec![arc, NurbsCurve2D::polyline(&[b, a], false)])
    };
    let hole: Vec<Vec<[C::S; 2]>> = m.hole.iter().map(|h| {
        let d = if h.play > 0.0 { c.var("hole", -h.play, h.play) } else { c.k(0.0) };
        let d = [d, d * c.k(-0.5)];
        h.at.iter().map(|p| [c.k(p[0]) + d[0], c.k(p[1]) + d[1]]).collect()
    }).collect();
    let tol = Some(c.k(m.tol));
    let rim = outer.tessellate(tol);
    let n = rim.len() - 1;
    for e in 0..2 {
        c.eq_tol("the rim closes", rim[n][e], rim[0][e], 1e-9);
    }
    for p in &rim[..n] {
        let d = [p.x - o[0], p.y - o[1]];
        let zero = c.k(0.0);
        let r = d[0] * d[0] + d[1] * d[1] - two * two;
        if m.shape == 0 || d[1] > c.k(1e-6) {
            c.eq_tol("on the rim", r, zero, 1e-9);
        } else {
            c.eq_tol("on the diameter", d[1], zero, 1e-9);
        }
    }
    let region = Region::new(outer, hole.iter().map(|h| loops(c, h, 1)).collect());
    let Some(mesh) = c.ok("meshed", region.tessellate(tol)) else { return };
    let rim: Vec<[C::S; 2]> = rim[..n].iter().map(|p| [p.x, p.y]).collect();
    c.check("the vertices are the corners", mesh.vertices().len() == n + hole.iter().map(|h| h.len()).sum::<usize>());
    let Some(v) = places(c, mesh.vertices(), &rim) else { return };
    let mut around = vec![v];
    for h in &hole {
        let Some(mut v) = places(c, mesh.vertices(), h) else { return };
        v.reverse();
        around.push(v);
    }
    covers(c, &mesh.vertices().to_vec(), mesh.faces(), &around);
});
// an open or closed chain of polylines goes through its corners once, in order
plain_case!(Chain { name: &'static str, at: At, ends: &'static [usize], closed: bool, free: &'static [usize] } "chain" |m, c| {
    let pts: Vec<Point2<C::S>> = m.at.iter().enumerate().map(|(i, p)| {
        if m.free.contains(&i) {
            Point2::new(c.var(&format!("x{}", i), p[0] - 0.25, p[0] + 0.25), c.var(&format!("y{}", i), p[1] - 0.25, p[1] + 0.25))
        } else {
            Point2::new(c.k(p[0]), c.k(p[1]))
        }
    }).collect();
    let n = pts.len();
    let total = if m.closed { n } else { n - 1 };
    let mut spans = vec![];
    let mut a = 0;
    for b in m.ends.iter().cloned().chain([total]) {
        let p: Vec<_> = (a..=b).map(|i| pts[i % n]).collect();
        spans.push(NurbsCurve2D::polyline(&p, false));
        a = b;
    }
    let compound: CompoundCurve<C::S, U3> = CompoundCurve::new(spans);
    let got = compound.tessellate(None);
    c.check("as many points as corners", got.len() == total + 1);
    if got.len() != total + 1 {
        return;
    }
    for (i, p) in got.iter().enumerate() {
        for e in 0..2 {
            c.eq("corner in order", p[e], pts[i % n][e]);
        }
    }
});
const QUAD: At = &[[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [0.0, 4.0]];
const DART: At = &[[0.0, 0.0], [4.0, -1.0], [1.5, 1.0], [1.0, 4.0]];
const ELL: At = &[[0.0, 0.0], [4.0, 0.0], [4.0, 1.0], [1.0, 1.0], [1.0, 4.0], [0.0, 4.0]];
const TRI: At = &[[1.5, 1.5], [2.75, 1.75], [2.0, 2.5]];
const BOX: At = &[[1.0, 1.0], [1.75, 1.0], [1.75, 1.75], [1.0, 1.75]];
const FAR: At = &[[2.5, 2.25], [3.25, 2.5], [2.75, 3.25]];
const NOOK: At = &[[0.25, 0.375], [0.75, 0.25], [0.5, 0.75]];
const EYE: At = &[[-0.5, -0.75], [0.75, -0.5], [0.25, 0.625]];
fn t03(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let mut add = |name, runs, corner, play, backwards, at, holes| v.push(Box::new(Filled { name, runs, corner, play, backwards, at, holes }));
    add("quad", 1, 2, 1.0, false, QUAD, &[]);
    add("quad", 2, 2, 1.0, true, QUAD, &[]);
    add("dart", 1, 2, 0.25, false, DART, &[]);
    add("ell", 3, 3, 0.5, false, ELL, &[]);
    add("quad-tri", 1, 2, 0.0, false, QUAD, &[Hole { at: TRI, play: 0.25 }]);
    add("quad-tri", 2, 2, 0.25, true, QUAD, &[Hole { at: TRI, play: 0.0 }]);
    add("quad-two", 1, 2, 0.0, false, QUAD, &[Hole { at: BOX, play: 0.125 }, Hole { at: FAR, play: 0.0 }]);
    add("ell-box", 1, 2, 0.0, false, ELL, &[Hole { at: NOOK, play: 0.125 }]);
    if t == Tier::Thorough {
        add("deep-tri", 1, 2, 0.5, false, QUAD, &[Hole { at: TRI, play: 0.125 }]);
        add("deep-two", 2, 2, 0.0, true, QUAD, &[Hole { at: BOX, play: 0.125 }, Hole { at: FAR, play: 0.125 }]);
    }
    for (name, shape, tol, play, hole) in [
        ("disc", 0, 0.1, 0.0, None),
        ("disc", 0, 0.1, 0.5, None),
        ("half", 1, 0.1, 0.0, None),
        ("disc-hole", 0, 0.5, 0.0, Some(Hole { at: EYE, play: 0.125 })),
    ] {
        v.push(Box::new(Round { name, shape, tol, play, hole }));
    }
    for (name, at, ends, closed, free) in [
        ("one", ELL, &[][..], false, &[0, 3, 5][..]),
        ("two", ELL, &[2][..], false, &[1, 2, 3][..]),
        ("three", ELL, &[1, 4][..], false, &[0, 1, 4][..]),
        ("ring", ELL, &[][..], true, &[0, 3][..]),
        ("ring-three", ELL, &[1, 4][..], true, &[0, 1, 4, 5][..]),
    ] {
        v.push(Box::new(Chain { name, at, ends, closed, free }));
    }
    v
}

// ---------------------------------------------------------------- T04
/// how a trim loop is sampled
#[derive(Clone, Copy, Debug)]
enum Given {
    /// by itself
    Free,
    /// at these parameters
    At,
    /// at the middle of every side moved along it
    Slid,
}
plain_case!(Cut { name: &'static str, heights: [f64; 4], exterior: Option<At>, play: f64, holes: &'static [Hole], given: Given, loose: bool } "cut" |m, c| {
    symcurvo::handle::allow(c.is_sym());
    let size = 4.0;
    let one = c.k(1.0);
    let z = |c: &C, i: usize, j: usize| c.k(m.heights[2 * i + j]);
    let rows: Vec<Vec<Vec<C::S>>> = (0..2)
        .map(|i| (0..2).map(|j| vec![c.k(size * i as f64), c.k(size * j as f64), z(c, i, j), one]).collect())
        .collect();
    let k = vec![c.k(0.0), c.k(0.0), c.k(size), c.k(size)];
    let points: Vec<Vec<nalgebra::Point4<C::S>>> = rows.iter().map(|r| r.iter().map(|h| nalgebra::Point4::new(h[0], h[1], h[2], h[3])).collect()).collect();
    let surface = NurbsSurface3D::new(1, 1, k.clone(), k, points);
    let moved = |c: &mut C, at: At, play: f64, tag: &str| -> Vec<[C::S; 2]> {
        let d = if play > 0.0 {
            [c.var(&format!("{}x", tag), -play, play), c.var(&format!("{}y", tag), -play, play)]
        } else {
            [c.k(0.0); 2]
        };
        at.iter().map(|p| [c.k(p[0]) + d[0], c.k(p[1]) + d[1]]).collect()
    };
    let outside = m.exterior.map(|at| moved(c, at, m.play, "e"));
    let inside: Vec<Vec<[C::S; 2]>> = m.holes.iter().enumerate().map(|(i, h)| moved(c, h.at, h.play, &format!("h{}", i))).collect();
    let curve = |c: &C, pts: &Vec<[C::S; 2]>| loops(c, pts, 1).spans()[0].clone();
    let trimmed = TrimmedSurface::new(surface, outside.as_ref().map(|p| curve(c, p)), inside.iter().map(|p| curve(c, p)).collect());
    let options = if m.loose {
        Some(AdaptiveTessellationOptions { norm_tolerance: c.k(64.0), ..Default::default() })
    } else {
        None
    };
    let slide = c.var("slide", 0.25, 0.75);
    let corners = |c: &C, p: &Vec<[C::S; 2]>| -> Vec<[C::S; 2]> {
        match m.given {
            Given::Slid => (0..p.len())
                .map(|i| {
                    let (a, b) = (p[i], p[(i + 1) % p.len()]);
                    [a[0] + (b[0] - a[0]) * slide, a[1] + (b[1] - a[1]) * slide]
                })
                .collect(),
            _ => { let _ = c; p.clone() }
        }
    };
    let params = |c: &C, n: usize| -> Option<Vec<C::S>> {
        match m.given {
            Given::Free => None,
            Given::At => Some((0..=n).map(|i| c.k(i as f64)).collect()),
            Given::Slid => Some((0..n).map(|i| c.k(i as f64) + slide).collect()),
        }
    };
    let mesh = match m.given {
        Given::Free => trimmed.tessellate(options),
        _ => {
            let e = outside.as_ref().and_then(|p| params(c, p.len()));
            let i = inside.iter().map(|p| params(c, p.len())).collect();
            trimmed.constrained_tessellate(TrimmedSurfaceConstraints::new(e, i), options)
        }
    };
    let Some(mesh) = c.ok("meshed", mesh) else { return };
    let uvs: Vec<Point2<C::S>> = mesh.uvs().iter().map(|v| Point2::new(v.x, v.y)).collect();
    let n = uvs.len();
    c.check("as many points and normals as parameters", mesh.points().len() == n && mesh.normals().len() == n);
    if mesh.points().len() != n || mesh.normals().len() != n {
        return;
    }
    // points and normals belong to the parameters
    let s = c.k(size);
    for i in 0..n {
        let (u, v) = (uvs[i].x, uvs[i].y);
        let (a, b, d, e) = (z(c, 0, 0), z(c, 0, 1), z(c, 1, 0), z(c, 1, 1));
        let want = ((s - u) * (s - v) * a + (s - u) * v * b + u * (s - v) * d + u * v * e) / (s * s);
        let p = mesh.points()[i];
        c.eq("point", p.x, u);
        c.eq("point", p.y, v);
        c.eq("point", p.z, want);
        // normal direction (-dz/du, -dz/dv, 1)
        let zu = ((s - v) * (d - a) + v * (e - b)) / (s * s);
        let zv = ((s - u) * (b - a) + u * (e - d)) / (s * s);
        let q = mesh.normals()[i];
        c.eq_tol("normal", q.x, -zu * q.z, 1e-9);
        c.eq_tol("normal", q.y, -zv * q.z, 1e-9);
        let zero = c.k(0.0);
        c.rel_tol("normal side", q.z, Rel::Gt, zero, 0.0);
    }
    let patch: Vec<[C::S; 2]> = [[0.0, 0.0], [size, 0.0], [size, size], [0.0, size]].iter().map(|p| [c.k(p[0]), c.k(p[1])]).collect();
    let mut around = vec![];
    let outer = match outside.as_ref() {
        Some(p) => corners(c, p),
        None => patch,
    };
    let Some(v) = places(c, &uvs, &outer) else { return };
    around.push(v);
    for p in &inside {
        let p = corners(c, p);
        let Some(mut v) = places(c, &uvs, &p) else { return };
        v.reverse();
        around.push(v);
    }
    covers(c, &uvs, mesh.faces(), &around);
});
const KITE: At = &[[0.75, 0.5], [3.25, 1.0], [2.75, 3.5], [1.0, 2.75]];
const NICK: At = &[[0.5, 0.5], [3.5, 0.75], [3.25, 1.5], [1.5, 1.25], [1.0, 3.5]];
const FLAT: [f64; 4] = [0.0, 1.0, 2.0, 3.0];
const SADDLE: [f64; 4] = [0.0, 1.0, 2.0, 1.0];
// a round trim of a flat patch: outside or hole, as fine as the tolerance asks
plain_case!(Rim { hole: bool, r: f64, play: f64, tol: (f64, f64), backwards: bool } "rim" |m, c| {
    symcurvo::handle::allow(c.is_sym());
    let size = 4.0;
    let (zero, one) = (c.k(0.0), c.k(1.0));
    let k = vec![zero, zero, c.k(size), c.k(size)];
    let points = (0..2)
        .map(|i| (0..2).map(|j| nalgebra::Point4::new(c.k(size * i as f64), c.k(size * j as f64), c.k(0.25 * (2 * i + j) as f64), one)).collect())
        .collect();
    let surface = NurbsSurface3D::new(1, 1, k.clone(), k, points);
    let o = if m.play > 0.0 { [c.k(2.0) + c.var("x", -m.play, m.play), c.k(1.75) + c.var("y", -m.play, m.play)] } else { [c.k(2.0), c.k(1.75)] };
    // quarters with weights 1 1 2 and 2 1 1
    let at: [[f64; 3]; 9] = [
        [1., 0., 1.], [1., 1., 1.], [0., 1., 2.], [-1., 1., 1.], [-1., 0., 1.], [-1., -1., 1.], [0., -1., 2.], [1., -1., 1.], [1., 0., 1.],
    ];
    let mut h: Vec<Vec<C::S>> = at
        .iter()
        .map(|p| {
            let w = c.k(p[2]);
            vec![(o[0] + c.k(m.r * p[0])) * w, (o[1] + c.k(m.r * p[1])) * w, w]
        })
        .collect();
    if m.backwards {
        h.reverse();
    }
    let kt = [0., 0., 0., 1., 1., 2., 2., 3., 3., 4., 4., 4.].map(|x| c.k(x)).to_vec();
    let circle = NurbsCurve2D::try_new(2, hpoints(&h), kt).unwrap();
    let trimmed = if m.hole { TrimmedSurface::new(surface, None, vec![circle]) } else { TrimmedSurface::new(surface, Some(circle), vec![]) };
    let tol = c.var("tol", m.tol.0, m.tol.1);
    let Some(mesh) = c.ok("meshed", trimmed.tessellate(Some(AdaptiveTessellationOptions { norm_tolerance: tol, ..Default::default() }))) else { return };
    let uvs: Vec<Point2<C::S>> = mesh.uvs().iter().map(|v| Point2::new(v.x, v.y)).collect();
    for (i, p) in mesh.points().iter().enumerate() {
        let (u, v) = (uvs[i].x, uvs[i].y);
        c.eq("point", p.x, u);
        c.eq("point", p.y, v);
        c.eq("point", p.z, (u * c.k(0.5) + v * c.k(0.25)) / c.k(size));
    }
    let faces = mesh.faces();
    let mut sides: std::collections::HashSet<(usize, usize)> = Default::default();
    for f in faces {
        (0..3).for_each(|i| { sides.insert((f[i], f[(i + 1) % 3])); });
    }
    let next: HashMap<usize, usize> = sides.iter().filter(|(a, b)| !sides.contains(&(*b, *a))).cloned().collect();
    let r2 = c.k(m.r * m.r);
    let on: Vec<bool> = uvs.iter().map(|p| (p.x - o[0]) * (p.x - o[0]) + (p.y - o[1]) * (p.y - o[1]) - r2).map(|d| d < c.k(1e-9) && -d < c.k(1e-9)).collect();
    let rim: Vec<usize> = (0..uvs.len()).filter(|i| on[*i]).collect();
    c.check("the trim is sampled", rim.len() > 3);
    if rim.len() < 4 {
        return;
    }
    let mut around = vec![rim[0]];
    loop {
        match next.get(&around[around.len() - 1]) {
            Some(n) if *n == rim[0] => break,
            Some(n) if around.len() <= rim.len() && on[*n] => around.push(*n),
            _ => {
                c.check("the trim's samples are joined to a loop", false);
                return;
            }
        }
    }
    c.check("every sample is on the loop", around.len() == rim.len());
    for i in 0..around.len() {
        let (p, q) = (uvs[around[i]], uvs[around[(i + 1) % around.len()]]);
        let half = c.k(0.5);
        let mid = [(p.x + q.x) * half - o[0], (p.y + q.y) * half - o[1]];
        let away = c.k(m.r) - tol;
        if away > zero {
            c.le("sides stay within the tolerance of the trim", away * away, mid[0] * mid[0] + mid[1] * mid[1]);
        }
    }
    let mut loops = vec![around];
    if m.hole {
        let patch: Vec<[C::S; 2]> = [[0.0, 0.0], [size, 0.0], [size, size], [0.0, size]].iter().map(|p| [c.k(p[0]), c.k(p[1])]).collect();
        let Some(v) = places(c, &uvs, &patch) else { return };
        loops.push(v);
    }
    covers(c, &uvs, faces, &loops);
});
fn t04(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let mut add = |name, heights, exterior, play, holes, given, loose| v.push(Box::new(Cut { name, heights, exterior, play, holes, given, loose }));
    add("whole", FLAT, None, 0.0, &[][..], Given::Free, false);
    add("hole", FLAT, None, 0.0, &[Hole { at: TRI, play: 0.25 }][..], Given::Free, false);
    add("kite", FLAT, Some(KITE), 0.25, &[][..], Given::Free, false);
    add("kite-at", FLAT, Some(KITE), 0.25, &[][..], Given::At, false);
    add("kite-slid", FLAT, Some(KITE), 0.0, &[][..], Given::Slid, false);
    add("kite-hole", FLAT, Some(KITE), 0.0, &[Hole { at: TRI, play: 0.125 }][..], Given::Free, false);
    add("hole-slid", FLAT, None, 0.0, &[Hole { at: TRI, play: 0.0 }][..], Given::Slid, false);
    add("two-holes", FLAT, None, 0.0, &[Hole { at: BOX, play: 0.125 }, Hole { at: FAR, play: 0.0 }][..], Given::Free, false);
    add("kite-hole-slid", FLAT, Some(KITE), 0.0, &[Hole { at: TRI, play: 0.0 }][..], Given::Slid, false);
    add("ell", FLAT, Some(NICK), 0.125, &[][..], Given::Free, false);
    add("saddle-hole", SADDLE, None, 0.0, &[Hole { at: TRI, play: 0.125 }][..], Given::Free, true);
    add("saddle", SADDLE, Some(KITE), 0.125, &[][..], Given::Free, true);
    add("saddle-slid", SADDLE, Some(KITE), 0.0, &[][..], Given::Slid, true);
    add("saddle-hole-slid", SADDLE, None, 0.0, &[Hole { at: TRI, play: 0.0 }][..], Given::Slid, true);
    if t == Tier::Thorough {
        add("deep-kite", FLAT, Some(KITE), 0.375, &[][..], Given::Free, false);
        add("deep-kite-hole", FLAT, Some(KITE), 0.125, &[Hole { at: TRI, play: 0.125 }][..], Given::Free, false);
        add("deep-saddle", SADDLE, Some(NICK), 0.125, &[][..], Given::Free, true);
    }
    for (hole, r, play, tol, backwards) in [
        (false, 1.0, 0.25, (0.25, 1.0), false),
        (false, 1.5, 0.0, (0.125, 0.25), true),
        (true, 1.0, 0.25, (0.25, 1.0), false),
        (true, 0.5, 0.0, (0.0625, 0.25), true),
    ] {
        v.push(Box::new(Rim { hole, r, play, tol, backwards }));
    }
    v
}

fn main() {
    main_with(vec![Prop { id: "T03", cases: t03 }, Prop { id: "T04", cases: t04 }]);
}
