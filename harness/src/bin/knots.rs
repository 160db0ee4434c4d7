//! K01, K02: knot vectors and basis functions.
use curvo::prelude::*;
use num_traits::FromPrimitive;
use symcurvo::ctx::*;
use symcurvo::plain_case;
use symcurvo::refs;
use symcurvo::report::*;
use symcurvo::shapes::*;

/// ascending knots with symbolic values; each step is either a repetition or at least GAP (solver's choice)
fn ladder<C: Ctx>(c: &mut C, m: usize, gap: f64) -> (Vec<C::S>, Vec<usize>) {
    let mut k = vec![c.var("k0", -4.0, 4.0)];
    let mut runs = vec![1];
    for i in 1..m {
        if c.choice(&format!("step{}", i), 2) == 0 {
            k.push(k[i - 1]);
            *runs.last_mut().unwrap() += 1;
        } else {
            let d = c.var(&format!("d{}", i), gap, 3.0);
            k.push(k[i - 1] + d);
            runs.push(1);
        }
    }
    (k, runs)
}
/// any parameter: symbolic (at least GAP off every knot) or one of the knots
fn any_param<C: Ctx>(c: &mut C, k: &[C::S], slack: f64) -> C::S {
    let m = k.len();
    let w = c.choice("u", m + 1);
    if w < m {
        return k[w];
    }
    let f = c.var("u", -4.0 - slack, 4.0 + 3.0 * m as f64 + slack);
    let gap = c.k(GAP);
    for x in k.iter() {
        if f < *x {
            c.assume(f + gap, Rel::Le, *x);
        } else {
            c.assume(*x + gap, Rel::Le, f);
        }
    }
    f
}

plain_case!(Query { m: usize } "query" |me, c| {
    let (k, runs) = ladder(c, me.m, GAP);
    let kv = KnotVector::new(k.clone());
    c.check("len", kv.len() == me.m && !kv.is_empty());
    c.eq("first", kv.first(), k[0]);
    c.eq("last", kv.last(), k[me.m - 1]);
    // multiplicities are the runs
    let mu = kv.multiplicity();
    c.check("as many multiplicities as distinct knots", mu.len() == runs.len());
    let mut at = 0;
    for (x, r) in mu.iter().zip(runs.iter()) {
        c.check("multiplicity", x.multiplicity() == *r);
        c.eq("multiplicity knot", *x.knot(), k[at]);
        at += r;
    }
    for p in 1..=3 {
        c.check("is_clamped", kv.is_clamped(p) == (runs[0] > p && runs[runs.len() - 1] > p));
        if 2 * p + 1 < me.m {
            let (a, b) = kv.domain(p);
            c.eq("domain start", a, k[p]);
            c.eq("domain end", b, k[me.m - 1 - p]);
        }
    }
    // inversion mirrors the steps
    let inv = kv.inverse();
    c.check("inverse length", inv.len() == me.m);
    let n = inv.len();
    for i in 0..n {
        c.eq("inverse is the mirror image", inv[i], k[0] + k[me.m - 1] - k[me.m - 1 - i]);
    }
    let same: KnotVector<C::S> = kv.cast();
    knots_eq(c, "cast", same.as_slice(), &k);
});
plain_case!(Floor { m: usize } "floor" |me, c| {
    let (k, _) = ladder(c, me.m, GAP);
    let u = any_param(c, &k, 2.0);
    let mut kv = KnotVector::new(k.clone());
    let f = kv.floor(u);
    match f {
        None => c.rel_tol("no knot at or below", u, Rel::Lt, k[0], 0.0),
        Some(i) => {
            c.rel_tol("floor is at or below", k[i], Rel::Le, u, 0.0);
            if i + 1 < me.m {
                c.rel_tol("the next knot is above", u, Rel::Lt, k[i + 1], 0.0);
            }
        }
    }
    let at = kv.add(u);
    c.check("one more knot", kv.len() == me.m + 1);
    c.check("the position of a new knot is after its floor", at == f.map(|i| i + 1).unwrap_or(0));
    c.eq("new knot is at the returned position", kv[at], u);
    let mut rest = kv.to_vec();
    rest.remove(at);
    knots_eq(c, "other knots", &rest, &k);
    for i in 1..kv.len() {
        c.rel_tol("still ascending", kv[i - 1], Rel::Le, kv[i], 0.0);
    }
});
plain_case!(Clamp { m: usize, p: usize } "clamp" |me, c| {
    let (k, _) = ladder(c, me.m, GAP);
    let kv = KnotVector::new(k.clone());
    let u = c.var("u", -30.0, 60.0);
    let (a, b) = (k[me.p], k[me.m - 1 - me.p]);
    let v = kv.clamp(me.p, u);
    if u < a {
        c.eq("below the domain", v, a);
    } else if u > b {
        c.eq("above the domain", v, b);
    } else {
        c.eq("inside the domain", v, u);
    }
});
plain_case!(Span { m: usize, p: usize } "span" |me, c| {
    let (k, _) = ladder(c, me.m, GAP);
    let n = me.m - me.p - 2;
    let (a, b) = (k[me.p], k[n + 1]);
    if !(a < b) {
        return;
    }
    let kv = KnotVector::new(k.clone());
    let u = any_param(c, &k, 0.0);
    c.assume(a, Rel::Le, u);
    c.assume(u, Rel::Le, b);
    let s = kv.find_knot_span_index(n, me.p, u);
    c.check("span within range", me.p <= s && s <= n);
    if s <= n {
        c.rel_tol("span is not empty", k[s], Rel::Lt, k[s + 1], 0.0);
        c.rel_tol("parameter at or after the span start", k[s], Rel::Le, u, 0.0);
        if u < b {
            c.rel_tol("parameter before the span end", u, Rel::Lt, k[s + 1], 0.0);
        } else {
            c.eq("the last parameter belongs to the last span", k[s + 1], b);
        }
    }
});
plain_case!(Uniform { n: usize, p: usize } "uniform" |me, c| {
    let kv: KnotVector<C::S> = KnotVector::uniform(me.n, me.p);
    c.check("uniform length", kv.len() == me.n + 2 * me.p);
    for i in 0..kv.len() {
        let want = i.saturating_sub(me.p).min(me.n - 1);
        c.eq("uniform knot", kv[i], c.k(want as f64));
    }
    c.check("uniform is clamped", kv.is_clamped(me.p));
    let (a, b) = kv.domain(me.p);
    c.eq("uniform domain start", a, c.k(0.0));
    c.eq("uniform domain end", b, c.k((me.n - 1) as f64));
});

fn k01(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    let top = if t == Tier::Quick { 6 } else { 8 };
    for m in 2..=top {
        v.push(Box::new(Query { m }));
        v.push(Box::new(Floor { m }));
    }
    for p in 0..=3usize {
        for m in (2 * p + 2)..=(2 * p + 5).min(top + 2) {
            v.push(Box::new(Clamp { m, p }));
            v.push(Box::new(Span { m, p }));
        }
        for n in 2..=5 {
            v.push(Box::new(Uniform { n, p }));
        }
    }
    v
}

// ---------------------------------------------------------------- K02
/// knots of a shape, its interior knots symbolic
fn shape_param<C: Ctx>(c: &mut C, s: &Shape) -> (Vec<C::S>, C::S, usize) {
    let k = knots(c, "", s);
    let d = s.distinct();
    let ch = c.choice("where", 1 + d.len());
    let u = if ch == 0 {
        c.var("t", s.domain().0, s.domain().1 - GAP)
    } else {
        k[s.knots.iter().position(|y| *y == d[ch - 1]).unwrap()]
    };
    let span = refs::span_of(s.degree, &k, u);
    (k, u, span)
}
pub struct Basis {
    s: Shape,
}
impl Case for Basis {
    fn name(&self) -> String {
        format!("basis-{}", self.s.id())
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let p = self.s.degree;
        let (k, u, span) = shape_param(c, &self.s);
        let kv = KnotVector::new(k.clone());
        let b = kv.basis_functions(span, u, p);
        c.check("degree+1 functions", b.len() == p + 1);
        let mut sum = c.k(0.0);
        for i in 0..b.len().min(p + 1) {
            let want = refs::basis_in_span(span - p + i, p, &k, u, span);
            c.eq("basis function", b[i], want);
            sum += b[i];
        }
        c.eq("partition of unity", sum, c.k(1.0));
        for x in b.iter() {
            let zero = c.k(0.0);
            c.rel_tol("nonnegative", zero, Rel::Le, *x, 1e-12);
        }
    }
}
pub struct DBasis {
    s: Shape,
    order: usize,
}
impl Case for DBasis {
    fn name(&self) -> String {
        format!("dbasis-{}-{}", self.s.id(), self.order)
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let p = self.s.degree;
        let (k, u, span) = shape_param(c, &self.s);
        let kv = KnotVector::new(k.clone());
        let b = kv.derivative_basis_functions(span, u, p, self.order);
        c.check("rows", b.len() == self.order + 1);
        for d in 0..b.len() {
            c.check("columns", b[d].len() == p + 1);
            for i in 0..=p {
                let want = refs::dbasis_in_span(span - p + i, p, d, &k, u, span);
                c.eq(&format!("derivative {} of a basis function", d), b[d][i], want);
            }
        }
    }
}
pub struct Regular {
    s: Shape,
    divs: usize,
}
impl Case for Regular {
    fn name(&self) -> String {
        format!("regular-{}-{}", self.s.id(), self.divs)
    }
    fn run<C: Ctx>(&self, c: &mut C) {
        let p = self.s.degree;
        let mut k = knots(c, "", &self.s);
        // shift and scale
        let shift = c.var("shift", -3.0, 3.0);
        for x in k.iter_mut() {
            *x += shift;
        }
        let kv = KnotVector::new(k.clone());
        let (a, b) = (k[p], k[k.len() - 1 - p]);
        let (x, y, step, n) = kv.regularly_spaced_span(p, self.divs);
        c.eq("start", x, a);
        c.eq("end", y, b);
        c.eq("step", step, (b - a) / c.k(self.divs as f64));
        c.check("last control point", n == k.len() - p - 2);
        let (s1, b1) = kv.regulary_spaced_basis_functions(p, self.divs);
        let (s2, b2) = kv.regularly_spaced_derivative_basis_functions(p, self.divs);
        c.check("divs+1 samples", s1.len() == self.divs + 1 && s2.len() == self.divs + 1 && b1.len() == self.divs + 1 && b2.len() == self.divs + 1);
        for i in 0..s1.len().min(s2.len()) {
            let u = if i == self.divs { b } else { a + (b - a) * c.ratio(i as i64, self.divs as i64) };
            let span = refs::span_of(p, &k, u);
            c.check("span of a regular sample", s1[i] == span);
            c.check("span of a regular sample with derivatives", s2[i] == span);
            if s1[i] != span || s2[i] != span {
                continue;
            }
            for j in 0..=p {
                let want = refs::basis_in_span(span - p + j, p, &k, u, span);
                c.eq("basis function", b1[i][j], want);
                for d in 0..=p.min(2) {
                    let want = refs::dbasis_in_span(span - p + j, p, d, &k, u, span);
                    c.eq(&format!("derivative {}", d), b2[i][d][j], want);
                }
            }
        }
    }
}
fn k02(t: Tier) -> Vec<Box<dyn DynCase>> {
    let mut v: Vec<Box<dyn DynCase>> = vec![];
    for s in all_shapes() {
        v.push(Box::new(Basis { s: s.clone() }));
        for order in 0..=s.degree.min(3) {
            v.push(Box::new(DBasis { s: s.clone(), order }));
        }
        if s.distinct().len() > 2 && s.degree <= if t == Tier::Quick { 3 } else { 4 } {
            v.push(Box::new(Basis { s: s.clone().sym() }));
            v.push(Box::new(DBasis { s: s.clone().sym(), order: s.degree.min(2) }));
        }
        for divs in [1, 2, 3, 5] {
            v.push(Box::new(Regular { s: s.clone(), divs }));
        }
        if s.degree <= 2 && s.distinct().len() > 2 {
            v.push(Box::new(Regular { s: s.clone().sym(), divs: 4 }));
        }
    }
    v
}
#[allow(dead_code)]
fn unused<S: Scalar>() -> S {
    <S as FromPrimitive>::from_f64(0.0).unwrap()
}

fn main() {
    main_with(vec![Prop { id: "K01", cases: k01 }, Prop { id: "K02", cases: k02 }]);
}
