//! Reference definitions, written independently of curvo: Cox-de Boor recursion, quotient rule.
use crate::ctx::*;
use num_traits::FromPrimitive;

pub fn k<S: Scalar>(x: f64) -> S {
    <S as FromPrimitive>::from_f64(x).unwrap()
}

/// B-spline basis function N_{i,p}(t) over `knots` by the recursive definition. `last` is the index
/// of the span that is closed on the right (the last nonempty span of the domain).
pub fn basis_in_span<S: Scalar>(i: usize, p: usize, knots: &[S], t: S, span: usize) -> S {
    if p == 0 {
        return if i == span { S::one() } else { S::zero() };
    }
    let mut r = S::zero();
    if i <= span && span <= i + p - 1 + 0 {
        let a = basis_in_span(i, p - 1, knots, t, span);
        r += (t - knots[i]) / (knots[i + p] - knots[i]) * a;
    }
    if i + 1 <= span && span <= i + p {
        let b = basis_in_span(i + 1, p - 1, knots, t, span);
        r += (knots[i + p + 1] - t) / (knots[i + p + 1] - knots[i + 1]) * b;
    }
    r
}

/// d-th derivative of N_{i,p}
pub fn dbasis_in_span<S: Scalar>(i: usize, p: usize, d: usize, knots: &[S], t: S, span: usize) -> S {
    if d == 0 {
        return basis_in_span(i, p, knots, t, span);
    }
    if p == 0 {
        return S::zero();
    }
    let pp: S = k(p as f64);
    let mut r = S::zero();
    if i <= span && span <= i + p - 1 {
        r += pp / (knots[i + p] - knots[i]) * dbasis_in_span(i, p - 1, d - 1, knots, t, span);
    }
    if i + 1 <= span && span <= i + p {
        r -= pp / (knots[i + p + 1] - knots[i + 1]) * dbasis_in_span(i + 1, p - 1, d - 1, knots, t, span);
    }
    r
}

/// the span (index s with knots[s] <= t < knots[s+1]); the end of the domain belongs to the last
/// nonempty span
pub fn span_of<S: Scalar>(p: usize, knots: &[S], t: S) -> usize {
    let n = knots.len() - p - 1; // number of control points
    let mut last = p;
    for s in p..n {
        if knots[s] < knots[s + 1] {
            last = s;
        }
    }
    for s in p..n {
        if knots[s] < knots[s + 1] && t >= knots[s] && t < knots[s + 1] {
            return s;
        }
    }
    if t < knots[p] {
        // before the domain: first nonempty span (polynomial extension)
        for s in p..n {
            if knots[s] < knots[s + 1] {
                return s;
            }
        }
    }
    last
}

/// homogeneous derivative of order d: sum_i N_i^(d)(t) * ctrl_i
pub fn hom<S: Scalar>(p: usize, knots: &[S], ctrl: &[Vec<S>], t: S, d: usize, span: usize) -> Vec<S> {
    let dim = ctrl[0].len();
    let mut r = vec![S::zero(); dim];
    if d > p {
        return r;
    }
    for i in (span - p)..=span {
        let b = dbasis_in_span(i, p, d, knots, t, span);
        for j in 0..dim {
            r[j] += ctrl[i][j] * b;
        }
    }
    r
}

/// point, first, second derivative of the rational curve (cartesian)
pub fn rational<S: Scalar>(p: usize, knots: &[S], ctrl: &[Vec<S>], t: S, order: usize) -> Vec<Vec<S>> {
    let span = span_of(p, knots, t);
    rational_in(p, knots, ctrl, t, order, span)
}
pub fn rational_in<S: Scalar>(p: usize, knots: &[S], ctrl: &[Vec<S>], t: S, order: usize, span: usize) -> Vec<Vec<S>> {
    let h: Vec<Vec<S>> = (0..=order).map(|d| hom(p, knots, ctrl, t, d, span)).collect();
    let dim = ctrl[0].len() - 1;
    let w = h[0][dim];
    let c0: Vec<S> = (0..dim).map(|j| h[0][j] / w).collect();
    let mut out = vec![c0.clone()];
    if order >= 1 {
        let w1 = h[1][dim];
        let c1: Vec<S> = (0..dim).map(|j| (h[1][j] - w1 * c0[j]) / w).collect();
        out.push(c1.clone());
        if order >= 2 {
            let w2 = h[2][dim];
            let two: S = k(2.0);
            let c2: Vec<S> = (0..dim)
                .map(|j| (h[2][j] - two * w1 * c1[j] - w2 * c0[j]) / w)
                .collect();
            out.push(c2.clone());
            if order >= 3 {
                let w3 = h[3][dim];
                let three: S = k(3.0);
                out.push(
                    (0..dim)
                        .map(|j| (h[3][j] - three * w1 * c2[j] - three * w2 * c1[j] - w3 * c0[j]) / w)
                        .collect(),
                );
            }
        }
    }
    out
}

/// tensor product: homogeneous mixed derivative
#[allow(clippy::too_many_arguments)]
pub fn hom2<S: Scalar>(pu: usize, pv: usize, ku: &[S], kv: &[S], ctrl: &[Vec<Vec<S>>], u: S, v: S, du: usize, dv: usize) -> Vec<S> {
    let su = span_of(pu, ku, u);
    let sv = span_of(pv, kv, v);
    let dim = ctrl[0][0].len();
    let mut r = vec![S::zero(); dim];
    if du > pu || dv > pv {
        return r;
    }
    for i in (su - pu)..=su {
        let bu = dbasis_in_span(i, pu, du, ku, u, su);
        for j in (sv - pv)..=sv {
            let bv = dbasis_in_span(j, pv, dv, kv, v, sv);
            for d in 0..dim {
                r[d] += ctrl[i][j][d] * bu * bv;
            }
        }
    }
    r
}
/// rational surface derivative S^(du,dv)
#[allow(clippy::too_many_arguments)]
pub fn rational2<S: Scalar>(pu: usize, pv: usize, ku: &[S], kv: &[S], ctrl: &[Vec<Vec<S>>], u: S, v: S, du: usize, dv: usize) -> Vec<S> {
    let h = |a, b| hom2(pu, pv, ku, kv, ctrl, u, v, a, b);
    let h00 = h(0, 0);
    let dim = h00.len() - 1;
    let w = h00[dim];
    let s00: Vec<S> = (0..dim).map(|j| h00[j] / w).collect();
    let first = |hx: &Vec<S>| -> Vec<S> { (0..dim).map(|j| (hx[j] - hx[dim] * s00[j]) / w).collect() };
    match (du, dv) {
        (0, 0) => s00,
        (1, 0) => first(&h(1, 0)),
        (0, 1) => first(&h(0, 1)),
        (1, 1) => {
            let (a, b, ab) = (h(1, 0), h(0, 1), h(1, 1));
            let (su, sv) = (first(&a), first(&b));
            (0..dim)
                .map(|j| (ab[j] - ab[dim] * s00[j] - a[dim] * sv[j] - b[dim] * su[j]) / w)
                .collect()
        }
        (2, 0) | (0, 2) => {
            let (a, aa) = if du == 2 { (h(1, 0), h(2, 0)) } else { (h(0, 1), h(0, 2)) };
            let s1 = first(&a);
            let two: S = k(2.0);
            (0..dim)
                .map(|j| (aa[j] - two * a[dim] * s1[j] - aa[dim] * s00[j]) / w)
                .collect()
        }
        _ => {
            // Leibniz: (w S)^(du,dv) with everything lower known
            let ch = |n: usize, r: usize| -> f64 { (0..r).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64) };
            let mut r = h(du, dv);
            for a in 0..=du {
                for b in 0..=dv {
                    if a + b > 0 {
                        let wd = h(a, b)[dim] * k::<S>(ch(du, a) * ch(dv, b));
                        let low = rational2(pu, pv, ku, kv, ctrl, u, v, du - a, dv - b);
                        (0..dim).for_each(|j| r[j] -= wd * low[j]);
                    }
                }
            }
            r.truncate(dim);
            r.into_iter().map(|x| x / w).collect()
        }
    }
}
