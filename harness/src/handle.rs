//! NaN-boxed handles that carry a symbolic value through an interface that only knows f64
//! (the stubbed exact-predicate crate). Off by default: a symbolic `to_f64` then ends the path as
//! inconclusive instead of silently concretising.
use crate::engine::*;
use crate::sym::Sym;
use std::cell::Cell;
thread_local! { pub static ALLOW: Cell<bool> = const { Cell::new(false) }; }
const TAG: u64 = 0x7FF9_5A5A_0000_0000;
pub fn to_handle(s: Sym) -> Option<f64> {
    if ALLOW.with(|a| a.get()) {
        Some(f64::from_bits(TAG | s.0 as u64))
    } else {
        abort(Abort::Unsupported("symbolic value converted to f64".into()))
    }
}
/// magnitude in [2^180, 2^181): no case uses numbers of that size
const BOX: u64 = 1203 << 52;
/// `Into<f64>`: a number with the sign of the value that names it; 0 for zero
pub fn to_box(s: Sym) -> f64 {
    if s.0 < 3 {
        return num_traits::ToPrimitive::to_f64(&s).unwrap();
    }
    if !ALLOW.with(|a| a.get()) {
        abort(Abort::Unsupported("symbolic value converted to f64".into()))
    }
    let zero = Sym::f(0.0);
    let x = f64::from_bits(BOX | s.0 as u64);
    if s > zero {
        x
    } else if s < zero {
        // names the value itself, not its opposite
        -x
    } else {
        0.0
    }
}
pub fn from_handle(x: f64) -> Option<Sym> {
    let b = x.to_bits();
    if (b & 0x7FFF_FFFF_0000_0000) == BOX && ALLOW.with(|a| a.get()) {
        return Some(Sym(b as u32));
    }
    if b & 0xFFFF_FFFF_0000_0000 == TAG {
        Some(Sym(b as u32))
    } else {
        None
    }
}
/// orientation of three points whose coordinates are handles: the sign of the exact determinant
fn orient(c: &[f64; 6]) -> Option<f64> {
    if c.iter().all(|x| from_handle(*x).is_none()) {
        return None;
    }
    let v: Vec<Sym> = c.iter().map(|x| from_handle(*x).unwrap_or_else(|| Sym::f(*x))).collect();
    let det = (v[0] - v[4]) * (v[3] - v[5]) - (v[1] - v[5]) * (v[2] - v[4]);
    let zero = Sym::f(0.0);
    Some(if det > zero {
        1.0
    } else if det < zero {
        -1.0
    } else {
        0.0
    })
}
/// whether the fourth point lies in the circle of the first three (counter-clockwise): exact determinant
fn circle(c: &[f64; 8]) -> Option<f64> {
    if c.iter().all(|x| from_handle(*x).is_none()) {
        return None;
    }
    let v: Vec<Sym> = c.iter().map(|x| from_handle(*x).unwrap_or_else(|| Sym::f(*x))).collect();
    let d = |i: usize| (v[2 * i] - v[6], v[2 * i + 1] - v[7]);
    let (a, b, c) = (d(0), d(1), d(2));
    let l = |p: (Sym, Sym)| p.0 * p.0 + p.1 * p.1;
    let x = |p: (Sym, Sym), q: (Sym, Sym)| p.0 * q.1 - q.0 * p.1;
    let det = l(a) * x(b, c) + l(b) * x(c, a) + l(c) * x(a, b);
    let zero = Sym::f(0.0);
    Some(if det > zero {
        1.0
    } else if det < zero {
        -1.0
    } else {
        0.0
    })
}
/// Gauss-Legendre sums over symbolic integrands, or between symbolic limits
fn integrate(nodes: &[(f64, f64)], a: f64, b: f64, f: &dyn Fn(f64) -> f64) -> Option<f64> {
    let val = |x: f64| from_handle(x).unwrap_or_else(|| Sym::f(x));
    let half = Sym::f(0.5);
    let free = from_handle(a).is_some() || from_handle(b).is_some();
    let mut sum = Sym::f(0.0);
    for (x, w) in nodes {
        let at = if free {
            let (a, b) = (val(a), val(b));
            num_traits::ToPrimitive::to_f64(&(half * ((b - a) * Sym::f(*x) + (b + a)))).unwrap()
        } else {
            0.5 * ((b - a) * x + (b + a))
        };
        sum = sum + val(f(at)) * Sym::f(*w);
    }
    num_traits::ToPrimitive::to_f64(&(half * (val(b) - val(a)) * sum))
}
/// let symbolic values pass through f64 on this thread, as handles understood by the predicate crate
pub fn allow(on: bool) {
    ALLOW.with(|a| a.set(on));
    robust::HOOK.with(|h| h.set(if on { Some(orient) } else { None }));
    robust::CIRCLE.with(|h| h.set(if on { Some(circle) } else { None }));
    gauss_quad::HOOK.with(|h| h.set(if on { Some(integrate) } else { None }));
}
