//! Interval arithmetic in outward-rounded f64 and a branch-and-prune search over the box of the
//! inputs: settles the sign of a polynomial on the current path before the solver is asked.
use crate::engine::{Engine, Rel, VarKind};
use crate::poly::{Mono, Poly, Var};
use crate::q::Q;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Iv(pub f64, pub f64);

const ALL: Iv = Iv(f64::NEG_INFINITY, f64::INFINITY);

impl Iv {
    fn out(lo: f64, hi: f64) -> Iv {
        if lo.is_nan() || hi.is_nan() {
            return ALL;
        }
        Iv(lo.next_down(), hi.next_up())
    }
    fn at(x: f64) -> Iv {
        Iv(x, x)
    }
    pub fn of(q: &Q) -> Iv {
        if let Q::S(n, d) = q {
            if n.unsigned_abs() < (1 << 53) && *d == 1 {
                return Iv::at(*n as f64);
            }
            if n.unsigned_abs() < (1 << 53) && *d < (1 << 53) {
                let f = *n as f64 / *d as f64;
                return Iv(f.next_down(), f.next_up());
            }
        }
        let f = q.to_f64();
        if !f.is_finite() {
            return ALL;
        }
        // the conversion is within a few units of the last place
        let e = f.abs() * 1e-15 + f64::MIN_POSITIVE;
        Iv::out(f - e, f + e)
    }
    fn add(self, o: Iv) -> Iv {
        Iv::out(self.0 + o.0, self.1 + o.1)
    }
    fn sub(self, o: Iv) -> Iv {
        Iv::out(self.0 - o.1, self.1 - o.0)
    }
    fn mul(self, o: Iv) -> Iv {
        let c = [self.0 * o.0, self.0 * o.1, self.1 * o.0, self.1 * o.1];
        if c.iter().any(|x| x.is_nan()) {
            return ALL;
        }
        Iv::out(c[0].min(c[1]).min(c[2].min(c[3])), c[0].max(c[1]).max(c[2].max(c[3])))
    }
    fn div(self, o: Iv) -> Iv {
        if o.0 <= 0.0 && o.1 >= 0.0 {
            return ALL;
        }
        let c = [self.0 / o.0, self.0 / o.1, self.1 / o.0, self.1 / o.1];
        if c.iter().any(|x| x.is_nan()) {
            return ALL;
        }
        Iv::out(c[0].min(c[1]).min(c[2].min(c[3])), c[0].max(c[1]).max(c[2].max(c[3])))
    }
    fn pow(self, e: u16) -> Iv {
        let base = if e % 2 == 0 {
            let (a, b) = (self.0.abs(), self.1.abs());
            Iv(if self.0 <= 0.0 && self.1 >= 0.0 { 0.0 } else { a.min(b) }, a.max(b))
        } else {
            self
        };
        let mut r = base;
        for _ in 1..e {
            r = r.mul(base);
        }
        if e % 2 == 0 {
            r.0 = r.0.max(0.0);
        }
        r
    }
    fn sqrt(self) -> Iv {
        let lo = if self.0 <= 0.0 { 0.0 } else { self.0.sqrt().next_down().max(0.0) };
        let hi = if self.1 <= 0.0 { 0.0 } else { self.1.sqrt().next_up() };
        Iv(lo, hi)
    }
    fn meet(self, o: Iv) -> Iv {
        Iv(self.0.max(o.0), self.1.min(o.1))
    }
    fn mid(self) -> f64 {
        0.5 * (self.0 + self.1)
    }
    /// possible signs: 1 negative, 2 zero, 4 positive
    fn signs(self) -> u8 {
        let mut s = 0;
        if self.0 < 0.0 {
            s |= 1;
        }
        if self.0 <= 0.0 && self.1 >= 0.0 {
            s |= 2;
        }
        if self.1 > 0.0 {
            s |= 4;
        }
        if s == 0 {
            7
        } else {
            s
        }
    }
}

/// a polynomial with coefficients as intervals
pub struct Terms(Vec<(Iv, Vec<(Var, u16)>)>);
pub struct Comp {
    terms: Terms,
    /// partial derivatives, when every variable is an input
    deriv: Vec<(Var, Terms)>,
    /// variables it depends on, through definitions
    pub support: BTreeSet<Var>,
}

fn compile(p: &Poly) -> Terms {
    Terms(p.0.iter().map(|(m, c)| (Iv::of(c), m.0.clone())).collect())
}
fn derivative(p: &Poly, v: Var) -> Terms {
    let mut out = vec![];
    for (m, c) in &p.0 {
        if let Some(k) = m.0.iter().position(|x| x.0 == v) {
            let e = m.0[k].1;
            let mut w: Mono = m.clone();
            if e == 1 {
                w.0.remove(k);
            } else {
                w.0[k].1 -= 1;
            }
            out.push((Iv::of(c).mul(Iv::at(e as f64)), w.0));
        }
    }
    Terms(out)
}

type Vals = HashMap<Var, Iv>;

pub struct Found {
    /// sides not excluded: (wanted, other)
    pub maybe: (bool, bool),
    /// points known to be on a side
    pub point: (Option<Vals>, Option<Vals>),
}

impl Engine {
    pub fn comp(&mut self, p: &Rc<Poly>) -> Rc<Comp> {
        if let Some(c) = self.comps.get(p) {
            return c.clone();
        }
        let mut direct = BTreeSet::new();
        p.vars(&mut direct);
        let mut support = direct.clone();
        loop {
            let n = support.len();
            for v in support.clone() {
                match &self.vars[v as usize].kind {
                    VarKind::Sqrt(p) => p.vars(&mut support),
                    VarKind::Def(a, b) => {
                        a.vars(&mut support);
                        b.vars(&mut support);
                    }
                    VarKind::Cos(w) | VarKind::Sin(w) => {
                        support.insert(*w);
                    }
                    VarKind::Input => {}
                }
            }
            if support.len() == n {
                break;
            }
        }
        let plain = direct.iter().all(|v| matches!(self.vars[*v as usize].kind, VarKind::Input));
        let deriv = if plain && direct.len() <= 4 && p.0.len() <= 80 && p.deg() > 1 {
            direct.iter().map(|v| (*v, derivative(p, *v))).collect()
        } else {
            vec![]
        };
        let c = Rc::new(Comp { terms: compile(p), deriv, support });
        self.comps.insert(p.clone(), c.clone());
        c
    }
    /// range over the bounds of the variables alone, and the size of the numbers that went into it
    pub fn rough(&self, p: &Poly) -> (Iv, f64) {
        let (mut s, mut scale) = (Iv(0.0, 0.0), 0.0f64);
        for (m, c) in &p.0 {
            let mut x = Iv::of(c);
            for (v, e) in &m.0 {
                x = x.mul(self.bounds(*v).pow(*e));
            }
            s = s.add(x);
            scale += x.0.abs().max(x.1.abs());
        }
        (s, scale)
    }
    fn bounds(&self, v: Var) -> Iv {
        let vi = &self.vars[v as usize];
        let lo = vi.lo.as_ref().map(|q| Iv::of(q).0).unwrap_or(f64::NEG_INFINITY);
        let hi = vi.hi.as_ref().map(|q| Iv::of(q).1).unwrap_or(f64::INFINITY);
        Iv(lo, hi)
    }
    /// value of a variable on a box; None when it is not a function of the box
    fn value(&mut self, v: Var, vals: &mut Vals) -> Iv {
        if let Some(x) = vals.get(&v) {
            return *x;
        }
        let kind = self.vars[v as usize].kind.clone();
        let b = self.bounds(v);
        let x = match kind {
            VarKind::Sqrt(p) => {
                let c = self.comp(&p);
                self.eval(&c.terms, vals).sqrt().meet(b)
            }
            VarKind::Def(p, q) => {
                let (p, q) = (self.comp(&p), self.comp(&q));
                let n = self.eval(&p.terms, vals);
                n.div(self.eval(&q.terms, vals)).meet(b)
            }
            _ => b,
        };
        let x = if x.0 <= x.1 { x } else { b };
        vals.insert(v, x);
        x
    }
    fn eval(&mut self, t: &Terms, vals: &mut Vals) -> Iv {
        let mut s = Iv(0.0, 0.0);
        for (c, m) in &t.0 {
            let mut x = *c;
            for (v, e) in m {
                x = x.mul(self.value(*v, vals).pow(*e));
            }
            s = s.add(x);
        }
        s
    }
    fn eval_comp(&mut self, c: &Comp, vals: &mut Vals) -> Iv {
        let mut r = self.eval(&c.terms, vals);
        if !c.deriv.is_empty() && r.0 < 0.0 && r.1 > 0.0 {
            let mut mids: Vals = HashMap::new();
            for (v, _) in &c.deriv {
                mids.insert(*v, Iv::at(self.value(*v, vals).mid()));
            }
            let mut s = self.eval(&c.terms, &mut mids);
            for (v, d) in &c.deriv {
                let g = self.eval(d, vals);
                s = s.add(g.mul(vals[v].sub(mids[v])));
            }
            let m = r.meet(s);
            if m.0 <= m.1 {
                r = m;
            }
        }
        r
    }
    /// Which of the sides `mask` and `poss & !mask` of p can hold on this path: a search over at most n boxes.
    pub fn prune(&mut self, p: &Rc<Poly>, poss: u8, mask: u8, n: usize) -> Option<Found> {
        let c = self.comp(p);
        // conditions that bear on it
        let mut support = c.support.clone();
        let conds: Vec<(Rc<Comp>, Rel)> = self.pc.clone().iter().map(|x| (self.comp(&x.p), x.rel)).collect();
        let mut used = vec![false; conds.len()];
        loop {
            let mut more = false;
            for (i, (k, _)) in conds.iter().enumerate() {
                if !used[i] && !k.support.is_disjoint(&support) {
                    used[i] = true;
                    support.extend(k.support.iter());
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        let conds: Vec<(Rc<Comp>, u8)> =
            conds.into_iter().zip(used).filter(|x| x.1).map(|((k, r), _)| (k, r.mask())).collect();
        let mut inputs = vec![];
        let mut circle = false;
        for v in &support {
            match self.vars[*v as usize].kind {
                VarKind::Input => {
                    let b = self.bounds(*v);
                    if !b.0.is_finite() || !b.1.is_finite() {
                        return None;
                    }
                    inputs.push(*v);
                }
                VarKind::Cos(_) | VarKind::Sin(_) => {
                    circle = true;
                    inputs.push(*v);
                }
                _ => {}
            }
        }
        let mut found = Found { maybe: (false, false), point: (None, None) };
        // a point kept from before
        if !circle && self.witness.is_some() {
            let w = self.witness.clone().unwrap();
            if inputs.iter().all(|v| w.contains_key(v)) {
                let vals: Vals = inputs.iter().map(|v| (*v, w[v])).collect();
                self.probe(&c, &conds, vals, poss, mask, &mut found);
            }
        }
        let start: Vec<(Var, Iv)> = inputs.iter().map(|v| (*v, self.bounds(*v))).collect();
        let width: Vec<f64> = start.iter().map(|x| (x.1 .1 - x.1 .0).max(1e-300)).collect();
        let mut open = std::collections::VecDeque::new();
        open.push_back(start);
        let mut left = n;
        'boxes: while let Some(b) = open.pop_front() {
            if found.point.0.is_some() && found.point.1.is_some() {
                found.maybe = (true, true);
                return Some(found);
            }
            if left == 0 {
                found.maybe = (true, true);
                return Some(found);
            }
            left -= 1;
            let mut vals: Vals = b.iter().cloned().collect();
            for (k, m) in &conds {
                if self.eval_comp(k, &mut vals).signs() & m == 0 {
                    continue 'boxes;
                }
            }
            let s = self.eval_comp(&c, &mut vals).signs() & poss;
            let (t, f) = (s & mask != 0, s & !mask != 0);
            // nothing new in this box
            if (!t || found.maybe.0) && (!f || found.maybe.1) {
                continue;
            }
            if !circle {
                let mid: Vals = b.iter().map(|(v, i)| (*v, Iv::at(i.mid()))).collect();
                self.probe(&c, &conds, mid, poss, mask, &mut found);
                if found.point.0.is_some() {
                    found.maybe.0 = true;
                }
                if found.point.1.is_some() {
                    found.maybe.1 = true;
                }
            }
            if (!t || found.maybe.0) && (!f || found.maybe.1) {
                continue;
            }
            // halve the widest side
            let k = (0..b.len())
                .max_by(|i, j| {
                    let w = |k: usize| (b[k].1 .1 - b[k].1 .0) / width[k];
                    w(*i).partial_cmp(&w(*j)).unwrap()
                });
            let Some(k) = k else {
                found.maybe = (true, true);
                return Some(found);
            };
            let m = b[k].1.mid();
            if !(b[k].1 .0 < m && m < b[k].1 .1) || (b[k].1 .1 - b[k].1 .0) < 1e-7 * width[k] {
                found.maybe.0 |= t;
                found.maybe.1 |= f;
                continue;
            }
            let (mut x, mut y) = (b.clone(), b);
            x[k].1 .1 = m;
            y[k].1 .0 = m;
            open.push_back(x);
            open.push_back(y);
        }
        Some(found)
    }
    fn probe(&mut self, c: &Comp, conds: &[(Rc<Comp>, u8)], mut vals: Vals, poss: u8, mask: u8, found: &mut Found) {
        let point = vals.clone();
        for (k, m) in conds {
            let s = self.eval_comp(k, &mut vals).signs();
            if s & !m != 0 {
                return;
            }
        }
        // inside the bounds of what is defined from the inputs
        let s = self.eval_comp(c, &mut vals).signs();
        if s & !poss != 0 {
            return;
        }
        if s & !mask == 0 && found.point.0.is_none() {
            found.point.0 = Some(point);
        } else if s & mask == 0 && found.point.1.is_none() {
            found.point.1 = Some(point);
        }
    }
}
