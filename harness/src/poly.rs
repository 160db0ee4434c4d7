//! Sparse multivariate polynomials over Q and rational functions with factored denominators.
use crate::q::Q;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;

pub type Var = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Mono(pub Vec<(Var, u16)>);

impl Mono {
    pub fn one() -> Mono {
        Mono(vec![])
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        if self.0.is_empty() {
            return o.clone();
        }
        if o.0.is_empty() {
            return self.clone();
        }
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = (self.0[i], o.0[j]);
            match a.0.cmp(&b.0) {
                Ordering::Less => {
                    r.push(a);
                    i += 1
                }
                Ordering::Greater => {
                    r.push(b);
                    j += 1
                }
                Ordering::Equal => {
                    r.push((a.0, a.1 + b.1));
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Mono(r)
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        if o.0.is_empty() {
            return Some(self.clone());
        }
        let mut r = Vec::with_capacity(self.0.len());
        let mut j = 0;
        for &(v, e) in &self.0 {
            if j < o.0.len() && o.0[j].0 == v {
                let f = o.0[j].1;
                j += 1;
                if f > e {
                    return None;
                }
                if e > f {
                    r.push((v, e - f));
                }
            } else {
                if j < o.0.len() && o.0[j].0 < v {
                    return None;
                }
                r.push((v, e));
            }
        }
        if j < o.0.len() {
            None
        } else {
            Some(Mono(r))
        }
    }
    pub fn deg(&self) -> u32 {
        self.0.iter().map(|x| x.1 as u32).sum()
    }
}
impl PartialOrd for Mono {
    fn partial_cmp(&self, o: &Mono) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Mono {
    // lex order, lower variable index is more significant
    fn cmp(&self, o: &Mono) -> Ordering {
        let n = self.0.len().min(o.0.len());
        for i in 0..n {
            let (a, b) = (self.0[i], o.0[i]);
            if a.0 != b.0 {
                return if a.0 < b.0 { Ordering::Greater } else { Ordering::Less };
            }
            if a.1 != b.1 {
                return a.1.cmp(&b.1);
            }
        }
        self.0.len().cmp(&o.0.len())
    }
}

/// terms sorted in decreasing monomial order, no zero coefficient
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Vec<(Mono, Q)>);

/// rewriting rules v^2 -> poly (square roots, sines)
pub type Rules = HashMap<Var, Rc<Poly>>;

pub const MAX_TERMS: usize = 60_000;

pub struct TooBig;

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn cst(q: Q) -> Poly {
        if q.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(Mono::one(), q)])
        }
    }
    pub fn var(v: Var) -> Poly {
        Poly(vec![(Mono(vec![(v, 1)]), Q::ONE)])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.0.len() {
            0 => Some(Q::ZERO),
            1 if self.0[0].0 .0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn deg(&self) -> u32 {
        self.0.iter().map(|t| t.0.deg()).max().unwrap_or(0)
    }
    pub fn vars_list(&self) -> Vec<Var> {
        let mut s = Default::default();
        self.vars(&mut s);
        s.into_iter().collect()
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<Var>) {
        for (m, _) in &self.0 {
            for (v, _) in &m.0 {
                out.insert(*v);
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match self.0[i].0.cmp(&o.0[j].0) {
                Ordering::Greater => {
                    r.push(self.0[i].clone());
                    i += 1
                }
                Ordering::Less => {
                    r.push(o.0[j].clone());
                    j += 1
                }
                Ordering::Equal => {
                    let c = self.0[i].1.add(&o.0[j].1);
                    if !c.is_zero() {
                        r.push((self.0[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Poly(r)
    }
    pub fn scale(&self, q: &Q) -> Poly {
        if q.is_zero() {
            return Poly::zero();
        }
        if q.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(q))).collect())
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    fn from_map(h: HashMap<Mono, Q>) -> Poly {
        let mut v: Vec<(Mono, Q)> = h.into_iter().filter(|t| !t.1.is_zero()).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        Poly(v)
    }
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        let mut h: HashMap<Mono, Q> = HashMap::new();
        for (m, a) in &self.0 {
            for (n, b) in &o.0 {
                let c = a.mul(b);
                h.entry(m.mul(n))
                    .and_modify(|x| *x = x.add(&c))
                    .or_insert(c);
            }
            if h.len() > MAX_TERMS {
                std::panic::panic_any(crate::engine::Abort::TooBig);
            }
        }
        Poly::from_map(h)
    }
    pub fn mul(&self, o: &Poly, rules: &Rules) -> Poly {
        let p = self.mul_raw(o);
        p.reduce(rules)
    }
    pub fn reduce(self, rules: &Rules) -> Poly {
        if rules.is_empty() {
            return self;
        }
        let mut p = self;
        loop {
            let hit = p
                .0
                .iter()
                .any(|(m, _)| m.0.iter().any(|(v, e)| *e >= 2 && rules.contains_key(v)));
            if !hit {
                return p;
            }
            let mut keep: Vec<(Mono, Q)> = vec![];
            let mut acc = Poly::zero();
            // group by the (var) replaced
            let mut groups: HashMap<(Var, u16), Vec<(Mono, Q)>> = HashMap::new();
            for (m, c) in p.0.into_iter() {
                if let Some(k) = m.0.iter().rposition(|(v, e)| *e >= 2 && rules.contains_key(v)) {
                    let (v, e) = m.0[k];
                    let mut mm = m.clone();
                    let h = e / 2;
                    if e % 2 == 0 {
                        mm.0.remove(k);
                    } else {
                        mm.0[k].1 = 1;
                    }
                    groups.entry((v, h)).or_default().push((mm, c));
                } else {
                    keep.push((m, c));
                }
            }
            for ((v, h), ts) in groups {
                let base = &rules[&v];
                let mut f = (**base).clone();
                for _ in 1..h {
                    f = f.mul_raw(base);
                }
                let mut hm: HashMap<Mono, Q> = HashMap::new();
                for (m, c) in ts {
                    hm.entry(m).and_modify(|x| *x = x.add(&c)).or_insert(c);
                }
                acc = acc.add(&Poly::from_map(hm).mul_raw(&f));
            }
            p = Poly(keep).add(&acc);
        }
    }
    /// exact division
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if d.0.len() == 1 {
            let (dm, dc) = &d.0[0];
            let ic = dc.inv();
            let mut r = Vec::with_capacity(self.0.len());
            for (m, c) in &self.0 {
                r.push((m.div(dm)?, c.mul(&ic)));
            }
            return Some(Poly(r));
        }
        // quick rejections: leading and trailing monomials must be divisible
        let (lm, lc) = &d.0[0];
        let tm = &d.0[d.0.len() - 1].0;
        self.0[0].0.div(lm)?;
        self.0[self.0.len() - 1].0.div(tm)?;
        if d.deg() > self.deg() {
            return None;
        }
        let ic = lc.inv();
        let mut rem: std::collections::BTreeMap<Mono, Q> =
            self.0.iter().cloned().collect();
        let mut quo: Vec<(Mono, Q)> = vec![];
        while let Some((m, c)) = rem.pop_last() {
            let qm = m.div(lm)?;
            let qc = c.mul(&ic);
            for (dm, dc) in &d.0[1..] {
                let k = qm.mul(dm);
                let v = qc.mul(dc);
                match rem.entry(k) {
                    std::collections::btree_map::Entry::Vacant(e) => {
                        e.insert(v.neg());
                    }
                    std::collections::btree_map::Entry::Occupied(mut e) => {
                        let n = e.get().sub(&v);
                        if n.is_zero() {
                            e.remove();
                        } else {
                            e.insert(n);
                        }
                    }
                }
            }
            quo.push((qm, qc));
            if quo.len() > MAX_TERMS {
                return None;
            }
        }
        Some(Poly(quo))
    }
    /// (unit, monic) with self = unit * monic
    pub fn monic(&self) -> (Q, Poly) {
        let c = self.0[0].1.clone();
        if c.is_one() {
            return (c, self.clone());
        }
        (c.clone(), self.scale(&c.inv()))
    }
    /// greatest monomial dividing all terms
    pub fn mono_content(&self) -> Mono {
        let mut it = self.0.iter();
        let mut g = match it.next() {
            None => return Mono::one(),
            Some(t) => t.0.clone(),
        };
        for (m, _) in it {
            let mut r = vec![];
            let mut j = 0;
            for &(v, e) in &g.0 {
                while j < m.0.len() && m.0[j].0 < v {
                    j += 1;
                }
                if j < m.0.len() && m.0[j].0 == v {
                    r.push((v, e.min(m.0[j].1)));
                }
            }
            g = Mono(r);
            if g.0.is_empty() {
                break;
            }
        }
        g
    }
    /// polynomial square root, if self = q^2 for a polynomial q with rational coefficients
    pub fn sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if self.0.len() > 400 {
            return None;
        }
        let (m, c) = &self.0[0];
        if m.0.iter().any(|x| x.1 % 2 == 1) || c.sign() < 0 {
            return None;
        }
        let (r, k) = c.sqrt_parts();
        if !k.is_one() {
            return None;
        }
        let lm = Mono(m.0.iter().map(|x| (x.0, x.1 / 2)).collect());
        let mut root = Poly(vec![(lm.clone(), r.clone())]);
        let two_r = r.add(&r);
        let mut rem = self.sub(&root.mul_raw(&root));
        let mut steps = 0;
        while !rem.is_zero() {
            let (m, c) = rem.0[0].clone();
            let q = m.div(&lm)?;
            if q >= lm {
                return None;
            }
            let t = Poly(vec![(q, c.div(&two_r))]);
            // rem -= 2*root*t + t^2
            rem = rem.sub(&root.mul_raw(&t).scale(&Q::int(2))).sub(&t.mul_raw(&t));
            root = root.add(&t);
            steps += 1;
            if steps > 200 {
                return None;
            }
        }
        Some(root)
    }
    pub fn eval_f64(&self, val: &dyn Fn(Var) -> f64) -> f64 {
        let mut s = 0.0;
        for (m, c) in &self.0 {
            let mut t = c.to_f64();
            for (v, e) in &m.0 {
                t *= val(*v).powi(*e as i32);
            }
            s += t;
        }
        s
    }
    pub fn subst_const(&self, v: Var, q: &Q) -> Poly {
        let mut h: HashMap<Mono, Q> = HashMap::new();
        for (m, c) in &self.0 {
            let mut mm = Mono(Vec::with_capacity(m.0.len()));
            let mut cc = c.clone();
            for &(w, e) in &m.0 {
                if w == v {
                    for _ in 0..e {
                        cc = cc.mul(q);
                    }
                } else {
                    mm.0.push((w, e));
                }
            }
            h.entry(mm).and_modify(|x| *x = x.add(&cc)).or_insert(cc);
        }
        Poly::from_map(h)
    }
    pub fn smt(&self, name: &dyn Fn(Var) -> String) -> String {
        if self.is_zero() {
            return "0.0".into();
        }
        let mut parts = vec![];
        for (m, c) in &self.0 {
            let mut fs: Vec<String> = vec![];
            if !c.is_one() || m.0.is_empty() {
                fs.push(c.smt());
            }
            for (v, e) in &m.0 {
                for _ in 0..*e {
                    fs.push(name(*v));
                }
            }
            parts.push(if fs.len() == 1 {
                fs.pop().unwrap()
            } else {
                format!("(* {})", fs.join(" "))
            });
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
}

/// num / prod(factor^exp), factors monic and non constant
#[derive(Clone, Debug)]
pub struct Rat {
    pub num: Poly,
    pub den: Vec<(Rc<Poly>, u16)>,
}

impl Rat {
    pub fn cst(q: Q) -> Rat {
        Rat { num: Poly::cst(q), den: vec![] }
    }
    pub fn var(v: Var) -> Rat {
        Rat { num: Poly::var(v), den: vec![] }
    }
    pub fn as_const(&self) -> Option<Q> {
        if self.den.is_empty() {
            self.num.as_const()
        } else {
            None
        }
    }
    fn cancel(mut self) -> Rat {
        if self.num.is_zero() {
            self.den.clear();
            return self;
        }
        if self.den.is_empty() || self.num.0.len() > 20000 {
            return self;
        }
        let mut i = 0;
        while i < self.den.len() {
            while self.den[i].1 > 0 {
                match self.num.div_exact(&self.den[i].0) {
                    Some(q) => {
                        self.num = q;
                        self.den[i].1 -= 1;
                    }
                    None => break,
                }
            }
            if self.den[i].1 == 0 {
                self.den.remove(i);
            } else {
                i += 1;
            }
        }
        self
    }
    pub fn neg(&self) -> Rat {
        Rat { num: self.num.neg(), den: self.den.clone() }
    }
    pub fn add(&self, o: &Rat, rules: &Rules) -> Rat {
        if self.num.is_zero() {
            return o.clone();
        }
        if o.num.is_zero() {
            return self.clone();
        }
        if self.den.is_empty() && o.den.is_empty() {
            return Rat { num: self.num.add(&o.num), den: vec![] };
        }
        // lcm
        let mut den = self.den.clone();
        let mut fa: Vec<(Rc<Poly>, u16)> = vec![]; // to multiply self.num with
        let mut fb: Vec<(Rc<Poly>, u16)> = vec![];
        for (f, e) in &o.den {
            if let Some(x) = den.iter_mut().find(|x| x.0 == *f) {
                if x.1 < *e {
                    fa.push((f.clone(), *e - x.1));
                    x.1 = *e;
                }
            } else {
                fa.push((f.clone(), *e));
                den.push((f.clone(), *e));
            }
        }
        for (f, e) in &self.den {
            let oe = o.den.iter().find(|x| x.0 == *f).map(|x| x.1).unwrap_or(0);
            if oe < *e {
                fb.push((f.clone(), *e - oe));
            }
        }
        let mut a = self.num.clone();
        for (f, e) in fa {
            for _ in 0..e {
                a = a.mul(&f, rules);
            }
        }
        let mut b = o.num.clone();
        for (f, e) in fb {
            for _ in 0..e {
                b = b.mul(&f, rules);
            }
        }
        Rat { num: a.add(&b), den }.cancel()
    }
    pub fn mul(&self, o: &Rat, rules: &Rules) -> Rat {
        if let Some(c) = self.as_const() {
            return if c.is_zero() { Rat::cst(Q::ZERO) } else { Rat { num: o.num.scale(&c), den: o.den.clone() } };
        }
        if let Some(c) = o.as_const() {
            return if c.is_zero() { Rat::cst(Q::ZERO) } else { Rat { num: self.num.scale(&c), den: self.den.clone() } };
        }
        // cross-cancel first
        let a = Rat { num: self.num.clone(), den: o.den.clone() }.cancel();
        let b = Rat { num: o.num.clone(), den: self.den.clone() }.cancel();
        let mut den = a.den;
        for (f, e) in b.den {
            if let Some(x) = den.iter_mut().find(|x| x.0 == f) {
                x.1 += e;
            } else {
                den.push((f, e));
            }
        }
        let num = a.num.mul(&b.num, rules);
        if rules.is_empty() {
            Rat { num, den }
        } else {
            Rat { num, den }.cancel()
        }
    }
    /// 1/self; self must be nonzero as a polynomial. Splits known factors off.
    pub fn inv(&self, known: &[Rc<Poly>], rules: &Rules) -> Rat {
        let mut num = Poly::cst(Q::ONE);
        for (f, e) in &self.den {
            for _ in 0..*e {
                num = num.mul(f, rules);
            }
        }
        let mut den: Vec<(Rc<Poly>, u16)> = vec![];
        let mut n = self.num.clone();
        // monomial content
        let g = n.mono_content();
        if !g.0.is_empty() {
            for (v, e) in &g.0 {
                den.push((Rc::new(Poly::var(*v)), *e));
            }
            n = n.div_exact(&Poly(vec![(g, Q::ONE)])).unwrap();
        }
        if n.as_const().is_none() && n.0.len() < 3000 {
            for f in known {
                if f.0.len() < 2 {
                    continue;
                }
                let mut e = 0;
                while n.as_const().is_none() {
                    match n.div_exact(f) {
                        Some(q) => {
                            n = q;
                            e += 1
                        }
                        None => break,
                    }
                }
                if e > 0 {
                    den.push((f.clone(), e));
                }
            }
        }
        let c = if let Some(c) = n.as_const() {
            c
        } else {
            let (u, m) = n.monic();
            den.push((Rc::new(m), 1));
            u
        };
        Rat { num: num.scale(&c.inv()), den }.cancel()
    }
    pub fn eval_f64(&self, val: &dyn Fn(Var) -> f64) -> f64 {
        let mut r = self.num.eval_f64(val);
        for (f, e) in &self.den {
            r /= f.eval_f64(val).powi(*e as i32);
        }
        r
    }
}
