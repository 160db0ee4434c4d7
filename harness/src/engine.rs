//! Path exploration: re-execution with a decision prefix; every branch on a symbolic value asks the
//! solver which sides are feasible under the path condition.
use crate::poly::*;
use crate::q::Q;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Abort {
    /// path condition became unsatisfiable (assumption)
    Infeasible,
    TooBig,
    Unsupported(String),
    Budget(String),
    /// enough: stop this path (a violation has been recorded)
    Stop,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    Gt,
    Ge,
    Eq,
    Ne,
    Lt,
    Le,
}
impl Rel {
    pub fn neg(self) -> Rel {
        match self {
            Rel::Gt => Rel::Le,
            Rel::Ge => Rel::Lt,
            Rel::Eq => Rel::Ne,
            Rel::Ne => Rel::Eq,
            Rel::Lt => Rel::Ge,
            Rel::Le => Rel::Gt,
        }
    }
    pub fn flip(self) -> Rel {
        match self {
            Rel::Gt => Rel::Lt,
            Rel::Ge => Rel::Le,
            Rel::Lt => Rel::Gt,
            Rel::Le => Rel::Ge,
            x => x,
        }
    }
    /// bitmask over signs: 1 negative, 2 zero, 4 positive
    pub fn mask(self) -> u8 {
        match self {
            Rel::Gt => 4,
            Rel::Ge => 6,
            Rel::Eq => 2,
            Rel::Ne => 5,
            Rel::Lt => 1,
            Rel::Le => 3,
        }
    }
    fn from_mask(m: u8) -> Rel {
        match m {
            4 => Rel::Gt,
            6 => Rel::Ge,
            2 => Rel::Eq,
            5 => Rel::Ne,
            1 => Rel::Lt,
            3 => Rel::Le,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cond {
    pub p: Rc<Poly>,
    pub rel: Rel,
}

#[derive(Clone, Debug)]
pub enum VarKind {
    Input,
    Sqrt(Rc<Poly>),
    /// cosine / sine pair, partner variable
    Cos(Var),
    Sin(Var),
    /// v * den = num
    Def(Rc<Poly>, Rc<Poly>),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub kind: VarKind,
    pub lo: Option<Q>,
    pub hi: Option<Q>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B(bool, bool), // value, forced
    Cand(i64),
    Choice(usize, usize),
}

#[derive(Clone)]
pub enum Val {
    Nan,
    PInf,
    NInf,
    R(Rc<Rat>),
}

#[derive(Default, Clone, Debug)]
pub struct PathStats {
    pub decisions: u64,
    pub forks: u64,
}

pub struct Engine {
    pub vars: Vec<VarInfo>,
    pub rules: Rules,
    pub arena: Vec<Val>,
    pub known: Vec<Rc<Poly>>,
    pub facts: HashMap<Rc<Poly>, u8>,
    pub pc: Vec<Cond>,
    pub prefix: Vec<Dec>,
    pub pos: usize,
    pub taken: Vec<Dec>,
    pub worklist: Vec<Vec<Dec>>,
    pub solver: Solver,
    pub pstats: PathStats,
    pub sqrt_cache: HashMap<Poly, Var>,
    pub angle_units: HashMap<Var, (i64, Var, Var)>, // angle var -> (denominator, cos var, sin var)
    pub angle_defs: HashMap<Var, (u32, u32)>,        // angle var -> sym ids of its cos and sin
    pub tainted: bool,
    pub notes: BTreeSet<String>,
    pub active: bool,
    pub deadline: Option<Instant>,
    pub feas_ms: u64,
    pub max_decisions: usize,
    const_cache: HashMap<u64, u32>,
    pub unknown_feas: u64,
    pub max_deg: u32,
    pub max_terms: usize,
    pub comps: HashMap<Rc<Poly>, Rc<crate::iv::Comp>>,
    /// a point on this path, for some of the inputs
    pub witness: Option<HashMap<Var, crate::iv::Iv>>,
    pub by_interval: u64,
    /// constants are kept to this many bits (a case may ask for it: iterations square the size of exact ones)
    pub bits: Option<u64>,
}

thread_local! {
    pub static ENG: RefCell<Engine> = RefCell::new(Engine::new());
}

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| f(&mut e.borrow_mut()))
}

pub fn abort(a: Abort) -> ! {
    std::panic::panic_any(a)
}

impl Engine {
    pub fn new() -> Engine {
        Engine {
            vars: vec![],
            rules: Rules::new(),
            arena: vec![Val::Nan, Val::PInf, Val::NInf],
            known: vec![],
            facts: HashMap::new(),
            pc: vec![],
            prefix: vec![],
            pos: 0,
            taken: vec![],
            worklist: vec![],
            solver: Solver::new(),
            pstats: PathStats::default(),
            sqrt_cache: HashMap::new(),
            angle_units: HashMap::new(),
            angle_defs: HashMap::new(),
            tainted: false,
            notes: BTreeSet::new(),
            active: false,
            deadline: None,
            feas_ms: 4000,
            max_decisions: 5000,
            const_cache: HashMap::new(),
            unknown_feas: 0,
            max_deg: 0,
            max_terms: 0,
            comps: HashMap::new(),
            witness: None,
            by_interval: 0,
            bits: None,
        }
    }
    pub fn start_path(&mut self, prefix: Vec<Dec>) {
        self.vars.clear();
        self.rules.clear();
        self.arena.truncate(3);
        self.known.clear();
        self.facts.clear();
        self.pc.clear();
        self.prefix = prefix;
        self.pos = 0;
        self.taken.clear();
        self.sqrt_cache.clear();
        self.angle_units.clear();
        self.angle_defs.clear();
        self.const_cache.clear();
        self.comps.clear();
        self.witness = None;
        self.bits = None;
        self.tainted = false;
        self.active = true;
    }
    pub fn push(&mut self, v: Val) -> u32 {
        self.arena.push(v);
        (self.arena.len() - 1) as u32
    }
    pub fn push_rat(&mut self, r: Rat) -> u32 {
        if r.num.0.len() > self.max_terms {
            self.max_terms = r.num.0.len();
        }
        if let (Some(bits), Some(c)) = (self.bits, r.as_const()) {
            // out of the range of an f64
            let v = match c.magnitude() {
                m if m > 1024 && c.sign() > 0 => Val::PInf,
                m if m > 1024 => Val::NInf,
                m if m < -1076 => Val::R(Rc::new(Rat::cst(Q::ZERO))),
                _ => Val::R(Rc::new(Rat::cst(c.rounded(bits)))),
            };
            return self.push(v);
        }
        if let (Some(bits), true) = (self.bits, r.den.is_empty()) {
            // what rounding of constants leaves where terms would cancel
            let mut r = r;
            r.num.0.retain(|(m, c)| m.0.is_empty() || c.magnitude() > -(bits as i64) / 2);
            for (_, c) in r.num.0.iter_mut() {
                *c = c.rounded(bits);
            }
            return if r.as_const().is_some() { self.push_rat(r) } else { self.push(Val::R(Rc::new(r))) };
        }
        self.push(Val::R(Rc::new(r)))
    }
    pub fn cst(&mut self, q: Q) -> u32 {
        self.push_rat(Rat::cst(q))
    }
    pub fn cst_f64(&mut self, x: f64) -> u32 {
        if x.is_nan() {
            return 0;
        }
        if x.is_infinite() {
            return if x > 0.0 { 1 } else { 2 };
        }
        if let Some(i) = self.const_cache.get(&x.to_bits()) {
            return *i;
        }
        let id = self.cst(Q::from_f64(x).unwrap());
        self.const_cache.insert(x.to_bits(), id);
        id
    }
    pub fn new_var(&mut self, name: &str, kind: VarKind, lo: Option<Q>, hi: Option<Q>) -> Var {
        let v = self.vars.len() as Var;
        self.vars.push(VarInfo { name: name.to_string(), kind, lo, hi });
        v
    }

    // ---------- queries ----------
    fn interval(&self, p: &Poly) -> (Option<Q>, Option<Q>) {
        let mut lo = Some(Q::ZERO);
        let mut hi = Some(Q::ZERO);
        for (m, c) in &p.0 {
            let (mut a, mut b) = (Some(c.clone()), Some(c.clone()));
            for &(v, e) in &m.0 {
                let vi = &self.vars[v as usize];
                for k in 0..e {
                    let (vl, vh) = (&vi.lo, &vi.hi);
                    // even powers: treat square specially
                    if e % 2 == 0 && k % 2 == 1 {
                        continue;
                    }
                    let (vl, vh) = if e % 2 == 0 {
                        match (vl, vh) {
                            (Some(l), Some(h)) => {
                                let l2 = l.mul(l);
                                let h2 = h.mul(h);
                                let mx = if l2 > h2 { l2.clone() } else { h2.clone() };
                                let mn = if l.sign() <= 0 && h.sign() >= 0 {
                                    Q::ZERO
                                } else if l2 < h2 {
                                    l2
                                } else {
                                    h2
                                };
                                (Some(mn), Some(mx))
                            }
                            (Some(l), None) if l.sign() >= 0 => (Some(l.mul(l)), None),
                            _ => (Some(Q::ZERO), None),
                        }
                    } else {
                        (vl.clone(), vh.clone())
                    };
                    // [a,b]*[vl,vh]
                    match (&a, &b, &vl, &vh) {
                        (Some(x), Some(y), Some(l), Some(h)) => {
                            let c = [x.mul(l), x.mul(h), y.mul(l), y.mul(h)];
                            let mn = c.iter().min().unwrap().clone();
                            let mx = c.iter().max().unwrap().clone();
                            a = Some(mn);
                            b = Some(mx);
                        }
                        (Some(x), _, Some(l), None) if x.sign() >= 0 && l.sign() >= 0 => {
                            a = Some(x.mul(l));
                            b = None;
                        }
                        (_, Some(y), Some(l), None) if y.sign() <= 0 && l.sign() >= 0 => {
                            b = Some(y.mul(l));
                            a = None;
                        }
                        _ => return (None, None),
                    }
                }
            }
            lo = match (lo, a) {
                (Some(x), Some(y)) => Some(x.add(&y)),
                _ => None,
            };
            hi = match (hi, b) {
                (Some(x), Some(y)) => Some(x.add(&y)),
                _ => None,
            };
            if lo.is_none() && hi.is_none() {
                break;
            }
        }
        (lo, hi)
    }

    pub fn vname(&self, v: Var) -> String {
        format!("v{}", v)
    }

    /// conditions relevant to `extra` (connected through shared variables), plus definitions
    pub fn build(&self, extra: &[Cond], raw: &[String], raw_vars: &BTreeSet<Var>, full: bool) -> Query {
        let mut vs: BTreeSet<Var> = raw_vars.clone();
        for c in extra {
            c.p.vars(&mut vs);
        }
        let pcv: Vec<BTreeSet<Var>> = self
            .pc
            .iter()
            .map(|c| {
                let mut s = BTreeSet::new();
                c.p.vars(&mut s);
                // a condition on a root is a condition on what it is the root of
                loop {
                    let n = s.len();
                    let cur: Vec<Var> = s.iter().cloned().collect();
                    for v in cur {
                        match &self.vars[v as usize].kind {
                            VarKind::Sqrt(p) => p.vars(&mut s),
                            VarKind::Def(a, b) => {
                                a.vars(&mut s);
                                b.vars(&mut s);
                            }
                            _ => {}
                        }
                    }
                    if s.len() == n {
                        break;
                    }
                }
                s
            })
            .collect();
        let mut inc = vec![full; self.pc.len()];
        if full {
            for s in &pcv {
                vs.extend(s.iter());
            }
            for i in 0..self.vars.len() {
                if matches!(self.vars[i].kind, VarKind::Input) {
                    vs.insert(i as Var);
                }
            }
        }
        loop {
            let n = vs.len();
            // definitions
            let cur: Vec<Var> = vs.iter().cloned().collect();
            for v in cur {
                match &self.vars[v as usize].kind {
                    VarKind::Sqrt(p) => p.vars(&mut vs),
                    VarKind::Cos(w) | VarKind::Sin(w) => {
                        vs.insert(*w);
                    }
                    VarKind::Def(a, b) => {
                        a.vars(&mut vs);
                        b.vars(&mut vs);
                    }
                    VarKind::Input => {}
                }
            }
            for i in 0..self.pc.len() {
                if !inc[i] && pcv[i].iter().any(|v| vs.contains(v)) {
                    inc[i] = true;
                    vs.extend(pcv[i].iter());
                }
            }
            if vs.len() == n {
                break;
            }
        }
        let name = |v: Var| format!("v{}", v);
        let mut body = String::new();
        let mut nonlin = false;
        let mut lines: Vec<String> = vec![];
        for v in &vs {
            let vi = &self.vars[*v as usize];
            body.push_str(&format!("(declare-fun v{} () Real)\n", v));
            if let Some(l) = &vi.lo {
                lines.push(format!("(assert (>= v{} {}))", v, l.smt()));
            }
            if let Some(h) = &vi.hi {
                lines.push(format!("(assert (<= v{} {}))", v, h.smt()));
            }
            match &vi.kind {
                VarKind::Sqrt(p) => {
                    nonlin = true;
                    lines.push(format!("(assert (= (* v{} v{}) {}))", v, v, p.smt(&name)));
                }
                VarKind::Cos(w) => {
                    nonlin = true;
                    lines.push(format!("(assert (= (+ (* v{} v{}) (* v{} v{})) 1.0))", v, v, w, w));
                }
                VarKind::Sin(_) | VarKind::Input => {}
                VarKind::Def(a, b) => {
                    nonlin = true;
                    lines.push(format!("(assert (= (* v{} {}) {}))", v, b.smt(&name), a.smt(&name)));
                }
            }
        }
        for (i, c) in self.pc.iter().enumerate() {
            if inc[i] {
                if c.p.deg() > 1 {
                    nonlin = true;
                }
                lines.push(cond_smt(c));
            }
        }
        for c in extra {
            if c.p.deg() > 1 {
                nonlin = true;
            }
            lines.push(cond_smt(c));
        }
        for r in raw {
            nonlin = true;
            lines.push(r.clone());
        }
        body.push_str(&lines.join("\n"));
        body.push('\n');
        Query {
            logic: if nonlin { "QF_NRA" } else { "QF_LRA" },
            body,
            vars: vs.iter().map(|v| format!("v{}", v)).collect(),
        }
    }

    pub fn query(&mut self, extra: &[Cond], budgets: &[(usize, u64)], model: bool, full: bool) -> (Res, HashMap<String, f64>) {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                abort(Abort::Budget("time".into()));
            }
        }
        for c in extra {
            self.max_deg = self.max_deg.max(c.p.deg());
        }
        let q = self.build(extra, &[], &BTreeSet::new(), full);
        self.solver.check(&q, budgets, model)
    }

    fn feasible(&mut self, c: &Cond) -> bool {
        let ms = self.feas_ms;
        let r = self.query(std::slice::from_ref(c), &[(0, ms), (1, ms / 2), (2, ms)], false, false);
        match r.0 {
            Res::Sat => true,
            Res::Unsat => false,
            Res::Unknown => {
                self.unknown_feas += 1;
                true
            }
        }
    }

    pub fn possible(&self, m: &Poly, key: &Rc<Poly>) -> u8 {
        let mut s = *self.facts.get(key).unwrap_or(&7);
        if s & (s - 1) != 0 && m.0.len() < 200 {
            // the exact range is inside this one and close to it: no use when it reaches well past zero on both sides
            let (r, scale) = self.rough(m);
            if r.0 < -1e-9 * scale && r.1 > 1e-9 * scale {
                return s;
            }
            if r.0 > 0.0 {
                return s & 4;
            }
            if r.1 < 0.0 {
                return s & 1;
            }
            let (lo, hi) = self.interval(m);
            if let Some(l) = lo {
                match l.sign() {
                    1 => s &= 4,
                    0 => s &= 6,
                    _ => {}
                }
            }
            if let Some(h) = hi {
                match h.sign() {
                    -1 => s &= 1,
                    0 => s &= 3,
                    _ => {}
                }
            }
        }
        s
    }

    /// adds a condition to the path; one on a single variable narrows its range
    pub fn condition(&mut self, c: Cond) {
        if c.p.deg() == 1 {
            let mut vs = BTreeSet::new();
            c.p.vars(&mut vs);
            if vs.len() == 1 {
                let v = *vs.iter().next().unwrap();
                let (mut a, mut b) = (Q::ZERO, Q::ZERO);
                for (m, k) in &c.p.0 {
                    if m.0.is_empty() {
                        b = k.clone();
                    } else {
                        a = k.clone();
                    }
                }
                let at = b.neg().div(&a);
                let m = if a.sign() > 0 { c.rel.mask() } else { c.rel.flip().mask() };
                let vi = &mut self.vars[v as usize];
                if m & 1 == 0 && vi.lo.as_ref().map_or(true, |l| *l < at) {
                    vi.lo = Some(at.clone());
                }
                if m & 4 == 0 && vi.hi.as_ref().map_or(true, |h| *h > at) {
                    vi.hi = Some(at);
                }
            }
        }
        self.pc.push(c);
    }

    /// decide `p rel 0` on this path
    pub fn decide(&mut self, p: &Poly, rel: Rel) -> bool {
        if let Some(c) = p.as_const() {
            let s = match c.sign() {
                -1 => 1u8,
                0 => 2,
                _ => 4,
            };
            return rel.mask() & s != 0;
        }
        let (u, m) = p.monic();
        let rel = if u.sign() < 0 { rel.flip() } else { rel };
        let key = Rc::new(m);
        let poss = self.possible(&key, &key);
        let tm = rel.mask();
        if poss == 0 {
            abort(Abort::Infeasible);
        }
        if poss & tm == 0 {
            return false;
        }
        if poss & !tm == 0 {
            return true;
        }
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            match d {
                Dec::B(v, forced) => {
                    self.pos += 1;
                    self.taken.push(Dec::B(v, forced));
                    let nm = if v { poss & tm } else { poss & !tm };
                    self.facts.insert(key.clone(), nm);
                    if !forced {
                        self.condition(Cond { p: key, rel: Rel::from_mask(nm) });
                    }
                    return v;
                }
                _ => abort(Abort::Unsupported("replay diverged".into())),
            }
        }
        self.pstats.decisions += 1;
        if self.taken.len() > self.max_decisions {
            abort(Abort::Budget("decisions".into()));
        }
        let ct = Cond { p: key.clone(), rel: Rel::from_mask(poss & tm) };
        let cf = Cond { p: key.clone(), rel: Rel::from_mask(poss & !tm) };
        let found = self.prune(&key, poss, tm, 64);
        let (mut points, maybe) = match found {
            Some(f) => (f.point, f.maybe),
            None => ((None, None), (true, true)),
        };
        let mut asked = false;
        let mut side = |e: &mut Engine, known: bool, maybe: bool, c: &Cond| {
            known || (maybe && {
                asked = true;
                e.feasible(c)
            })
        };
        let t = side(self, points.0.is_some(), maybe.0, &ct);
        let f = if t { side(self, points.1.is_some(), maybe.1, &cf) } else { true };
        if !asked {
            self.by_interval += 1;
        } else if std::env::var("SYM_ASKED").is_ok() {
            eprintln!("asked t {} f {} maybe {:?} terms {} deg {} pc {}: {:?}", t, f, maybe, key.0.len(), key.deg(), self.pc.len(), key.vars_list().iter().map(|v| format!("{}:{:?}", self.vars[*v as usize].name, self.vars[*v as usize].kind)).collect::<Vec<_>>());
        }
        let (v, forced) = if t && f {
            self.pstats.forks += 1;
            // go where a point is known
            let v = points.0.is_some() || points.1.is_none();
            let mut alt = self.taken.clone();
            alt.push(Dec::B(!v, false));
            self.worklist.push(alt);
            (v, false)
        } else {
            (t, true)
        };
        if !forced {
            let w = if v { points.0.take() } else { points.1.take() };
            self.witness = match (self.witness.take(), w) {
                (Some(mut o), Some(w)) => {
                    o.extend(w);
                    Some(o)
                }
                (_, w) => w,
            };
        } else if self.witness.is_none() {
            self.witness = if v { points.0.take() } else { points.1.take() };
        }
        self.taken.push(Dec::B(v, forced));
        self.pos = self.taken.len();
        let nm = if v { poss & tm } else { poss & !tm };
        self.facts.insert(key.clone(), nm);
        if !forced {
            self.condition(if v { ct } else { cf });
        }
        v
    }

    pub fn choice(&mut self, n: usize) -> usize {
        if self.pos < self.prefix.len() {
            if let Dec::Choice(i, m) = self.prefix[self.pos] {
                assert_eq!(m, n);
                self.pos += 1;
                self.taken.push(Dec::Choice(i, n));
                return i;
            }
            abort(Abort::Unsupported("replay diverged".into()));
        }
        for i in 1..n {
            let mut alt = self.taken.clone();
            alt.push(Dec::Choice(i, n));
            self.worklist.push(alt);
        }
        self.taken.push(Dec::Choice(0, n));
        self.pos = self.taken.len();
        0
    }

    pub fn rat(&self, id: u32) -> Option<Rc<Rat>> {
        match &self.arena[id as usize] {
            Val::R(r) => Some(r.clone()),
            _ => None,
        }
    }

    /// sign-normalised numerator: value rel 0 <=> poly rel 0 (denominator factor signs are decided)
    pub fn numer_signed(&mut self, r: &Rat) -> Poly {
        let mut neg = false;
        for (f, e) in &r.den {
            if e % 2 == 1 {
                if !self.decide(f, Rel::Gt) {
                    neg = !neg;
                }
            }
        }
        if neg {
            r.num.neg()
        } else {
            r.num.clone()
        }
    }
    pub fn den_poly(&mut self, r: &Rat) -> Poly {
        // |den| as polynomial given decided signs
        let mut d = Poly::cst(Q::ONE);
        let mut neg = false;
        for (f, e) in &r.den {
            if e % 2 == 1 && !self.decide(f, Rel::Gt) {
                neg = !neg;
            }
            for _ in 0..*e {
                d = d.mul(f, &self.rules);
            }
        }
        if neg {
            d.neg()
        } else {
            d
        }
    }

    pub fn cmp_rel(&mut self, a: u32, b: u32, rel: Rel) -> bool {
        use Val::*;
        let (x, y) = (self.arena[a as usize].clone(), self.arena[b as usize].clone());
        let num = |v: &Val| match v {
            Nan => f64::NAN,
            PInf => f64::INFINITY,
            NInf => f64::NEG_INFINITY,
            R(_) => 0.0,
        };
        match (&x, &y) {
            (R(p), R(q)) => {
                let d = p.add(&q.neg(), &self.rules);
                let n = if matches!(rel, Rel::Eq | Rel::Ne) {
                    d.num.clone()
                } else {
                    self.numer_signed(&d)
                };
                self.decide(&n, rel)
            }
            _ => {
                let (p, q) = (num(&x), num(&y));
                match rel {
                    Rel::Gt => p > q,
                    Rel::Ge => p >= q,
                    Rel::Eq => p == q,
                    Rel::Ne => p != q,
                    Rel::Lt => p < q,
                    Rel::Le => p <= q,
                }
            }
        }
    }

    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        use Val::*;
        match (&self.arena[a as usize], &self.arena[b as usize]) {
            (R(x), R(y)) => {
                let r = x.add(y, &self.rules);
                self.push_rat(r)
            }
            (Nan, _) | (_, Nan) => 0,
            (PInf, NInf) | (NInf, PInf) => 0,
            (PInf, _) | (_, PInf) => 1,
            (NInf, _) | (_, NInf) => 2,
        }
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        match &self.arena[a as usize] {
            Val::R(x) => {
                let r = x.neg();
                self.push_rat(r)
            }
            Val::Nan => 0,
            Val::PInf => 2,
            Val::NInf => 1,
        }
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        use Val::*;
        match (&self.arena[a as usize], &self.arena[b as usize]) {
            (R(x), R(y)) => {
                let r = x.mul(y, &self.rules);
                self.push_rat(r)
            }
            (R(x), w) | (w, R(x)) => {
                if matches!(w, Nan) {
                    return 0;
                }
                match x.as_const() {
                    Some(c) => {
                        let s = c.sign() * if matches!(w, PInf) { 1 } else { -1 };
                        match s {
                            1 => 1,
                            -1 => 2,
                            _ => 0,
                        }
                    }
                    None => {
                        self.tainted = true;
                        0
                    }
                }
            }
            (Nan, _) | (_, Nan) => 0,
            (PInf, PInf) | (NInf, NInf) => 1,
            _ => 2,
        }
    }
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        use Val::*;
        let y = match &self.arena[b as usize] {
            R(y) => y.clone(),
            Nan => return 0,
            _ => {
                return match self.arena[a as usize] {
                    R(_) => self.cst(Q::ZERO),
                    _ => 0,
                }
            }
        };
        let zero = match y.as_const() {
            Some(c) => c.is_zero(),
            None => self.decide(&y.num.clone(), Rel::Eq),
        };
        if zero {
            self.tainted = true;
            // x/0: signed infinity for nonzero x, NaN for 0/0
            return match self.arena[a as usize].clone() {
                R(x) => match x.as_const() {
                    Some(c) => match c.sign() {
                        1 => 1,
                        -1 => 2,
                        _ => 0,
                    },
                    None => {
                        let n = self.numer_signed(&x);
                        if self.decide(&n, Rel::Gt) {
                            1
                        } else if self.decide(&n, Rel::Lt) {
                            2
                        } else {
                            0
                        }
                    }
                },
                PInf => 1,
                NInf => 2,
                Nan => 0,
            };
        }
        let inv = match y.as_const() {
            Some(c) => Rat::cst(c.inv()),
            None => {
                let i = y.inv(&self.known, &self.rules);
                for (f, _) in &i.den {
                    if !self.known.iter().any(|k| k == f) {
                        self.known.push(f.clone());
                    }
                }
                i
            }
        };
        match &self.arena[a as usize] {
            R(x) => {
                let r = x.mul(&inv, &self.rules);
                self.push_rat(r)
            }
            Nan => 0,
            PInf | NInf => {
                let neg = match y.as_const() {
                    Some(c) => c.sign() < 0,
                    None => {
                        let n = self.numer_signed(&y);
                        self.decide(&n, Rel::Lt)
                    }
                };
                if matches!(self.arena[a as usize], PInf) != neg {
                    1
                } else {
                    2
                }
            }
        }
    }

    pub fn sqrt_q(&mut self, c: &Q) -> Rat {
        // c > 0
        if let Some(bits) = self.bits {
            return Rat::cst(c.sqrt_rounded(bits));
        }
        let (r, k) = c.sqrt_parts();
        if k.is_one() {
            return Rat::cst(r);
        }
        let s = self.sqrt_poly(Poly::cst(k));
        Rat { num: Poly::var(s).scale(&r), den: vec![] }
    }
    /// variable s >= 0 with s^2 = p
    pub fn sqrt_poly(&mut self, p: Poly) -> Var {
        if let Some(v) = self.sqrt_cache.get(&p) {
            return *v;
        }
        let n = self.vars.len();
        let hi = self.interval(&p).1.and_then(|h| {
            let f = h.to_f64();
            Q::from_f64(if f <= 1.0 { 1.0 } else if f.is_finite() { f.ceil() } else { return None })
        });
        let (lo, hi) = match p.as_const() {
            Some(c) => {
                // no bounds beyond the range of f64
                let f = c.to_f64().sqrt();
                (Q::from_f64(f * (1.0 - 1e-12)).unwrap_or(Q::ZERO), Q::from_f64(f * (1.0 + 1e-12)))
            }
            None => (Q::ZERO, hi),
        };
        let v = self.new_var(&format!("sqrt{}", n), VarKind::Sqrt(Rc::new(p.clone())), Some(lo), hi);
        self.rules.insert(v, Rc::new(p.clone()));
        self.sqrt_cache.insert(p, v);
        v
    }
    pub fn sqrt(&mut self, a: u32) -> u32 {
        let x = match &self.arena[a as usize] {
            Val::R(x) => x.clone(),
            Val::PInf => return 1,
            _ => return 0,
        };
        if let Some(c) = x.as_const() {
            return match c.sign() {
                -1 => {
                    self.tainted = true;
                    0
                }
                0 => self.cst(Q::ZERO),
                _ => {
                    let r = self.sqrt_q(&c);
                    self.push_rat(r)
                }
            };
        }
        // perfect square?
        let mut half: Vec<(Rc<Poly>, u16)> = vec![];
        let mut num = x.num.clone();
        for (f, e) in &x.den {
            if e % 2 == 1 {
                num = num.mul(f, &self.rules);
            }
            half.push((f.clone(), (e + 1) / 2));
        }
        // pull out constant content
        let lead = num.0[0].1.abs();
        let rules = self.rules.clone();
        let prim = num.scale(&lead.inv());
        let cf = self.sqrt_q(&lead);
        let root: Rat = if let Some(q) = prim.sqrt() {
            // |q|
            let neg = self.decide(&q, Rel::Lt);
            Rat { num: if neg { q.neg() } else { q }, den: vec![] }
        } else {
            if self.decide(&prim, Rel::Lt) {
                self.tainted = true;
                return 0;
            }
            if self.decide(&prim, Rel::Eq) {
                return self.cst(Q::ZERO);
            }
            // factor out squares of known factors / monomial content
            let g = prim.mono_content();
            let mut out = Mono::one();
            let mut cutm = Mono::one();
            for (v, e) in &g.0 {
                if e / 2 > 0 {
                    out.0.push((*v, e / 2));
                    cutm.0.push((*v, 2 * (e / 2)));
                }
            }
            if out.0.is_empty() {
                let v = self.sqrt_poly(prim.clone());
                Rat::var(v)
            } else {
                let rest = prim.div_exact(&Poly(vec![(cutm, Q::ONE)])).unwrap();
                let o = Poly(vec![(out, Q::ONE)]);
                let neg = self.decide(&o, Rel::Lt);
                let v = self.sqrt_poly(rest);
                let p = Poly::var(v).mul(&o, &self.rules);
                Rat { num: if neg { p.neg() } else { p }, den: vec![] }
            }
        };
        let mut neg = false;
        for (f, e) in &half {
            if e % 2 == 1 && !self.decide(f, Rel::Gt) {
                neg = !neg;
            }
        }
        let _ = rules;
        let mut r = Rat { num: cf.num.mul(&root.num, &self.rules), den: half };
        if neg {
            r = r.neg();
        }
        // normalise by a multiplication with one (cancels)
        let one = Rat::cst(Q::ONE);
        let r = r.add(&Rat::cst(Q::ZERO), &self.rules).mul(&one, &self.rules);
        self.push_rat(r)
    }

    // ---------- angles ----------
    /// (cos, sin) of a linear combination of registered angles
    pub fn cos_sin(&mut self, a: u32) -> Option<(u32, u32)> {
        let x = self.rat(a)?;
        if !x.den.is_empty() {
            abort(Abort::Unsupported("trigonometry of a quotient".into()));
        }
        let mut c = Rat::cst(Q::ONE);
        let mut s = Rat::cst(Q::ZERO);
        for (m, q) in &x.num.0 {
            let (c2, s2) = if m.0.is_empty() {
                self.const_cos_sin(q)
            } else if m.deg() == 1 {
                let v = m.0[0].0;
                if let Some((ci, si)) = self.angle_defs.get(&v).cloned() {
                    let n = match q {
                        Q::S(n, 1) => *n,
                        _ => abort(Abort::Unsupported("fraction of a derived angle".into())),
                    };
                    let b = ((*self.rat(ci).unwrap()).clone(), (*self.rat(si).unwrap()).clone());
                    self.multi_angle(b, n)
                } else if let Some((d, cv, sv)) = self.angle_units.get(&v).cloned() {
                    let k = q.mul(&Q::int(d));
                    let n = match k {
                        Q::S(n, 1) => n,
                        _ => abort(Abort::Unsupported("angle not a multiple of the unit".into())),
                    };
                    self.multi_angle((Rat::var(cv), Rat::var(sv)), n)
                } else {
                    abort(Abort::Unsupported("trigonometry of an unregistered variable".into()))
                }
            } else {
                abort(Abort::Unsupported("trigonometry of a nonlinear term".into()))
            };
            let rules = &self.rules;
            let nc = c.mul(&c2, rules).add(&s.mul(&s2, rules).neg(), rules);
            let ns = s.mul(&c2, rules).add(&c.mul(&s2, rules), rules);
            c = nc;
            s = ns;
        }
        Some((self.push_rat(c), self.push_rat(s)))
    }
    fn multi_angle(&self, b: (Rat, Rat), n: i64) -> (Rat, Rat) {
        let rules = &self.rules;
        let mut c = Rat::cst(Q::ONE);
        let mut s = Rat::cst(Q::ZERO);
        for _ in 0..n.unsigned_abs() {
            let nc = c.mul(&b.0, rules).add(&s.mul(&b.1, rules).neg(), rules);
            let ns = s.mul(&b.0, rules).add(&c.mul(&b.1, rules), rules);
            c = nc;
            s = ns;
        }
        if n < 0 {
            s = s.neg();
        }
        (c, s)
    }
    fn const_cos_sin(&mut self, q: &Q) -> (Rat, Rat) {
        let f = q.to_f64() / std::f64::consts::PI;
        let k = (f * 12.0).round();
        if (f * 12.0 - k).abs() < 1e-11 {
            let k = (k as i64).rem_euclid(24);
            if k % 3 == 0 || k % 2 == 0 {
                // multiples of 45 or 30 degrees
                let cs = |e: &mut Engine, k: i64| -> Rat {
                    let k = k.rem_euclid(24);
                    let (k, neg) = if k > 12 { (24 - k, false) } else { (k, false) };
                    let (k, neg) = if k > 6 { (12 - k, !neg) } else { (k, neg) };
                    let r = match k {
                        0 => Rat::cst(Q::ONE),
                        2 => e.sqrt_q(&Q::frac(3, 4)),
                        3 => e.sqrt_q(&Q::frac(1, 2)),
                        4 => Rat::cst(Q::frac(1, 2)),
                        6 => Rat::cst(Q::ZERO),
                        _ => unreachable!(),
                    };
                    if neg {
                        r.neg()
                    } else {
                        r
                    }
                };
                return (cs(self, k), cs(self, k - 6));
            }
        }
        // a rational point of the unit circle within rounding of the true value
        let x = q.to_f64();
        let t = Q::from_f64((x / 2.0).tan()).unwrap();
        let t2 = t.mul(&t);
        let d = Q::ONE.add(&t2).inv();
        (
            Rat::cst(Q::ONE.sub(&t2).mul(&d)),
            Rat::cst(t.add(&t).mul(&d)),
        )
    }
    pub fn register_angle(&mut self, v: Var, denom: i64, cpos: bool, spos: bool) {
        let n = self.vars.len();
        // the ranges of cosine and sine over the range of the angle, a little widened
        let vi = &self.vars[v as usize];
        let range = |f: fn(f64) -> f64, crit: f64, pos: bool| -> (Q, Q) {
            let (mut lo, mut hi) = (-1.0f64, 1.0f64);
            if let (Some(a), Some(b)) = (&vi.lo, &vi.hi) {
                let (a, b) = (a.to_f64() / denom as f64, b.to_f64() / denom as f64);
                if b - a < std::f64::consts::PI {
                    (lo, hi) = (f(a).min(f(b)) - 1e-9, f(a).max(f(b)) + 1e-9);
                    // extrema at crit + k pi
                    let k = ((a - crit) / std::f64::consts::PI).ceil();
                    let x = crit + k * std::f64::consts::PI;
                    if x <= b {
                        if f(x) > 0.0 {
                            hi = 1.0
                        } else {
                            lo = -1.0
                        }
                    }
                }
            }
            if pos {
                lo = lo.max(0.0);
            }
            (Q::from_f64(lo.max(-1.0)).unwrap(), Q::from_f64(hi.min(1.0)).unwrap())
        };
        let (cl, ch) = range(f64::cos, 0.0, cpos);
        let (sl, sh) = range(f64::sin, std::f64::consts::FRAC_PI_2, spos);
        let cv = self.new_var(&format!("cos{}", n), VarKind::Input, Some(cl), Some(ch));
        let sv = self.new_var(&format!("sin{}", n), VarKind::Sin(cv), Some(sl), Some(sh));
        self.vars[cv as usize].kind = VarKind::Cos(sv);
        // sin^2 -> 1 - cos^2
        let c2 = Poly(vec![(Mono(vec![(cv, 2)]), Q::ONE)]);
        self.rules.insert(sv, Rc::new(Poly::cst(Q::ONE).sub(&c2)));
        self.angle_units.insert(v, (denom, cv, sv));
    }
}

pub fn cond_smt(c: &Cond) -> String {
    let name = |v: Var| format!("v{}", v);
    let p = c.p.smt(&name);
    match c.rel {
        Rel::Gt => format!("(assert (> {} 0.0))", p),
        Rel::Ge => format!("(assert (>= {} 0.0))", p),
        Rel::Eq => format!("(assert (= {} 0.0))", p),
        Rel::Ne => format!("(assert (not (= {} 0.0)))", p),
        Rel::Lt => format!("(assert (< {} 0.0))", p),
        Rel::Le => format!("(assert (<= {} 0.0))", p),
    }
}
