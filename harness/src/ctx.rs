//! Harness interface: a harness is written once, generically, and is run (a) at the symbolic scalar
//! to decide its obligations and (b) at f64 to replay solver models against the real code.
use crate::engine::*;
use crate::poly::*;
use crate::q::Q;
use crate::solver::{Res, Stats};
use crate::sym::Sym;
use curvo::prelude::FloatingPoint;
use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, OPoint, OVector};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub use crate::engine::Rel;

pub trait Scalar:
    FloatingPoint + argmin::core::ArgminFloat + Into<f64> + From<f32> + serde::Serialize + serde::de::DeserializeOwned + Default
{
}
impl Scalar for f64 {}
impl Scalar for Sym {}

pub const TOL: f64 = 1e-6;

pub trait Ctx {
    type S: Scalar;
    fn k(&self, x: f64) -> Self::S;
    fn ratio(&self, n: i64, d: i64) -> Self::S;
    /// symbolic input in [lo, hi]
    fn var(&mut self, name: &str, lo: f64, hi: f64) -> Self::S;
    /// symbolic angle in [lo, hi]; trigonometric functions may be taken of multiples of angle/denom.
    /// cpos / spos: the cosine / sine of angle/denom is known to be nonnegative on the range
    fn angle(&mut self, name: &str, lo: f64, hi: f64, denom: i64, cpos: bool, spos: bool) -> Self::S;
    fn assume(&mut self, a: Self::S, rel: Rel, b: Self::S);
    fn choice(&mut self, name: &str, n: usize) -> usize;
    fn eq_tol(&mut self, what: &str, a: Self::S, b: Self::S, tol: f64);
    fn rel_tol(&mut self, what: &str, a: Self::S, rel: Rel, b: Self::S, tol: f64);
    fn check(&mut self, what: &str, ok: bool);
    fn label(&mut self, what: &str);
    fn is_sym(&self) -> bool;
    /// exact constants are kept to this many bits from here on
    fn keep_bits(&mut self, bits: u64);

    fn eq(&mut self, what: &str, a: Self::S, b: Self::S) {
        self.eq_tol(what, a, b, TOL)
    }
    fn le(&mut self, what: &str, a: Self::S, b: Self::S) {
        self.rel_tol(what, a, Rel::Le, b, TOL)
    }
    fn pt_eq<D: DimName>(&mut self, what: &str, a: &OPoint<Self::S, D>, b: &OPoint<Self::S, D>)
    where
        DefaultAllocator: Allocator<D>,
    {
        for i in 0..D::dim() {
            self.eq(&format!("{}[{}]", what, i), a.coords[i], b.coords[i]);
        }
    }
    fn vec_eq<D: DimName>(&mut self, what: &str, a: &OVector<Self::S, D>, b: &OVector<Self::S, D>)
    where
        DefaultAllocator: Allocator<D>,
    {
        for i in 0..D::dim() {
            self.eq(&format!("{}[{}]", what, i), a[i], b[i]);
        }
    }
    /// unwrap a result that must be Ok
    fn ok<T>(&mut self, what: &str, r: anyhow::Result<T>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(_) => {
                self.check(what, false);
                None
            }
        }
    }
    fn vars(&mut self, name: &str, n: usize, lo: f64, hi: f64) -> Vec<Self::S> {
        (0..n).map(|i| self.var(&format!("{}{}", name, i), lo, hi)).collect()
    }
}

// ------------------------------------------------------------------ native
pub struct NatCtx {
    pub vals: HashMap<String, f64>,
    pub choices: HashMap<String, usize>,
    pub fails: Vec<String>,
    pub invalid: bool,
    pub checks: u64,
}
impl Ctx for NatCtx {
    type S = f64;
    fn k(&self, x: f64) -> f64 {
        x
    }
    fn ratio(&self, n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn var(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        match self.vals.get(name) {
            Some(v) => v.clamp(lo, hi),
            None => {
                // not mentioned in the model: any value of the range
                0.5 * (lo + hi)
            }
        }
    }
    fn angle(&mut self, name: &str, lo: f64, hi: f64, _d: i64, _c: bool, _s: bool) -> f64 {
        self.var(name, lo, hi)
    }
    fn keep_bits(&mut self, _: u64) {}
    fn assume(&mut self, a: f64, rel: Rel, b: f64) {
        let s = 1e-9 * (1.0 + a.abs().max(b.abs()));
        let ok = match rel {
            Rel::Gt | Rel::Ge => a >= b - s,
            Rel::Lt | Rel::Le => a <= b + s,
            Rel::Eq => (a - b).abs() <= s,
            Rel::Ne => a != b,
        };
        if !ok {
            self.invalid = true;
            abort(Abort::Infeasible);
        }
    }
    fn choice(&mut self, name: &str, _n: usize) -> usize {
        *self.choices.get(name).unwrap_or(&0)
    }
    fn eq_tol(&mut self, what: &str, a: f64, b: f64, tol: f64) {
        self.checks += 1;
        let t = tol * (1.0 + a.abs().max(b.abs()));
        if !((a - b).abs() <= t) {
            self.fails.push(format!("{}: {} != {}", what, a, b));
        }
    }
    fn rel_tol(&mut self, what: &str, a: f64, rel: Rel, b: f64, tol: f64) {
        self.checks += 1;
        let t = tol * (1.0 + a.abs().max(b.abs()));
        let ok = match rel {
            Rel::Ge => a >= b - t,
            Rel::Gt => a > b - t,
            Rel::Le => a <= b + t,
            Rel::Lt => a < b + t,
            Rel::Eq => (a - b).abs() <= t,
            Rel::Ne => a != b,
        };
        if !ok {
            self.fails.push(format!("{}: not {} {:?} {}", what, a, rel, b));
        }
    }
    fn check(&mut self, what: &str, ok: bool) {
        self.checks += 1;
        if !ok {
            self.fails.push(what.to_string());
        }
    }
    fn label(&mut self, _w: &str) {}
    fn is_sym(&self) -> bool {
        false
    }
}

// ------------------------------------------------------------------ symbolic
#[derive(Clone, Debug)]
pub struct Candidate {
    pub what: String,
    pub vals: HashMap<String, f64>,
    pub choices: HashMap<String, usize>,
}

pub struct SymCtx<'a> {
    pub choices: HashMap<String, usize>,
    pub ob: u64,
    pub ob_nf: u64,
    pub ob_solver: u64,
    pub ob_tol: u64,
    pub ob_unknown: Vec<String>,
    pub violations: Vec<(Candidate, Vec<String>)>,
    pub unreproduced: Vec<String>,
    pub trivial: Vec<String>, // pending identities, decided in one query
    pub trivial_vars: BTreeSet<Var>,
    pub trivial_names: Vec<String>,
    pub labels: BTreeSet<String>,
    pub replay: &'a dyn Fn(&HashMap<String, f64>, &HashMap<String, usize>) -> ReplayOut,
    pub claim_ms: u64,
    pub replays: u64,
    pub hunts: &'a std::sync::atomic::AtomicU64,
    pub probes: &'a std::sync::atomic::AtomicU64,
}
pub const MAX_HUNTS: u64 = 6;
pub const MAX_PROBES: u64 = 6;

#[derive(Clone, Debug)]
pub struct ReplayOut {
    pub fails: Vec<String>,
    pub invalid: bool,
    pub checks: u64,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

impl<'a> SymCtx<'a> {
    fn input_vals(m: &HashMap<String, f64>) -> HashMap<String, f64> {
        with(|e| {
            let mut r = HashMap::new();
            for (i, v) in e.vars.iter().enumerate() {
                let i = i as Var;
                if let Some((d, c, s)) = e.angle_units.get(&i) {
                    if let (Some(c), Some(s)) = (m.get(&format!("v{}", c)), m.get(&format!("v{}", s))) {
                        r.insert(v.name.clone(), s.atan2(*c) * (*d as f64));
                        continue;
                    }
                }
                if let (VarKind::Input, Some(x)) = (&v.kind, m.get(&format!("v{}", i))) {
                    r.insert(v.name.clone(), *x);
                }
            }
            r
        })
    }
    fn try_replay(&mut self, what: &str, m: &HashMap<String, f64>) -> bool {
        let vals = Self::input_vals(m);
        self.replays += 1;
        let r = (self.replay)(&vals, &self.choices);
        if std::env::var("SYM_DEBUG").is_ok() {
            eprintln!("replay for {}: {:?} choices {:?} -> {:?}", what, vals, self.choices, r);
        }
        if !r.invalid && !r.fails.is_empty() {
            self.violations.push((
                Candidate { what: what.to_string(), vals, choices: self.choices.clone() },
                r.fails,
            ));
            return true;
        }
        false
    }
    /// a claim is refuted or undecided by the solver: look for a model that reproduces natively
    fn hunt(&mut self, what: &str, variants: Vec<Vec<Cond>>, sat: bool) {
        let ms = self.claim_ms.min(8000);
        if std::env::var("SYM_DEBUG").is_ok_and(|v| v == "2") {
            let v = variants.first().cloned().unwrap_or_default();
            with(|e| {
                let (r, m) = e.query(&v, &[(0, ms)], true, true);
                eprintln!("hunt {} {:?} {:?}\n{}", what, r, m, e.build(&v, &[], &BTreeSet::new(), true).body);
            });
        }
        // an assumption may have closed the path
        let (r, _) = with(|e| e.query(&[], &[(0, 3000), (2, 3000)], false, true));
        if r == Res::Unsat {
            abort(Abort::Infeasible);
        }
        // searching for a replayable model is bounded per case
        if self.hunts.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= MAX_HUNTS {
            if sat {
                self.unreproduced.push(what.to_string());
            } else {
                self.ob_unknown.push(what.to_string());
            }
            return;
        }
        self.fixings(what, &variants, 12, ms);
        if sat {
            self.unreproduced.push(what.to_string());
        } else {
            self.ob_unknown.push(what.to_string());
        }
    }
    /// concretise most inputs, ask the solver for the rest, run the model natively
    fn fixings(&mut self, what: &str, variants: &[Vec<Cond>], rounds: u64, ms: u64) {
        let mut seed: u64 = 0x9E3779B97F4A7C15 ^ std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let inputs: Vec<(Var, Q, Q)> = with(|e| {
            e.vars
                .iter()
                .enumerate()
                .filter(|(i, v)| matches!(v.kind, VarKind::Input) && v.lo.is_some() && v.hi.is_some() && !e.angle_units.contains_key(&(*i as Var)))
                .map(|(i, v)| (i as Var, v.lo.clone().unwrap(), v.hi.clone().unwrap()))
                .collect()
        });
        for round in 0..rounds {
            if round == 2 {
                for v in variants {
                    let (r, m) = with(|e| e.query(v, &[(0, ms), (1, ms / 2)], true, true));
                    if r == Res::Sat && self.try_replay(what, &m) {
                        abort(Abort::Stop);
                    }
                }
            }
            let mut extra: Vec<Cond> = vec![];
            for (v, lo, hi) in &inputs {
                seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if (seed >> 33) % 10 < round / 4 {
                    continue;
                }
                seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let k = ((seed >> 33) % 17) as i64;
                let x = lo.add(&hi.sub(lo).mul(&Q::frac(k, 16)));
                let p = Poly::var(*v).sub(&Poly::cst(x));
                let c = Cond { p: std::rc::Rc::new(p), rel: Rel::Eq };
                // keep the fixing when consistent with the path condition
                let mut t = extra.clone();
                t.push(c.clone());
                let (r, _) = with(|e| e.query(&t, &[(0, 1000)], false, true));
                if r == Res::Sat {
                    extra = t;
                }
            }
            let first = variants.first().cloned().unwrap_or_default();
            for goal in [first, vec![]] {
                let mut t = extra.clone();
                t.extend(goal);
                let (r, m) = with(|e| e.query(&t, &[(0, 4000)], true, true));
                if r == Res::Sat && self.try_replay(what, &m) {
                    abort(Abort::Stop);
                }
            }
        }
    }
    /// a cheap look for a counterexample before an expensive proof attempt
    fn probe(&mut self, what: &str) {
        if self.probes.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < MAX_PROBES {
            self.fixings(what, &[], 2, 1000);
        }
    }
    pub fn flush(&mut self) {
        if self.trivial.is_empty() {
            return;
        }
        let n = self.trivial.len() as u64;
        let q = format!("(assert (or {} false))", self.trivial.join("\n "));
        let names = std::mem::take(&mut self.trivial_names);
        self.trivial.clear();
        let vars = std::mem::take(&mut self.trivial_vars);
        let ms = self.claim_ms.min(6000);
        let r = with(|e| {
            // the path condition is irrelevant for an identity
            let saved = std::mem::take(&mut e.pc);
            let qq = e.build(&[], &[q], &vars, false);
            e.pc = saved;
            e.solver.check(&qq, &[(0, ms), (2, ms)], false)
        });
        match r.0 {
            Res::Unsat => self.ob_solver += n,
            Res::Unknown => self.ob_nf += n,
            Res::Sat => {
                // must not happen: normaliser and solver disagree
                self.ob_unknown.push(format!("normal form and solver disagree: {:?}", names));
            }
        }
    }
    fn claim(&mut self, what: &str, neg: Vec<Cond>) -> bool {
        // neg: the conjunction that must be unsatisfiable with the path condition
        let ms = self.claim_ms;
        let (r, m) = with(|e| e.query(&neg, &[(0, ms), (2, ms), (1, ms)], true, false));
        match r {
            Res::Unsat => true,
            Res::Sat => {
                let _ = m;
                self.hunt(what, vec![neg], true);
                false
            }
            Res::Unknown => {
                self.hunt(what, vec![neg], false);
                false
            }
        }
    }
}

fn cond(p: Poly, rel: Rel) -> Cond {
    Cond { p: std::rc::Rc::new(p), rel }
}

/// None: claim is constant true; Some(false): constant false
enum Lin {
    Const(bool),
    P(Poly),
}

impl<'a> Ctx for SymCtx<'a> {
    type S = Sym;
    fn k(&self, x: f64) -> Sym {
        Sym::f(x)
    }
    fn ratio(&self, n: i64, d: i64) -> Sym {
        Sym::q(n, d)
    }
    fn var(&mut self, name: &str, lo: f64, hi: f64) -> Sym {
        with(|e| {
            let v = e.new_var(name, VarKind::Input, Q::from_f64(lo), Q::from_f64(hi));
            Sym(e.push_rat(Rat::var(v)))
        })
    }
    fn angle(&mut self, name: &str, lo: f64, hi: f64, d: i64, c: bool, s: bool) -> Sym {
        with(|e| {
            let v = e.new_var(name, VarKind::Input, Q::from_f64(lo), Q::from_f64(hi));
            e.register_angle(v, d, c, s);
            Sym(e.push_rat(Rat::var(v)))
        })
    }
    fn keep_bits(&mut self, bits: u64) {
        with(|e| {
            e.bits = Some(bits);
            e.notes.insert(format!("exact numbers of more than {} bits are kept to {}", 2 * bits, bits));
        })
    }
    fn assume(&mut self, a: Sym, rel: Rel, b: Sym) {
        with(|e| {
            let d = match (e.rat(a.0), e.rat(b.0)) {
                (Some(x), Some(y)) => x.add(&y.neg(), &e.rules),
                _ => abort(Abort::Infeasible),
            };
            let n = if matches!(rel, Rel::Eq | Rel::Ne) { d.num.clone() } else { e.numer_signed(&d) };
            if let Some(c) = n.as_const() {
                let s = match c.sign() {
                    -1 => 1u8,
                    0 => 2,
                    _ => 4,
                };
                if rel.mask() & s == 0 {
                    abort(Abort::Infeasible);
                }
                return;
            }
            let (u, m) = n.monic();
            let rel = if u.sign() < 0 { rel.flip() } else { rel };
            let key = std::rc::Rc::new(m);
            let poss = e.possible(&key, &key);
            let nm = poss & rel.mask();
            if nm == 0 {
                abort(Abort::Infeasible);
            }
            if nm == poss {
                return;
            }
            e.facts.insert(key.clone(), nm);
            e.condition(Cond { p: key, rel });
        })
    }
    fn choice(&mut self, name: &str, n: usize) -> usize {
        let i = with(|e| e.choice(n));
        self.choices.insert(name.to_string(), i);
        i
    }
    fn eq_tol(&mut self, what: &str, a: Sym, b: Sym, tol: f64) {
        self.ob += 1;
        let pair = with(|e| (e.rat(a.0), e.rat(b.0)));
        let (x, y) = match pair {
            (Some(x), Some(y)) => (x, y),
            _ => {
                self.hunt(&format!("{} (undefined value)", what), vec![vec![]], true);
                return;
            }
        };
        let d = with(|e| x.add(&y.neg(), &e.rules));
        if d.num.is_zero() {
            // both sides have the same normal form; hand the identity to the solver as well
            let size = x.num.0.len() + y.num.0.len() + x.den.iter().chain(y.den.iter()).map(|f| f.0 .0.len()).sum::<usize>();
            if size <= 400 {
                let name = |v: Var| format!("v{}", v);
                let den = |r: &Rat| -> String {
                    let mut s = vec!["1.0".to_string()];
                    for (f, k) in &r.den {
                        for _ in 0..*k {
                            s.push(f.smt(&name));
                        }
                    }
                    format!("(* {} 1.0)", s.join(" "))
                };
                self.trivial.push(format!(
                    "(not (= (* {} {}) (* {} {})))",
                    x.num.smt(&name),
                    den(&y),
                    y.num.smt(&name),
                    den(&x)
                ));
                for p in [&x.num, &y.num] {
                    p.vars(&mut self.trivial_vars);
                }
                for (f, _) in x.den.iter().chain(y.den.iter()) {
                    f.vars(&mut self.trivial_vars);
                }
                self.trivial_names.push(what.to_string());
                if self.trivial.len() >= 60 {
                    self.flush();
                }
            } else {
                self.ob_nf += 1;
            }
            return;
        }
        if let Some(c) = d.as_const() {
            if c.abs().to_f64() <= tol {
                self.ob_nf += 1;
                return;
            }
            self.hunt(what, vec![vec![]], true);
            return;
        }
        let ms = self.claim_ms;
        let ne = [cond(d.num.clone(), Rel::Ne)];
        let (r, _) = with(|e| e.query(&ne, &[(0, 300)], false, false));
        if r == Res::Unsat {
            self.ob_solver += 1;
            return;
        }
        self.probe(what);
        let (r, _) = with(|e| e.query(&ne, &[(0, ms.min(6000))], false, false));
        if r == Res::Unsat {
            self.ob_solver += 1;
            return;
        }
        // tolerance version
        let (num, den) = with(|e| {
            let n = e.numer_signed(&d);
            let dp = e.den_poly(&d);
            (n, dp)
        });
        let t = Q::from_f64(tol).unwrap();
        let above = cond(num.sub(&den.scale(&t)), Rel::Gt);
        let below = cond(num.add(&den.scale(&t)), Rel::Lt);
        let mut bad = vec![];
        for c in [above, below] {
            let (r, _) = with(|e| e.query(std::slice::from_ref(&c), &[(0, ms), (2, ms), (1, ms)], false, false));
            match r {
                Res::Unsat => {}
                r => bad.push((r, c)),
            }
        }
        if bad.is_empty() {
            self.ob_tol += 1;
            return;
        }
        let sat = bad.iter().any(|b| b.0 == Res::Sat);
        // prefer clear violations
        let mut variants = vec![];
        for thr in [1.0, 1e-1, 1e-2, 1e-4] {
            let t = Q::from_f64(thr).unwrap();
            variants.push(vec![cond(num.sub(&den.scale(&t)), Rel::Gt)]);
            variants.push(vec![cond(num.add(&den.scale(&t)), Rel::Lt)]);
        }
        for b in bad {
            variants.push(vec![b.1]);
        }
        self.hunt(what, variants, sat);
    }
    fn rel_tol(&mut self, what: &str, a: Sym, rel: Rel, b: Sym, tol: f64) {
        if rel == Rel::Eq {
            return self.eq_tol(what, a, b, tol);
        }
        self.ob += 1;
        let r = with(|e| match (e.rat(a.0), e.rat(b.0)) {
            (Some(x), Some(y)) => {
                let d = x.add(&y.neg(), &e.rules);
                // claim: d rel 0 up to tol
                let sh = Q::from_f64(tol).unwrap();
                let d = match rel {
                    Rel::Le | Rel::Lt => d.add(&Rat::cst(sh.neg()), &e.rules),
                    Rel::Ge | Rel::Gt => d.add(&Rat::cst(sh), &e.rules),
                    _ => d,
                };
                let n = if rel == Rel::Ne { d.num.clone() } else { e.numer_signed(&d) };
                Some(match n.as_const() {
                    Some(c) => {
                        let s = match c.sign() {
                            -1 => 1u8,
                            0 => 2,
                            _ => 4,
                        };
                        Lin::Const(rel.mask() & s != 0)
                    }
                    None => Lin::P(n),
                })
            }
            _ => None,
        });
        match r {
            None => {
                // infinities compare; NaN fails
                let ok = a.rel(b, rel);
                if !ok {
                    self.hunt(&format!("{} (undefined value)", what), vec![vec![]], true);
                }
            }
            Some(Lin::Const(true)) => self.ob_nf += 1,
            Some(Lin::Const(false)) => self.hunt(what, vec![vec![]], true),
            Some(Lin::P(n)) => {
                let c = cond(n.clone(), rel.neg());
                let ms = self.claim_ms;
                let (res, _) = with(|e| e.query(std::slice::from_ref(&c), &[(0, 300)], false, false));
                if res == Res::Unsat {
                    self.ob_solver += 1;
                    return;
                }
                if tol > 0.0 && res == Res::Unknown {
                    // the claim without the tolerance is stronger, and often simpler
                    let exact = with(|e| match (e.rat(a.0), e.rat(b.0)) {
                        (Some(x), Some(y)) => {
                            let d = x.add(&y.neg(), &e.rules);
                            Some(if rel == Rel::Ne { d.num.clone() } else { e.numer_signed(&d) })
                        }
                        _ => None,
                    });
                    if let Some(n) = exact.filter(|n| n.as_const().is_none()) {
                        let c = cond(n, rel.neg());
                        let (res, _) = with(|e| e.query(std::slice::from_ref(&c), &[(0, 2000)], false, false));
                        if res == Res::Unsat {
                            self.ob_solver += 1;
                            return;
                        }
                    }
                }
                self.probe(what);
                let (res, _) = with(|e| e.query(std::slice::from_ref(&c), &[(0, ms), (2, ms), (1, ms)], false, false));
                if res == Res::Unsat {
                    self.ob_solver += 1;
                    return;
                }
                if res == Res::Sat && std::env::var("SYM_DEBUG").is_ok() {
                    with(|e| {
                        let (_, m) = e.query(std::slice::from_ref(&c), &[(0, ms)], true, true);
                        eprintln!("refuted {}: {:?}\n{}", what, m, e.build(std::slice::from_ref(&c), &[], &BTreeSet::new(), true).body);
                        eprintln!("{:?}", e.vars.iter().map(|v| v.name.clone()).collect::<Vec<_>>());
                    });
                }
                let mut variants = vec![];
                if matches!(rel, Rel::Le | Rel::Lt | Rel::Ge | Rel::Gt) {
                    for thr in [1.0, 1e-2, 1e-4] {
                        let t = Q::from_f64(thr).unwrap();
                        let p = match rel {
                            Rel::Le | Rel::Lt => n.sub(&Poly::cst(t)),
                            _ => n.add(&Poly::cst(t)),
                        };
                        variants.push(vec![cond(p, rel.neg())]);
                    }
                }
                variants.push(vec![c]);
                self.hunt(what, variants, res == Res::Sat);
            }
        }
    }
    fn check(&mut self, what: &str, ok: bool) {
        self.ob += 1;
        if ok {
            self.ob_nf += 1;
        } else {
            self.hunt(what, vec![vec![]], true);
        }
    }
    fn label(&mut self, w: &str) {
        self.labels.insert(w.to_string());
    }
    fn is_sym(&self) -> bool {
        true
    }
}

impl SymCtx<'_> {
    pub fn claim_unsat(&mut self, what: &str, neg: Vec<Cond>) -> bool {
        self.ob += 1;
        let r = self.claim(what, neg);
        if r {
            self.ob_solver += 1;
        }
        r
    }
}

// ------------------------------------------------------------------ cases
pub trait Case: Send + Sync {
    fn name(&self) -> String;
    fn run<C: Ctx>(&self, c: &mut C);
}
pub trait DynCase: Send + Sync {
    fn name(&self) -> String;
    fn run_sym(&self, c: &mut SymCtx);
    fn run_nat(&self, c: &mut NatCtx);
}
impl<T: Case> DynCase for T {
    fn name(&self) -> String {
        Case::name(self)
    }
    fn run_sym(&self, c: &mut SymCtx) {
        self.run(c)
    }
    fn run_nat(&self, c: &mut NatCtx) {
        self.run(c)
    }
}

pub fn replay_case(case: &dyn DynCase, vals: &HashMap<String, f64>, choices: &HashMap<String, usize>) -> ReplayOut {
    let mut n = NatCtx { vals: vals.clone(), choices: choices.clone(), fails: vec![], invalid: false, checks: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| case.run_nat(&mut n)));
    if let Err(p) = r {
        if let Some(a) = p.downcast_ref::<Abort>() {
            match a {
                Abort::Infeasible => {}
                _ => n.invalid = true,
            }
        } else {
            n.fails.push(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())));
        }
    }
    ReplayOut { fails: n.fails, invalid: n.invalid, checks: n.checks }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        if std::env::var("SYM_BT").is_ok() && info.payload().downcast_ref::<Abort>().is_none() {
            eprintln!("{}\n{}", m, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

#[derive(Default, Clone, Debug)]
pub struct CaseReport {
    pub paths: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub forks: u64,
    pub ob: u64,
    pub ob_nf: u64,
    pub ob_solver: u64,
    pub ob_tol: u64,
    pub complete: u64, // paths that reached the end with a satisfiable path condition
    pub inconclusive: Vec<String>,
    pub violations: Vec<(Candidate, Vec<String>)>,
    pub validated: u64,
    pub replays: u64,
    pub notes: BTreeSet<String>,
    pub labels: BTreeMap<String, u64>,
    pub unknown_feas: u64,
    pub max_deg: u32,
    pub max_terms: usize,
    pub time: f64,
    pub sample: Option<String>,
    pub stopped: bool,
}

pub struct Opts {
    pub threads: usize,
    pub total_s: f64,
    pub claim_ms: u64,
    pub feas_ms: u64,
    pub max_paths: u64,
    pub validate: u64,
    pub path_s: f64,
}

struct Shared {
    queue: Vec<(usize, Vec<Dec>)>,
    busy: usize,
    reports: Vec<CaseReport>,
    stats: Stats,
}

pub fn run_cases(cases: Arc<Vec<Box<dyn DynCase>>>, o: &Opts) -> (Vec<CaseReport>, Stats) {
    install_hook();
    let n = cases.len();
    let shared = Arc::new((
        Mutex::new(Shared {
            queue: (0..n).rev().map(|i| (i, vec![])).collect(),
            busy: 0,
            reports: vec![CaseReport::default(); n],
            stats: Stats::default(),
        }),
        Condvar::new(),
    ));
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs_f64(o.total_s);
    let mut hs = vec![];
    let hunts: Arc<Vec<[std::sync::atomic::AtomicU64; 2]>> = Arc::new((0..n).map(|_| Default::default()).collect());
    for _ in 0..o.threads {
        let shared = shared.clone();
        let hunts = hunts.clone();
        let cases = cases.clone();
        let (claim_ms, feas_ms, max_paths, validate, path_s) = (o.claim_ms, o.feas_ms, o.max_paths, o.validate, o.path_s);
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn(move || {
                    loop {
                        let (ci, prefix) = {
                            let (m, cv) = &*shared;
                            let mut g = m.lock().unwrap();
                            loop {
                                if let Some(x) = g.queue.pop() {
                                    g.busy += 1;
                                    break x;
                                }
                                if g.busy == 0 {
                                    cv.notify_all();
                                    let st = with(|e| std::mem::take(&mut e.solver.stats));
                                    g.stats.merge(&st);
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let skip = {
                            let g = shared.0.lock().unwrap();
                            let r = &g.reports[ci];
                            if r.stopped {
                                Some(String::new())
                            } else if Instant::now() > end {
                                Some("time budget exhausted before all paths were explored".to_string())
                            } else if r.paths >= max_paths {
                                Some("path budget exhausted".to_string())
                            } else {
                                None
                            }
                        };
                        let do_validate = shared.0.lock().unwrap().reports[ci].validated < validate;
                        let rep = match skip {
                            Some(s) => {
                                let mut r = CaseReport::default();
                                if !s.is_empty() {
                                    r.inconclusive.push(s);
                                }
                                with(|e| e.worklist.clear());
                                r
                            }
                            None => run_path(&*cases[ci], &hunts[ci], prefix, claim_ms, feas_ms, do_validate, path_s, end),
                        };
                        let more = with(|e| std::mem::take(&mut e.worklist));
                        let (m, cv) = &*shared;
                        let mut g = m.lock().unwrap();
                        let r = &mut g.reports[ci];
                        r.paths += rep.paths;
                        r.infeasible += rep.infeasible;
                        r.decisions += rep.decisions;
                        r.forks += rep.forks;
                        r.ob += rep.ob;
                        r.ob_nf += rep.ob_nf;
                        r.ob_solver += rep.ob_solver;
                        r.ob_tol += rep.ob_tol;
                        r.complete += rep.complete;
                        for i in rep.inconclusive {
                            if r.inconclusive.len() < 20 && !r.inconclusive.contains(&i) {
                                r.inconclusive.push(i);
                            }
                        }
                        if !rep.violations.is_empty() {
                            r.stopped = true;
                        }
                        r.violations.extend(rep.violations);
                        r.validated += rep.validated;
                        r.replays += rep.replays;
                        r.notes.extend(rep.notes);
                        for (k, v) in rep.labels {
                            *r.labels.entry(k).or_default() += v;
                        }
                        r.unknown_feas += rep.unknown_feas;
                        r.max_deg = r.max_deg.max(rep.max_deg);
                        r.max_terms = r.max_terms.max(rep.max_terms);
                        r.time += rep.time;
                        if r.sample.is_none() {
                            r.sample = rep.sample;
                        }
                        if !g.reports[ci].stopped {
                            for p in more {
                                g.queue.push((ci, p));
                            }
                        }
                        g.busy -= 1;
                        cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    let mut panicked = false;
    for h in hs {
        if h.join().is_err() {
            panicked = true;
        }
    }
    let mut g = shared.0.lock().unwrap();
    if panicked {
        if let Some(r) = g.reports.first_mut() {
            r.inconclusive.push("a worker thread died".into());
        }
    }
    (g.reports.clone(), g.stats.clone())
}

fn run_path(case: &dyn DynCase, hunts: &[std::sync::atomic::AtomicU64; 2], prefix: Vec<Dec>, claim_ms: u64, feas_ms: u64, validate: bool, path_s: f64, end: Instant) -> CaseReport {
    if std::env::var("SYM_PATHS").is_ok() {
        eprintln!("start {}", case.name());
    }
    let t0 = Instant::now();
    let mut rep = CaseReport { paths: 1, ..Default::default() };
    with(|e| {
        e.start_path(prefix);
        e.feas_ms = feas_ms;
        e.pstats = PathStats::default();
        e.notes.clear();
        e.unknown_feas = 0;
        e.max_deg = 0;
        e.max_terms = 0;
        e.worklist.clear();
        e.deadline = Some((t0 + Duration::from_secs_f64(path_s)).min(end));
    });
    let replay = |v: &HashMap<String, f64>, c: &HashMap<String, usize>| replay_case(case, v, c);
    let mut ctx = SymCtx {
        choices: HashMap::new(),
        ob: 0,
        ob_nf: 0,
        ob_solver: 0,
        ob_tol: 0,
        ob_unknown: vec![],
        violations: vec![],
        unreproduced: vec![],
        trivial: vec![],
        trivial_vars: BTreeSet::new(),
        trivial_names: vec![],
        labels: BTreeSet::new(),
        replay: &replay,
        claim_ms,
        replays: 0,
        hunts: &hunts[0],
        probes: &hunts[1],
    };
    crate::handle::allow(false);
    rand::set_draws(vec![]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        case.run_sym(&mut ctx);
        ctx.flush();
    }));
    crate::handle::allow(false);
    let mut finished = false;
    match r {
        Ok(()) => finished = true,
        Err(p) => {
            if let Some(a) = p.downcast_ref::<Abort>() {
                match a.clone() {
                    Abort::Infeasible => rep.infeasible += 1,
                    Abort::Stop => {}
                    Abort::TooBig => rep.inconclusive.push("term size limit".into()),
                    Abort::Unsupported(s) => rep.inconclusive.push(format!("unsupported: {}", s)),
                    Abort::Budget(s) => rep.inconclusive.push(format!("budget: {}", s)),
                }
            } else {
                // the real code panicked on a feasible path
                let msg = LAST_PANIC.with(|l| l.borrow().clone());
                if std::env::var("SYM_DEBUG").is_ok() {
                    eprintln!("panic in {}: {}", case.name(), msg);
                }
                let h = catch_unwind(AssertUnwindSafe(|| ctx.hunt(&format!("panic: {}", msg), vec![vec![]], true)));
                if h.is_err() && ctx.violations.is_empty() {
                    rep.inconclusive.push(format!("panic (not replayed): {}", msg));
                }
            }
        }
    }
    if finished {
        // reachability witness and native validation
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (r, m) = with(|e| e.query(&[], &[(0, 8000), (1, 8000), (2, 8000)], true, true));
            match r {
                Res::Sat => {
                    rep.complete += 1;
                    if validate {
                        let vals = SymCtx::input_vals(&m);
                        let out = (ctx.replay)(&vals, &ctx.choices);
                        if !out.invalid {
                            rep.validated += 1;
                            let mut s: Vec<String> = vals.iter().map(|(k, v)| format!("{}={:.6}", k, v)).collect();
                            s.sort();
                            s.truncate(24);
                            rep.sample = Some(format!("{}: {} ; {} native checks passed", case.name(), s.join(" "), out.checks));
                            if !out.fails.is_empty() {
                                ctx.violations.push((
                                    Candidate { what: "native run of a path model".into(), vals, choices: ctx.choices.clone() },
                                    out.fails,
                                ));
                            }
                        }
                    }
                }
                Res::Unsat => rep.infeasible += 1,
                Res::Unknown => {}
            }
        }));
        if let Err(p) = r {
            if let Some(a) = p.downcast_ref::<Abort>() {
                rep.inconclusive.push(format!("{:?}", a));
            }
        }
    }
    rep.ob = ctx.ob;
    rep.ob_nf = ctx.ob_nf;
    rep.ob_solver = ctx.ob_solver;
    rep.ob_tol = ctx.ob_tol;
    rep.violations = ctx.violations;
    rep.replays = ctx.replays;
    for u in ctx.ob_unknown {
        rep.inconclusive.push(format!("undecided: {}", u));
    }
    for u in ctx.unreproduced {
        rep.inconclusive.push(format!("refuted symbolically, not reproduced natively: {}", u));
    }
    for l in ctx.labels {
        *rep.labels.entry(l).or_default() += 1;
    }
    with(|e| {
        rep.decisions = e.pstats.decisions;
        rep.forks = e.pstats.forks;
        rep.notes = std::mem::take(&mut e.notes);
        rep.unknown_feas = e.unknown_feas;
        rep.max_deg = e.max_deg;
        rep.max_terms = e.max_terms;
        e.active = false;
    });
    rep.time = t0.elapsed().as_secs_f64();
    if std::env::var("SYM_PATHS").is_ok() {
        eprintln!("path {} {:.2}s dec {} fork {} ob {}/{}/{}/{} viol {} inc {:?}", case.name(), rep.time, rep.decisions, rep.forks, rep.ob, rep.ob_solver, rep.ob_tol, rep.ob_nf, rep.violations.len(), rep.inconclusive);
    }
    rep
}
