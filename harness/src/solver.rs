//! Persistent SMT solver processes, with a portfolio on `unknown`.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Proc {
    fn start(cmd: &[&str]) -> Option<Proc> {
        let mut child = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let stdin = child.stdin.take()?;
        let out = child.stdout.take()?;
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Some(Proc { child, stdin, rx })
    }
    fn ask(&mut self, text: &str, limit: Duration) -> Option<Vec<String>> {
        self.stdin.write_all(text.as_bytes()).ok()?;
        self.stdin.write_all(b"\n(echo \"done\")\n").ok()?;
        self.stdin.flush().ok()?;
        let end = Instant::now() + limit;
        let mut v = vec![];
        loop {
            let left = end.checked_duration_since(Instant::now())?;
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == "done" {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(_) => return None,
            }
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    pub by_solver: HashMap<String, u64>,
    pub errors: u64,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.cached += o.cached;
        self.time += o.time;
        self.max_time = self.max_time.max(o.max_time);
        self.errors += o.errors;
        for (k, v) in &o.by_solver {
            *self.by_solver.entry(k.clone()).or_default() += v;
        }
    }
}

pub struct Query {
    pub logic: &'static str,
    pub body: String, // declarations and assertions
    pub vars: Vec<String>,
}

pub struct Solver {
    procs: HashMap<&'static str, Proc>,
    pub stats: Stats,
    cache: HashMap<(String, bool), ((Res, HashMap<String, f64>), u64)>,
    pub last_unknown: Option<String>,
}

const SOLVERS: [(&str, &[&str]); 3] = [
    ("z3-5.3.2", &["z3-new", "-in"]),
    ("z3-4.8.12", &["z3", "-in"]),
    (
        "cvc5-1.1.2",
        &["cvc5", "--incremental", "--produce-models", "--lang=smt2", "-q"],
    ),
];

impl Solver {
    pub fn new() -> Solver {
        Solver {
            procs: HashMap::new(),
            stats: Stats::default(),
            cache: HashMap::new(),
            last_unknown: None,
        }
    }
    fn run(&mut self, k: usize, q: &Query, ms: u64, model: bool) -> (Res, HashMap<String, f64>) {
        let (name, cmd) = SOLVERS[k];
        if !self.procs.contains_key(name) {
            match Proc::start(cmd) {
                Some(p) => {
                    self.procs.insert(name, p);
                }
                None => return (Res::Unknown, HashMap::new()),
            }
        }
        let mut text = String::new();
        text.push_str("(reset)\n");
        if k < 2 {
            text.push_str(&format!("(set-option :timeout {})\n", ms));
            if model {
                text.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 22)\n");
            }
        } else {
            text.push_str(&format!("(set-option :tlimit-per {})\n", ms));
            if model {
                text.push_str("(set-option :produce-models true)\n");
            }
        }
        text.push_str(&format!("(set-logic {})\n", q.logic));
        text.push_str(&q.body);
        text.push_str("(check-sat)\n");
        let limit = Duration::from_millis(ms + 3000);
        let p = self.procs.get_mut(name).unwrap();
        let out = match p.ask(&text, limit) {
            Some(o) => o,
            None => {
                self.procs.remove(name);
                return (Res::Unknown, HashMap::new());
            }
        };
        if out.iter().any(|l| l.starts_with("(error")) {
            self.stats.errors += 1;
            if std::env::var("SYM_DEBUG").is_ok() {
                eprintln!("solver {} error: {:?}\n{}", name, out, text);
            }
            return (Res::Unknown, HashMap::new());
        }
        let res = match out.first().map(|s| s.trim()) {
            Some("sat") => Res::Sat,
            Some("unsat") => Res::Unsat,
            _ => Res::Unknown,
        };
        let mut m = HashMap::new();
        if res == Res::Sat && model && !q.vars.is_empty() {
            let p = self.procs.get_mut(name).unwrap();
            let t = format!("(get-value ({}))", q.vars.join(" "));
            if let Some(o) = p.ask(&t, Duration::from_secs(20)) {
                m = parse_values(&o.join("\n"));
            } else {
                self.procs.remove(name);
            }
        }
        (res, m)
    }
    pub fn check(&mut self, q: &Query, budgets: &[(usize, u64)], model: bool) -> (Res, HashMap<String, f64>) {
        let key = (format!("{}\n{}", q.logic, q.body), model);
        let budget: u64 = budgets.iter().map(|b| b.1).sum();
        if let Some((r, tried)) = self.cache.get(&key) {
            if r.0 != Res::Unknown || *tried >= budget {
                self.stats.cached += 1;
                return r.clone();
            }
        }
        let t0 = Instant::now();
        let mut out = (Res::Unknown, HashMap::new());
        for (k, ms) in budgets {
            let r = self.run(*k, q, *ms, model);
            if r.0 != Res::Unknown {
                *self.stats.by_solver.entry(SOLVERS[*k].0.to_string()).or_default() += 1;
                out = r;
                break;
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        self.stats.max_time = self.stats.max_time.max(dt);
        if dt > 2.0 {
            if let Ok(d) = std::env::var("SYM_SLOW") {
                let _ = std::fs::write(
                    format!("{}/slow-{}-{:.1}s-{:?}.smt2", d, self.stats.queries, dt, out.0),
                    format!("(set-logic {})\n{}(check-sat)\n", q.logic, q.body),
                );
            }
        }
        match out.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => {
                self.stats.unknown += 1;
                self.last_unknown = Some(key.0.clone());
            }
        }
        self.cache.insert(key, (out.clone(), budget));
        out
    }
}

/// parse ((x 1.0) (y (- (/ 1.0 3.0))) (z 1.4142?))
fn parse_values(s: &str) -> HashMap<String, f64> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    let mut bar = false;
    for c in s.chars() {
        if c == '|' {
            bar = !bar;
            cur.push(c);
            continue;
        }
        if bar {
            cur.push(c);
            continue;
        }
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    fn expr(t: &[String], i: &mut usize) -> Option<f64> {
        if *i >= t.len() {
            return None;
        }
        if t[*i] == "(" {
            *i += 1;
            let op = t.get(*i)?.clone();
            *i += 1;
            let mut args = vec![];
            while *i < t.len() && t[*i] != ")" {
                args.push(expr(t, i));
            }
            *i += 1;
            let a: Option<Vec<f64>> = args.into_iter().collect();
            let a = a?;
            match op.as_str() {
                "-" if a.len() == 1 => Some(-a[0]),
                "-" => Some(a[0] - a[1]),
                "/" => Some(a[0] / a[1]),
                "+" => Some(a.iter().sum()),
                "*" => Some(a.iter().product()),
                _ => None,
            }
        } else {
            let s = t[*i].trim_end_matches('?').to_string();
            *i += 1;
            s.parse::<f64>().ok()
        }
    }
    let mut m = HashMap::new();
    let mut i = 1;
    while i < toks.len() {
        if toks[i] == "(" {
            i += 1;
            if i >= toks.len() {
                break;
            }
            let name = toks[i].clone();
            i += 1;
            if let Some(v) = expr(&toks, &mut i) {
                m.insert(name, v);
            } else {
                // skip to the closing parenthesis
                while i < toks.len() && toks[i] != ")" {
                    i += 1;
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    m
}
