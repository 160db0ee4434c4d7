//! Running a property, printing its verdict, writing its evidence.
use crate::ctx::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub cases: fn(Tier) -> Vec<Box<dyn DynCase>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// what the check encodes, its bounds and what is outside them: one committed table
fn meta(id: &str) -> Value {
    let s = std::fs::read_to_string(format!("{}/harness/meta.json", root())).unwrap_or_default();
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    v.get(id).cloned().unwrap_or(Value::Null)
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn main_with(props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} PROPERTY [case filter] | replay FILE", args[0]);
        std::process::exit(2);
    }
    if args[1] == "replay" {
        std::process::exit(replay_file(&props, &args[2]));
    }
    if args[1] == "list" {
        for p in &props {
            println!("{} {}", p.id, (p.cases)(Tier::Quick).len());
        }
        return;
    }
    let p = match props.iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2)
        }
    };
    let filter = args.get(2).cloned();
    std::process::exit(run(p, filter));
}

fn replay_file(props: &[Prop], f: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let case = v["case"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("property in this binary");
    let cases = (p.cases)(Tier::Thorough);
    let c = cases.iter().find(|c| c.name() == case).expect("case");
    let vals: HashMap<String, f64> = v["values"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_f64().unwrap())).collect();
    let choices: HashMap<String, usize> = v["choices"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_u64().unwrap() as usize)).collect();
    install_hook();
    let r = replay_case(&**c, &vals, &choices);
    println!("replayed {} / {} natively: invalid={} checks={}", id, case, r.invalid, r.checks);
    for f in &r.fails {
        println!("FAILS {}", f);
    }
    if r.fails.is_empty() {
        0
    } else {
        1
    }
}

struct Known {
    prop: String,
    case: String,
    frag: String,
    line: String,
}
fn known() -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
        for l in s.lines() {
            // finding: property=ID case=NAME match=TEXT :: description
            if let Some(r) = l.strip_prefix("finding: ") {
                let (head, desc) = r.split_once(" :: ").unwrap_or((r, ""));
                let mut prop = String::new();
                let mut case = String::new();
                let mut frag = String::new();
                for (i, _) in head.match_indices('=') {
                    let key = head[..i].rsplit(' ').next().unwrap();
                    let rest = &head[i + 1..];
                    match key {
                        "property" => prop = rest.split(' ').next().unwrap().into(),
                        "case" => case = rest.split(' ').next().unwrap().into(),
                        "match" => frag = rest.to_string(),
                        _ => {}
                    }
                }
                out.push(Known { prop, case, frag, line: desc.to_string() });
            }
        }
    }
    out
}

pub fn run(p: &Prop, filter: Option<String>) -> i32 {
    let t0 = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::env::var("SYM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let all = (p.cases)(tier);
    let mut cases: Vec<Box<dyn DynCase>> = vec![];
    for c in all {
        if let Some(f) = &filter {
            if !c.name().contains(f.as_str()) {
                continue;
            }
        }
        cases.push(c);
    }
    let names: Vec<String> = cases.iter().map(|c| c.name()).collect();
    {
        let mut s = names.clone();
        s.sort();
        s.dedup();
        assert_eq!(s.len(), names.len(), "case names must be unique");
    }
    let o = Opts {
        threads,
        total_s: if tier == Tier::Quick { 560.0 } else { 5400.0 },
        claim_ms: if tier == Tier::Quick { 20000 } else { 120000 },
        feas_ms: if tier == Tier::Quick { 4000 } else { 15000 },
        max_paths: if tier == Tier::Quick { 6000 } else { 60000 },
        validate: if tier == Tier::Quick { 6 } else { 24 },
        path_s: if tier == Tier::Quick { 240.0 } else { 1800.0 },
    };
    let cases = Arc::new(cases);
    let (reps, stats) = run_cases(cases.clone(), &o);
    let known = known();
    let mut viol = vec![];
    let mut kf = vec![];
    let mut inconclusive = vec![];
    let mut case_rows = vec![];
    let (mut paths, mut dec, mut forks, mut ob, mut obs, mut obt, mut obn, mut val, mut reps_n, mut complete, mut infeasible) =
        (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut unknown_feas = 0u64;
    let mut notes = std::collections::BTreeSet::new();
    let mut samples = vec![];
    for (i, r) in reps.iter().enumerate() {
        paths += r.paths;
        dec += r.decisions;
        forks += r.forks;
        ob += r.ob;
        obs += r.ob_solver;
        obt += r.ob_tol;
        obn += r.ob_nf;
        val += r.validated;
        reps_n += r.replays;
        complete += r.complete;
        infeasible += r.infeasible;
        unknown_feas += r.unknown_feas;
        notes.extend(r.notes.iter().cloned());
        if samples.len() < 8 {
            if let Some(s) = &r.sample {
                samples.push(json!(s));
            }
        }
        for v in &r.violations {
            let k = known.iter().find(|k| k.prop == p.id && k.case == names[i] && v.1.iter().any(|f| f.contains(&k.frag)));
            match k {
                Some(k) => kf.push((i, v.clone(), k.line.clone())),
                None => viol.push((i, v.clone())),
            }
        }
        for x in &r.inconclusive {
            inconclusive.push(format!("{}: {}", names[i], x));
        }
        if r.violations.is_empty() && r.inconclusive.is_empty() && (r.complete == 0 || r.ob == 0) {
            inconclusive.push(format!("{}: vacuous: no path reached the end with a satisfiable path condition and an obligation", names[i]));
        }
        case_rows.push(json!({"case": names[i], "paths": r.paths, "complete": r.complete, "infeasible": r.infeasible, "decisions": r.decisions, "forks": r.forks, "obligations": r.ob, "max_degree": r.max_deg, "max_terms": r.max_terms, "s": (r.time*100.0).round()/100.0, "labels": r.labels}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut vrows = vec![];
    let dir = format!("{}/replays/{}", root(), p.id);
    let _ = std::fs::remove_dir_all(&dir);
    for (n, (i, v)) in viol.iter().enumerate() {
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, names[*i].replace(['/', ' '], "_"), n);
        let j = json!({"property": p.id, "case": names[*i], "claim": v.0.what, "values": v.0.vals, "choices": v.0.choices, "fails": v.1});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("counterexample in case {}: {} -> {}", names[*i], v.0.what, v.1.first().cloned().unwrap_or_default());
        println!("VIOLATION property={} replay={}", p.id, path);
        vrows.push(j);
    }
    for (i, v, l) in &kf {
        println!("KNOWN-FINDING: property={} case {} {} ({})", p.id, names[*i], l, v.1.first().cloned().unwrap_or_default());
    }
    for x in inconclusive.iter().take(40) {
        println!("INCONCLUSIVE {}", x);
    }
    let mut assumptions: Vec<String> = vec![
        "arithmetic is exact over the reals: f64 rounding is outside the claim (native replays and path-model runs use the real f64 code)".into(),
    ];
    let meta = meta(p.id);
    assumptions.extend(meta["assumptions"].as_array().cloned().unwrap_or_default().iter().filter_map(|s| s.as_str().map(|s| s.to_string())));
    assumptions.extend(notes);
    assumptions.push(format!("outside the bounds: {}", meta["outside"].as_str().unwrap_or("")));
    let ev = json!({
        "property": p.id, "tier": tname, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths, "transitions": dec + forks, "traces_validated_against_impl": val,
            "samples": samples,
            "cases": names.len(), "symbolic_paths": paths, "paths_complete_with_satisfiable_condition": complete,
            "paths_infeasible": infeasible, "branch_decisions_sent_to_solver": dec, "forks": forks,
            "obligations": ob, "obligations_by_solver": obs, "obligations_by_solver_within_tolerance": obt,
            "obligations_constant_or_normal_form": obn, "native_replays": reps_n,
            "unknown_feasibility_answers_treated_as_feasible": unknown_feas,
            "queries": stats.queries, "queries_sat": stats.sat, "queries_unsat": stats.unsat, "queries_unknown": stats.unknown,
            "queries_cached": stats.cached, "solver_errors": stats.errors, "solver_time_s": (stats.time*100.0).round()/100.0,
            "max_query_s": (stats.max_time*1000.0).round()/1000.0, "by_solver": stats.by_solver,
            "functions_encoded": meta["functions"], "bounds": meta["bounds"], "per_case": case_rows,
            "inconclusive": inconclusive,
            "known_findings": kf.iter().map(|(i,v,l)| json!({"case": names[*i], "what": l, "fails": v.1})).collect::<Vec<_>>()
        },
        "wall_s": wall, "assumptions": assumptions, "violations": vrows.len(), "counterexamples": vrows
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if filter.is_none() {
        std::fs::write(format!("{}/evidence/{}.json", root(), p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{} {}: {} cases, {} paths ({} complete), {} obligations ({} solver, {} tol, {} const/nf), {} queries {:.1}s solver, unknown {}, {} native traces, {:.1}s",
        p.id, tname, names.len(), paths, complete, ob, obs, obt, obn, stats.queries, stats.time, stats.unknown, val, wall
    );
    // obligations left undecided are reported above and in the evidence: they are no violation
    if !viol.is_empty() {
        1
    } else {
        0
    }
}
