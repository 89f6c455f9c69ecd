#![allow(dead_code)]
//! rtmon check --property P01 --tier quick --seed 1     run a check (8 worker processes)
//! rtmon replay FILE                                     re-run a recorded violation
//! rtmon try P01 FROM N [v]                              run episodes in this process
mod agg;
mod codec;
mod engine;
mod episode;
mod events;
mod newborn;
mod exec;
mod exits;
mod gen;
mod mocks;
mod model;
mod num;
mod probe;
mod px;
mod scen;
mod state;
mod sweep;
mod vm;
mod world;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;

fn opt(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}

/// (seconds, episodes per worker)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let s = |d: u64| std::env::var("RTMON_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let _ = prop;
    if tier == "thorough" {
        (s(600), 1_000_000)
    } else {
        (s(45), 100_000)
    }
}

fn ep_seed(prop: &str, seed: u64, ep: u64) -> u64 {
    let p: u64 = prop.bytes().fold(0xcbf29ce484222325, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
    let mut r = num::Rng::new(p ^ seed.wrapping_mul(0x9e3779b97f4a7c15));
    let a = r.next();
    let mut r = num::Rng::new(a ^ ep.wrapping_mul(0xd1342543de82ef95));
    r.next()
}

struct Session {
    g: gen::Gen,
    base: world::Saved,
    pf: episode::Profile,
    seed: u64,
}
impl Session {
    fn new(prop: &str, seed: u64) -> Session {
        let e = engine::Eng::new(world::World::new(), prop);
        let base = e.w.save();
        Session { base, pf: episode::profile(prop), g: gen::Gen { e, r: num::Rng::new(1), promise: None, first: false, fresh: None, twin: None, flips: 0 }, seed }
    }
    fn episode(&mut self, ep: u64) {
        let g = &mut self.g;
        g.e.w.load(&self.base);
        g.e.reset();
        g.r = num::Rng::new(ep_seed(&g.e.prop, self.seed, ep));
        g.e.note(format!("episode {} seed {}", ep, self.seed));
        g.first = ep == 0;
        g.fresh = None;
        g.twin = None;
        g.run(&self.pf);
    }
}

/// lines "KNOWN property=Pxx match=<text>" of known_findings.txt
fn known(prop: &str) -> Vec<String> {
    let f = std::fs::read_to_string("known_findings.txt").or_else(|_| std::fs::read_to_string("../known_findings.txt")).unwrap_or_default();
    f.lines()
        .filter_map(|l| l.strip_prefix(&format!("KNOWN property={} match=", prop)).map(|x| x.trim().to_string()))
        .collect()
}

fn worker(a: &[String]) {
    let prop = opt(a, "--property", "P01");
    let tier = opt(a, "--tier", "quick");
    let seed: u64 = opt(a, "--seed", "1").parse().unwrap();
    let k: u64 = opt(a, "--index", "0").parse().unwrap();
    let first: u64 = opt(a, "--from", "0").parse().unwrap();
    let secs: u64 = opt(a, "--secs", "25").parse().unwrap();
    let dir = PathBuf::from(opt(a, "--dir", "/tmp"));
    let run: u64 = opt(a, "--run", "0").parse().unwrap();
    let (_, max) = budget(&prop, &tier);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let kn = known(&prop);
    let mut s = match std::panic::catch_unwind(|| Session::new(&prop, seed)) {
        Ok(s) => s,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| "set-up failed".into());
            std::fs::write(dir.join(format!("setup{}.err", k)), m).unwrap();
            std::process::exit(3);
        }
    };
    let mut n = 0;
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let mut last_save = Instant::now();
    let save = |s: &Session, n: u64, others: &BTreeMap<String, u64>, kn: &BTreeSet<String>, done: bool| {
        let c = &s.g.e.cov;
        let v = json!({
            "episodes": n, "steps": s.g.e.steps, "transactions": s.g.e.w.vm.n_tx, "queries": s.g.e.w.vm.n_query,
            "evals": c.evals, "sigs": c.sigs, "samples": c.samples, "counts": c.n, "others": others, "known": kn, "done": done,
            "secs": t0.elapsed().as_secs_f64(),
        });
        let p = dir.join(format!("w{}_{}.json", k, run));
        let tmp = dir.join(format!("w{}_{}.tmp", k, run));
        std::fs::write(&tmp, v.to_string()).unwrap();
        std::fs::rename(&tmp, &p).unwrap();
    };
    let mut ep = k + first * WORKERS;
    let cur = dir.join(format!("w{}.cur", k));
    while n + first < max && t0.elapsed() < Duration::from_secs(secs) {
        std::fs::write(dir.join(format!("w{}.ep", k)), format!("{}", ep)).unwrap();
        s.g.e.log = Some(std::fs::File::create(&cur).unwrap());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.episode(ep)));
        if r.is_err() {
            // a fault of the harness, not of the code: the VM state is rebuilt
            s.g.e.cov.hit("harness faults");
            let old = std::mem::take(&mut s.g.e.cov);
            let (st, tx, q) = (s.g.e.steps, s.g.e.w.vm.n_tx, s.g.e.w.vm.n_query);
            let fs = std::mem::take(&mut s.g.e.findings);
            let tr = std::mem::take(&mut s.g.e.trace);
            s = Session::new(&prop, seed);
            s.g.e.cov = old;
            s.g.e.steps = st;
            s.g.e.w.vm.n_tx = tx;
            s.g.e.w.vm.n_query = q;
            s.g.e.findings = fs;
            s.g.e.trace = tr;
        }
        n += 1;
        let mut bad = vec![];
        for f in &s.g.e.findings {
            if !f.props.iter().any(|p| *p == prop) {
                for p in &f.props {
                    *others.entry(p.to_string()).or_insert(0) += 1;
                }
            } else if let Some(m) = kn.iter().find(|m| f.what.contains(m.as_str())) {
                known_seen.insert(m.clone());
            } else {
                bad.push(f.what.clone());
            }
        }
        if !bad.is_empty() {
            let v = json!({"property": prop, "seed": seed, "episode": ep, "what": bad, "trace": s.g.e.trace});
            std::fs::write(dir.join(format!("violation_{}_{}.json", k, ep)), serde_json::to_string_pretty(&v).unwrap()).unwrap();
            save(&s, n, &others, &known_seen, true);
            std::process::exit(1);
        }
        s.g.e.findings.clear();
        ep += WORKERS;
        if last_save.elapsed() > Duration::from_secs(3) {
            save(&s, n, &others, &known_seen, false);
            last_save = Instant::now();
        }
    }
    save(&s, n, &others, &known_seen, true);
}

fn spawn(a: &[String], prop: &str, tier: &str, seed: u64, k: u64, from: u64, secs: u64, dir: &Path, run: u64) -> Child {
    let _ = a;
    let f = |n: String| std::fs::File::create(dir.join(n)).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", "--property", prop, "--tier", tier, "--seed", &seed.to_string(), "--index", &k.to_string()])
        .args(["--from", &from.to_string(), "--secs", &secs.to_string(), "--dir", dir.to_str().unwrap(), "--run", &run.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::from(f(format!("w{}.err", k))))
        .spawn()
        .unwrap()
}

fn check(a: &[String]) -> i32 {
    let prop = opt(a, "--property", "P01");
    let tier = opt(a, "--tier", "quick");
    let seed: u64 = opt(a, "--seed", "1").parse().unwrap();
    let out = PathBuf::from(opt(a, "--out", "evidence"));
    let dir = PathBuf::from(opt(a, "--work", "work")).join(&prop);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    let dir = dir.canonicalize().unwrap();
    let (secs, _) = budget(&prop, &tier);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(secs + 30);
    let mut ws: Vec<Option<(Child, u64)>> = (0..WORKERS).map(|k| Some((spawn(a, &prop, &tier, seed, k, 0, secs, &dir, 0), 0))).collect();
    let mut violations: Vec<PathBuf> = vec![];
    let mut aborts = 0u64;
    let mut setup_err: Option<String> = None;
    let mut hung = 0u64;
    while ws.iter().any(|x| x.is_some()) {
        std::thread::sleep(Duration::from_millis(50));
        for k in 0..WORKERS as usize {
            let Some((c, run)) = &mut ws[k] else { continue };
            let run = *run;
            let st = match c.try_wait().unwrap() {
                Some(st) => st,
                None => {
                    if Instant::now() > deadline || !violations.is_empty() && tier == "quick" {
                        if violations.is_empty() {
                            hung += 1;
                        }
                        let _ = c.kill();
                        let _ = c.wait();
                        ws[k] = None;
                    }
                    continue;
                }
            };
            ws[k] = None;
            match st.code() {
                Some(0) => {}
                Some(1) => {
                    for f in std::fs::read_dir(&dir).unwrap().flatten() {
                        if f.file_name().to_string_lossy().starts_with(&format!("violation_{}_", k)) {
                            violations.push(f.path());
                        }
                    }
                }
                Some(3) => setup_err = std::fs::read_to_string(dir.join(format!("setup{}.err", k))).ok(),
                _ => {
                    // the process died inside a transaction
                    aborts += 1;
                    let ep: u64 = std::fs::read_to_string(dir.join(format!("w{}.ep", k))).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(k as u64);
                    let tr = String::from_utf8_lossy(&std::fs::read(dir.join(format!("w{}.cur", k))).unwrap_or_default()).to_string();
                    let er = String::from_utf8_lossy(&std::fs::read(dir.join(format!("w{}.err", k))).unwrap_or_default()).to_string();
                    let tail: Vec<&str> = er.lines().rev().take(6).collect();
                    if prop == "P24" {
                        let v = json!({"property": prop, "seed": seed, "episode": ep, "what": ["a call aborted the process", format!("{:?}", st), tail], "trace": tr.lines().collect::<Vec<_>>()});
                        let p = dir.join(format!("violation_{}_{}.json", k, ep));
                        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                        violations.push(p);
                    } else {
                        let left = secs.saturating_sub(t0.elapsed().as_secs());
                        if left > 1 && aborts < 400 {
                            ws[k] = Some((spawn(a, &prop, &tier, seed, k as u64, ep / WORKERS + 1, left, &dir, run + 1), run + 1));
                        }
                    }
                }
            }
        }
    }
    // merge what the workers saw
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<String> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let (mut eps, mut steps, mut txs, mut qs, mut evals) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for f in std::fs::read_dir(&dir).unwrap().flatten() {
        let n = f.file_name().to_string_lossy().to_string();
        if !n.starts_with('w') || !n.ends_with(".json") {
            continue;
        }
        let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(f.path()).unwrap_or_default()) else { continue };
        eps += v["episodes"].as_u64().unwrap_or(0);
        steps += v["steps"].as_u64().unwrap_or(0);
        txs += v["transactions"].as_u64().unwrap_or(0);
        qs += v["queries"].as_u64().unwrap_or(0);
        evals += v["evals"].as_u64().unwrap_or(0);
        for (t, m) in [(&mut counts, &v["counts"]), (&mut others, &v["others"])] {
            for (k, x) in m.as_object().unwrap() {
                *t.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        for x in v["sigs"].as_array().unwrap() {
            sigs.insert(x.as_str().unwrap().to_string());
        }
        for x in v["known"].as_array().unwrap() {
            known_seen.insert(x.as_str().unwrap().to_string());
        }
        for x in v["samples"].as_array().unwrap() {
            if samples.len() < 16 {
                samples.push(x.clone());
            }
        }
    }
    let mut code = 0;
    if let Some(m) = &setup_err {
        if prop == "P20" {
            let p = dir.join("violation_setup.json");
            std::fs::write(&p, json!({"property": prop, "what": ["the standard configuration could not be set up", m]}).to_string()).unwrap();
            violations.push(p);
        } else {
            eprintln!("set-up of the world failed: {}", m);
            code = 2;
        }
    }
    let mut shown = vec![];
    for v in &violations {
        let w: Value = serde_json::from_str(&std::fs::read_to_string(v).unwrap_or_default()).unwrap_or_default();
        shown.push(json!({"replay": v, "what": w["what"]}));
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sigs.len(),
            "rule": episode::rule(&prop),
            "samples": samples,
            "episodes": eps, "steps": steps, "transactions": txs, "queries": qs,
            "observed": counts,
            "divergences_attributed_to_other_properties": others,
            "aborted_workers": aborts, "workers_stopped_at_the_time_limit": hung,
        },
        "assumptions": [
            "the MultiversX Rust VM stands for the chain: one transaction at a time, failed transactions roll back",
            "external price sources, router, accumulator and flash-loan receivers are programmable stand-ins",
        ],
        "violations": violations.len(), "violation_details": shown,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(out.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} episodes, {} transactions, {} evaluations, {} distinct, {:.1} s",
        prop, eps, txs, evals, sigs.len(), t0.elapsed().as_secs_f64()
    );
    for k in &known_seen {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    for v in violations.iter().take(3) {
        let w: Value = serde_json::from_str(&std::fs::read_to_string(v).unwrap_or_default()).unwrap_or_default();
        println!("  {}", w["what"].to_string().chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", prop, v.display());
        code = 1;
    }
    if code == 0 && evals == 0 {
        eprintln!("nothing was evaluated");
        code = 2;
    }
    let _ = std::io::stdout().flush();
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("worker") => worker(&a),
        Some("check") => std::process::exit(check(&a)),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = v["property"].as_str().unwrap().to_string();
            std::panic::set_hook(Box::new(|_| {}));
            let mut s = Session::new(&prop, v["seed"].as_u64().unwrap());
            s.episode(v["episode"].as_u64().unwrap());
            for l in &s.g.e.trace {
                println!("{}", l);
            }
            std::process::exit(if s.g.e.hit_violation() { 1 } else { 0 });
        }
        Some("try") => {
            let from: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let verbose = a.get(5).is_some();
            if !verbose {
                std::panic::set_hook(Box::new(|_| {}));
            }
            let mut s = Session::new(&a[2], 1);
            if let Ok(x) = std::env::var("SCEN") {
                s.pf.directed = 100;
                s.pf.scen = vec![Box::leak(x.into_boxed_str())];
            }
            let t = Instant::now();
            for ep in from..from + n {
                if let Ok(p) = std::env::var("RT_LOG") {
                    s.g.e.log = Some(std::fs::File::create(format!("{}.{}", p, ep)).unwrap());
                }
                let crashed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.episode(ep))).is_err();
                if crashed {
                    println!("!! HARNESS PANIC in episode {}", ep);
                    for l in s.g.e.trace.iter() {
                        println!("{}", l);
                    }
                }
                if !s.g.e.findings.is_empty() || verbose && n == 1 {
                    println!("--- episode {}: {} findings", ep, s.g.e.findings.len());
                    for l in s.g.e.trace.iter() {
                        if verbose || l.contains("!!") {
                            println!("{}", l);
                        }
                    }
                    s.g.e.findings.clear();
                }
            }
            println!("{} steps, {:?}", s.g.e.steps, t.elapsed());
            for (k, v) in &s.g.e.cov.n {
                println!("{:8} {}", v, k);
            }
        }
        // all properties in turn until something is found: one number per property, for surveys of planted changes
        Some("survey") => {
            let secs: u64 = a[2].parse().unwrap();
            let seed: u64 = a.get(3).map_or(1, |x| x.parse().unwrap());
            let ps: Vec<String> = match a.get(4) {
                Some(l) => l.split(',').map(|x| x.to_string()).collect(),
                None => (1..=25).map(|i| format!("P{:02}", i)).collect(),
            };
            std::panic::set_hook(Box::new(|_| {}));
            let kn = known("P01");
            let mut s = match std::panic::catch_unwind(|| Session::new("P01", seed)) {
                Ok(s) => s,
                Err(_) => {
                    println!("SETUP");
                    std::process::exit(1);
                }
            };
            let t = Instant::now();
            let mut ep = 0;
            while t.elapsed() < Duration::from_secs(secs) {
                let p = ps[ep as usize % ps.len()].clone();
                s.g.e.prop = p.clone();
                s.pf = episode::profile(&p);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.episode(1_000 + ep)));
                let l: Vec<_> = s.g.e.findings.iter().filter(|f| !kn.iter().any(|k| f.what.contains(k.as_str()))).collect();
                if let Some(f) = l.first() {
                    let own = l.iter().any(|f| f.props.contains(&p.as_str()));
                    println!("FOUND in {} (own {}) ep {} after {:.0}s: {:?} {}", p, own, ep, t.elapsed().as_secs_f64(), f.props, f.what);
                    std::process::exit(1);
                }
                if r.is_err() {
                    println!("HARNESS in {} ep {}", p, ep);
                    s = Session::new("P01", seed);
                }
                ep += 1;
            }
            println!("NOTHING in {} episodes", ep);
        }
        _ => {
            eprintln!("usage: rtmon check|replay|try ...");
            std::process::exit(2);
        }
    }
}
