//! Seeded search, minimisation, replay, evidence.

use crate::child::{self, Outcome, Report, Violation};
use crate::props::{all, Def};
use crate::rng::{hash_bytes, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read as _;
use std::time::{Duration, Instant};

pub fn def(id: &str) -> &'static Def {
    all().into_iter().find(|d| d.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
pub fn scenario(d: &Def, seed: u64, i: u64, thorough: bool) -> Value {
    let mut r = Rng::derive(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15), d.id);
    // sizes cycle: most runs are small, some are large
    let size = match i % 8 {
        0..=2 => 3,
        3..=5 => 6,
        6 => 10,
        _ => {
            if thorough {
                30
            } else {
                16
            }
        }
    };
    (d.gen)(&mut r, size)
}
pub fn exec(d: &Def, s: &Value) -> Report {
    let mut r = match child::run_forked(|| (d.exec)(s), d.cpu) {
        Outcome::Report(r) => *r,
        Outcome::Died(m) => Report {
            violation: Some(Violation { class: "died".into(), msg: m }),
            nontrivial: true,
            ..Report::default()
        },
    };
    if let Some(v) = &r.violation {
        if v.class == "invalid" {
            r.violation = Some(Violation { class: "invalid".into(), msg: v.msg.clone() });
        }
    }
    r
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Found {
    index: u64,
    class: String,
    msg: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Agg {
    runs: u64,
    sim_ns: u64,
    ops: u64,
    steps: u64,
    switches: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    states: BTreeSet<u64>,
    digest: u64,
    found: Vec<Found>,
    capped: bool,
}
impl Agg {
    fn add(&mut self, i: u64, r: &Report) {
        self.runs += 1;
        self.sim_ns += r.sim_ns;
        self.ops += r.ops;
        self.steps += r.sched_steps;
        self.switches += r.switches;
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        if r.nontrivial {
            self.hashes.insert(r.log_hash);
        }
        if self.states.len() < 2_000_000 {
            self.states.extend(&r.states);
        }
        // order independent, so the same for every number of workers
        let d = hash_bytes(format!("{i} {:x} {:?} {:?} {}", r.log_hash, r.states, r.violation, r.sched_steps).as_bytes());
        self.digest = self.digest.wrapping_add(d);
        if let Some(v) = &r.violation {
            if self.found.len() < 40 {
                self.found.push(Found { index: i, class: v.class.clone(), msg: v.msg.clone() });
            }
        }
    }
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.sim_ns += o.sim_ns;
        self.ops += o.ops;
        self.steps += o.steps;
        self.switches += o.switches;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.hashes.extend(o.hashes);
        self.states.extend(o.states);
        self.digest = self.digest.wrapping_add(o.digest);
        self.found.extend(o.found);
        self.found.sort_by_key(|f| f.index);
        self.capped |= o.capped;
    }
}

/// worker ID SEED THOROUGH START STRIDE RUNS CAP_S
pub fn worker(a: &[String]) {
    let d = def(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, th, start, stride, runs, cap) = (n(1), n(2) == 1, n(3), n(4), n(5), n(6));
    let t = Instant::now();
    let mut g = Agg::default();
    let mut i = start;
    let mut classes: BTreeMap<String, u32> = BTreeMap::new();
    while i < runs {
        if t.elapsed() > Duration::from_secs(cap) {
            g.capped = true;
            break;
        }
        let s = scenario(d, seed, i, th);
        let r = exec(d, &s);
        g.add(i, &r);
        if let Some(v) = &r.violation {
            let c = classes.entry(v.class.clone()).or_default();
            *c += 1;
            if *c >= 6 {
                break;
            }
        }
        i += stride;
    }
    println!("{AGG}{}", serde_json::to_string(&g).unwrap());
}
const AGG: &str = "\u{1}agg ";

fn fan_out(d: &Def, seed: u64, thorough: bool, runs: u64, cap: u64, workers: u64) -> Agg {
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..workers)
        .map(|w| {
            std::process::Command::new(&exe)
                .args(["worker", d.id])
                .args([seed, u64::from(thorough), w, workers, runs, cap].map(|x| x.to_string()))
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("worker")
        })
        .collect();
    let mut g = Agg::default();
    let hs: Vec<_> = kids
        .into_iter()
        .map(|mut k| {
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = k.stdout.take().unwrap().read_to_string(&mut s);
                let _ = k.wait();
                s
            })
        })
        .collect();
    for h in hs {
        let s = h.join().unwrap_or_default();
        // what the code under test may have printed comes before
        match serde_json::from_str::<Agg>(s.rfind(AGG).map_or("", |i| &s[i + AGG.len()..])) {
            Ok(a) => g.merge(a),
            Err(e) => {
                eprintln!("harness error: worker gave no result: {e}");
                std::process::exit(3);
            }
        }
    }
    g
}

// ------------------------------------------------------------------ known findings

pub struct Known {
    pub property: String,
    pub class: String,
    pub matches: String,
    pub what: String,
}
pub fn known() -> Vec<Known> {
    let p = root().join("known-findings.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        let Some(l) = l.strip_prefix("known: property=") else { continue };
        let mut f = l.splitn(4, " | ");
        let mut n = || f.next().unwrap_or("").trim().to_string();
        v.push(Known { property: n(), class: n(), matches: n(), what: n() });
    }
    v
}
fn is_known<'a>(k: &'a [Known], id: &str, class: &str, msg: &str) -> Option<&'a Known> {
    k.iter().find(|k| k.property == id && k.class == class && msg.contains(&k.matches))
}

// ------------------------------------------------------------------ minimisation

/// k-th random schedule in document order becomes the explicit one that was made
fn explicit(v: &mut Value, made: &mut std::collections::VecDeque<Vec<(u64, usize)>>) {
    match v {
        Value::Object(o) => {
            if o.len() == 1 && o.contains_key("Random") {
                if let Some(m) = made.pop_front() {
                    *v = json!({ "Explicit": m });
                }
                return;
            }
            for x in o.values_mut() {
                explicit(x, made);
            }
        }
        Value::Array(a) => {
            for x in a {
                explicit(x, made);
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::K(k) => v.get_mut(k)?,
            Step::I(i) => v.get_mut(i)?,
        };
    }
    Some(v)
}
#[derive(Clone, Debug)]
enum Step {
    K(String),
    I(usize),
}
fn walk(v: &Value, p: &mut Vec<Step>, f: &mut impl FnMut(&[Step], &Value)) {
    f(p, v);
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(Step::I(i));
                walk(x, p, f);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Step::K(k.clone()));
                walk(x, p, f);
                p.pop();
            }
        }
        _ => {}
    }
}
const ZERO: &[&str] = &["noise", "order", "enc", "lat_seed", "hash_seed", "at"];
const TEXT: &[&str] = &["data", "Raw", "text", "bytes"];

pub fn minimise(d: &Def, s: &Value, class: &str, made: Vec<Vec<(u64, usize)>>, budget: Duration) -> (Value, u64) {
    let t = Instant::now();
    let mut tries = 0u64;
    let mut best = s.clone();
    let ok = |c: &Value, tries: &mut u64| -> bool {
        *tries += 1;
        exec(d, c).violation.is_some_and(|v| v.class == class)
    };
    let mut c = best.clone();
    explicit(&mut c, &mut made.into());
    if c != best && ok(&c, &mut tries) {
        best = c;
    }
    let full = |t: &Instant| t.elapsed() > budget;
    loop {
        let before = best.to_string().len();
        // arrays, outermost first
        let mut paths = vec![];
        walk(&best, &mut vec![], &mut |p, v| {
            if v.as_array().is_some_and(|a| !a.is_empty()) {
                paths.push(p.to_vec());
            }
        });
        paths.sort_by_key(Vec::len);
        for p in paths {
            let Some(n) = at(&mut best, &p).and_then(|v| v.as_array().map(Vec::len)) else { continue };
            let mut chunk = n;
            while chunk > 0 && !full(&t) {
                let mut i = 0;
                loop {
                    let len = at(&mut best, &p).and_then(|v| v.as_array().map(Vec::len)).unwrap_or(0);
                    if i >= len || full(&t) {
                        break;
                    }
                    let mut c = best.clone();
                    if let Some(Value::Array(a)) = at(&mut c, &p) {
                        a.drain(i..(i + chunk).min(len));
                    }
                    if ok(&c, &mut tries) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // options, noise, long texts
        let mut leaves = vec![];
        walk(&best, &mut vec![], &mut |p, v| {
            if let Some(Step::K(k)) = p.last() {
                let zero = ZERO.contains(&k.as_str()) && v.is_u64() && v.as_u64() != Some(0);
                let text = TEXT.contains(&k.as_str()) && v.is_string();
                let null = !v.is_null() && !v.is_array() && !zero && !text && (v.is_string() || v.is_object());
                leaves.push((p.to_vec(), zero, text, null));
            } else if v.is_string() && v.as_str().is_some_and(|s| s.len() > 40) {
                leaves.push((p.to_vec(), false, true, false));
            }
        });
        for (p, zero, text, null) in leaves {
            if full(&t) {
                break;
            }
            if zero || null {
                let mut c = best.clone();
                let Some(x) = at(&mut c, &p) else { continue };
                *x = if zero { json!(0) } else { Value::Null };
                if ok(&c, &mut tries) {
                    best = c;
                }
            }
            if text {
                let Some(cur) = at(&mut best, &p).and_then(|v| v.as_str().map(String::from)) else { continue };
                let mut cur: Vec<String> = cur.split_inclusive('\n').map(String::from).collect();
                let mut chunk = cur.len();
                while chunk > 0 && !full(&t) {
                    let mut i = 0;
                    while i < cur.len() && !full(&t) {
                        let mut n = cur.clone();
                        n.drain(i..(i + chunk).min(cur.len()));
                        let mut c = best.clone();
                        if let Some(x) = at(&mut c, &p) {
                            *x = json!(n.concat());
                        }
                        if ok(&c, &mut tries) {
                            best = c;
                            cur = n;
                        } else {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }
        }
        if full(&t) || best.to_string().len() >= before {
            break;
        }
    }
    (best, tries)
}

// ------------------------------------------------------------------ commands

pub fn root() -> std::path::PathBuf {
    std::env::var_os("VPSIM_ROOT").map_or_else(|| "/verif".into(), Into::into)
}

pub fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2)
    });
    let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2)
    });
    let d = def(v["property"].as_str().unwrap_or(""));
    let r = exec(d, &v["scenario"]);
    for l in &r.log {
        println!("  {l}");
    }
    println!("steps {} switches {} trace {:016x} (recorded {})", r.sched_steps, r.switches, r.log_hash, v["trace"].as_str().unwrap_or("-"));
    match r.violation {
        Some(x) => {
            println!("reproduced: {}: {}", x.class, x.msg);
            if v["class"].as_str() == Some(&x.class) {
                1
            } else {
                3
            }
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

pub fn one(a: &[String]) {
    let d = def(&a[0]);
    let seed = a[1].parse().unwrap();
    let i = a[2].parse().unwrap();
    let s = scenario(d, seed, i, false);
    if a.get(3).is_some() {
        println!("{}", serde_json::to_string_pretty(&s).unwrap());
    }
    let r = exec(d, &s);
    for l in &r.log {
        println!("{l}");
    }
    println!("{:?}\nfired {:?} probes {:?} steps {} nontrivial {}\n{}", r.violation, r.fired, r.probes, r.sched_steps, r.nontrivial, r.note);
}

/// same seeds twice, and with another number of workers: identical traces
pub fn selftest(a: &[String]) -> i32 {
    let ids: Vec<&Def> = if a.is_empty() { all() } else { a.iter().map(|x| def(x)).collect() };
    let mut bad = 0;
    for d in ids {
        let t = Instant::now();
        let x = fan_out(d, 7, false, 120, 300, 8);
        let y = fan_out(d, 7, false, 120, 300, 3);
        let same = x.digest == y.digest && x.runs == y.runs;
        println!("{} {} runs digest {:016x} {:016x} {} {:.1}s", d.id, x.runs, x.digest, y.digest, if same { "identical" } else { "DIFFERENT" }, t.elapsed().as_secs_f64());
        if !same {
            bad += 1;
        }
    }
    i32::from(bad > 0)
}

pub fn check(id: &str, thorough: bool, seed: u64) -> i32 {
    let d = def(id);
    let t = Instant::now();
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8) as u64;
    let (runs, cap) = if thorough { (d.runs * 12, 600) } else { (d.runs, 150) };
    let g = fan_out(d, seed, thorough, runs, cap, workers);
    let wall = t.elapsed().as_secs_f64();
    let known = known();
    let mut known_seen = BTreeSet::new();
    let mut violation = None;
    for f in &g.found {
        if f.class == "harness" || f.class == "invalid" {
            eprintln!("harness error in run {}: {}: {}", f.index, f.class, f.msg);
            return 3;
        }
        match is_known(&known, id, &f.class, &f.msg) {
            Some(k) => {
                known_seen.insert(k.what.clone());
            }
            None => {
                if violation.is_none() {
                    violation = Some(f.clone());
                }
            }
        }
    }
    for w in &known_seen {
        println!("KNOWN-FINDING: property={id} {w}");
    }
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(f) = &violation {
        let s = scenario(d, seed, f.index, thorough);
        let r = exec(d, &s);
        let class = r.violation.as_ref().map_or(String::new(), |v| v.class.clone());
        if class != f.class {
            eprintln!("harness error: run {} did not repeat: {} then {class}", f.index, f.class);
            return 3;
        }
        let (min, tries) = minimise(d, &s, &class, r.made, Duration::from_secs(if thorough { 120 } else { 40 }));
        let r = exec(d, &min);
        let (class, msg) = r.violation.map_or((f.class.clone(), f.msg.clone()), |v| (v.class, v.msg));
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{id}-{seed}-{}.json", f.index));
        let doc = json!({"property": id, "seed": seed, "index": f.index, "tier": if thorough {"thorough"} else {"quick"},
            "class": class, "msg": msg, "trace": format!("{:016x}", r.log_hash), "minimisation_runs": tries,
            "trace_log": r.log, "scenario": min});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap());
        replay_path = p.display().to_string();
        println!("{id}: {class}: {msg}");
        println!("seed {seed} run {} minimised in {tries} runs; replay with: target/debug/vpsim replay {replay_path}", f.index);
        println!("VIOLATION property={id} replay={replay_path}");
        code = 1;
    }
    let hours = wall / 3600.0;
    let sample_ids: Vec<u64> = [0u64, 7].into_iter().filter(|i| *i < g.runs).collect();
    let samples: Vec<Value> = sample_ids
        .iter()
        .map(|i| {
            let s = scenario(d, seed, *i, thorough);
            let r = exec(d, &s);
            let mut txt = (d.sketch)(&s);
            if txt.to_string().len() > 6000 {
                txt = json!(txt.to_string().chars().take(6000).collect::<String>());
            }
            json!({"run": i, "scenario": txt, "trace_head": r.log.iter().take(12).collect::<Vec<_>>(), "trace_hash": format!("{:016x}", r.log_hash)})
        })
        .collect();
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": g.runs,
            "distinct_nontrivial": g.hashes.len(),
            "rule": d.rule,
            "samples": samples,
            "requested_runs": runs,
            "stopped_by_time_cap": g.capped,
            "runs_and_seeds_per_hour": (g.runs as f64 / hours).round(),
            "simulated_time_s": g.sim_ns as f64 / 1e9,
            "simulated_system_calls": g.ops,
            "scheduler_yield_points": g.steps,
            "thread_switches": g.switches,
            "faults_injected": g.fired,
            "probes": g.probes,
            "distinct_interleavings_or_states": g.states.len(),
            "state_measure": d.measure,
            "real_components": d.real,
            "stubbed_components": d.stub,
            "trace_digest": format!("{:016x}", g.digest),
            "workers": workers,
            "known_findings_seen": known_seen,
        },
        "wall_s": wall,
        "violations": u64::from(code == 1),
        "replay": replay_path,
        "assumptions": d.assumptions,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{id}: {} runs, {} distinct non-trivial, {} states, {} faults/events, {:.1} s",
        g.runs,
        g.hashes.len(),
        g.states.len(),
        g.fired.values().sum::<u64>(),
        wall
    );
    code
}
