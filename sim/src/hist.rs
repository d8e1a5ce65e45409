//! Histories: what the simulated installation goes through (updates of the pack,
//! loads by concurrent readers under faults, crashes), and what each load saw.

use crate::child::{Report, Violation};
use crate::interpose;
use crate::os::{Bytes, Event, Fault, FaultKind, FsAction, OpenRec, Os};
use crate::rng::{hash_bytes, Rng};
use crate::sched::{self, Policy};
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Api {
    /// Adaptation::from_adaptation_toml
    Toml,
    /// Prf::parse + Adaptation::from_prf
    Prf,
    /// Prf::parse + Adaptation::from_prf_with_overlays
    Overlays,
}
impl Default for Api {
    fn default() -> Self {
        Api::Prf
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RFault {
    pub role: Role,
    pub nth: Option<u32>,
    pub kind: FaultKind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RAct {
    /// atomic replacement of one file by its content in that version
    Replace(Role, usize),
    Remove(Role),
    /// in-place, so a concurrent reader can see a mixture
    Truncate(Role, usize),
    WriteAt(Role, usize, Bytes),
    Raw(Role, Bytes),
    Chdir(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct REvent {
    pub at: u64,
    pub act: RAct,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// the pack updater installs a version
    Install(usize),
    /// one file only
    Apply(RAct),
    Load { loaders: Vec<Api>, faults: Vec<RFault>, events: Vec<REvent>, policy: Policy },
    /// power loss and restart
    Crash(u64),
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Scenario {
    pub hash_seed: u64,
    pub lat_seed: u64,
    pub layout: Layout,
    pub packs: Vec<Pack>,
    pub ops: Vec<Op>,
}

/// what one loader got, and from which bytes
pub struct Loaded {
    pub op: usize,
    pub loader: usize,
    pub api: Api,
    pub res: Result<Box<Adaptation>, (String, String)>,
    pub opens: Vec<OpenRec>,
    /// mixed pack candidates: every combination of versions the reads allow.
    /// empty: some file was read with content of no version
    pub views: Vec<Pack>,
    pub hard: bool,
    pub faulted: bool,
    /// roles that could not be read
    pub unreadable: Vec<Role>,
    /// roles whose file was absent at some instant, and all the time
    pub gone: Vec<Role>,
    pub never: Vec<Role>,
}

pub fn transient(k: &FaultKind) -> bool {
    matches!(
        k,
        FaultKind::OpenEintr(_)
            | FaultKind::ReadEintr { .. }
            | FaultKind::Short { .. }
            | FaultKind::FstatErr(_)
            | FaultKind::SizeLie(_)
            | FaultKind::ShortWrite { .. }
            | FaultKind::WriteEintr { .. }
    )
}

pub struct Sim<'a> {
    pub s: &'a Scenario,
    pub paths: BTreeMap<Role, String>,
    pub report: Report,
    pub op: usize,
    pub loads_ok: u64,
    pub loads_err: u64,
    /// content of the file system per role, as an abstract version (None: absent / raw)
    pub installed: BTreeMap<Role, Option<usize>>,
    rendered: BTreeMap<(Role, usize), Option<Vec<u8>>>,
}

pub fn variant(e: &impl std::fmt::Debug) -> String {
    let d = format!("{e:?}");
    d.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect()
}

pub fn load(api: Api, l: &Layout) -> Result<Box<Adaptation>, (String, String)> {
    let err = |e: vatsim_parser::adaptation::AdaptationError| (variant(&e), e.to_string());
    if api == Api::Toml {
        let p = l.toml_path();
        return Adaptation::from_adaptation_toml(&Path::new(&p)).map(Box::new).map_err(err);
    }
    let p = l.prf_link.clone().unwrap_or_else(|| l.prf_path());
    let bytes = std::fs::read(&p).map_err(|e| ("Io".to_string(), e.to_string()))?;
    let prf = Prf::parse(Path::new(&p), &bytes).map_err(|e| ("Prf".to_string(), e.to_string()))?;
    match api {
        Api::Overlays => {
            let path = |o: &String| {
                let p = join(&l.toml_dir, o);
                if l.rel_overlays {
                    relative(&l.cwd, &p)
                } else {
                    p
                }
            };
            let o: Vec<String> = l.sequence().iter().filter_map(|i| l.overlays.get(*i)).map(path).collect();
            Adaptation::from_prf_with_overlays(&prf, o.iter())
        }
        _ => Adaptation::from_prf(&prf),
    }
    .map(Box::new)
    .map_err(err)
}

impl<'a> Sim<'a> {
    pub fn new(s: &'a Scenario) -> Self {
        // clients whose threads live on between the operations, or new ones each time
        sched::set_reuse(s.hash_seed & 1 == 0);
        let mut os = Os::new(s.hash_seed, s.lat_seed);
        os.mkdirs(&canon(&s.layout.cwd));
        os.cwd = canon(&s.layout.cwd);
        let paths: BTreeMap<Role, String> = s.layout.roles().into_iter().map(|(r, p)| (r, canon(&p))).collect();
        for (role, p) in s.layout.roles() {
            // every directory a spelling walks through exists
            let mut cur = String::new();
            for c in p.rsplit_once('/').map_or("", |x| x.0).split('/') {
                cur.push_str(c);
                cur.push('/');
                os.mkdirs(&canon(&cur));
            }
            if matches!(role, Role::Prf | Role::Toml) {
                if let Some(b) = Pack::default().bytes(&s.layout, role) {
                    os.put(&canon(&p), &b);
                }
            }
        }
        if let Some(l) = &s.layout.prf_link {
            os.symlink(l, &s.layout.prf_path());
        }
        // the plugin files themselves exist
        for v in [&s.layout.squawks, &s.layout.topsky].into_iter().flatten() {
            os.put(&canon(&s.layout.resolve(v)), b"MZ");
        }
        for (_, v) in &s.layout.recent {
            os.put(&canon(&s.layout.resolve(v)), b"SHOWC:0\n");
        }
        interpose::install(os);
        Sim {
            s,
            paths,
            report: Report::default(),
            op: 0,
            loads_ok: 0,
            loads_err: 0,
            installed: BTreeMap::new(),
            rendered: BTreeMap::new(),
        }
    }
    pub fn bytes(&mut self, role: Role, v: usize) -> Option<Vec<u8>> {
        let v = v % self.s.packs.len().max(1);
        let (s, l) = (self.s, &self.s.layout);
        self.rendered
            .entry((role, v))
            .or_insert_with(|| s.packs.get(v).and_then(|p| p.bytes(l, role)))
            .clone()
    }
    fn actions(&mut self, a: &RAct) -> Vec<FsAction> {
        let p = |s: &Self, r: &Role| s.paths.get(r).cloned();
        match a {
            RAct::Replace(r, v) => {
                let Some(path) = p(self, r) else { return vec![] };
                match self.bytes(*r, *v) {
                    Some(b) => vec![FsAction::Replace { path, data: Bytes(b) }],
                    None => vec![FsAction::Remove { path }],
                }
            }
            RAct::Remove(r) => p(self, r).map(|path| FsAction::Remove { path }).into_iter().collect(),
            RAct::Truncate(r, n) => p(self, r).map(|path| FsAction::Truncate { path, len: *n }).into_iter().collect(),
            RAct::WriteAt(r, o, d) => p(self, r)
                .map(|path| FsAction::WriteAt { path, off: *o, data: d.clone() })
                .into_iter()
                .collect(),
            RAct::Raw(r, d) => p(self, r).map(|path| FsAction::Replace { path, data: d.clone() }).into_iter().collect(),
            RAct::Chdir(d) => vec![FsAction::Chdir { path: d.clone() }],
        }
    }
    fn track(&mut self, a: &RAct) {
        let n = self.s.packs.len().max(1);
        match a {
            RAct::Replace(r, v) => {
                self.installed.insert(*r, Some(*v % n));
            }
            RAct::Remove(r) | RAct::Truncate(r, _) | RAct::WriteAt(r, _, _) | RAct::Raw(r, _) => {
                self.installed.insert(*r, None);
            }
            RAct::Chdir(_) => {}
        }
    }
    pub fn roles(&self) -> Vec<Role> {
        self.paths.keys().copied().filter(|r| !matches!(r, Role::Prf | Role::Toml)).collect()
    }
    pub fn install(&mut self, v: usize) {
        for r in self.roles() {
            let a = RAct::Replace(r, v);
            for x in self.actions(&a) {
                interpose::with(|o| match &x {
                    FsAction::Replace { path, data } => o.put(path, &data.0),
                    FsAction::Remove { path } => o.remove(path),
                    _ => {}
                });
            }
            self.track(&a);
        }
        interpose::with(|o| o.note(format!("install version {v}")));
    }
    pub fn apply(&mut self, a: &RAct) {
        for x in self.actions(a) {
            interpose::with(|o| o.apply(&x));
        }
        self.track(a);
    }
    /// run the loaders concurrently; every result with the versions it was built from
    pub fn load(&mut self, loaders: &[Api], faults: &[RFault], events: &[REvent], policy: &Policy) -> Vec<Loaded> {
        let fs: Vec<Fault> = faults
            .iter()
            .filter_map(|f| {
                Some(Fault { path: self.paths.get(&f.role)?.clone(), nth: f.nth, kind: f.kind.clone() })
            })
            .collect();
        let evs: Vec<Event> = events
            .iter()
            .flat_map(|e| self.actions(&e.act).into_iter().map(|act| Event { at: e.at, act }))
            .collect();
        let (first, asked) = interpose::with(|o| {
            o.arm(&fs, &evs);
            o.listed.clear();
            (o.opens.len(), o.denied.len())
        });
        let absent = |s: &Self| -> Vec<Role> { s.paths.iter().filter(|(_, p)| interpose::with(|o| !matches!(o.resolve(p, true), Ok((_, Some(_)))))).map(|(r, _)| *r).collect() };
        let mut gone = absent(self);
        let mut never = gone.clone();
        let log0 = interpose::with(|o| o.log.len());
        let slots: Vec<std::sync::Mutex<Option<Result<Box<Adaptation>, (String, String)>>>> =
            loaders.iter().map(|_| std::sync::Mutex::new(None)).collect();
        let l = &self.s.layout;
        crate::child::set_op(&format!("op {} load", self.op));
        let tasks: Vec<Box<dyn FnOnce() + Send>> = loaders
            .iter()
            .zip(&slots)
            .map(|(api, slot)| {
                let api = *api;
                let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                    let r = load(api, l);
                    *slot.lock().unwrap() = Some(r);
                });
                f
            })
            .collect();
        let st = sched::run(policy, tasks);
        self.report.sched_steps += st.steps;
        self.report.switches += st.switches;
        self.report.made.push(st.made);
        for e in events {
            self.track(&e.act);
        }
        let (opens, mut denied, delta) = interpose::with(|o| {
            o.drain_events();
            o.arm(&[], &[]);
            (o.opens[first..].to_vec(), o.denied[asked..].to_vec(), o.log[log0.min(o.log.len())..].join("\n"))
        });
        // a listing without the name says so too
        for (dir, names, task) in interpose::with(|o| o.listed.clone()) {
            for p in self.paths.values() {
                if p.rsplit_once('/').is_some_and(|(d, n)| d == dir && !names.iter().any(|x| x == n)) {
                    denied.push((p.clone(), task));
                }
            }
        }
        let after = absent(self);
        for e in events {
            match e.act {
                RAct::Remove(r) => gone.push(r),
                RAct::Replace(r, _) | RAct::Raw(r, _) => never.retain(|x| *x != r),
                _ => {}
            }
        }
        gone.extend(&after);
        never.retain(|r| after.contains(r));
        self.report.states.push(hash_bytes(delta.as_bytes()));
        let hard = faults.iter().any(|f| !transient(&f.kind));
        let mut out = vec![];
        for (i, (api, slot)) in loaders.iter().zip(slots).enumerate() {
            let res = slot.into_inner().unwrap().unwrap_or_else(|| Err(("Lost".into(), "no result".into())));
            let mine: Vec<OpenRec> = opens.iter().filter(|o| (o.task == i || loaders.len() == 1) && !o.write).cloned().collect();
            let denied: Vec<&str> = denied.iter().filter(|d| d.1 == i || loaders.len() == 1).map(|d| &d.0[..]).collect();
            let (views, unreadable) = self.views(&mine, &denied);
            match &res {
                Ok(_) => self.loads_ok += 1,
                Err(e) => {
                    self.loads_err += 1;
                    interpose::with(|o| o.note(format!("load {i}: {} {}", e.0, e.1)));
                }
            }
            out.push(Loaded { op: self.op, loader: i, api: *api, res, opens: mine, views, hard, faulted: !faults.is_empty(), unreadable, gone: gone.clone(), never: never.clone() });
        }
        out
    }
    fn views(&mut self, opens: &[OpenRec], denied: &[&str]) -> (Vec<Pack>, Vec<Role>) {
        let n = self.s.packs.len();
        // start from what the disk holds now (for files never opened)
        let mut base = self.s.packs.first().cloned().unwrap_or_default();
        let mut unreadable = vec![];
        let mut dead_topsky = false;
        let mut choices: Vec<(Role, Vec<Option<usize>>)> = vec![];
        for r in self.roles() {
            let path = self.paths[&r].clone();
            let mut c: Vec<Option<usize>> = vec![];
            for o in opens.iter().filter(|o| o.path == path) {
                if !o.ok || o.read_errno != 0 {
                    unreadable.push(r);
                    if !c.contains(&None) {
                        c.push(None);
                    }
                    continue;
                }
                let mut hits: Vec<usize> = (0..n).filter(|v| self.bytes(r, *v).as_deref() == Some(&o.delivered[..])).collect();
                if hits.is_empty() && !o.eof && !o.delivered.is_empty() {
                    // not read to its end: no excuse
                    hits = (0..n).filter(|v| self.bytes(r, *v).is_some_and(|b| b.starts_with(&o.delivered))).collect();
                }
                if hits.is_empty() {
                    if crate::damage::broken(r).iter().any(|b| *b == &o.delivered[..]) {
                        if r == Role::TsSymbols {
                            // a symbol file that cannot be understood switches TopSky off
                            dead_topsky = true;
                        }
                        unreadable.push(r);
                        c.push(None);
                        continue;
                    }
                    if o.delivered.is_empty() && !o.eof {
                        continue; // opened, never read
                    }
                    return (vec![], unreadable);
                }
                // equal bytes may stand for different models (equal meaning): first one
                let v = match self.installed.get(&r) {
                    Some(Some(i)) if hits.contains(i) => *i,
                    _ => hits[0],
                };
                if !c.contains(&Some(v)) {
                    c.push(Some(v));
                }
            }
            if denied.contains(&&path[..]) {
                // a loader that asks first and is told that an optional file is not there
                unreadable.push(r);
                if matches!(r, Role::Squawks | Role::TsSettings | Role::TsSymbols | Role::TsMaps) && !c.contains(&None) {
                    c.push(None);
                }
            }
            if c.is_empty() {
                c.push(self.installed.get(&r).copied().flatten());
            }
            choices.push((r, c));
        }
        let mut views = vec![];
        let total: usize = choices.iter().map(|c| c.1.len()).product();
        for k in 0..total.min(16) {
            let mut k = k;
            for (r, c) in &choices {
                let pick = c[k % c.len()];
                k /= c.len();
                match pick {
                    Some(v) => base.adopt(*r, &self.s.packs[v]),
                    None => match r {
                        Role::Squawks => base.squawks = None,
                        Role::TsSettings => base.ts_settings = None,
                        Role::TsSymbols => base.ts_symbols = None,
                        Role::TsMaps => base.ts_maps = None,
                        _ => {}
                    },
                }
            }
            if dead_topsky {
                base.ts_settings = None;
            }
            views.push(base.clone());
        }
        (views, unreadable)
    }
    /// concurrent tasks of a client (queries, saves, ...) under the seeded scheduler
    pub fn tasks<'t>(&mut self, policy: &Policy, fs: Vec<Box<dyn FnOnce() + Send + 't>>) {
        let st = sched::run(policy, fs);
        self.report.sched_steps += st.steps;
        self.report.switches += st.switches;
        self.report.made.push(st.made);
    }
    pub fn crash(&mut self, seed: u64) {
        sched::restart();
        interpose::with(|o| {
            o.crash(&mut Rng::new(seed));
            o.reseed_entropy(seed);
        });
    }
    pub fn probe(&mut self, k: &str) {
        *self.report.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, s: String) {
        interpose::with(|o| o.note(s));
    }
    pub fn fail(&mut self, class: &str, msg: String) {
        if self.report.violation.is_none() {
            self.report.violation = Some(Violation { class: class.into(), msg: format!("op {}: {msg}", self.op) });
        }
    }
    pub fn finish(mut self) -> Report {
        interpose::with(|o| {
            self.report.log_hash = o.log_hash.0;
            self.report.sim_ns = o.now_ns;
            self.report.ops = o.ops;
            self.report.fired = o.fired.clone();
            self.report.log = o.log.clone();
        });
        let fired: u64 = self.report.fired.values().sum();
        self.report.nontrivial = self.loads_ok > 0 && (fired > 0 || self.report.switches > 0);
        self.report
    }
    /// drive the whole history; `check` judges every finished load
    pub fn drive(mut self, mut check: impl FnMut(&mut Sim, Loaded)) -> Report {
        let s = self.s;
        self.install(0);
        for (i, op) in s.ops.iter().enumerate() {
            self.op = i;
            match op {
                Op::Install(v) => self.install(*v),
                Op::Apply(a) => self.apply(a),
                Op::Crash(seed) => self.crash(*seed),
                Op::Load { loaders, faults, events, policy } => {
                    for l in self.load(loaders, faults, events, policy) {
                        check(&mut self, l);
                        if self.report.violation.is_some() {
                            return self.finish();
                        }
                    }
                }
            }
        }
        self.finish()
    }
}

// ------------------------------------------------------------------ generation

pub fn gen_transient(r: &mut Rng, roles: &[Role]) -> Vec<RFault> {
    let n = r.range(1, 4) as usize;
    (0..n)
        .map(|_| RFault {
            role: *r.pick(roles),
            nth: None,
            kind: match r.idx(6) {
                0 => FaultKind::OpenEintr(r.range(1, 3) as u32),
                1 => FaultKind::ReadEintr { every: r.range(1, 3) as u32 },
                2 | 3 => FaultKind::Short { max: *r.pick(&[1usize, 3, 7, 17, 64, 333]) },
                4 => FaultKind::FstatErr(*r.pick(&[5, 116])),
                _ => FaultKind::SizeLie(*r.pick(&[0u64, 1, 100, 5_000])),
            },
        })
        .collect()
}
pub fn gen_hard(r: &mut Rng, roles: &[Role]) -> Vec<RFault> {
    let n = 1 + usize::from(r.chance(0.25));
    (0..n)
        .map(|_| RFault {
            role: *r.pick(roles),
            nth: None,
            kind: match r.idx(3) {
                0 => FaultKind::OpenErr(*r.pick(&[2, 5, 13, 24, 40, 116])),
                1 => FaultKind::ReadErr { at: r.idx(400), errno: *r.pick(&[5, 116]) },
                _ => FaultKind::ReadErr { at: 0, errno: 21 },
            },
        })
        .collect()
}
pub fn gen_policy(r: &mut Rng) -> Policy {
    Policy::Random { seed: r.u64(), gap: *r.pick(&[40u32, 200, 1000, 5000]) }
}
pub fn gen_events(r: &mut Rng, roles: &[Role], versions: usize) -> Vec<REvent> {
    let n = r.range(1, 6) as usize;
    (0..n)
        .map(|_| REvent { at: r.below(90), act: RAct::Replace(*r.pick(roles), r.idx(versions)) })
        .collect()
}
#[derive(Clone, Copy, PartialEq)]
pub struct Flavour {
    pub toml: bool,
    pub hard: bool,
    pub crash: bool,
}
/// a typical installation history: updates, loads (some faulted, some concurrent, some
/// racing an update), failures followed by retries, restarts
pub fn gen_history(r: &mut Rng, s: &mut Scenario, f: Flavour) {
    let roles: Vec<Role> = s.layout.roles().iter().map(|x| x.0).filter(|r| !matches!(r, Role::Prf | Role::Toml)).collect();
    let v = s.packs.len();
    let n = r.range(1, 4);
    for _ in 0..n {
        if v > 1 && r.chance(0.5) {
            s.ops.push(Op::Install(r.idx(v)));
        }
        if f.crash && r.chance(0.2) {
            s.ops.push(Op::Crash(r.u64()));
        }
        let k = if r.chance(0.3) { r.range(2, 3) as usize } else { 1 };
        let loaders = (0..k)
            .map(|_| if f.toml && r.chance(0.4) { if s.layout.overlays.is_empty() || r.chance(0.5) { Api::Toml } else { Api::Overlays } } else { Api::Prf })
            .collect();
        let what = r.idx(10);
        let faults = match what {
            0..=4 => gen_transient(r, &roles),
            5 | 6 if f.hard => gen_hard(r, &roles),
            _ => vec![],
        };
        let events = if v > 1 && r.chance(0.35) { gen_events(r, &roles, v) } else { vec![] };
        s.ops.push(Op::Load { loaders, faults, events, policy: gen_policy(r) });
        if matches!(what, 5 | 6) && f.hard {
            // faults stop: the next load must be complete again
            s.ops.push(Op::Load { loaders: vec![Api::Prf], faults: vec![], events: vec![], policy: gen_policy(r) });
        }
    }
}
