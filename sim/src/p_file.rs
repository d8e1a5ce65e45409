//! Files of their own: .asr displays, isec.txt, exported sector files, saved
//! adaptations, written and read through a faulty file system by a client that may
//! die at any point.

use crate::child::Report;
use crate::content::diff;
use crate::hist::{gen_policy, transient};
use crate::interpose;
use crate::os::{Bytes, Fault, FaultKind, FsAction, Os};
use crate::pack::{gen_dms, gen_ll, gen_sct, gen_text, Dms, Ll, Noise, Sct as SctModel};
use crate::props::*;
use crate::rng::{hash_bytes, Rng};
use crate::sched::{self, Policy};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::io::Write;
use std::sync::Mutex;
use vatsim_parser::asr::Asr;
use vatsim_parser::isec::{parse_isec_txt, IsecMap};
use vatsim_parser::sct::Sct;
use vatsim_parser::Location;

// ------------------------------------------------------------------ one file, its writers and readers

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    /// write a version; `stop`: the client dies after that stage (0 while writing,
    /// 1 written, 2 synced, 3 renamed, 4 directory synced), `power`: and so does the machine
    Save { version: usize, atomic: bool, chunk: usize, faults: Vec<FaultKind>, stop: Option<u8>, power: Option<u64> },
    /// the operator replaces the file by the original text of a version
    Put(usize),
    Read { readers: usize, faults: Vec<FaultKind>, events: Vec<(u64, usize)>, policy: Policy },
    Crash(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase<D> {
    pub hash_seed: u64,
    pub lat_seed: u64,
    pub docs: Vec<D>,
    pub ops: Vec<FOp>,
}
pub const PATH: &str = "/data/saved/file";
const TMP: &str = "/data/saved/file.tmp";

pub fn gen_fops(r: &mut Rng, versions: usize, writes: bool) -> Vec<FOp> {
    let mut ops = vec![];
    for _ in 0..r.range(2, 7) {
        let version = r.idx(versions);
        if writes && r.chance(0.65) {
            let mut faults = vec![];
            if r.chance(0.6) {
                faults.push(match r.idx(5) {
                    0 => FaultKind::ShortWrite { max: *r.pick(&[1usize, 5, 64, 1000]) },
                    1 => FaultKind::WriteEintr { every: r.range(2, 4) as u32 },
                    2 => FaultKind::WriteErr { at: r.idx(3000), errno: *r.pick(&[28, 5, 122]) },
                    3 => FaultKind::FsyncErr(5),
                    _ => FaultKind::OpenErr(*r.pick(&[28, 13, 30])),
                });
            }
            let stop = if r.chance(0.4) { Some(r.range(0, 4) as u8) } else { None };
            let power = if stop.is_some() || r.chance(0.3) { Some(r.u64()) } else { None };
            ops.push(FOp::Save { version, atomic: r.chance(0.75), chunk: *r.pick(&[1usize, 16, 100, 4096, 1 << 20]), faults, stop, power });
        } else if r.chance(0.6) {
            ops.push(FOp::Put(version));
        } else {
            ops.push(FOp::Crash(r.u64()));
        }
        let readers = if r.chance(0.3) { 2 } else { 1 };
        let faults = match r.idx(6) {
            0 => vec![FaultKind::Short { max: *r.pick(&[1usize, 2, 3, 50]) }],
            1 => vec![FaultKind::ReadEintr { every: 2 }, FaultKind::Short { max: 7 }],
            2 => vec![FaultKind::SizeLie(*r.pick(&[0u64, 1, 10_000]))],
            3 => vec![FaultKind::ReadErr { at: r.idx(600), errno: 5 }],
            _ => vec![],
        };
        let events = if r.chance(0.3) { (0..r.range(1, 3)).map(|_| (r.below(12), r.idx(versions))).collect() } else { vec![] };
        ops.push(FOp::Read { readers, faults, events, policy: gen_policy(r) });
    }
    ops
}

/// what is allowed to be at PATH
#[derive(Clone, Debug, PartialEq)]
enum At {
    Absent,
    /// original text / saved text of a version
    Text(usize),
    Saved(usize),
    Torn,
}
/// How a document is rendered, saved, read back and judged.
pub trait Doc {
    type Got: Send;
    fn text(&self, v: usize) -> Vec<u8>;
    /// None: this document is only read
    fn save(&self, v: usize, w: &mut dyn Write) -> Option<std::io::Result<()>>;
    fn read(bytes: &[u8]) -> Result<Self::Got, String>;
    /// does this outcome mean version v, from its original text or as saved?
    fn judge(&self, v: usize, saved: bool, got: &Self::Got) -> Option<String>;
    /// is version v one that must be rejected as a whole?
    fn invalid(&self, _v: usize) -> bool {
        false
    }
    /// a torn file was read: what may not come out
    fn judge_torn(&self, _got: &Self::Got) -> Option<String> {
        None
    }
}

struct Chunked<'a> {
    f: &'a mut std::fs::File,
    buf: Vec<u8>,
    chunk: usize,
}
impl Write for Chunked<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.buf.extend_from_slice(b);
        if self.buf.len() >= self.chunk {
            self.flush()?;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.f.write_all(&std::mem::take(&mut self.buf))
    }
}

pub fn drive<D: Doc + Sync>(hash_seed: u64, lat_seed: u64, ops: &[FOp], docs: usize, d: &D) -> Report {
    let mut rep = Report::default();
    let mut os = Os::new(hash_seed, lat_seed);
    os.mkdirs("/data/saved");
    interpose::install(os);
    let mut live = At::Absent;
    let mut durable = vec![At::Absent];
    // nothing was written since the last power loss: what is there is durable
    let mut restarted = false;
    let (mut saved_ok, mut ok) = (0u64, 0u64);
    let mut fail = None::<(String, String)>;
    'ops: for (i, op) in ops.iter().enumerate() {
        match op {
            FOp::Put(v) => {
                let b = d.text(v % docs);
                interpose::with(|o| o.put(PATH, &b));
                live = At::Text(v % docs);
                durable = vec![live.clone()];
            }
            FOp::Crash(seed) => {
                sched::restart();
                interpose::with(|o| {
                    o.crash(&mut Rng::new(*seed));
                    o.reseed_entropy(*seed);
                });
                restarted = true;
                live = At::Torn; // learnt by reading, out of `durable`
            }
            // no program holds the data of a file that cannot be read
            FOp::Save { version, .. } if d.invalid(version % docs) => {}
            FOp::Save { version, atomic, chunk, faults, stop, power } => {
                let v = version % docs;
                let target = if *atomic { TMP } else { PATH };
                let fs: Vec<Fault> = faults.iter().map(|k| Fault { path: target.into(), nth: None, kind: k.clone() }).collect();
                interpose::with(|o| o.arm(&fs, &[]));
                crate::child::set_op(&format!("op {i} save"));
                let stage = std::cell::Cell::new(0u8);
                restarted = false;
                let mut skipped = false;
                let mut opened = false;
                let res = (|| -> std::io::Result<()> {
                    let mut f = std::fs::File::create(target)?;
                    opened = true;
                    if *stop == Some(0) {
                        let mut all = vec![];
                        match d.save(v, &mut all) {
                            None => skipped = true,
                            Some(r) => r?,
                        }
                        let k = (*power).map_or(0, |p| (p % (all.len() as u64 + 1)) as usize);
                        f.write_all(&all[..k])?;
                        return Err(std::io::Error::other("died"));
                    }
                    {
                        let mut w = Chunked { f: &mut f, buf: vec![], chunk: *chunk };
                        match d.save(v, &mut w) {
                            None => skipped = true,
                            Some(r) => r?,
                        }
                        w.flush()?;
                    }
                    stage.set(1);
                    if *stop == Some(1) {
                        return Err(std::io::Error::other("died"));
                    }
                    f.sync_all()?;
                    stage.set(2);
                    if *stop == Some(2) {
                        return Err(std::io::Error::other("died"));
                    }
                    drop(f);
                    if *atomic {
                        std::fs::rename(TMP, PATH)?;
                    }
                    stage.set(3);
                    if *stop == Some(3) {
                        return Err(std::io::Error::other("died"));
                    }
                    std::fs::File::open("/data/saved")?.sync_all()?;
                    stage.set(4);
                    Ok(())
                })();
                interpose::with(|o| o.arm(&[], &[]));
                if skipped {
                    fail = Some(("harness".into(), format!("op {i}: document cannot be saved")));
                    break 'ops;
                }
                let hard = faults.iter().any(|k| !transient(k));
                if let Err(e) = &res {
                    if !hard && stop.is_none() {
                        fail = Some(("save-error".into(), format!("op {i}: saving version {v} failed without a reason: {e}")));
                        break 'ops;
                    }
                }
                let st = stage.get();
                if *atomic {
                    if st >= 3 {
                        live = At::Saved(v);
                        durable.push(live.clone());
                    }
                } else if opened {
                    live = if st >= 1 { At::Saved(v) } else { At::Torn };
                    durable.push(At::Torn);
                    durable.push(At::Saved(v));
                }
                if st == 4 {
                    durable = vec![live.clone()];
                }
                if res.is_ok() {
                    saved_ok += 1;
                }
                if let Some(p) = power {
                    sched::restart();
                    interpose::with(|o| {
                        o.crash(&mut Rng::new(*p));
                        o.reseed_entropy(*p);
                    });
                    live = At::Torn;
                    restarted = true;
                }
            }
            FOp::Read { readers, faults, events, policy } => {
                let fs: Vec<Fault> = faults.iter().map(|k| Fault { path: PATH.into(), nth: None, kind: k.clone() }).collect();
                let evs: Vec<crate::os::Event> = events
                    .iter()
                    .map(|(at, v)| crate::os::Event { at: *at, act: FsAction::Replace { path: PATH.into(), data: Bytes(d.text(v % docs)) } })
                    .collect();
                let log0 = interpose::with(|o| {
                    o.arm(&fs, &evs);
                    o.log.len()
                });
                crate::child::set_op(&format!("op {i} read"));
                let out: Mutex<Vec<Result<D::Got, (bool, String)>>> = Mutex::new(vec![]);
                let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..(*readers).max(1))
                    .map(|_| {
                        let out = &out;
                        let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                            let r = match std::fs::read(PATH) {
                                Err(e) => Err((true, e.to_string())),
                                Ok(b) => D::read(&b).map_err(|e| (false, e)),
                            };
                            sched::quiet(|| out.lock().unwrap().push(r));
                        });
                        f
                    })
                    .collect();
                let st = sched::run(policy, tasks);
                rep.sched_steps += st.steps;
                rep.switches += st.switches;
                rep.made.push(st.made);
                let (fired, delta) = interpose::with(|o| {
                    o.drain_events();
                    o.arm(&[], &[]);
                    (o.fired.get("read_error").copied().unwrap_or(0), o.log[log0.min(o.log.len())..].join("\n"))
                });
                rep.states.push(hash_bytes(delta.as_bytes()));
                let hard = faults.iter().any(|k| !transient(k)) && fired > 0;
                // every content the readers may have found
                let mut allowed: Vec<At> = if live == At::Torn { durable.clone() } else { vec![live.clone()] };
                if live == At::Torn && durable.is_empty() {
                    allowed.push(At::Torn);
                }
                allowed.extend(events.iter().map(|e| At::Text(e.1 % docs)));
                let mut learnt = None;
                for g in out.into_inner().unwrap() {
                    match g {
                        Err((true, _)) if hard => {}
                        Err((true, e)) => {
                            if allowed.contains(&At::Absent) && (e.contains("No such file") || e.contains("os error 2")) {
                                learnt = Some(At::Absent);
                            } else {
                                fail = Some(("read-error".into(), format!("op {i}: reading failed: {e}")));
                            }
                        }
                        Err((false, e)) => {
                            if allowed.contains(&At::Torn) {
                                learnt = Some(At::Torn);
                                *rep.probes.entry("torn_rejected".into()).or_default() += 1;
                            } else if let Some(a) = allowed.iter().find(|a| matches!(a, At::Text(v) if d.invalid(*v))) {
                                learnt = Some(a.clone());
                                *rep.probes.entry("invalid_rejected".into()).or_default() += 1;
                            } else {
                                fail = Some(("rejected".into(), format!("op {i}: a complete file was rejected: {e}")));
                            }
                        }
                        Ok(g) => {
                            let mut why: Vec<String> = vec![];
                            let mut hit = None;
                            for a in &allowed {
                                let bad = match a {
                                    At::Absent => Some("nothing was there".to_string()),
                                    At::Text(v) if d.invalid(*v) => Some("it had to be rejected".into()),
                                    At::Text(v) => d.judge(*v, false, &g),
                                    At::Saved(v) => d.judge(*v, true, &g),
                                    At::Torn => d.judge_torn(&g),
                                };
                                match bad {
                                    None => {
                                        hit = Some(a.clone());
                                        break;
                                    }
                                    Some(m) => {
                                        why.push(format!("{a:?}: {m}"));
                                    }
                                }
                            }
                            match hit {
                                None => fail = Some(("mismatch".into(), format!("op {i}: what was read is none of {allowed:?}; {}", why.join("; ")))),
                                Some(a) => {
                                    ok += 1;
                                    learnt = Some(a);
                                }
                            }
                        }
                    }
                    if fail.is_some() {
                        break 'ops;
                    }
                }
                if let Some((_, v)) = events.iter().max_by_key(|e| e.0) {
                    // several at the same step fire in order: the last of them wins
                    let last = events.iter().rev().find(|e| e.0 == events.iter().map(|x| x.0).max().unwrap_or(0)).map_or(*v, |e| e.1);
                    live = At::Text(last % docs);
                    durable = vec![live.clone()];
                } else if let Some(a) = learnt {
                    if live == At::Torn {
                        live = a.clone();
                        if restarted {
                            durable = vec![a];
                        }
                    }
                }
            }
        }
    }
    let _ = saved_ok;
    interpose::with(|o| {
        rep.log_hash = o.log_hash.0;
        rep.sim_ns = o.now_ns;
        rep.ops = o.ops;
        rep.fired = o.fired.clone();
        rep.log = o.log.clone();
    });
    if saved_ok > 0 {
        *rep.probes.entry("saved".into()).or_default() += saved_ok;
    }
    *rep.probes.entry("read_back".into()).or_default() += ok;
    let fired: u64 = rep.fired.values().sum();
    rep.nontrivial = ok > 0 && (fired > 0 || rep.switches > 0);
    if let Some((class, msg)) = fail {
        rep.violation = Some(crate::child::Violation { class, msg });
    }
    rep
}
pub fn sketch_docs(v: &Value) -> Value {
    let mut o = v.clone();
    if let Some(d) = o.get_mut("docs") {
        *d = json!(d.as_array().map_or(0, Vec::len));
    }
    o
}

// ------------------------------------------------------------------ .asr

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct AsrLine {
    pub key: String,
    pub f: Vec<String>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct AsrModel {
    pub lines: Vec<AsrLine>,
    pub area: Vec<(Num, Num, Num, Num)>,
    pub noise: u64,
}
/// a coordinate in either notation
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Num {
    Dec(String),
    Dms(Dms),
}
impl Num {
    fn val(&self) -> f64 {
        match self {
            Num::Dec(s) => s.parse().unwrap_or(0.0),
            Num::Dms(d) => d.val(),
        }
    }
    fn text(&self) -> String {
        match self {
            Num::Dec(s) => s.clone(),
            Num::Dms(d) => {
                let mut d = d.clone();
                d.hemi = d.hemi.to_uppercase();
                d.text()
            }
        }
    }
}
const SETTINGS: &[&str] = &[
    "ABOVE", "BELOW", "DISABLEPANNING", "DISABLEZOOMING", "DisplayRotation", "DisplayTypeName", "DisplayTypeGeoReferenced",
    "DisplayTypeNeedRadarContent", "HISTORY_DOTS", "LEADER", "SECTORFILE", "SECTORTITLE", "SHOWLEADER", "SHOWC", "SHOWSB",
    "SIMULATION_MODE", "TAGFAMILY", "TURNLEADER",
];
const EXT: &[&str] = &[
    "extended centerline 1", "extended centerline 2",
    "extended centerline 1 left ticks", "extended centerline 1 left vectoring", "extended centerline 1 left base",
    "extended centerline 1 right ticks", "extended centerline 1 right vectoring", "extended centerline 1 right base",
    "extended centerline 2 left ticks", "extended centerline 2 left vectoring", "extended centerline 2 left base",
    "extended centerline 2 right ticks", "extended centerline 2 right vectoring", "extended centerline 2 right base",
];
pub fn gen_asr(r: &mut Rng, size: usize) -> AsrModel {
    let mut m = AsrModel { noise: if r.chance(0.5) { 0 } else { r.below(1 << 40) + 1 }, ..AsrModel::default() };
    let text = |r: &mut Rng| {
        let t = gen_text(r).replace([':', '\\', ';'], " ");
        if t.trim().is_empty() || t.starts_with(' ') {
            format!("T{t}")
        } else {
            t
        }
    };
    let n = 1 + r.idx(size * 3 + 2);
    for _ in 0..n {
        if r.chance(0.45) {
            let k = *r.pick(SETTINGS);
            let v = match k {
                "ABOVE" | "BELOW" => (*r.pick(&["0", "1", "2", "9", "245", "99999", "5000", "-1", "4294967295", "99999999999"])).to_string(),
                "DisplayRotation" => (*r.pick(&["0.00000", "-12.5", "90", "0.5"])).to_string(),
                "DisplayTypeName" => (*r.pick(&["Ground Radar display", "Standard ES radar screen", "Something else", "Ground Radar displays"])).to_string(),
                "HISTORY_DOTS" => (*r.pick(&["0", "1", "5", "10", "255", "256", "-3"])).to_string(),
                "LEADER" => (*r.pick(&["3", "-1", "0", "-5", "1", "20", "127", "-127", "-128", "128", "200", "255", "256", "300", "-300"])).to_string(),
                "SIMULATION_MODE" => (*r.pick(&["1", "2", "3", "4", "44"])).to_string(),
                "SECTORFILE" | "SECTORTITLE" | "TAGFAMILY" => {
                    if r.chance(0.2) {
                        String::new()
                    } else {
                        format!("{}{}", text(r), r.pick(&["", ":x", " \\a\\b.sct", ".sct"]))
                    }
                }
                _ => (*r.pick(&["0", "1"])).to_string(),
            };
            m.lines.push(AsrLine { key: k.into(), f: vec![v] });
        } else if r.chance(0.2) {
            let f = vec![
                (*r.pick(&["TopSky plugin", "GRplugin", "", "Ä"])).to_string(),
                (*r.pick(&["ShowMapData", "HideMapData", "x"])).to_string(),
                (*r.pick(&["TWR", "APP,EDDM_APP", "a:b:c", "", "München"])).to_string(),
            ];
            m.lines.push(AsrLine { key: "PLUGIN".into(), f });
        } else {
            let k = *r.pick(&[
                "Runways", "Airports", "NDBs", "VORs", "Fixes", "Low airways", "High airways", "Sids", "Stars", "Free Text", "Geo", "Ground Network",
                "Regions", "ARTCC boundary", "ARTCC low boundary", "ARTCC high boundary",
            ]);
            let name = if r.chance(0.5) { text(r) } else { (*r.pick(&["EDDM", "UPALA", "MUN", "L1", "EDDM Taxi 0"])).to_string() };
            let f = match k {
                "Runways" => {
                    let ap = (*r.pick(&["EDDM", "EDMA Augsburg", "LOWS"])).to_string();
                    let (a, b) = *r.pick(&[("08L", "26R"), ("07", "25"), ("18W", "36W"), ("04G", "22G"), ("07C", "25C")]);
                    let t = match r.idx(3) {
                        0 => "centerline",
                        1 => "name",
                        _ => *r.pick(EXT),
                    };
                    vec![ap, a.into(), b.into(), t.into()]
                }
                "Airports" | "Fixes" => vec![name, (*r.pick(&["name", "symbol"])).into()],
                "NDBs" | "VORs" => vec![name, (*r.pick(&["name", "symbol", "frequency"])).into()],
                "Low airways" | "High airways" => vec![name, (*r.pick(&["name", "line"])).into()],
                "Free Text" => vec![text(r), name],
                "Ground Network" => vec![name, (*r.pick(&["exit", "taxiway", "terminal taxiway"])).into()],
                _ => vec![name],
            };
            m.lines.push(AsrLine { key: k.into(), f });
        }
    }
    if r.chance(0.5) {
        for _ in 0..r.range(1, 2) {
            let mut c = |lat: bool| {
                if r.chance(0.6) {
                    let m = if lat { 90.0 } else { 180.0 };
                    Num::Dec(format!("{:.6}", (r.f() * 2.0 - 1.0) * m))
                } else {
                    Num::Dms(gen_dms(r, lat))
                }
            };
            let a = (c(true), c(false), c(true), c(false));
            m.area.push(a);
        }
    }
    m
}
impl AsrModel {
    pub fn render(&self) -> Vec<u8> {
        let n = Noise::new(self.noise);
        let mut r = Rng::new(self.noise);
        let mut o = String::new();
        let mut lines: Vec<String> = self
            .lines
            .iter()
            .map(|l| {
                let g = |i: usize| l.f.get(i).cloned().unwrap_or_default();
                match l.key.as_str() {
                    "PLUGIN" => format!("PLUGIN:{}:{}:{}", g(0), g(1), g(2)),
                    "Runways" => format!("Runways:{} {}-{}:{}", g(0), g(1), g(2), g(3)),
                    "Sids" | "Stars" | "Geo" | "ARTCC boundary" | "ARTCC low boundary" | "ARTCC high boundary" => format!("{}:{}:", l.key, g(0)),
                    "Regions" => format!("Regions:{}:polygon", g(0)),
                    "Free Text" => format!("Free Text:{}\\{}:freetext", g(0), g(1)),
                    k if SETTINGS.contains(&k) => format!("{k}:{}", g(0)),
                    k => format!("{k}:{}:{}", g(0), g(1)),
                }
            })
            .collect();
        for (i, a) in self.area.iter().enumerate() {
            let at = if i == 0 { r.idx(lines.len() + 1) } else { lines.len() };
            lines.insert(at, format!("WINDOWAREA:{}:{}:{}:{}", a.0.text(), a.1.text(), a.2.text(), a.3.text()));
        }
        if lines.is_empty() {
            lines.push("SHOWC:1".into());
        }
        for (i, l) in lines.iter().enumerate() {
            o.push_str(l);
            if i + 1 < lines.len() || self.noise % 3 != 0 {
                o.push('\n');
            }
            if self.noise != 0 && r.chance(0.1) && i + 1 < lines.len() {
                o.push('\n');
            }
        }
        n.finish(o)
    }
    pub fn expect(&self) -> Value {
        let all = |k: &str| -> Vec<&AsrLine> { self.lines.iter().filter(|l| l.key == k).collect() };
        let first = |k: &str, ok: &dyn Fn(&str) -> Option<Value>, d: Value| -> Value { all(k).into_iter().find_map(|l| ok(&l.f[0])).unwrap_or(d) };
        let b = |k: &str, d: bool| {
            first(
                k,
                &|s| match s {
                    "0" => Some(json!(false)),
                    "1" => Some(json!(true)),
                    _ => None,
                },
                json!(d),
            )
        };
        let level = |k: &str| first(k, &|s| s.parse::<u32>().ok().map(|x| if x == 0 { Value::Null } else { json!(x) }), Value::Null);
        let text = |k: &str, d: &str| first(k, &|s| Some(json!(s)), json!(d));
        let mut o = Map::new();
        o.insert("above".into(), level("ABOVE"));
        o.insert("below".into(), level("BELOW"));
        o.insert("disable_panning".into(), b("DISABLEPANNING", false));
        o.insert("disable_zooming".into(), b("DISABLEZOOMING", false));
        o.insert("display_rotation".into(), first("DisplayRotation", &|s| s.parse::<f64>().ok().map(|x| json!(x)), json!(0.0)));
        o.insert("display_type".into(), first("DisplayTypeName", &|s| Some(json!(if s == "Ground Radar display" { "GroundRadar" } else { "Radar" })), json!("Radar")));
        o.insert("display_type_geo_referenced".into(), b("DisplayTypeGeoReferenced", true));
        o.insert("display_type_need_radar_content".into(), b("DisplayTypeNeedRadarContent", true));
        o.insert("history_dots".into(), first("HISTORY_DOTS", &|s| s.parse::<u8>().ok().map(|x| json!(x)), json!(5)));
        o.insert(
            "leader".into(),
            first(
                "LEADER",
                &|s| {
                    let x: i64 = s.parse().ok()?;
                    match x {
                        1..=127 => Some(json!({"Miles": x})),
                        -128..=0 => Some(json!({"Minutes": -x})),
                        _ => None,
                    }
                },
                json!({"Minutes": 3}),
            ),
        );
        o.insert("sector_file".into(), text("SECTORFILE", ""));
        o.insert("sector_title".into(), text("SECTORTITLE", ""));
        o.insert("show_leader".into(), b("SHOWLEADER", false));
        o.insert("show_c".into(), b("SHOWC", true));
        o.insert("show_standby".into(), b("SHOWSB", false));
        o.insert("simulation_mode".into(), first("SIMULATION_MODE", &|s| Some(json!(if s == "4" { "Ground" } else { "Radar" })), json!("Radar")));
        o.insert("tag_family".into(), text("TAGFAMILY", "Matias (built in)"));
        o.insert("turn_leader".into(), b("TURNLEADER", false));
        let c = |x: f64, y: f64| json!({"x": x, "y": y});
        o.insert(
            "window_area".into(),
            self.area.first().map_or(json!([c(6.678_287, 46.529_122), c(16.5999, 50.105_536)]), |a| json!([c(a.1.val(), a.0.val()), c(a.3.val(), a.2.val())])),
        );
        let mut p = Map::new();
        for l in all("PLUGIN") {
            p.insert(format!("{}:{}", l.f[0], l.f[1]), json!(l.f[2]));
        }
        o.insert("plugin_settings".into(), p.into());
        let cap = |s: &str| match s {
            "centerline" => "Centreline".to_string(),
            "terminal taxiway" => "TerminalTaxiway".into(),
            s => s[..1].to_uppercase() + &s[1..],
        };
        let pairs = |k: &str| -> Value { all(k).into_iter().map(|l| json!([l.f[0], cap(&l.f[1])])).collect::<Vec<_>>().into() };
        let names = |k: &str| -> Value { all(k).into_iter().map(|l| json!(l.f[0])).collect::<Vec<_>>().into() };
        o.insert(
            "map".into(),
            json!({
                "runways": all("Runways").into_iter().filter(|l| !l.f[3].starts_with("ext")).map(|l| json!([l.f[0], l.f[1], l.f[2], cap(&l.f[3])])).collect::<Vec<_>>(),
                "airports": pairs("Airports"), "vors": pairs("VORs"), "ndbs": pairs("NDBs"), "fixes": pairs("Fixes"),
                "low_airways": pairs("Low airways"), "high_airways": pairs("High airways"),
                "sids": names("Sids"), "stars": names("Stars"),
                "free_text": all("Free Text").into_iter().map(|l| json!([l.f[0], l.f[1]])).collect::<Vec<_>>(),
                "geo": names("Geo"), "ground_network": pairs("Ground Network"), "regions": names("Regions"),
                "artcc_boundary": names("ARTCC boundary"), "artcc_low_boundary": names("ARTCC low boundary"), "artcc_high_boundary": names("ARTCC high boundary"),
            }),
        );
        o.into()
    }
}
struct AsrDocs(Vec<AsrModel>);
impl Doc for AsrDocs {
    type Got = Value;
    fn text(&self, v: usize) -> Vec<u8> {
        self.0[v].render()
    }
    fn save(&self, _: usize, _: &mut dyn Write) -> Option<std::io::Result<()>> {
        None
    }
    fn read(b: &[u8]) -> Result<Value, String> {
        Asr::parse(b).map(|a| serde_json::to_value(&a).expect("serialise")).map_err(|e| e.to_string())
    }
    fn judge(&self, v: usize, _: bool, got: &Value) -> Option<String> {
        diff("asr", &self.0[v].expect(), got)
    }
}
fn gen_asr_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 3) as usize;
    let c = FileCase::<AsrModel> { hash_seed: r.u64(), lat_seed: r.u64(), docs: (0..n).map(|_| gen_asr(r, size)).collect(), ops: gen_reads(r, n) };
    serde_json::to_value(&c).unwrap()
}
fn gen_reads(r: &mut Rng, n: usize) -> Vec<FOp> {
    let mut ops = vec![FOp::Put(r.idx(n))];
    ops.extend(gen_fops(r, n, false));
    ops
}
fn exec_asr(v: &Value) -> Report {
    let c: FileCase<AsrModel> = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.docs.is_empty() {
        return invalid("no document");
    }
    let n = c.docs.len();
    drive(c.hash_seed, c.lat_seed, &c.ops, n, &AsrDocs(c.docs))
}

pub fn gen_asr_text(r: &mut Rng, size: usize) -> String {
    String::from_utf8(gen_asr(r, size).render()).unwrap_or_default()
}
pub fn gen_isec_text(r: &mut Rng, size: usize) -> String {
    format!("; Wegpunkte für ü\n{}", String::from_utf8(gen_isec(r, size).render()).unwrap_or_default())
}
pub fn isec_value(b: &[u8]) -> Value {
    parse_isec_txt(b).map_or_else(|e| json!(e.to_string()), |m| json!(m.to_string()))
}

// ------------------------------------------------------------------ isec.txt

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct IsecModel {
    pub rows: Vec<(String, String, String)>,
    pub noise: u64,
    /// a line that is none, before that row
    pub bad: Option<(usize, String)>,
}
pub fn gen_isec(r: &mut Rng, size: usize) -> IsecModel {
    let n = 1 + r.idx(size * 4 + 1);
    let mut m = IsecModel { noise: if r.chance(0.5) { 0 } else { r.below(1 << 40) + 1 }, ..IsecModel::default() };
    for _ in 0..n {
        let des = (*r.pick(&["UPALA", "8900E", "GIVMI", "A", "ZZZZZ9", "MUN15", "15", "N", "5"])).to_string();
        let mut c = |max: f64| match r.idx(6) {
            0 => (*r.pick(&["0.000000", "-0.000000", "0.0", "-0.5", "89.999999", "-89.999999", "0.0000001", "1.23456789"])).to_string(),
            1 => format!("{:.2}", (r.f() * 2.0 - 1.0) * max),
            _ => format!("{:.6}", (r.f() * 2.0 - 1.0) * max),
        };
        let lat = c(90.0);
        let lon = c(180.0);
        m.rows.push((des, lat, lon));
    }
    if r.chance(0.12) {
        let bad = *r.pick(&["UPALA 48.1 11.5", "UPALA 48.1 11.5 16", "upala 48.1 11.5 15", "UPALA 48 11.5 15", "UPALA 48.1 11.5 15 x", "48.1 11.5 15", "UPALA 48.1 15", "UPALA N48.1 11.5 15", "UPALA 48,1 11,5 15", "UPALA 48.1 11.5 15 UPALA 48.1 11.5 15", "UPALA +48.1 11.5 15"]);
        m.bad = Some((r.idx(n + 1), bad.to_string()));
    }
    m
}
impl IsecModel {
    pub fn render(&self) -> Vec<u8> {
        let n = Noise::new(self.noise);
        let mut r = Rng::new(self.noise);
        let mut o = String::new();
        let noisy = self.noise != 0;
        if noisy && r.chance(0.3) {
            o.push_str("; AIRAC 2401 48.0\n");
        }
        for (i, (d, a, b)) in self.rows.iter().enumerate() {
            if let Some((_, l)) = self.bad.as_ref().filter(|x| x.0 == i) {
                o.push_str(&format!("{l}\n"));
            }
            if noisy && r.chance(0.15) {
                o.push_str(r.pick::<&str>(&["\n", "// UPALA 1.0 1.0 15\n", "; x\n"]));
            }
            if noisy && r.chance(0.4) {
                o.push_str(&format!("{d} {a}\t {b} 15\n"));
            } else {
                o.push_str(&format!("{d}\t{a:>10}\t{b:>11}\t15\n"));
            }
        }
        if let Some((_, l)) = self.bad.as_ref().filter(|x| x.0 >= self.rows.len()) {
            o.push_str(&format!("{l}\n"));
        }
        n.finish(o)
    }
    fn expect(&self, rounded: bool) -> Vec<(String, f64, f64)> {
        let p = |s: &str| {
            let x: f64 = s.parse().unwrap_or(0.0);
            if rounded {
                format!("{x:.6}").parse().unwrap_or(0.0)
            } else {
                x
            }
        };
        let mut v: Vec<(String, f64, f64)> = self.rows.iter().map(|(d, a, b)| (d.clone(), p(a), p(b))).collect();
        // equal names keep the order of the file
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }
    fn expect_text(&self) -> String {
        self.expect(false).iter().map(|(d, a, b)| format!("{d}\t{:>10}\t{:>11}\t15\n", format!("{a:.6}"), format!("{b:.6}"))).collect()
    }
}
struct IsecDocs(Vec<IsecModel>);
impl Doc for IsecDocs {
    type Got = IsecMap;
    fn text(&self, v: usize) -> Vec<u8> {
        self.0[v].render()
    }
    fn save(&self, v: usize, w: &mut dyn Write) -> Option<std::io::Result<()>> {
        let m = parse_isec_txt(&self.text(v)).ok()?;
        Some(write!(w, "{m}"))
    }
    fn read(b: &[u8]) -> Result<IsecMap, String> {
        parse_isec_txt(b).map_err(|e| e.to_string())
    }
    fn invalid(&self, v: usize) -> bool {
        self.0[v].bad.is_some()
    }
    /// what a power loss or a failed write left behind begins as one of the versions does
    fn judge_torn(&self, got: &IsecMap) -> Option<String> {
        let near = |a: f64, b: f64| (a - b).abs() < 5.1e-7;
        let odd = |m: &IsecModel| {
            let want = m.expect(false);
            got.flat_iter().find(|(d, f)| f.designator != **d || !want.iter().any(|w| w.0 == **d && near(w.1, f.coordinate.y()) && near(w.2, f.coordinate.x()))).map(|(d, f)| format!("{d} {f:?}"))
        };
        let all: Option<Vec<String>> = self.0.iter().map(odd).collect();
        all.map(|o| format!("never saved: {}", o.join(" / ")))
    }
    fn judge(&self, v: usize, saved: bool, got: &IsecMap) -> Option<String> {
        let want = self.0[v].expect(saved);
        let mut names: Vec<&String> = want.iter().map(|x| &x.0).collect();
        names.dedup();
        let n: usize = got.iter_all().map(|(_, f)| f.len()).sum();
        if n != want.len() {
            return Some(format!("expected {} fixes, got {n}", want.len()));
        }
        for d in names {
            let w: Vec<(f64, f64)> = want.iter().filter(|x| x.0 == *d).map(|x| (x.1, x.2)).collect();
            let fixes = got.get_vec(d).cloned().unwrap_or_default();
            if let Some(f) = fixes.iter().find(|f| f.designator != *d) {
                return Some(format!("{d}: filed under it is {}", f.designator));
            }
            let g: Vec<(f64, f64)> = fixes.iter().map(|f| (f.coordinate.y(), f.coordinate.x())).collect();
            if w != g {
                return Some(format!("{d}: expected {w:?}, got {g:?}"));
            }
        }
        let t = got.to_string();
        let wt = self.0[v].expect_text();
        if t != wt && !(saved && norm_zero(&t) == norm_zero(&wt)) {
            return Some(format!("written again: expected {wt:?}, got {t:?}"));
        }
        None
    }
}
fn norm_zero(s: &str) -> String {
    s.replace("-0.000000", " 0.000000")
}
fn gen_isec_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 3) as usize;
    let docs = (0..n).map(|_| gen_isec(r, size)).collect();
    let mut ops = vec![FOp::Put(r.idx(n))];
    ops.extend(gen_fops(r, n, true));
    serde_json::to_value(FileCase::<IsecModel> { hash_seed: r.u64(), lat_seed: r.u64(), docs, ops }).unwrap()
}
fn exec_isec(v: &Value) -> Report {
    let c: FileCase<IsecModel> = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.docs.is_empty() {
        return invalid("no document");
    }
    let n = c.docs.len();
    drive(c.hash_seed, c.lat_seed, &c.ops, n, &IsecDocs(c.docs))
}

// ------------------------------------------------------------------ exported .sct

/// a sector file as read, then edited by a client, then exported
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct SctDoc {
    pub sct: SctModel,
    /// (which coordinate, lat and lon in thousandths of an arc second, remainder)
    pub edits: Vec<(u8, usize, i64, i64, f64)>,
    pub headings: Vec<(usize, u32, u32)>,
}
struct SctDocs(Vec<SctDoc>);
fn ms(v: i64, eps: f64) -> f64 {
    (v as f64 + eps) / 3_600_000.0
}
impl SctDoc {
    fn edited(&self) -> Result<Sct, String> {
        let mut s = Sct::parse(&self.sct.render()).map_err(|e| e.to_string())?;
        for (k, i, lat, lon, eps) in &self.edits {
            let p = geo::Point::new(ms(*lon, *eps), ms(*lat, *eps));
            match k {
                0 if !s.vors.is_empty() => {
                    let i = i % s.vors.len();
                    s.vors[i].coordinate = p;
                }
                1 if !s.fixes.is_empty() => {
                    let i = i % s.fixes.len();
                    s.fixes[i].coordinate = p;
                }
                2 if !s.airports.is_empty() => {
                    let i = i % s.airports.len();
                    s.airports[i].coordinate = p;
                }
                3 if !s.runways.is_empty() => {
                    let i = i % s.runways.len();
                    s.runways[i].location.1 = p;
                }
                4 if !s.regions.is_empty() => {
                    let i = i % s.regions.len();
                    s.regions[i].polygon.push(p.into());
                }
                5 if !s.labels.is_empty() => {
                    let i = i % s.labels.len();
                    s.labels[i].coordinate = Location::Coordinate(p);
                }
                6 if !s.low_airways.is_empty() => {
                    let i = i % s.low_airways.len();
                    s.low_airways[i].end = Location::Coordinate(p);
                }
                7 if !s.ndbs.is_empty() => {
                    let i = i % s.ndbs.len();
                    s.ndbs[i].coordinate = p;
                }
                8 => s.info.centre_point = p,
                _ => {}
            }
        }
        for (i, a, b) in &self.headings {
            if !s.runways.is_empty() {
                let i = i % s.runways.len();
                s.runways[i].headings = (*a, *b);
            }
        }
        Ok(s)
    }
}
/// the document with everything the export sorts in one order
fn sct_canon(s: &Sct) -> Value {
    let mut v = serde_json::to_value(s).expect("serialise");
    fn key(v: &Value, out: &mut String) {
        match v {
            Value::Number(n) => {
                let x = n.as_f64().unwrap_or(0.0);
                out.push_str(&format!("{:020} ", (x * 3_600_000.0).round() as i64));
            }
            Value::Array(a) => a.iter().for_each(|x| key(x, out)),
            Value::Object(o) => o.iter().for_each(|(k, x)| {
                out.push_str(k);
                key(x, out);
            }),
            Value::String(t) => {
                out.push_str(t);
                out.push('\u{1}');
            }
            x => out.push_str(&x.to_string()),
        }
    }
    for k in ["airports", "fixes", "ndbs", "vors"] {
        if let Some(a) = v[k].as_array_mut() {
            a.sort_by_cached_key(|x| {
                let mut s = String::new();
                key(x, &mut s);
                s
            });
        }
    }
    // sorted by name, keeping the order of equal names
    for (k, f) in [
        ("runways", "aerodrome"), ("sids", "name"), ("stars", "name"), ("artccs_high", "name"), ("artccs", "name"), ("artccs_low", "name"),
        ("geo", "name"), ("regions", "name"), ("labels", "name"), ("high_airways", "designator"), ("low_airways", "designator"),
    ] {
        if let Some(a) = v[k].as_array_mut() {
            a.sort_by_cached_key(|x| x[f].as_str().unwrap_or("").to_string());
        }
    }
    v
}
pub fn sct_diff(path: &str, want: &Value, got: &Value, tol: f64) -> Option<String> {
    match (want, got) {
        (Value::Number(a), Value::Number(b)) => {
            let (x, y) = (a.as_f64().unwrap_or(f64::NAN), b.as_f64().unwrap_or(f64::NAN));
            // only places are written rounded
            let exact = ["miles_per_deg", "magnetic_variation", "scale_factor"].iter().any(|k| path.contains(k));
            if (x - y).abs() <= if exact { 1e-12 * x.abs() } else { tol } {
                None
            } else {
                Some(format!("{path}: expected {a}, got {b}"))
            }
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{path}: expected {} entries, got {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| sct_diff(&format!("{path}[{i}]"), x, y, tol))
        }
        (Value::Object(a), Value::Object(b)) => {
            if a.len() != b.len() || a.keys().any(|k| !b.contains_key(k)) {
                return Some(format!("{path}: expected {:?}, got {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>()));
            }
            a.iter().find_map(|(k, x)| sct_diff(&format!("{path}.{k}"), x, &b[k], tol))
        }
        _ if want == got => None,
        _ => Some(format!("{path}: expected {want}, got {got}")),
    }
}
/// what the text says, section by section, in the order of the file
fn sct_expect(m: &SctModel) -> Value {
    let c = |p: &Ll| {
        let (x, y) = p.xy();
        json!({"x": x, "y": y})
    };
    let l = |l: &crate::pack::Loc| match l {
        crate::pack::Loc::Fix(f) => json!({"Fix": f}),
        crate::pack::Loc::At(p) => json!({"Coordinate": c(p)}),
    };
    let f = |s: &str| s.parse::<f64>().unwrap_or(0.0);
    let beacon = |b: &crate::pack::Beacon| json!({"designator": b.des, "frequency": b.freq, "coordinate": c(&b.pos)});
    let awy = |a: &crate::pack::Awy| json!({"designator": a.des, "start": l(&a.a), "end": l(&a.b)});
    let coloured = |v: &[crate::pack::Lines]| -> Value {
        v.iter()
            .filter(|x| !x.segs.is_empty())
            .map(|x| {
                let groups: Vec<Value> = crate::model::runs(&x.segs)
                    .iter()
                    .map(|(col, ls)| json!({"colour_name": col, "lines": ls.iter().map(|p| json!({"points": p.iter().map(l).collect::<Vec<_>>()})).collect::<Vec<_>>()}))
                    .collect();
                json!({"name": x.name, "line_groups": groups})
            })
            .collect()
    };
    json!({
        "sids": coloured(&m.sids),
        "stars": coloured(&m.stars),
        "artccs_high": coloured(&m.artcc_high),
        "artccs": coloured(&m.artcc),
        "artccs_low": coloured(&m.artcc_low),
        "geo": coloured(&m.geo),
        "info": {"name": m.name, "default_callsign": m.callsign, "default_airport": m.airport, "centre_point": c(&m.centre),
            "miles_per_deg_lat": f(&m.miles_lat), "miles_per_deg_lng": f(&m.miles_lon), "magnetic_variation": f(&m.magvar),
            "scale_factor": m.scale.as_deref().map_or(0.0, f)},
        "vors": m.vors.iter().map(beacon).collect::<Vec<_>>(),
        "ndbs": m.ndbs.iter().map(beacon).collect::<Vec<_>>(),
        "fixes": m.fixes.iter().map(|x| json!({"designator": x.des, "coordinate": c(&x.pos)})).collect::<Vec<_>>(),
        "airports": m.airports.iter().map(|a| json!({"designator": a.des, "coordinate": c(&a.pos), "ctr_airspace": a.class})).collect::<Vec<_>>(),
        "high_airways": m.high_airways.iter().map(awy).collect::<Vec<_>>(),
        "low_airways": m.low_airways.iter().map(awy).collect::<Vec<_>>(),
        "labels": m.labels.iter().map(|x| json!({"name": x.name, "coordinate": {"Coordinate": c(&x.pos)}, "colour_name": x.colour})).collect::<Vec<_>>(),
        "regions": m.regions.iter().filter(|x| !x.pts.is_empty()).map(|x| json!({"name": x.name, "colour_name": x.colour, "polygon": x.pts.iter().map(c).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "runways": m.runways.iter().map(|x| json!({"designators": [x.d1, x.d2], "headings": [x.h1, x.h2], "location": [c(&x.p1), c(&x.p2)], "aerodrome": x.ad})).collect::<Vec<_>>(),
    })
}
impl Doc for SctDocs {
    type Got = Sct;
    fn text(&self, v: usize) -> Vec<u8> {
        self.0[v].sct.render()
    }
    fn save(&self, v: usize, w: &mut dyn Write) -> Option<std::io::Result<()>> {
        let m = self.0[v].edited().ok()?;
        Some(write!(w, "{m}"))
    }
    fn read(b: &[u8]) -> Result<Sct, String> {
        Sct::parse(b).map_err(|e| e.to_string())
    }
    fn judge(&self, v: usize, saved: bool, got: &Sct) -> Option<String> {
        if !saved {
            let want = sct_expect(&self.0[v].sct);
            let g = serde_json::to_value(got).expect("serialise");
            return want.as_object()?.iter().find_map(|(k, x)| sct_diff(k, x, &g[k], 2e-9));
        }
        let before = match self.0[v].edited() {
            Ok(x) => x,
            Err(e) => return Some(e),
        };
        if let Some(m) = sct_diff("sct", &sct_canon(&before), &sct_canon(got), 0.5002 / 3_600_000.0) {
            return Some(m);
        }
        let (a, b) = (before.to_string(), got.to_string());
        if a != b {
            let l = a.lines().zip(b.lines()).find(|(x, y)| x != y);
            return Some(format!("exported again, the text differs: {l:?}"));
        }
        None
    }
}
fn gen_sct_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 2) as usize;
    let docs = (0..n)
        .map(|_| {
            let mut d = SctDoc { sct: gen_sct(r, size), ..SctDoc::default() };
            if r.chance(0.6) {
                for _ in 0..r.range(1, 8) {
                    let mut c = |max: i64| {
                        let x = match r.idx(4) {
                            0 => *r.pick(&[0i64, 59_999, 60_000, 3_599_999, 3_600_000, 3_599_000, 1]),
                            1 => r.range(0, max) * 3_600_000 - r.range(0, 1),
                            _ => r.range(0, max * 3_600_000),
                        };
                        let x = x.clamp(0, max * 3_600_000);
                        if r.chance(0.5) {
                            -x
                        } else {
                            x
                        }
                    };
                    let (lat, lon) = (c(89), c(179));
                    d.edits.push((r.idx(9) as u8, r.idx(8), lat, lon, *r.pick(&[0.0, 0.0, 0.4, -0.4, 1e-7, -1e-7, 0.25])));
                }
            }
            if r.chance(0.3) {
                d.headings.push((r.idx(5), *r.pick(&[0, 5, 90, 360, 1000]), *r.pick(&[0, 185, 270, 7])));
            }
            d
        })
        .collect();
    let mut ops = vec![FOp::Put(r.idx(n))];
    ops.extend(gen_fops(r, n, true));
    serde_json::to_value(FileCase::<SctDoc> { hash_seed: r.u64(), lat_seed: r.u64(), docs, ops }).unwrap()
}
fn exec_sct(v: &Value) -> Report {
    let c: FileCase<SctDoc> = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.docs.is_empty() {
        return invalid("no document");
    }
    for d in &c.docs {
        if let Err(e) = d.edited() {
            return Report {
                violation: Some(crate::child::Violation { class: "rejected".into(), msg: format!("a well-formed sector file was rejected: {e}") }),
                ..Report::default()
            };
        }
    }
    let n = c.docs.len();
    let _ = gen_ll;
    drive(c.hash_seed, c.lat_seed, &c.ops, n, &SctDocs(c.docs))
}

// ------------------------------------------------------------------ .ese

struct EseDocs(Vec<crate::pack::Ese>);
/// what the text says, record by record
fn ese_expect(m: &crate::pack::Ese) -> Value {
    use crate::pack::AirItem;
    let c = |p: &Ll| {
        let (x, y) = p.xy();
        json!({"x": x, "y": y})
    };
    let positions: serde_json::Map<String, Value> = m
        .positions
        .iter()
        .map(|p| {
            let v = json!({"name": p.name, "callsign": p.callsign, "frequency": p.freq, "identifier": p.id, "prefix": p.prefix,
                "middle": p.middle, "suffix": p.suffix, "squawk_range": p.sq,
                "visibility_points": p.vis.iter().take(4).map(c).collect::<Vec<_>>()});
            (p.id.clone(), v)
        })
        .collect();
    let mut lines = std::collections::BTreeMap::new();
    for i in &m.items {
        if let AirItem::Line { id, pts, .. } = i {
            lines.insert(id.as_str(), json!({"points": pts.iter().map(c).collect::<Vec<_>>()}));
        }
    }
    let mut sectors = serde_json::Map::new();
    let mut constraints = vec![];
    for i in &m.items {
        match i {
            AirItem::Sector(s) => {
                let border: Vec<_> = s.border.iter().flatten().filter_map(|l| lines.get(l.as_str())).collect();
                let active: Vec<_> = s.active.iter().map(|(a, r)| json!({"icao": a, "designator": r})).collect();
                let list = |v: &Option<Vec<String>>| v.clone().unwrap_or_default();
                sectors.insert(
                    s.id.clone(),
                    json!({"id": s.id, "bottom": s.bottom, "top": s.top, "border": border, "owner_priority": list(&s.owner),
                        "departure_airports": list(&s.dep), "arrival_airports": list(&s.arr), "runway_filter": active}),
                );
            }
            AirItem::Cop(k) => constraints.push(json!({"previous_fix": k.prev, "departure_runway": k.dep_rwy, "fix": k.fix,
                "subsequent_fix": k.next, "arrival_runway": k.arr_rwy, "exit_sector": k.exit, "entry_sector": k.entry,
                "climb_level": k.climb, "descent_level": k.descent, "description": k.desc, "coord_timing": null})),
            _ => {}
        }
    }
    let routes: Vec<_> = m
        .sidstars
        .iter()
        .map(|s| json!({if s.star { "Star" } else { "Sid" }: {"name": s.name, "airport": s.apt, "runway": s.rwy, "waypoints": s.wpts}}))
        .collect();
    json!({"positions": positions, "sectors": sectors, "constraints": constraints, "sids_stars": routes})
}
impl Doc for EseDocs {
    type Got = vatsim_parser::ese::Ese;
    fn text(&self, v: usize) -> Vec<u8> {
        self.0[v].render()
    }
    fn save(&self, _: usize, _: &mut dyn Write) -> Option<std::io::Result<()>> {
        None
    }
    fn read(b: &[u8]) -> Result<Self::Got, String> {
        vatsim_parser::ese::Ese::parse(b).map_err(|e| e.to_string())
    }
    fn judge(&self, v: usize, _: bool, got: &Self::Got) -> Option<String> {
        let g = serde_json::to_value(got).expect("serialise");
        if let Some(m) = sct_diff("ese", &ese_expect(&self.0[v]), &g, 2e-9) {
            return Some(m);
        }
        // a constraint reads as one line of text that names its levels in flight levels
        got.constraints.iter().zip(&self.0[v].items.iter().filter_map(|i| match i {
            crate::pack::AirItem::Cop(c) => Some(c),
            _ => None,
        }).collect::<Vec<_>>()).find_map(|(g, c)| {
            let fl = |l: Option<u32>| l.map_or(String::new(), |l| format!("  FL{}", l / 100));
            let rwy = c.dep_rwy.as_ref().or(c.arr_rwy.as_ref()).map_or(String::new(), |r| format!("  [{r}]"));
            let w = format!("{:<8} {:<30} → {:<30}{}{}{rwy}", c.fix.as_deref().unwrap_or("*"), c.exit, c.entry, fl(c.climb), fl(c.descent));
            (g.to_string() != w).then(|| format!("shown as {:?} instead of {w:?}", g.to_string()))
        })
    }
}
fn gen_ese_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 3) as usize;
    let docs = (0..n).map(|_| crate::pack::gen_ese(r, size)).collect();
    let mut ops = vec![FOp::Put(r.idx(n))];
    ops.extend(gen_fops(r, n, false));
    serde_json::to_value(FileCase::<crate::pack::Ese> { hash_seed: r.u64(), lat_seed: r.u64(), docs, ops }).unwrap()
}
fn exec_ese(v: &Value) -> Report {
    let c: FileCase<crate::pack::Ese> = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.docs.is_empty() {
        return invalid("no document");
    }
    let n = c.docs.len();
    drive(c.hash_seed, c.lat_seed, &c.ops, n, &EseDocs(c.docs))
}

// ------------------------------------------------------------------ Symbology.txt, squawks.json

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Display1 {
    Symbology(crate::world::Symbology),
    Squawks(crate::world::Squawks),
}
struct DisplayDocs(Vec<Display1>);
const KINDS: &[&str] = &[
    "Airport", "NDB", "VOR", "Fix", "AircraftStandby", "AircraftPrimaryOnly", "AircraftCorrAlphaCharlieSecondaryOnly",
    "AircraftCorrModeSierraSecondaryOnly", "AircraftCorrModeAlphaCharlie", "AircraftCorrModeSierra", "AircraftCorrModeAlphaCharlieIdent",
    "AircraftCorrModeSierraIdent", "AircraftFlightPlanTrack", "AircraftCoasting", "HistoryDot", "GroundAircraft",
    "AircraftUncorrModeAlphaCharlieSecondaryOnly", "AircraftUncorrModeSierraSecondaryOnly", "AircraftUncorrModeAlphaCharlie",
    "AircraftUncorrModeSierra", "AircraftUncorrModeAlphaCharlieIdent", "AircraftUncorrModeSierraIdent", "GroundVehicle", "GroundRotorcraft",
];
fn display_expect(d: &Display1) -> Value {
    match d {
        Display1::Symbology(s) => {
            let mut items = Map::new();
            for i in &s.items {
                let Some((r, g, b)) = crate::model::es_colour(i.colour) else { continue };
                let style = ["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"][usize::from(i.style) % 5];
                let h = ["Left", "Center", "Right"][usize::from(i.align / 6) % 3];
                let v = ["Top", "Center", "Bottom"][usize::from(i.align % 6) % 3];
                items.insert(
                    format!("{}:{}", i.folder, i.name),
                    json!({"folder": i.folder, "name": i.name, "colour": crate::model::hex((r, g, b)), "font_size_symbol_scale": format!("{}", f64::from(i.scale) / 10.0).parse::<f32>().unwrap_or(0.0),
                        "line_style": style, "line_weight": i.weight,
                        "text_alignment": {"horizontal": h, "vertical": v}}),
                );
            }
            let symbols: Map<String, Value> =
                s.symbols.iter().filter_map(|x| Some(((*KINDS.get(x.id as usize)?).to_string(), crate::model::rules(&x.rules)))).collect();
            json!({"items": items, "symbols": symbols})
        }
        Display1::Squawks(s) => {
            let (c, m, l) = s.other();
            let defs: Vec<Value> = s
                .squawks
                .iter()
                .map(|q| json!({"code": q.code, "range": q.range.as_ref().map(|(a, b)| json!({"start": a, "end": b})), "message": q.message, "color": q.colour.to_lowercase()}))
                .collect();
            json!({"non_discrete_color": c.to_lowercase(), "non_discrete_message": m, "non_discrete": l, "squawks": defs})
        }
    }
}
impl Doc for DisplayDocs {
    type Got = Value;
    fn text(&self, v: usize) -> Vec<u8> {
        match &self.0[v] {
            Display1::Symbology(s) => s.render(),
            Display1::Squawks(s) => s.render(),
        }
    }
    fn save(&self, _: usize, _: &mut dyn Write) -> Option<std::io::Result<()>> {
        None
    }
    fn read(b: &[u8]) -> Result<Value, String> {
        // neither can be mistaken for the other
        match (vatsim_parser::symbology::Symbology::parse(b), vatsim_parser::squawks::parse_squawks_json(b)) {
            (Ok(s), Err(_)) => Ok(serde_json::to_value(s).expect("serialise")),
            (Err(_), Ok(s)) => Ok(serde_json::to_value(s).expect("serialise")),
            (Err(a), Err(b)) => Err(format!("{a} / {b}")),
            (Ok(_), Ok(_)) => Ok(json!("both a symbology and a list of squawks")),
        }
    }
    fn judge(&self, v: usize, _: bool, got: &Value) -> Option<String> {
        sct_diff("display", &display_expect(&self.0[v]), got, 2e-9)
    }
}
fn gen_display_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 3) as usize;
    let docs = (0..n)
        .map(|_| if r.chance(0.7) { Display1::Symbology(crate::world::gen_symbology(r, size)) } else { Display1::Squawks(crate::world::gen_squawks(r)) })
        .collect();
    let mut ops = vec![FOp::Put(r.idx(n))];
    ops.extend(gen_fops(r, n, false));
    serde_json::to_value(FileCase::<Display1> { hash_seed: r.u64(), lat_seed: r.u64(), docs, ops }).unwrap()
}
fn exec_display(v: &Value) -> Report {
    let c: FileCase<Display1> = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.docs.is_empty() {
        return invalid("no document");
    }
    let n = c.docs.len();
    drive(c.hash_seed, c.lat_seed, &c.ops, n, &DisplayDocs(c.docs))
}

pub const RULE_FILE: &str = "a run is a history of one file: versions of a document written by a client (atomically or in place, through short, failing, unsynced writes), power losses at every stage, replacements by a concurrent updater and concurrent readers under I/O faults; non-trivial if something was read back and a fault, event or thread switch happened; distinct = distinct execution trace hashes";
pub const STUB_FILE: &[&str] = &[
    "kernel file system, clock, entropy (simulated at the libc boundary)",
    "thread scheduling (real threads, one runs at a time, order chosen by the seeded scheduler)",
    "the client's save protocol (write, fsync, rename, fsync of the directory) and the updater",
];
pub const DEFS: &[Def] = &[
    Def { id: "P21", gen: gen_sct_case, exec: exec_sct, sketch: sketch_docs, rule: RULE_FILE, stub: STUB_FILE, ..BASE },
    Def { id: "P23", runs: 3000, gen: gen_asr_case, exec: exec_asr, sketch: sketch_docs, rule: RULE_FILE, stub: STUB_FILE, ..BASE },
    Def { id: "P24", runs: 3000, gen: gen_isec_case, exec: exec_isec, sketch: sketch_docs, rule: RULE_FILE, stub: STUB_FILE, ..BASE },
    Def { id: "P26", runs: 3000, gen: gen_display_case, exec: exec_display, sketch: sketch_docs, rule: RULE_FILE, stub: STUB_FILE, ..BASE },
    Def { id: "P25", runs: 2000, gen: gen_ese_case, exec: exec_ese, sketch: sketch_docs, rule: RULE_FILE, stub: STUB_FILE, ..BASE },
];
