//! The three TopSky files read on their own while an updater replaces or removes
//! them one by one and the storage misbehaves.

use crate::child::Report;
use crate::hist::{gen_policy, transient};
use crate::interpose;
use crate::model;
use crate::os::{Bytes, Event, Fault, FaultKind, FsAction, Os};
use crate::p_file::sct_diff;
use crate::props::*;
use crate::rng::{hash_bytes, Rng};
use crate::sched::{self, Policy};
use crate::world::{self, tenths, MItem, MLoc, MRule, TsMaps, TsSettings, TsSymbols, T};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Mutex;
use vatsim_parser::topsky::Topsky;

const DIR: &str = "/es/Plugins/TopSky";
const FILES: [&str; 3] = ["TopSkySettings.txt", "TopSkySymbols.txt", "TopSkyMaps.txt"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Version {
    settings: TsSettings,
    symbols: TsSymbols,
    maps: TsMaps,
    /// which of the three carry text that no reader can accept
    bad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Put(usize, usize),
    Remove(usize),
    Crash(u64),
    Read { readers: usize, how: u8, faults: Vec<(usize, FaultKind)>, events: Vec<(u64, usize, Option<usize>)>, policy: Policy },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    hash_seed: u64,
    lat_seed: u64,
    versions: Vec<Version>,
    ops: Vec<Op>,
}

fn path(f: usize) -> String {
    format!("{DIR}/{}", FILES[f % 3])
}
impl Version {
    fn is_bad(&self, f: usize) -> bool {
        self.bad & (1 << f) != 0
    }
    fn text(&self, f: usize) -> Vec<u8> {
        let mut b = match f {
            0 => self.settings.render(),
            1 => self.symbols.render(),
            _ => self.maps.render(),
        };
        if self.is_bad(f) {
            b.extend_from_slice(if f == 0 { b"\n]broken[\n" } else { b"\nNOT A RECORD OF THIS FILE\n" });
        }
        b
    }
}

fn tv(t: T) -> f64 {
    tenths(t, false).parse().unwrap_or(f64::NAN)
}
fn loc(l: &MLoc) -> Value {
    let num = |s: &String| s.parse::<f64>().unwrap_or(f64::NAN);
    match l {
        MLoc::Name(n) => json!({"Fix": n}),
        MLoc::Dms(l) => json!({"Coordinate": model::pt(l.xy())}),
        MLoc::Dec(a, b) => json!({"Coordinate": model::pt((num(b), num(a)))}),
    }
}
fn rule(r: &MRule) -> Option<Value> {
    Some(match r {
        MRule::Folder(f) => json!({"Folder": f}),
        MRule::Colour(c, _) => json!({"Colour": c}),
        MRule::Asr(a) => json!({"AsrData": a}),
        MRule::Active(a) => json!({"Active": model::active(a)}),
        MRule::AndActive(a) => json!({"AndActive": model::active(a)}),
        MRule::Layer(x) => json!({"Layer": x}),
        MRule::Symbol(n, at, lab, _) => json!({"Symbol": {"name": n, "location": loc(at),
            "label": lab.as_ref().map(|l| json!({"text": l.0, "pos": [tv(l.1), tv(l.2)]})), "label_alignment": null}}),
        MRule::Text(at, t, _) => json!({"Text": {"location": loc(at), "content": t, "alignment": null}}),
        MRule::Font('0', _) => json!({"FontSize": "Default"}),
        MRule::Font(k, t) => {
            let name = match k {
                '=' => "Exact",
                '+' => "Add",
                '-' => "Subtract",
                _ => "Multiply",
            };
            json!({"FontSize": {name: *t as f32 / 10.0}})
        }
        MRule::Zoom(z) => json!({"Zoom": *z as f32 / 10.0}),
        MRule::Style(s, w) => json!({"LineStyle": {"width": w.unwrap_or(1), "style": s.to_uppercase()}}),
        MRule::Lines(v) => {
            let l: Vec<Value> =
                model::join(v).iter().map(|l| json!({"points": l.iter().map(loc).collect::<Vec<_>>()})).collect();
            json!({"Line": l})
        }
        MRule::Coord(l) => json!({"Coord": loc(l)}),
        MRule::CoordLine => json!("CoordLine"),
        MRule::CoordPoly(h) => json!({"CoordPoly": h.to_string()}),
        MRule::Global => json!("Global"),
        MRule::Screen => json!("ScreenSpecific"),
        MRule::Hidden => json!("Hidden"),
        MRule::Ignored(_) => return None,
    })
}
/// what the three contents mean together; None: they cannot be read
fn expect(s: Option<&Version>, y: Option<&Version>, m: Option<&Version>) -> Option<Value> {
    let (s, m) = (s?, m?);
    let symbols_broken =
        |y: &Version| y.is_bad(1) || y.symbols.symbols.is_empty() || y.symbols.symbols.iter().any(|x| x.1.is_empty());
    if s.is_bad(0) || m.is_bad(2) || y.is_some_and(symbols_broken) {
        return None;
    }
    let mut settings = BTreeMap::new();
    let mut colours = BTreeMap::new();
    let col = |n: &String, c: (u32, u32, u32)| -> Option<Value> {
        let f = |x| u8::try_from(x).ok();
        Some(json!({"name": n, "colour": model::hex((f(c.0)?, f(c.1)?, f(c.2)?))}))
    };
    for (k, v) in &s.settings.settings {
        settings.insert(k.clone(), v.clone());
    }
    for (k, v) in &s.settings.colours {
        if let Some(c) = v.and_then(|v| col(k, v)) {
            colours.insert(k.clone(), c);
        }
    }
    let mut symbols = BTreeMap::new();
    for (k, r) in y.iter().flat_map(|y| &y.symbols.symbols) {
        symbols.insert(k.clone(), json!({"name": k, "rules": model::rules(r)}));
    }
    let mut maps = vec![];
    let mut styles = BTreeMap::new();
    let mut overrides = vec![];
    let mut any = false;
    for i in &m.maps.items {
        match i {
            MItem::Map { rules, .. } if rules.is_empty() => continue,
            MItem::Map { name, rules } => {
                maps.push(json!({"name": name, "rules": rules.iter().filter_map(rule).collect::<Vec<_>>()}));
            }
            MItem::Symbol { rules, .. } if rules.is_empty() => continue,
            MItem::Symbol { name, rules } => {
                symbols.insert(name.clone(), json!({"name": name, "rules": model::rules(rules)}));
            }
            MItem::Colour { name, rgb } => {
                if let Some(c) = col(name, *rgb) {
                    colours.insert(name.clone(), c);
                }
            }
            MItem::Style { name, brush, hatch, dashes } => {
                styles.insert(name.clone(), json!({"name": name, "brush": brush, "hatch": hatch, "dash_lengths": dashes}));
            }
            MItem::Override { folder, name } => overrides.push(json!({"folder": folder, "name": name})),
            MItem::Sct { .. } => {}
        }
        any = true;
    }
    any.then(|| json!({"symbols": symbols, "maps": maps, "colours": colours, "settings": settings, "line_styles": styles, "overrides": overrides}))
}
/// typed look-ups of settings: the value where it parses, else the caller's default
fn typed(s: &BTreeMap<String, String>) -> Value {
    let mut o = Map::new();
    for k in PROBES {
        let v = s.get(*k);
        o.insert((*k).to_string(), json!([
            v.and_then(|x| x.parse::<i64>().ok()).unwrap_or(-77),
            v.and_then(|x| x.parse::<f32>().ok()).unwrap_or(0.25),
            v.and_then(|x| x.parse::<u8>().ok()).unwrap_or(9),
            v.cloned().unwrap_or_else(|| "none".into()),
        ]));
    }
    Value::Object(o)
}
const PROBES: &[&str] = &[
    "Setup_COOPANS", "Maps_FontSize", "Track_HistoryDots", "Track_PredictionLine", "System_GUI_Scale_Windows", "Airspace_File", "Nothing",
];
fn got(t: &Topsky) -> (Value, Value) {
    let mut o = Map::new();
    for k in PROBES {
        o.insert((*k).to_string(), json!([
            t.settings.parse_with_default(k, -77i64),
            t.settings.parse_with_default(k, 0.25f32),
            t.settings.parse_with_default(k, 9u8),
            t.settings.parse_with_default(k, "none".to_string()),
        ]));
    }
    (serde_json::to_value(t).unwrap_or_else(|e| json!(format!("cannot be serialised: {e}"))), Value::Object(o))
}

fn gen_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 4) as usize;
    let versions: Vec<Version> = (0..n)
        .map(|_| Version {
            settings: world::gen_ts_settings(r),
            symbols: world::gen_ts_symbols(r),
            maps: world::gen_ts_maps(r, size),
            bad: if r.chance(0.12) { 1 << r.idx(3) } else { 0 },
        })
        .collect();
    let mut ops: Vec<Op> = (0..3).map(|f| Op::Put(f, r.idx(n))).collect();
    for _ in 0..r.range(2, 7) {
        match r.idx(8) {
            0 => ops.push(Op::Remove(r.idx(3))),
            1 => ops.push(Op::Crash(r.u64())),
            _ => {
                for _ in 0..r.range(1, 3) {
                    ops.push(Op::Put(r.idx(3), r.idx(n)));
                }
            }
        }
        let mut faults = vec![];
        if r.chance(0.5) {
            for _ in 0..r.range(1, 2) {
                faults.push((
                    r.idx(3),
                    match r.idx(7) {
                        0 => FaultKind::Short { max: *r.pick(&[1usize, 2, 3, 50]) },
                        1 => FaultKind::ReadEintr { every: 2 },
                        2 => FaultKind::SizeLie(*r.pick(&[0u64, 1, 10_000])),
                        3 => FaultKind::OpenEintr(2),
                        4 => FaultKind::FstatErr(5),
                        5 => FaultKind::OpenErr(*r.pick(&[13, 5, 24])),
                        _ => FaultKind::ReadErr { at: r.idx(300), errno: 5 },
                    },
                ));
            }
        }
        let events = if r.chance(0.4) {
            (0..r.range(1, 3)).map(|_| (r.below(25), r.idx(3), if r.chance(0.8) { Some(r.idx(n)) } else { None })).collect()
        } else {
            vec![]
        };
        let readers = *r.pick(&[1usize, 1, 2, 3]);
        ops.push(Op::Read { readers, how: r.below(4) as u8, faults, events, policy: gen_policy(r) });
    }
    serde_json::to_value(Case { hash_seed: r.u64(), lat_seed: r.u64(), versions, ops }).unwrap()
}

fn exec(v: &Value) -> Report {
    let c: Case = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.versions.is_empty() {
        return invalid("no version");
    }
    let n = c.versions.len();
    let mut rep = Report::default();
    let mut os = Os::new(c.hash_seed, c.lat_seed);
    os.mkdirs(DIR);
    os.mkdirs("/es/Sector");
    interpose::install(os);
    interpose::with(|o| o.arm(&[], &[Event { at: 0, act: FsAction::Chdir { path: "/es".into() } }]));
    interpose::with(crate::os::Os::drain_events);
    let mut live: [Option<usize>; 3] = [None; 3];
    let (mut ok, mut refused) = (0u64, 0u64);
    let mut fail = None::<(String, String)>;
    'ops: for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Put(f, v) => {
                let (f, v) = (f % 3, v % n);
                interpose::with(|o| o.put(&path(f), &c.versions[v].text(f)));
                live[f] = Some(v);
            }
            Op::Remove(f) => {
                interpose::with(|o| o.remove(&path(f % 3)));
                live[f % 3] = None;
            }
            Op::Crash(seed) => {
                sched::restart();
                interpose::with(|o| {
                    o.crash(&mut Rng::new(*seed));
                    o.reseed_entropy(*seed);
                });
            }
            Op::Read { readers, how, faults, events, policy } => {
                let fs: Vec<Fault> = faults.iter().map(|(f, k)| Fault { path: path(*f), nth: None, kind: k.clone() }).collect();
                let evs: Vec<Event> = events
                    .iter()
                    .map(|(at, f, v)| Event {
                        at: *at,
                        act: match v {
                            Some(v) => FsAction::Replace { path: path(*f), data: Bytes(c.versions[v % n].text(f % 3)) },
                            None => FsAction::Remove { path: path(*f) },
                        },
                    })
                    .collect();
                let log0 = interpose::with(|o| {
                    o.arm(&fs, &evs);
                    o.log.len()
                });
                crate::child::set_op(&format!("op {i} read"));
                let out: Mutex<Vec<Result<(Value, Value), String>>> = Mutex::new(vec![]);
                let dir = match how % 4 {
                    0 => DIR.to_string(),
                    1 => format!("{DIR}/"),
                    2 => "Plugins/TopSky".to_string(),
                    _ => "/es/Sector/../Plugins/./TopSky".to_string(),
                };
                let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..(*readers).max(1))
                    .map(|_| {
                        let (out, dir) = (&out, &dir);
                        let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                            let r = Topsky::parse(Path::new(dir));
                            sched::quiet(|| out.lock().unwrap().push(r.map(|t| got(&t)).map_err(|e| e.to_string())));
                        });
                        f
                    })
                    .collect();
                let st = sched::run(policy, tasks);
                rep.sched_steps += st.steps;
                rep.switches += st.switches;
                rep.made.push(st.made);
                let delta = interpose::with(|o| {
                    o.drain_events();
                    o.arm(&[], &[]);
                    o.log[log0.min(o.log.len())..].join("\n")
                });
                rep.states.push(hash_bytes(delta.as_bytes()));
                // what each of the files may have been for a reader
                let mut may: [Vec<Option<usize>>; 3] = [vec![live[0]], vec![live[1]], vec![live[2]]];
                for (_, f, v) in events {
                    let v = v.map(|v| v % n);
                    if !may[f % 3].contains(&v) {
                        may[f % 3].push(v);
                    }
                }
                for (f, k) in faults {
                    // a device that fails may do so for some of the readers only
                    if !transient(k) && !may[f % 3].contains(&None) {
                        may[f % 3].push(None);
                    }
                }
                let all: Vec<(String, Option<Value>)> = may[0]
                    .iter()
                    .flat_map(|s| may[1].iter().flat_map(move |y| [(*s, *y)]))
                    .flat_map(|(s, y)| may[2].iter().map(move |m| [s, y, *m]))
                    .map(|x| {
                        let at = |k: usize| x[k].map(|v: usize| &c.versions[v]);
                        (format!("{x:?}"), expect(at(0), at(1), at(2)))
                    })
                    .collect();
                for g in out.into_inner().unwrap() {
                    match g {
                        Err(e) if all.iter().any(|a| a.1.is_none()) => {
                            let _ = e;
                            refused += 1;
                        }
                        Err(e) => fail = Some(("refused".into(), format!("op {i}: readable files were refused: {e}"))),
                        Ok((t, p)) => {
                            let mut first = None;
                            let fits = all.iter().any(|(name, want)| {
                                let Some(w) = want else { return false };
                                let set: BTreeMap<String, String> = serde_json::from_value(w["settings"].clone()).unwrap_or_default();
                                let d = sct_diff("topsky", w, &t, 2e-9).or_else(|| sct_diff("look-up", &typed(&set), &p, 2e-9));
                                match d {
                                    None => true,
                                    Some(m) => {
                                        first.get_or_insert(format!("{name}: {m}"));
                                        false
                                    }
                                }
                            });
                            if fits {
                                ok += 1;
                            } else {
                                let m = first.unwrap_or_else(|| "the files cannot be read".into());
                                fail = Some(("mismatch".into(), format!("op {i}: what was read is none of {} states of the files; {m}", all.len())));
                            }
                        }
                    }
                    if fail.is_some() {
                        break 'ops;
                    }
                }
                // several at the same step fire in order
                let mut e: Vec<_> = events.iter().collect();
                e.sort_by_key(|e| e.0);
                for (_, f, v) in e {
                    live[f % 3] = v.map(|v| v % n);
                }
            }
        }
    }
    interpose::with(|o| {
        rep.log_hash = o.log_hash.0;
        rep.sim_ns = o.now_ns;
        rep.ops = o.ops;
        rep.fired = o.fired.clone();
        rep.log = o.log.clone();
    });
    *rep.probes.entry("read".into()).or_default() += ok;
    *rep.probes.entry("refused".into()).or_default() += refused;
    let fired: u64 = rep.fired.values().sum();
    rep.nontrivial = ok > 0 && (fired > 0 || rep.switches > 0);
    if let Some((class, msg)) = fail {
        rep.violation = Some(crate::child::Violation { class, msg });
    }
    rep
}
fn sketch(v: &Value) -> Value {
    let mut o = v.clone();
    if let Some(d) = o.get_mut("versions") {
        *d = json!(d.as_array().map_or(0, Vec::len));
    }
    o
}
pub const DEFS: &[Def] = &[Def {
    id: "P27",
    runs: 3000,
    gen: gen_case,
    exec,
    sketch,
    rule: "a run is a history of one TopSky directory: its three files are replaced and removed one by one, also while one to three readers read them through faulty storage, with power losses in between; non-trivial if something was read and a fault, event or thread switch happened; distinct = distinct execution trace hashes",
    stub: &[
        "kernel file system, clock, entropy (simulated at the libc boundary)",
        "thread scheduling (real threads, one runs at a time, order chosen by the seeded scheduler)",
        "the updater",
    ],
    ..BASE
}];
