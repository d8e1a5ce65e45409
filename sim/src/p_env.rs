//! The environment of a load: damaged storage, schedules, transient and hard I/O
//! faults, racing updates, and where the files are.

use crate::content;
use crate::damage::{broken, damage};
use crate::hist::*;
use crate::interpose;
use crate::os::{Bytes, FaultKind};
use crate::props::*;
use crate::rng::{hash_bytes, Rng};
use crate::sched::Policy;
use crate::world::*;
use geo::{Coord, Line, Point};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::adaptation::{Adaptation, AdaptationSetup};
use vatsim_parser::asr::Asr;
use vatsim_parser::isec::parse_isec_txt;
use vatsim_parser::prf::Prf;
use vatsim_parser::sct::Sct;
use vatsim_parser::Location;

use crate::child::Report;

/// every part of the adaptation
pub fn all_parts() -> Vec<&'static str> {
    content::PARTS.iter().map(|p| p.0).collect()
}
pub fn overlay_sources(r: &mut Rng, n: usize, tag: &str) -> Vec<String> {
    (0..n)
        .map(|i| {
            let f = *r.pick(&["name", "aircraft", "airlines", "positions", "line_styles"]);
            match f {
                "name" => format!("{{ name: super.name + \"-{tag}{i}\" }}"),
                "positions" => format!("{{ positions: {{}}, name+: \"+{i}\" }}"),
                f => format!("// {tag}\n{{ {f}+: {{}} }}"),
            }
        })
        .collect()
}
fn roles_of(s: &Scenario) -> Vec<Role> {
    s.layout.roles().iter().map(|x| x.0).filter(|r| !matches!(r, Role::Prf | Role::Toml)).collect()
}

// ------------------------------------------------------------------ P01 damage

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct DamageCase {
    pub s: Scenario,
    /// documents given to the stand-alone readers
    pub texts: Vec<(u8, Bytes)>,
    pub queries: Vec<(String, f64, f64, f32)>,
}

fn gen_damage(r: &mut Rng, size: usize) -> Value {
    let n = if r.chance(0.25) { r.range(1, 2) as usize } else { 0 };
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, n);
    for k in 0..2 {
        let mut p = gen_pack(r, size.min(8));
        p.overlays = overlay_sources(r, n, if k == 0 { "a" } else { "b" });
        s.packs.push(p);
    }
    let mut roles: Vec<Role> = s.layout.roles().iter().map(|x| x.0).collect();
    if n == 0 {
        roles.retain(|r| *r != Role::Toml || n > 0);
    }
    // the parsers with the most structure more often
    for x in [Role::Sct, Role::Ese, Role::Symbology, Role::TsSettings, Role::TsMaps, Role::TsSymbols, Role::Sct, Role::Ese] {
        if roles.contains(&x) {
            roles.push(x);
        }
    }
    let m = r.range(2, 7);
    for _ in 0..m {
        let k = if r.chance(0.8) { 1 } else { 2 };
        for _ in 0..k {
            let role = *r.pick(&roles);
            let (a, b) = (s.packs[0].bytes(&s.layout, role).unwrap_or_default(), s.packs[1].bytes(&s.layout, role).unwrap_or_default());
            if r.chance(0.9) {
                s.ops.push(Op::Apply(RAct::Raw(role, Bytes(damage(r, &a, &b)))));
            } else {
                s.ops.push(Op::Apply(RAct::Remove(role)));
            }
        }
        let mut events = vec![];
        if r.chance(0.5) {
            for _ in 0..r.range(1, 4) {
                let role = *r.pick(&roles);
                let act = match r.idx(4) {
                    0 => RAct::Truncate(role, r.idx(600)),
                    1 => RAct::Raw(role, Bytes(r.pick(broken(role)).to_vec())),
                    2 => RAct::Remove(role),
                    _ => {
                        let b = s.packs[1].bytes(&s.layout, role).unwrap_or_default();
                        let o = r.idx(b.len() + 1);
                        let e = (o + r.idx(200)).min(b.len());
                        RAct::WriteAt(role, o, Bytes(b[o..e].to_vec()))
                    }
                };
                events.push(REvent { at: r.below(80), act });
            }
        }
        let mut faults = match r.idx(8) {
            0 => gen_hard(r, &roles),
            1 => gen_transient(r, &roles),
            2 => vec![RFault { role: *r.pick(&roles), nth: None, kind: FaultKind::EarlyEof { at: r.idx(500) } }],
            3 => vec![RFault { role: *r.pick(&roles), nth: None, kind: FaultKind::RealpathErr(*r.pick(&[2, 13, 40])) }],
            4 => vec![RFault { role: *r.pick(&roles), nth: None, kind: FaultKind::GetcwdErr(*r.pick(&[2, 13])) }],
            _ => vec![],
        };
        if r.chance(0.1) {
            faults.push(RFault { role: *r.pick(&roles), nth: None, kind: FaultKind::ReadErr { at: r.idx(300), errno: 5 } });
        }
        let k = if r.chance(0.2) { 2 } else { 1 };
        let loaders = (0..k)
            .map(|_| match r.idx(4) {
                0 => Api::Toml,
                1 if n > 0 => Api::Overlays,
                _ => Api::Prf,
            })
            .collect();
        s.ops.push(Op::Load { loaders, faults, events, policy: gen_policy(r) });
        if r.chance(0.15) {
            s.ops.push(Op::Crash(r.u64()));
        }
        for role in &roles {
            if matches!(role, Role::Prf | Role::Toml) || r.chance(0.7) {
                s.ops.push(Op::Apply(RAct::Replace(*role, 0)));
            }
        }
        s.ops.dedup_by(|a, b| matches!((a, b), (Op::Apply(RAct::Replace(x, _)), Op::Apply(RAct::Replace(y, _))) if x == y));
    }
    let mut texts = vec![];
    for _ in 0..r.range(6, 16) {
        let kind = *r.pick(&[0, 0, 1, 2, 2, 3]);
        let gen = |r: &mut Rng| match kind {
            0 => crate::p_file::gen_asr(r, size).render(),
            1 => crate::p_file::gen_isec(r, size).render(),
            2 => gen_squawks(r).render(),
            _ => crate::pack::gen_sct(r, size.min(6)).render(),
        };
        let (a, b) = (gen(r), gen(r));
        texts.push((kind, Bytes(damage(r, &a, &b))));
    }
    let queries = (0..12)
        .map(|_| {
            let f = |r: &mut Rng| *r.pick(&[0.0, 11.0, 48.5, -180.0, 180.0, 90.0, -90.0, 1e9, 1e300, -1e300, f64::MIN_POSITIVE, 400.0]);
            let d = (*r.pick(&["", "MUN", "EDDM", "EDDM26R", "MUN360010", "48N011E", "N", "S", "9", "000000", "ÄÖÜ", "MÜN090020", "٣٣N011E", "MUN999999", "99N999W", "4899N01199E", "ABCDE12345678"])).to_string();
            let d = match r.idx(8) {
                0 => (*r.pick(&["٣N٠١١E", "٣N٠١١W", "MUN٣٦٠٠١٠", "ABC٣٦0010", "４８Ｎ０１１Ｅ", "4٣0N0113E", "EDDM٢٦R", "EDDM२६", "²N011E"])).to_string(),
                1 => {
                    let w = crate::pack::gen_wpt(r);
                    crate::pack::foreign(r, &w)
                }
                2 => crate::pack::gen_wpt(r),
                _ => d,
            };
            (d, f(r), f(r), *r.pick(&[0.0f32, -1.0, 10_000.0, f32::MAX, f32::MIN, 1e-30]))
        })
        .collect();
    serde_json::to_value(&DamageCase { s, texts, queries }).unwrap()
}
/// exercise everything a client can ask of an adaptation
pub fn poke(ad: &Adaptation, q: &[(String, f64, f64, f32)]) {
    let l = &ad.locations;
    let mut starts: Vec<(String, Point)> = q.iter().map(|x| (x.0.clone(), Point::new(x.1, x.2))).collect();
    let mut some: Vec<&String> = l.fixes.keys().collect();
    some.sort();
    starts.extend(some.into_iter().take(4).map(|n| (n.clone(), l.convert_designator(n).map_or(Point::new(0.0, 0.0), |f| f.coordinate))));
    for (d, x, y, lvl) in q {
        let p = Point::new(*x, *y);
        let _ = ad.find_sector(p, *lvl);
        let _ = ad.volumes_at(p).count();
        let _ = ad.volumes_near_line(Line::new(Coord { x: *x, y: *y }, Coord { x: -y, y: *x })).count();
        let _ = l.convert_designator(d);
        let _ = l.convert_location(&Location::Fix(d.clone()));
        let _ = l.contains_designator(d);
        let _ = ad.colours.get(d, &ad.settings);
        let _ = ad.symbols.get(d);
        let _ = ad.aircraft.wtc(Some(d));
        let _ = ad.sectors.find_id_by_volume(d);
        for (n, c) in &starts {
            for awy in ["L1", "T721", "UL607", "Y100", d] {
                let _ = l.airways.expand_airway_segment(&Fix { designator: n.clone(), coordinate: *c }, d, awy, l);
            }
        }
    }
    let t = serde_json::to_string(ad).expect("an adaptation can be saved");
    let _ = serde_json::from_str::<Adaptation>(&t);
}
fn exec_damage(v: &Value) -> Report {
    let c: DamageCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let mut rep = Sim::new(&c.s).drive(|sim, ld| {
        match &ld.res {
            Ok(ad) => {
                sim.probe("damaged_load_ok");
                crate::child::set_op(&format!("op {} queries", ld.op));
                let (ad, q) = (&**ad, &c.queries);
                sim.tasks(&Policy::Explicit(vec![]), vec![Box::new(move || poke(ad, q))]);
            }
            Err(e) => {
                sim.probe(&format!("damaged_load_{}", e.0));
            }
        }
    });
    for (i, (k, b)) in c.texts.iter().enumerate() {
        crate::child::set_op(&format!("document {i} kind {k}"));
        let r = std::panic::catch_unwind(|| match k {
            0 => {
                let _ = Asr::parse(&b.0).map(|a| format!("{a:?}"));
            }
            1 => {
                let _ = parse_isec_txt(&b.0).map(|a| a.to_string());
            }
            2 => {
                let _ = serde_json::from_slice::<vatsim_parser::squawks::SquawksJson>(&b.0);
            }
            _ => {
                if let Ok(s) = Sct::parse(&b.0) {
                    let t = s.to_string();
                    let _ = Sct::parse(t.as_bytes());
                }
            }
        });
        if r.is_err() {
            crate::child::fatal("panic", &crate::child::last_panic());
        }
    }
    rep.nontrivial = true;
    rep
}

// ------------------------------------------------------------------ P02 P03 same bytes, same result

fn gen_same(r: &mut Rng, size: usize, faulty: bool) -> Value {
    let n = if r.chance(0.35) { r.range(1, 2) as usize } else { 0 };
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, n);
    if r.chance(0.35) {
        // two of the same plugin: whichever it takes, always the same
        for f in ["TopSky.dll", "Squawks.dll"] {
            s.layout.extra.push(("Plugins".into(), format!("Plugin{}", r.idx(20)), format!("\\EDMM\\Plugins\\Old\\{f}")));
        }
    }
    for k in 0..1 + usize::from(r.chance(0.4)) {
        let mut p = gen_pack(r, size.min(10));
        if let (Some(was), true) = (s.packs.last(), r.chance(0.4)) {
            p = crate::amend::amend(r, was, &p);
        }
        p.overlays = overlay_sources(r, n, if k == 0 { "a" } else { "b" });
        s.packs.push(p);
    }
    let roles = roles_of(&s);
    let mut all = roles.clone();
    all.extend([Role::Prf, Role::Toml]);
    let api = |r: &mut Rng| match r.idx(3) {
        0 => Api::Toml,
        1 if n > 0 => Api::Overlays,
        _ => Api::Prf,
    };
    for _ in 0..r.range(1, 3) {
        if r.chance(0.35) {
            let role = *r.pick(&all);
            let b = s.packs[0].bytes(&s.layout, role).unwrap_or_default();
            let o = s.packs[s.packs.len() - 1].bytes(&s.layout, role).unwrap_or_default();
            s.ops.push(Op::Apply(RAct::Raw(role, Bytes(damage(r, &b, &o)))));
        } else if r.chance(0.2) {
            s.ops.push(Op::Apply(RAct::Remove(*r.pick(&all))));
        }
        let a = api(r);
        // the reference: one reader, nothing goes wrong
        s.ops.push(Op::Load { loaders: vec![a], faults: vec![], events: vec![], policy: gen_policy(r) });
        for _ in 0..r.range(1, 2) {
            if r.chance(0.5) {
                s.ops.push(Op::Crash(r.u64()));
            }
            let k = r.range(1, 3) as usize;
            let loaders = (0..k).map(|_| if r.chance(0.8) { a } else { api(r) }).collect();
            let faults = if faulty {
                let mut f = gen_transient(r, &all);
                if r.chance(0.5) {
                    f.extend(gen_transient(r, &all));
                }
                f
            } else {
                vec![]
            };
            s.ops.push(Op::Load { loaders, faults, events: vec![], policy: gen_policy(r) });
        }
        if s.packs.len() > 1 && r.chance(0.5) {
            s.ops.push(Op::Install(r.idx(2)));
        }
    }
    serde_json::to_value(&s).unwrap()
}
/// what decides a result: what is asked for, and what is on the disk
fn situation(ld: &Loaded) -> u64 {
    interpose::with(|o| {
        let mut k = format!("{:?} {}", ld.api, o.cwd);
        for f in o.files() {
            k.push_str(&format!("\n{f} {:x}", hash_bytes(&o.get(&f).unwrap_or_default())));
        }
        hash_bytes(k.as_bytes())
    })
}
type Outcome1 = Result<Value, (String, String)>;
fn outcome(ld: &Loaded) -> Outcome1 {
    match &ld.res {
        Ok(ad) => Ok(content::canonical(&serde_json::to_value(ad).expect("serialise"))),
        Err(e) => Err(e.clone()),
    }
}
/// what a process reads that has loaded nothing before: the same history without its other loads
fn unspoilt(s: &Scenario, at: usize) -> Option<(u64, Outcome1)> {
    let mut t = s.clone();
    t.ops.truncate(at + 1);
    let last = t.ops.pop()?;
    t.ops.retain(|o| !matches!(o, Op::Load { .. }));
    t.ops.push(last);
    let out = crate::child::run_forked(
        || {
            let mut note = String::new();
            let mut rep = Sim::new(&t).drive(|_, ld| {
                note = serde_json::to_string(&(situation(&ld), outcome(&ld))).unwrap_or_default();
            });
            rep.note = note;
            rep.log.clear();
            rep
        },
        20,
    );
    match out {
        crate::child::Outcome::Report(r) => serde_json::from_str(&r.note).ok(),
        crate::child::Outcome::Died(_) => None,
    }
}
fn exec_same(v: &Value, class: &str) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    // in processes of their own, before this one loads anything
    let fresh: BTreeMap<usize, (u64, Outcome1)> = s
        .ops
        .iter()
        .enumerate()
        .filter(|(_, o)| matches!(o, Op::Load { loaders, faults, events, .. } if loaders.len() == 1 && faults.is_empty() && events.is_empty()))
        .filter_map(|(i, _)| Some((i, unspoilt(&s, i)?)))
        .collect();
    let mut seen: BTreeMap<u64, (usize, Outcome1)> = BTreeMap::new();
    let mut rep = Sim::new(&s).drive(|sim, ld| {
        let key = situation(&ld);
        let got = outcome(&ld);
        if let Some((k, want)) = fresh.get(&ld.op) {
            if *k == key {
                sim.probe("compared_with_a_fresh_process");
                let bad = match (want, &got) {
                    (Ok(a), Ok(b)) => content::diff("adaptation", a, b),
                    (Err(a), Err(b)) if a == b => None,
                    (a, b) => Some(format!("expected {:?}, got {:?}", a.as_ref().err(), b.as_ref().err())),
                };
                if let Some(m) = bad {
                    sim.fail(class, format!("a process that loaded nothing before reads something else: {m}"));
                    return;
                }
            }
        }
        let tag = match &got {
            Ok(v) => format!("{:x}", hash_bytes(v.to_string().as_bytes())),
            Err(e) => e.1.clone(),
        };
        sim.note(format!("load {} of {key:x}: {tag}", ld.loader));
        let Some((op, first)) = seen.get(&key) else {
            seen.insert(key, (ld.op, got));
            return;
        };
        sim.probe(if got.is_ok() { "repeated_ok" } else { "repeated_error" });
        let op = *op;
        let bad = match (first, &got) {
            (Ok(a), Ok(b)) => content::diff("adaptation", a, b),
            (Err(a), Err(b)) if a == b => None,
            (a, b) => Some(format!("expected {:?}, got {:?}", a.as_ref().err(), b.as_ref().err())),
        };
        if let Some(m) = bad {
            sim.fail(class, format!("loader {} got another result from the files op {op} read: {m}", ld.loader));
        }
    });
    if rep.probes.keys().any(|k| k.starts_with("repeated")) {
        rep.nontrivial = true;
    }
    rep
}

// ------------------------------------------------------------------ P04 mandatory files

fn gen_mandatory(r: &mut Rng, size: usize) -> Value {
    let n = if r.chance(0.3) { 1 } else { 0 };
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, n);
    let mut p = gen_pack(r, size.min(5));
    // applied, and without effect
    p.overlays = vec!["{}".into(); n];
    s.packs.push(p);
    let mut roles: Vec<Role> = s.layout.roles().into_iter().map(|x| x.0).filter(|r| r.mandatory()).collect();
    for _ in 0..r.range(2, 5) {
        r.shuffle(&mut roles);
        let k = if r.chance(0.75) { 1 } else { 2 };
        let mut faults = vec![];
        let mut undo = vec![];
        for role in roles.iter().take(k) {
            match r.idx(6) {
                0 => {
                    s.ops.push(Op::Apply(RAct::Remove(*role)));
                    undo.push(*role);
                }
                1 | 2 => {
                    s.ops.push(Op::Apply(RAct::Raw(*role, Bytes(r.pick(broken(*role)).to_vec()))));
                    undo.push(*role);
                }
                3 => faults.push(RFault { role: *role, nth: None, kind: FaultKind::OpenErr(*r.pick(&[2, 5, 13, 24, 40, 116])) }),
                4 => faults.push(RFault { role: *role, nth: None, kind: FaultKind::ReadErr { at: r.idx(200), errno: *r.pick(&[5, 21, 116]) } }),
                _ => {
                    let b = s.packs[0].bytes(&s.layout, Role::Prf).unwrap_or_default();
                    let t = String::from_utf8_lossy(&b).into_owned();
                    let keys = SETTINGS;
                    let k = *r.pick(keys);
                    let nl = if t.contains("\r\n") { "\r\n" } else { "\n" };
                    let t: Vec<&str> = t.lines().filter(|l| !l.starts_with(&format!("Settings\t{k}\t"))).collect();
                    s.ops.push(Op::Apply(RAct::Raw(Role::Prf, Bytes(format!("{}{nl}", t.join(nl)).into_bytes()))));
                    undo.push(Role::Prf);
                }
            }
        }
        if r.chance(0.3) {
            faults.extend(gen_transient(r, &roles));
        }
        let loaders = (0..1 + usize::from(r.chance(0.25)))
            .map(|_| match r.idx(3) {
                0 => Api::Toml,
                1 if n > 0 => Api::Overlays,
                _ => Api::Prf,
            })
            .collect();
        s.ops.push(Op::Load { loaders, faults, events: vec![], policy: gen_policy(r) });
        if r.chance(0.2) {
            s.ops.push(Op::Crash(r.u64()));
        }
        // repaired, sometimes one after the other
        r.shuffle(&mut undo);
        for u in undo {
            s.ops.push(Op::Apply(RAct::Replace(u, 0)));
            if r.chance(0.7) {
                s.ops.push(Op::Load { loaders: vec![if r.chance(0.5) { Api::Toml } else { Api::Prf }], faults: vec![], events: vec![], policy: gen_policy(r) });
            }
        }
    }
    serde_json::to_value(&s).unwrap()
}
const SETTINGS: &[&str] = &["sector", "airways", "airportcoords", "airlines", "aircraft", "airports", "SettingsfileSYMBOLOGY"];
fn error_kind(r: Role) -> &'static str {
    match r {
        Role::Sct => "Sct",
        Role::Ese => "Ese",
        Role::Airways => "Airways",
        Role::Symbology => "Symbology",
        Role::Airports => "Airports",
        Role::Nav => "NavdataAirports",
        Role::Aircraft => "Aircraft",
        Role::Airlines => "Airlines",
        Role::Prf => "Prf",
        Role::Toml => "TOML",
        _ => "Jsonnet",
    }
}
fn exec_mandatory(v: &Value) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let parts = all_parts();
    let mut rep = Sim::new(&s).drive(|sim, ld| {
        let faults = match &s.ops[ld.op] {
            Op::Load { faults, .. } => faults.clone(),
            _ => vec![],
        };
        // (variants, text the message must have, description)
        let mut why: Vec<(Vec<&str>, String, String)> = vec![];
        let with_overlays = ld.api != Api::Prf;
        for (role, path) in sim.paths.clone() {
            if !role.mandatory() || role == Role::Toml && ld.api != Api::Toml || matches!(role, Role::Overlay(_)) && !with_overlays {
                continue;
            }
            let file = path.rsplit('/').next().unwrap_or("").to_string();
            let io: Vec<&str> = match role {
                Role::Prf if ld.api != Api::Toml => vec!["Io", "Prf"],
                Role::Overlay(_) => vec!["FileRead", "Jsonnet"],
                _ => vec!["FileRead"],
            };
            let needle = match role {
                Role::Prf if ld.api != Api::Toml => String::new(),
                Role::Prf => sim.s.layout.prf_link.clone().and_then(|l| l.rsplit('/').next().map(String::from)).unwrap_or(file),
                _ => file,
            };
            let disk = interpose::with(|o| o.get(&path));
            match &disk {
                None => why.push((io.clone(), needle.clone(), format!("{role:?} is missing"))),
                Some(b) => {
                    if broken(role).contains(&&b[..]) {
                        why.push((vec![error_kind(role)], String::new(), format!("{role:?} is not valid")));
                    }
                    if role == Role::Prf {
                        let t = String::from_utf8_lossy(b).into_owned();
                        for k in SETTINGS {
                            if !t.contains(&format!("Settings\t{k}\t")) && !broken(role).contains(&&b[..]) {
                                why.push((vec!["Prf"], (*k).to_string(), format!("setting {k} is missing")));
                            }
                        }
                    }
                    for f in faults.iter().filter(|f| f.role == role) {
                        match f.kind {
                            FaultKind::OpenErr(_) => why.push((io.clone(), needle.clone(), format!("{role:?} cannot be opened"))),
                            FaultKind::ReadErr { at, .. } if at < b.len() => why.push((io.clone(), needle.clone(), format!("{role:?} cannot be read"))),
                            _ => {}
                        }
                    }
                }
            }
            // whatever else went wrong (an error right at the end of a file)
            for o in ld.opens.iter().filter(|o| o.path == path && o.read_errno != 0) {
                why.push((io.clone(), needle.clone(), format!("{role:?} read error {}", o.read_errno)));
            }
        }
        let list = || why.iter().map(|w| w.2.clone()).collect::<Vec<_>>().join(", ");
        match &ld.res {
            Ok(_) if !why.is_empty() => {
                sim.fail("silent", format!("loader {}: a load succeeded although {}", ld.loader, list()));
            }
            Ok(_) => {
                sim.probe("complete");
                judge(sim, &ld, &parts);
            }
            Err((k, m)) if why.is_empty() => {
                sim.fail("load-error", format!("loader {} failed although every mandatory file is fine: {k}: {m}", ld.loader));
            }
            Err((k, m)) => {
                sim.probe(&format!("failed_{k}"));
                if !why.iter().any(|w| w.0.contains(&k.as_str()) && m.contains(&w.1)) {
                    sim.fail("wrong-error", format!("loader {} reports {k}: {m}; but {}", ld.loader, list()));
                }
            }
        }
        let left = interpose::with(|o| o.open_fds());
        if left > 0 {
            sim.fail("leak", format!("{left} files are still open after the load"));
        }
    });
    rep.nontrivial = rep.probes.contains_key("complete") || rep.probes.len() > 1;
    rep
}

// ------------------------------------------------------------------ P05 optional files

const OPTIONAL: &[Role] = &[Role::Squawks, Role::TsSettings, Role::TsSymbols, Role::TsMaps];
fn gen_optional(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    for _ in 0..20 {
        s.layout = gen_layout(r, 0);
        if s.layout.squawks.is_some() && s.layout.topsky.is_some() {
            break;
        }
    }
    for _ in 0..2 {
        let mut p = gen_pack(r, size.min(8));
        if let (Some(was), true) = (s.packs.last(), r.chance(0.4)) {
            p = crate::amend::amend(r, was, &p);
        }
        s.packs.push(p);
    }
    for _ in 0..r.range(2, 5) {
        let mut faults = vec![];
        let mut events = vec![];
        let mut undo = vec![];
        for _ in 0..1 + usize::from(r.chance(0.3)) {
            let role = *r.pick(OPTIONAL);
            match r.idx(6) {
                0 => s.ops.push(Op::Apply(RAct::Remove(role))),
                1 | 2 => s.ops.push(Op::Apply(RAct::Raw(role, Bytes(r.pick(broken(role)).to_vec())))),
                3 => faults.push(RFault { role, nth: None, kind: FaultKind::OpenErr(*r.pick(&[2, 5, 13, 24, 116])) }),
                4 => faults.push(RFault { role, nth: None, kind: FaultKind::ReadErr { at: r.idx(200), errno: *r.pick(&[5, 21, 116]) } }),
                _ => events.push(REvent { at: r.below(80), act: RAct::Remove(role) }),
            }
            undo.push(role);
        }
        if r.chance(0.3) {
            events.extend(gen_events(r, &roles_of(&s), 2));
        }
        let loaders = (0..1 + usize::from(r.chance(0.25))).map(|_| if r.chance(0.3) { Api::Toml } else { Api::Prf }).collect();
        s.ops.push(Op::Load { loaders, faults, events, policy: gen_policy(r) });
        if r.chance(0.2) {
            s.ops.push(Op::Crash(r.u64()));
        }
        for u in undo {
            if r.chance(0.7) {
                s.ops.push(Op::Apply(RAct::Replace(u, r.idx(2))));
            }
        }
        if r.chance(0.5) {
            s.ops.push(Op::Load { loaders: vec![Api::Prf], faults: vec![], events: vec![], policy: gen_policy(r) });
        }
    }
    serde_json::to_value(&s).unwrap()
}
fn exec_optional(v: &Value) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let parts = all_parts();
    Sim::new(&s).drive(|sim, ld| {
        if let Err((k, m)) = &ld.res {
            sim.fail("not-optional", format!("loader {}: {k}: {m}; only optional files were lost", ld.loader));
        }
        judge(sim, &ld, &parts);
    })
}

// ------------------------------------------------------------------ P06 isolation

fn gen_isolation(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, 0);
    let n = r.range(2, 3) as usize;
    for _ in 0..n {
        let mut p = gen_pack(r, size.min(7));
        if let (Some(was), true) = (s.packs.last(), r.chance(0.5)) {
            p = crate::amend::amend(r, was, &p);
        }
        s.packs.push(p);
    }
    let roles = roles_of(&s);
    for _ in 0..r.range(1, 3) {
        let mut events = gen_events(r, &roles, n);
        match r.idx(4) {
            // a whole update while the readers are at it
            0 | 1 => {
                let v = r.idx(n);
                let mut order = roles.clone();
                r.shuffle(&mut order);
                let mut at = r.below(20);
                for role in order {
                    events.push(REvent { at, act: RAct::Replace(role, v) });
                    at += r.below(6);
                }
            }
            2 => {
                for _ in 0..8 {
                    events.extend(gen_events(r, &roles, n));
                }
            }
            _ => {}
        }
        let k = r.range(1, 3) as usize;
        let loaders = (0..k).map(|_| if r.chance(0.3) { Api::Toml } else { Api::Prf }).collect();
        let faults = if r.chance(0.3) { gen_transient(r, &roles) } else { vec![] };
        s.ops.push(Op::Load { loaders, faults, events, policy: gen_policy(r) });
        if r.chance(0.4) {
            s.ops.push(Op::Install(r.idx(n)));
        }
        if r.chance(0.2) {
            s.ops.push(Op::Crash(r.u64()));
        }
    }
    serde_json::to_value(&s).unwrap()
}
fn exec_isolation(v: &Value) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let parts = all_parts();
    let mut kept: Vec<(usize, Box<Adaptation>, u64)> = vec![];
    let print = |ad: &Adaptation| hash_bytes(content::canonical(&serde_json::to_value(ad).expect("serialise")).to_string().as_bytes());
    let mut rep = Sim::new(&s).drive(|sim, ld| {
        judge(sim, &ld, &parts);
        if let Ok(ad) = ld.res {
            let h = print(&ad);
            kept.push((ld.op, ad, h));
        }
    });
    // what was handed out earlier is not affected by what happened later
    for (op, ad, h) in &kept {
        if rep.violation.is_none() && print(ad) != *h {
            rep.violation = Some(crate::child::Violation { class: "changed-later".into(), msg: format!("the adaptation loaded by op {op} changed after it was returned") });
        }
    }
    rep
}

// ------------------------------------------------------------------ P29 no trace

fn gen_no_trace(r: &mut Rng, size: usize) -> Value {
    match r.idx(5) {
        0 => gen_same(r, size, true),
        1 => gen_mandatory(r, size),
        2 => gen_optional(r, size),
        3 => gen_isolation(r, size),
        _ => gen_focus(r, size.min(8), 0xff),
    }
}
fn exec_no_trace(v: &Value) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let env = || {
        let mut v: Vec<_> = std::env::vars_os().collect();
        v.sort();
        v
    };
    let before = env();
    let mut rep = Sim::new(&s).drive(|sim, ld| {
        let (changed, open, dirs) = interpose::with(|o| (o.changed.clone(), o.open_fds(), o.open_dirs));
        sim.probe(if ld.res.is_ok() { "looked_after_ok" } else { "looked_after_error" });
        if let Some((c, _)) = changed.first() {
            sim.fail("changes", format!("loading did more than read: {c}"));
        }
        if open + dirs > 0 {
            sim.fail("left-open", format!("{open} files and {dirs} directories are open after the load returned"));
        }
        if env() != before {
            sim.fail("environment", "the environment of the process changed".into());
        }
    });
    if rep.probes.keys().any(|k| k.starts_with("looked_after")) && rep.violation.is_none() && rep.fired.values().sum::<u64>() + rep.switches > 0 {
        rep.nontrivial = true;
    }
    rep
}

// ------------------------------------------------------------------ P07 paths

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PStep {
    Chdir(String),
    /// the link to the .prf is pointed at the other installation
    Retarget(bool),
    Load { api: Api, rel: bool, parse_in: Option<String>, look: String, spell: u8, split: bool, policy: Policy },
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct PathCase {
    pub s: Scenario,
    /// files that look right and are not: path, role index, version
    pub decoys: Vec<(String, usize, usize)>,
    /// the toml's way of naming the prf / overlays
    pub toml_spell: u8,
    pub steps: Vec<PStep>,
}
type Paths = Vec<(String, Option<PathBuf>)>;
fn other(l: &Layout) -> Layout {
    Layout { dir: format!("{} old", l.dir), ..l.clone() }
}
/// what overlay `i` of version `k` adds to the name
fn mark(i: usize, k: usize) -> String {
    format!("|o{i}v{k}")
}
fn gen_paths(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    let n = *r.pick(&[0usize, 0, 1, 2]);
    s.layout = gen_layout(r, n);
    if r.chance(0.5) {
        s.layout.prf_link = Some((*r.pick(&["/home/user/current.prf", "/es link.prf", "/work/es/p.prf"])).into());
    }
    for k in 0..3 {
        let mut p = gen_pack(r, size.min(4));
        for _ in 0..5 {
            if p.squawks.is_some() && p.ts_settings.is_some() && p.ts_maps.is_some() {
                break;
            }
            p = gen_pack(r, size.min(4));
        }
        p.overlays = (0..n).map(|i| format!("{{ name+: {} }}", serde_json::to_string(&mark(i, k)).unwrap())).collect();
        s.packs.push(p);
    }
    let roles = s.layout.roles();
    let l2 = other(&s.layout);
    let real: Vec<String> = roles.iter().chain(&l2.roles()).map(|x| canon(&x.1)).collect();
    let mut decoys = vec![];
    for (i, (role, path)) in roles.iter().enumerate() {
        if matches!(role, Role::Prf | Role::Toml) {
            continue;
        }
        let (d, f) = path.rsplit_once('/').unwrap_or(("", path));
        let tail = path.strip_prefix(&s.layout.dir).or_else(|| path.strip_prefix(&s.layout.toml_dir)).or_else(|| path.strip_prefix(&s.layout.cwd)).unwrap_or(path).to_string();
        let cand = [
            join(&s.layout.cwd, tail.trim_start_matches('/')),
            join(&s.layout.dir, tail.trim_start_matches('/')),
            join(&s.layout.toml_dir, tail.trim_start_matches('/')),
            join("/", tail.trim_start_matches('/')),
            join(&s.layout.dir, f),
            join(&s.layout.cwd, f),
            format!("{d}/../{f}"),
            format!("{d}/{}", f.to_lowercase()),
            format!("{d}/{}", f.to_uppercase()),
            format!("{d}/{f}.bak"),
            format!("{d}/{} ", f),
            match role {
                Role::Ese => format!("{}/{}.ese", d, f.split('.').next().unwrap_or("")),
                Role::Nav => format!("{d}/airports.txt"),
                Role::TsMaps => format!("{d}/TopSkyMapsLocal.txt"),
                Role::Squawks => format!("{d}/../squawks.json"),
                _ => format!("{d}/old/{f}"),
            },
            match role {
                Role::Ese => format!("{}.ese", s.layout.sct()),
                Role::TsSettings => format!("{d}/TopSkySettingsLocal.txt"),
                _ => format!("/home/user/{f}"),
            },
        ];
        for c in cand {
            let c = canon(&c);
            if r.chance(0.5) && !real.contains(&c) && !decoys.iter().any(|d: &(String, usize, usize)| d.0 == c) {
                decoys.push((c, i, 2));
            }
        }
    }
    let dirs = ["/", "/home/user", "/work", "/cfg", "/es", "/elsewhere/deep/dir"];
    let mut steps = vec![];
    for _ in 0..r.range(2, 5) {
        if r.chance(0.3) && s.layout.prf_link.is_some() {
            steps.push(PStep::Retarget(r.chance(0.5)));
        }
        if r.chance(0.5) {
            steps.push(PStep::Chdir((*r.pick(&dirs)).into()));
        }
        let api = if r.chance(0.4) { Api::Toml } else if n > 0 && r.chance(0.5) { Api::Overlays } else { Api::Prf };
        let split = r.chance(0.4);
        steps.push(PStep::Load {
            api,
            rel: r.chance(0.5),
            split,
            parse_in: if (api != Api::Toml || split) && r.chance(0.5) { Some((*r.pick(&dirs)).into()) } else { None },
            look: (*r.pick(&dirs)).into(),
            spell: r.idx(4) as u8,
            policy: gen_policy(r),
        });
    }
    serde_json::to_value(&PathCase { s, decoys, toml_spell: r.idx(3) as u8, steps }).unwrap()
}
fn respell(p: &str, spell: u8) -> String {
    match spell {
        1 => p.rsplit_once('/').map_or(format!("./{p}"), |(d, f)| format!("{d}/./{f}")),
        2 if p.starts_with('/') => format!("/work/..{p}"),
        3 => p.replace('/', "//"),
        _ => p.to_string(),
    }
}
fn exec_paths(v: &Value) -> Report {
    let c: PathCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let parts = all_parts();
    let mut sim = Sim::new(&c.s);
    let l = &c.s.layout;
    let l2 = other(l);
    let mut disk: BTreeMap<String, usize> = BTreeMap::new();
    let put = |sim: &mut Sim, disk: &mut BTreeMap<String, usize>, l: &Layout, role: Role, path: &str, v: usize| {
        let Some(p) = c.s.packs.get(v % c.s.packs.len().max(1)) else { return };
        let dir = path.rsplit_once('/').map_or("", |x| x.0).to_string();
        let _ = sim;
        interpose::with(|o| {
            o.mkdirs(&canon(&dir));
            match p.bytes(l, role) {
                Some(b) => {
                    o.put(path, &b);
                    disk.insert(path.to_string(), v);
                }
                None => {
                    o.remove(path);
                    disk.remove(path);
                }
            }
        });
    };
    let roles = l.roles();
    for d in ["/home/user", "/work", "/cfg", "/es", "/elsewhere/deep/dir"] {
        interpose::with(|o| o.mkdirs(d));
    }
    // directories every spelling of the other installation walks through
    for (_, p) in l2.roles() {
        let mut cur = String::new();
        for x in p.rsplit_once('/').map_or("", |x| x.0).split('/') {
            cur.push_str(x);
            cur.push('/');
            interpose::with(|o| o.mkdirs(&canon(&cur)));
        }
    }
    for (p, i, v) in &c.decoys {
        if let Some((role, _)) = roles.get(*i) {
            put(&mut sim, &mut disk, l, *role, p, *v);
        }
    }
    for (role, p) in l2.roles() {
        if role != Role::Toml {
            put(&mut sim, &mut disk, &l2, role, &canon(&p), 1);
        }
    }
    for (role, p) in &roles {
        if *role != Role::Toml {
            put(&mut sim, &mut disk, l, *role, &canon(p), 0);
        }
    }
    let named = l.prf_link.clone().unwrap_or_else(|| l.prf_path());
    let prf_text = match c.toml_spell {
        1 => relative(&l.toml_dir, &named),
        2 => format!("./{}", relative(&l.toml_dir, &named)),
        _ => named.clone(),
    };
    let seq = l.sequence();
    let whole = |i: &usize| l.overlays.get(*i).map(|o| join(&l.toml_dir, o));
    let ov_text: Vec<String> = seq
        .iter()
        .filter_map(|i| match c.toml_spell {
            1 => whole(i).map(|p| relative(&l.toml_dir, &p)),
            2 => whole(i),
            _ => l.overlays.get(*i).cloned(),
        })
        .collect();
    interpose::with(|o| {
        o.mkdirs(&canon(&l.toml_dir));
        let q = |x: &str| serde_json::to_string(x).unwrap();
        o.put(&canon(&l.toml_path()), format!("prf = {}\noverlays = [{}]\n", q(&prf_text), ov_text.iter().map(|x| q(x)).collect::<Vec<_>>().join(",\n  ")).as_bytes());
    });
    let mut second = false;
    for (i, st) in c.steps.iter().enumerate() {
        sim.op = i;
        match st {
            PStep::Chdir(d) => {
                interpose::with(|o| {
                    o.cwd = canon(d);
                    o.fire("chdir");
                });
            }
            PStep::Retarget(to) => {
                second = *to;
                let t = if second { l2.prf_path() } else { l.prf_path() };
                if let Some(link) = &l.prf_link {
                    interpose::with(|o| {
                        o.symlink(link, &t);
                        o.fire("symlink_retarget");
                    });
                }
            }
            PStep::Load { api, rel, parse_in, look, spell, split, policy } => {
                let active = if second && l.prf_link.is_some() { &l2 } else { l };
                let first = interpose::with(|o| {
                    o.arm(&[], &[]);
                    o.opens.len()
                });
                let here = interpose::with(|o| o.cwd.clone());
                let slot: std::sync::Mutex<Option<(Result<Box<Adaptation>, (String, String)>, Option<(Paths, Paths)>)>> = std::sync::Mutex::new(None);
                let base = parse_in.clone().unwrap_or_else(|| if *api == Api::Toml && !split { l.cwd.clone() } else { here.clone() });
                let target = if *api == Api::Toml { l.toml_path() } else { named.clone() };
                let arg = if *rel { respell(&relative(&base, &target), *spell) } else { respell(&target, *spell) };
                crate::child::set_op(&format!("step {i} load"));
                {
                    let (slot, arg, base) = (&slot, &arg, &base);
                    let ov_paths: Vec<String> = seq.iter().filter_map(whole).map(|p| if l.rel_overlays { relative(&l.cwd, &p) } else { p }).collect();
                    let cwd = canon(&l.cwd);
                    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                        let err = |e: vatsim_parser::adaptation::AdaptationError| (variant(&e), e.to_string());
                        let chdir = |d: &str| interpose::with(|o| o.cwd = canon(d));
                        chdir(base);
                        let out = if *api == Api::Toml && *split {
                            match AdaptationSetup::parse(Path::new(arg)) {
                                Err(e) => (Err(err(e)), None),
                                Ok(setup) => {
                                    chdir(&cwd);
                                    let prf = std::fs::read(&setup.prf).map_err(|e| e.to_string()).and_then(|b| Prf::parse(&setup.prf, &b).map_err(|e| e.to_string()));
                                    (prf.map_err(|e| ("Prf".to_string(), e)).and_then(|prf| Adaptation::from_prf_with_overlays(&prf, setup.overlays.iter()).map(Box::new).map_err(err)), None)
                                }
                            }
                        } else if *api == Api::Toml {
                            chdir(&cwd);
                            (Adaptation::from_adaptation_toml(&Path::new(arg)).map(Box::new).map_err(err), None)
                        } else {
                            match std::fs::read(arg).map_err(|e| e.to_string()).and_then(|b| Prf::parse(Path::new(arg), &b).map_err(|e| e.to_string())) {
                                Err(e) => (Err(("Prf".into(), e)), None),
                                Ok(prf) => {
                                    let getters = || {
                                        let mut g = vec![
                                        ("sct".to_string(), Some(prf.sct_path())),
                                        ("ese".into(), Some(prf.ese_path())),
                                        ("airways".into(), Some(prf.airways_path())),
                                        ("isec".into(), Some(prf.isec_path())),
                                        ("airport coordinates".into(), Some(prf.navdata_airports_path())),
                                        ("airlines".into(), Some(prf.airlines_path())),
                                        ("aircraft".into(), Some(prf.aircraft_path())),
                                        ("airports".into(), Some(prf.airports_path())),
                                        ("symbology".into(), Some(prf.symbology_path())),
                                        ("squawks".into(), prf.squawks_path()),
                                        ("topsky".into(), prf.topsky_path()),
                                    ];
                                    for k in 0..12u8 {
                                        g.push((format!("recent {k}"), prf.recent_path(k)));
                                    }
                                        g
                                    };
                                    chdir(look);
                                    let elsewhere = getters();
                                    // the process has moved on
                                    chdir(&cwd);
                                    let g = getters();
                                    let ad = if *api == Api::Overlays {
                                        Adaptation::from_prf_with_overlays(&prf, ov_paths.iter())
                                    } else {
                                        Adaptation::from_prf(&prf)
                                    };
                                    (ad.map(Box::new).map_err(err), Some((g, elsewhere)))
                                }
                            }
                        };
                        *slot.lock().unwrap() = Some(out);
                    });
                    sim.tasks(policy, vec![f]);
                }
                interpose::with(|o| o.cwd = canon(&here));
                let opens: Vec<String> = interpose::with(|o| o.opens[first..].iter().map(|o| o.path.clone()).collect());
                sim.report.states.push(hash_bytes(opens.join(" ").as_bytes()));
                let Some((res, getters)) = slot.into_inner().unwrap() else {
                    sim.fail("load-error", "no result".into());
                    break;
                };
                if let Some((g, elsewhere)) = getters {
                    sim.probe("getters");
                    let moved = Layout { cwd: look.clone(), ..active.clone() };
                    let dirname = |p: &str| p.rsplit_once('/').map_or(String::new(), |x| x.0.to_string());
                    for (active, (n, got)) in g.into_iter().map(|x| (active, x)).chain(elsewhere.into_iter().map(|x| (&moved, x))) {
                        let want: Option<String> = match n.as_str() {
                            "sct" => Some(active.sct()),
                            "ese" => Some(active.ese()),
                            "airways" => Some(active.resolve(&active.airways)),
                            "isec" => Some(format!("{}/isec.txt", dirname(&active.resolve(&active.airways)))),
                            "airport coordinates" => Some(active.resolve(&active.nav)),
                            "airlines" => Some(active.resolve(&active.airlines)),
                            "aircraft" => Some(active.resolve(&active.aircraft)),
                            "airports" => Some(active.resolve(&active.airports)),
                            "symbology" => Some(active.resolve(&active.symbology)),
                            "squawks" => active.squawks.as_ref().map(|s| format!("{}/squawks.json", active.plugin_dir(s))),
                            "topsky" => active.topsky.as_ref().map(|s| active.plugin_dir(s)),
                            n => {
                                let k: u8 = n.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                                active.recent.iter().find(|x| x.0 == k).map(|x| active.resolve(&x.1))
                            }
                        };
                        let w = want.map(|p| canon(&p));
                        let got = got.map(|p| canon(&p.display().to_string()));
                        if w != got {
                            sim.fail("path", format!("path of {n}: expected {w:?}, got {got:?}"));
                        }
                    }
                }
                if *api != Api::Prf {
                    sim.probe("overlays");
                }
                // what the load has to have read: whatever is at the place the profile names
                let mut want = c.s.packs[0].clone();
                let mut marks: BTreeMap<usize, String> = BTreeMap::new();
                for (role, p) in active.roles() {
                    if matches!(role, Role::Prf | Role::Toml) {
                        continue;
                    }
                    match disk.get(&canon(&p)) {
                        Some(v) => {
                            if let Role::Overlay(i) = role {
                                marks.insert(i, mark(i, *v));
                            }
                            want.adopt(role, &c.s.packs[*v % c.s.packs.len()]);
                        }
                        None => match role {
                            Role::Squawks => want.squawks = None,
                            Role::TsSettings => want.ts_settings = None,
                            Role::TsSymbols => want.ts_symbols = None,
                            Role::TsMaps => want.ts_maps = None,
                            _ => {}
                        },
                    }
                }
                if *api != Api::Prf {
                    for i in &seq {
                        want.sct.name.push_str(marks.get(i).map_or("", |m| m));
                    }
                }
                match res {
                    Err(e) => sim.fail("load-error", format!("load of {arg:?} from {base} failed: {}: {}", e.0, e.1)),
                    Ok(ad) => {
                        sim.loads_ok += 1;
                        let v = serde_json::to_value(&ad).expect("serialise");
                        sim.note(format!("load {i} ok {:016x}", hash_bytes(content::canonical(&v).to_string().as_bytes())));
                        for p in &parts {
                            if let Some(m) = content::part(p)(active, &want, &v) {
                                sim.fail(&format!("mismatch:{p}"), format!("load of {arg:?}: {m}; files read: {opens:?}"));
                                break;
                            }
                        }
                    }
                }
                if sim.report.violation.is_some() {
                    break;
                }
            }
        }
    }
    let mut rep = sim.finish();
    rep.nontrivial = true;
    rep
}

pub const DEFS: &[Def] = &[
    Def {
        id: "P01",
        gen: gen_damage,
        exec: exec_damage,
        cpu: 20,
        rule: "a run is a history of loads, queries and stand-alone reads over files that were damaged (bit flips, truncation, lost, repeated and mixed lines and blocks, absurd numbers, foreign characters), lost or torn while being read; every run is non-trivial; distinct = distinct execution trace hashes",
        ..BASE
    },
    Def { id: "P02", gen: |r, n| gen_same(r, n, false), exec: |v| exec_same(v, "nondeterministic"), ..BASE },
    Def { id: "P03", gen: |r, n| gen_same(r, n, true), exec: |v| exec_same(v, "transient-fault-visible"), ..BASE },
    Def { id: "P04", gen: gen_mandatory, exec: exec_mandatory, ..BASE },
    Def { id: "P05", gen: gen_optional, exec: exec_optional, ..BASE },
    Def { id: "P06", gen: gen_isolation, exec: exec_isolation, ..BASE },
    Def { id: "P07", gen: gen_paths, exec: exec_paths, ..BASE },
    Def { id: "P29", gen: gen_no_trace, exec: exec_no_trace, ..BASE },
];
