//! What happens to an adaptation after it was loaded: spatial queries, copies, overlays,
//! saving and restoring; and the same installation in other encodings.

use crate::child::{Report, Violation};
use crate::content::{canonical, diff};
use crate::hist::*;
use crate::interpose;
use crate::os::Bytes;
use crate::p_file::{drive, gen_asr_text, gen_fops, gen_isec_text, Doc, FOp};
use crate::props::*;
use crate::rng::{hash_bytes, Rng};
use crate::sched::{self, Policy};
use crate::world::*;
use geo::{BoundingRect, Contains, Coord, Line, LineString, Point, Polygon};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::adaptation::sectors::{Sector, Volume};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::Location;

// ------------------------------------------------------------------ P08 sector queries

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    /// a volume with these corners; the flag cuts a hole into it
    Volume { id: String, lower: u32, upper: u32, ring: Vec<(f64, f64)>, hole: bool },
    Levels { id: usize, lower: u32, upper: u32 },
    DropVolume(usize),
    Sector { id: String, volumes: Vec<usize>, owned: bool },
    Owned { id: usize, owned: bool },
    DropSector(usize),
    Assign { sector: usize, volume: usize },
    Move { id: usize, dx: f64, dy: f64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    /// load the installation again
    Load(Policy),
    Clone(usize),
    /// through JSON, as a client that saves and restores it
    Restore(usize),
    Mutate(usize, Vec<Mutation>),
    Rebuild(usize),
    /// a mutation made by an overlay
    Overlay(usize, Vec<Mutation>),
    Query { who: Vec<usize>, seed: u64, n: usize, policy: Policy },
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct SectorCase {
    pub s: Scenario,
    pub steps: Vec<QOp>,
}

fn ring(r: &mut Rng) -> Vec<(f64, f64)> {
    let (cx, cy) = (r.range(-20, 20) as f64 / 10.0 + 11.0, r.range(-20, 20) as f64 / 10.0 + 48.0);
    let s = *r.pick(&[0.1, 0.3, 0.3, 1.0, 5.0]);
    match r.idx(7) {
        0 | 1 => {
            let (w, h) = (s * r.range(1, 4) as f64, s * r.range(1, 4) as f64);
            vec![(cx, cy), (cx + w, cy), (cx + w, cy + h), (cx, cy + h)]
        }
        2 => vec![(cx, cy), (cx + s, cy + s * 2.0), (cx - s, cy + s)],
        // an L
        3 => vec![(cx, cy), (cx + 2.0 * s, cy), (cx + 2.0 * s, cy + s), (cx + s, cy + s), (cx + s, cy + 2.0 * s), (cx, cy + 2.0 * s)],
        // a star
        4 => (0..10)
            .map(|i| {
                let a = f64::from(i) * std::f64::consts::PI / 5.0;
                let d = if i % 2 == 0 { s } else { s * 0.3 };
                (cx + d * a.cos(), cy + d * a.sin())
            })
            .collect(),
        5 => (0..r.range(3, 9)).map(|_| (cx + s * (r.f() - 0.5), cy + s * (r.f() - 0.5))).collect(),
        // nothing inside
        _ => match r.idx(3) {
            0 => vec![],
            1 => vec![(cx, cy)],
            _ => vec![(cx, cy), (cx + s, cy)],
        },
    }
}
fn levels(r: &mut Rng) -> (u32, u32) {
    let a = *r.pick(&[0u32, 0, 2500, 10_000, 24_500, 28_500, 66_000]);
    let b = *r.pick(&[2500u32, 10_000, 24_500, 28_500, 66_000, u32::MAX]);
    (a, b)
}
fn mutation(r: &mut Rng) -> Mutation {
    match r.idx(12) {
        0..=3 => {
            let (lower, upper) = levels(r);
            Mutation::Volume { id: format!("V{}", r.idx(8)), lower, upper, ring: ring(r), hole: r.chance(0.15) }
        }
        4 => {
            let (lower, upper) = levels(r);
            Mutation::Levels { id: r.idx(16), lower, upper }
        }
        5 => Mutation::DropVolume(r.idx(16)),
        6 | 7 => Mutation::Sector { id: format!("{}{}", r.pick(&["S", "A", "EDMM"]), r.idx(6)), volumes: (0..r.range(0, 4)).map(|_| r.idx(16)).collect(), owned: r.chance(0.8) },
        8 => Mutation::Owned { id: r.idx(16), owned: r.chance(0.5) },
        9 => Mutation::DropSector(r.idx(16)),
        10 => Mutation::Assign { sector: r.idx(16), volume: r.idx(16) },
        _ => Mutation::Move { id: r.idx(16), dx: r.range(-10, 10) as f64 / 10.0, dy: r.range(-10, 10) as f64 / 10.0 },
    }
}
fn gen_sectors(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, 0);
    let mut p = gen_pack_focus(r, 1, ESE);
    p.ese = crate::pack::gen_ese(r, size);
    p.ts_maps = None;
    p.sct = crate::pack::gen_sct(r, 1);
    s.packs.push(p);
    let mut steps = vec![QOp::Load(gen_policy(r))];
    for _ in 0..r.range(4, 12) {
        let i = r.idx(8);
        let muts = |r: &mut Rng| {
            let n = r.range(1, 14);
            (0..n).map(|_| mutation(r)).collect::<Vec<_>>()
        };
        steps.push(match r.idx(12) {
            0 => QOp::Clone(i),
            1 | 2 => QOp::Restore(i),
            3..=5 => QOp::Mutate(i, muts(r)),
            6 => QOp::Rebuild(i),
            7 => QOp::Overlay(i, muts(r)),
            8 if r.chance(0.2) => QOp::Load(gen_policy(r)),
            _ => query(r),
        });
        if r.chance(0.6) {
            steps.push(query(r));
        }
    }
    steps.push(query(r));
    serde_json::to_value(SectorCase { s, steps }).unwrap()
}
fn query(r: &mut Rng) -> QOp {
    let k = if r.chance(0.5) { 1 } else { r.range(2, 4) as usize };
    let same = r.chance(0.6);
    let a = r.idx(8);
    QOp::Query { who: (0..k).map(|_| if same { a } else { r.idx(8) }).collect(), seed: r.u64(), n: r.range(5, 40) as usize, policy: Policy::Random { seed: r.u64(), gap: *r.pick(&[3, 20, 200, 2000]) } }
}

fn nth<'a, V>(m: impl IntoIterator<Item = (&'a String, V)>, i: usize) -> Option<String> {
    let mut k: Vec<&String> = m.into_iter().map(|x| x.0).collect();
    k.sort();
    if k.is_empty() {
        None
    } else {
        Some(k[i % k.len()].clone())
    }
}
fn mutate(ad: &mut Adaptation, m: &Mutation) {
    match m {
        Mutation::Volume { id, lower, upper, ring, hole } => {
            let line: LineString = ring.iter().map(|p| Coord { x: p.0, y: p.1 }).collect();
            let mut v = Volume::new(id.clone(), *lower, *upper, line);
            if *hole && ring.len() > 3 {
                if let Some(b) = v.lateral_border.bounding_rect() {
                    let c = b.center();
                    let (w, h) = (b.width() / 8.0, b.height() / 8.0);
                    let inner: LineString = vec![(c.x - w, c.y - h), (c.x - w, c.y + h), (c.x + w, c.y + h), (c.x + w, c.y - h), (c.x - w, c.y - h)].into();
                    v.lateral_border = Polygon::new(v.lateral_border.exterior().clone(), vec![inner]);
                }
            }
            ad.volumes.insert(id.clone(), v);
        }
        Mutation::Levels { id, lower, upper } => {
            if let Some(k) = nth(&ad.volumes, *id) {
                let v = ad.volumes.get_mut(&k).unwrap();
                (v.lower_level, v.upper_level) = (*lower, *upper);
            }
        }
        Mutation::DropVolume(i) => {
            if let Some(k) = nth(&ad.volumes, *i) {
                ad.volumes.remove(&k);
            }
        }
        Mutation::Sector { id, volumes, owned } => {
            let vs = volumes.iter().filter_map(|i| nth(&ad.volumes, *i)).chain(["no such volume".to_string()]).collect();
            ad.sectors.0.insert(
                id.clone(),
                Sector {
                    id: id.clone(),
                    position_priority: if *owned { vec!["ZUG".into()] } else { vec![] },
                    runway_filter: vec![],
                    volumes: vs,
                    departure_aerodromes: Default::default(),
                    arrival_aerodromes: Default::default(),
                },
            );
        }
        Mutation::Owned { id, owned } => {
            if let Some(k) = nth(&ad.sectors, *id) {
                ad.sectors.0.get_mut(&k).unwrap().position_priority = if *owned { vec!["TEG".into(), "ZUG".into()] } else { vec![] };
            }
        }
        Mutation::DropSector(i) => {
            if let Some(k) = nth(&ad.sectors, *i) {
                ad.sectors.0.remove(&k);
            }
        }
        Mutation::Assign { sector, volume } => {
            if let (Some(s), Some(v)) = (nth(&ad.sectors, *sector), nth(&ad.volumes, *volume)) {
                ad.sectors.0.get_mut(&s).unwrap().volumes.insert(v);
            }
        }
        Mutation::Move { id, dx, dy } => {
            if let Some(k) = nth(&ad.volumes, *id) {
                let v = ad.volumes.get_mut(&k).unwrap();
                let ring: LineString = v.lateral_border.exterior().coords().map(|c| Coord { x: c.x + dx, y: c.y + dy }).collect();
                v.lateral_border = Polygon::new(ring, vec![]);
            }
        }
    }
}

type Row = (String, String, u32, u32);
/// the airspace a query is answered from, read off by a plain scan
struct Scan<'a>(Vec<(&'a str, &'a Volume)>);
impl<'a> Scan<'a> {
    fn new(ad: &'a Adaptation) -> Self {
        Scan(
            ad.sectors
                .0
                .values()
                .filter(|s| !s.position_priority.is_empty())
                .flat_map(|s| s.volumes.iter().filter_map(|v| ad.volumes.get(v)).map(|v| (s.id.as_str(), v)))
                .collect(),
        )
    }
    fn row(e: (&str, &Volume)) -> Row {
        (e.0.to_string(), e.1.id.clone(), e.1.lower_level, e.1.upper_level)
    }
    fn at(&self, p: Point) -> Vec<Row> {
        let mut v: Vec<Row> = self.0.iter().filter(|e| e.1.lateral_border.contains(&p)).map(|e| Self::row(*e)).collect();
        v.sort();
        v
    }
    fn near(&self, l: Line) -> Vec<Row> {
        let b = l.bounding_rect();
        let mut v: Vec<Row> = self
            .0
            .iter()
            .filter(|e| {
                e.1.lateral_border.bounding_rect().is_some_and(|x| {
                    x.min().x <= b.max().x && x.max().x >= b.min().x && x.min().y <= b.max().y && x.max().y >= b.min().y
                })
            })
            .map(|e| Self::row(*e))
            .collect();
        v.sort();
        v
    }
    fn sector(&self, p: Point, level: f32) -> Option<&'a str> {
        self.0
            .iter()
            .filter(|e| e.1.lateral_border.contains(&p) && level >= e.1.lower_level as f32 && level < e.1.upper_level as f32)
            .map(|e| e.0)
            .min()
    }
}
fn spots(ad: &Adaptation, r: &mut Rng, n: usize) -> Vec<(Point, Point, f32)> {
    let mut ids: Vec<&String> = ad.volumes.keys().collect();
    ids.sort();
    let spot = |r: &mut Rng| -> (Point, f32) {
        let v = if ids.is_empty() { None } else { Some(&ad.volumes[*r.pick(&ids)]) };
        let Some(v) = v else { return (Point::new(11.0, 48.0), 5000.0) };
        let c: Vec<Coord> = v.lateral_border.exterior().coords().copied().collect();
        let b = v.lateral_border.bounding_rect();
        let p = match (r.idx(8), b) {
            (_, None) => Point::new(r.range(-180, 180) as f64, r.range(-90, 90) as f64),
            (0, _) => Point::from(*r.pick(&c)),
            (1, _) => {
                let (x, y) = (r.pick(&c), r.pick(&c));
                Point::new((x.x + y.x) / 2.0, (x.y + y.y) / 2.0)
            }
            (2, Some(b)) => Point::new(*r.pick(&[b.min().x, b.max().x, b.center().x]), *r.pick(&[b.min().y, b.max().y, b.center().y])),
            (3, Some(b)) => Point::new(b.min().x - r.f() * 0.01, b.center().y),
            (4, _) => Point::new(r.range(-180, 180) as f64, r.range(-90, 90) as f64),
            (_, Some(b)) => Point::new(b.min().x + b.width() * r.f(), b.min().y + b.height() * r.f()),
        };
        let (lo, hi) = (v.lower_level as f32, v.upper_level as f32);
        let l = match r.idx(9) {
            0 | 1 => lo,
            2 => lo - 1.0,
            3 => hi,
            4 => hi - 1.0,
            5 => (lo + hi) / 2.0,
            6 => lo + 0.5,
            7 => *r.pick(&[-1.0, 0.0, 1e9, f32::NAN, 4_294_967_040.0]),
            _ => r.range(0, 660) as f32 * 100.0,
        };
        (p, l)
    };
    (0..n)
        .map(|_| {
            let (a, l) = spot(r);
            let (b, _) = spot(r);
            (a, if r.chance(0.2) { a } else { b }, l)
        })
        .collect()
}
fn ask(ad: &Adaptation, spots: &[(Point, Point, f32)]) -> Option<String> {
    let scan = Scan::new(ad);
    let rows = |v: Vec<&(String, Volume)>| {
        let mut v: Vec<Row> = v.into_iter().map(|e| Scan::row((&e.0, &e.1))).collect();
        v.sort();
        v
    };
    for (p, b, level) in spots {
        let (want, got) = (scan.sector(*p, *level), ad.find_sector(*p, *level));
        if want != got {
            return Some(format!("sector at {p:?} level {level}: expected {want:?}, got {got:?}"));
        }
        let (want, got) = (scan.at(*p), rows(ad.volumes_at(*p).collect()));
        if want != got {
            return Some(format!("volumes at {p:?}: expected {want:?}, got {got:?}"));
        }
        let line = Line::new(*p, *b);
        let (want, got) = (scan.near(line), rows(ad.volumes_near_line(line).collect()));
        if want != got {
            return Some(format!("volumes near {line:?}: expected {want:?}, got {got:?}"));
        }
        // the volume handed out is the one of the adaptation
        for (s, v) in ad.volumes_at(*p) {
            if ad.volumes.get(&v.id).is_some_and(|x| x.lateral_border != v.lateral_border) {
                return Some(format!("volume {} of sector {s} has another border than the adaptation's", v.id));
            }
        }
    }
    None
}
/// the same mutations, as an overlay a client would write
fn as_overlay(ad: &Adaptation, ms: &[Mutation]) -> (String, Adaptation) {
    let mut after = ad.clone();
    for m in ms {
        mutate(&mut after, m);
    }
    let v = serde_json::to_value(&after).expect("serialise");
    (json!({ "volumes": v["volumes"], "sectors": v["sectors"] }).to_string(), after)
}
fn exec_sectors(v: &Value) -> Report {
    let c: SectorCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let mut sim = Sim::new(&c.s);
    sim.install(0);
    let mut pool: Vec<Adaptation> = vec![];
    for (i, st) in c.steps.iter().enumerate() {
        sim.op = i;
        crate::child::set_op(&format!("step {i}"));
        if sim.report.violation.is_some() {
            break;
        }
        let n = pool.len().max(1);
        match st {
            QOp::Load(policy) => {
                for ld in sim.load(&[Api::Prf], &[], &[], policy) {
                    match ld.res {
                        Ok(ad) => pool.push(*ad),
                        Err((k, m)) => sim.fail("load-error", format!("{k}: {m}")),
                    }
                }
            }
            QOp::Clone(k) => {
                if let Some(a) = pool.get(k % n) {
                    let a = a.clone();
                    pool.push(a);
                }
            }
            QOp::Restore(k) => {
                if let Some(a) = pool.get(k % n) {
                    let t = serde_json::to_vec(a).expect("serialise");
                    match serde_json::from_slice::<Adaptation>(&t) {
                        Ok(a) => {
                            sim.probe("restored");
                            pool.push(a);
                        }
                        Err(e) => sim.fail("restore", format!("a saved adaptation is rejected: {e}")),
                    }
                }
            }
            QOp::Mutate(k, ms) => {
                if let Some(a) = pool.get_mut(k % n) {
                    for m in ms {
                        mutate(a, m);
                    }
                    a.rebuild_sector_index();
                }
            }
            QOp::Rebuild(k) => {
                if let Some(a) = pool.get_mut(k % n) {
                    a.rebuild_sector_index();
                }
            }
            QOp::Overlay(k, ms) => {
                if let Some(a) = pool.get(k % n) {
                    let (text, _) = as_overlay(a, ms);
                    interpose::with(|o| o.put("/ov.jsonnet", text.as_bytes()));
                    let slot: Mutex<Option<Result<Adaptation, String>>> = Mutex::new(None);
                    let base = a.clone();
                    {
                        let slot = &slot;
                        sim.tasks(
                            &Policy::Random { seed: 1, gap: 5000 },
                            vec![Box::new(move || {
                                let r = base.apply_jsonnet_overlays(["/ov.jsonnet"].iter()).map_err(|e| e.to_string());
                                *slot.lock().unwrap() = Some(r);
                            })],
                        );
                    }
                    match slot.into_inner().unwrap() {
                        Some(Ok(a)) => {
                            sim.probe("overlaid");
                            pool.push(a);
                        }
                        Some(Err(e)) => sim.fail("overlay", format!("an overlay of airspace is rejected: {e}")),
                        None => {}
                    }
                }
            }
            QOp::Query { who, seed, n: q, policy } => {
                if pool.is_empty() {
                    continue;
                }
                let mut r = Rng::new(*seed);
                let asks: Vec<(&Adaptation, Vec<(Point, Point, f32)>)> = who
                    .iter()
                    .map(|k| {
                        let a = &pool[k % n];
                        (a, spots(a, &mut r, *q))
                    })
                    .collect();
                let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
                let tasks: Vec<Box<dyn FnOnce() + Send>> = asks
                    .iter()
                    .map(|(a, s)| {
                        let bad = &bad;
                        let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                            if let Some(m) = ask(a, s) {
                                sched::quiet(|| bad.lock().unwrap().push(m));
                            }
                        });
                        f
                    })
                    .collect();
                sim.tasks(policy, tasks);
                let made: Vec<String> = sim.report.made.last().map(|m| format!("{m:?}")).into_iter().collect();
                sim.report.states.push(hash_bytes(made.join("").as_bytes()));
                sim.probe("queried");
                if let Some(m) = bad.into_inner().unwrap().into_iter().next() {
                    sim.fail("query", m);
                }
            }
        }
        if pool.len() > 8 {
            pool.remove(0);
        }
    }
    let mut rep = sim.finish();
    rep.nontrivial = rep.probes.contains_key("queried") && c.steps.len() > 2;
    rep
}

// ------------------------------------------------------------------ P09 overlays

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ov {
    /// replaces the field
    Set(Vec<String>, Value),
    /// adds to the object (`+:` along the path)
    Add(Vec<String>, Value),
    /// `path: super… + text`
    Append(Vec<String>, String),
    /// everything from another overlay of the installation first
    Import(usize),
    /// raises an error when evaluated
    Error(String),
    Raw(String),
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct OvCase {
    pub s: Scenario,
    /// per version, per overlay
    pub ov: Vec<Vec<Vec<Ov>>>,
}
fn id(k: &str) -> String {
    let plain = k.chars().next().is_some_and(|c| c.is_ascii_lowercase()) && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    if plain && !["error", "local", "function", "if", "then", "else", "for", "in", "import", "importstr", "assert", "self", "super", "null", "true", "false", "tailstrict"].contains(&k) {
        k.to_string()
    } else {
        serde_json::to_string(k).unwrap()
    }
}
fn nest(path: &[String], last: &str, body: &str) -> String {
    let mut s = String::new();
    for p in &path[..path.len() - 1] {
        s.push_str(&format!("{}+: {{ ", id(p)));
    }
    s.push_str(&format!("{}{last} {body}", id(&path[path.len() - 1])));
    s.push_str(&" }".repeat(path.len() - 1));
    s
}
/// `super` at the place of the innermost field is that object already
fn overlay_text(items: &[Ov], names: &[String]) -> String {
    let parts: Vec<String> = items
        .iter()
        .map(|o| match o {
            Ov::Set(p, v) => format!("{{ {} }}", nest(p, ":", &v.to_string())),
            Ov::Add(p, v) => format!("{{ {} }}", nest(p, "+:", &v.to_string())),
            Ov::Append(p, t) => format!("{{ {} }}", nest(p, ":", &format!("super[{}] + {}", serde_json::to_string(&p[p.len() - 1]).unwrap(), serde_json::to_string(t).unwrap()))),
            Ov::Import(i) => format!("(import {})", serde_json::to_string(names.get(*i).map_or("none.jsonnet", |n| n)).unwrap()),
            Ov::Error(m) => format!("{{ name: error {} }}", serde_json::to_string(m).unwrap()),
            Ov::Raw(t) => t.clone(),
        })
        .collect();
    if parts.is_empty() {
        return "{}".into();
    }
    parts.join("\n+ ")
}
/// an error that is raised only if the field it is in survives
fn lazy(m: &str) -> Value {
    json!({ "$error": m })
}
fn is_lazy(v: &Value) -> bool {
    v.get("$error").is_some()
}
fn at_path<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Map<String, Value>> {
    let mut v = v;
    for k in p {
        if is_lazy(v) {
            return None;
        }
        if !v.is_object() {
            *v = lazy("adding to what is no object");
            return None;
        }
        // `+:` on something that is not there makes an object
        v = v.as_object_mut()?.entry(k.clone()).or_insert_with(|| json!({}));
    }
    if is_lazy(v) {
        return None;
    }
    if !v.is_object() {
        *v = lazy("adding to what is no object");
        return None;
    }
    v.as_object_mut()
}
/// the merge, on plain values; what is broken whatever follows goes to `errs`
fn overlay_model(v: &mut Value, items: &[Ov], all: &[Vec<Ov>], depth: usize, errs: &mut Vec<String>) {
    if depth > 4 {
        errs.push("recursive import".into());
        return;
    }
    for o in items {
        match o {
            Ov::Set(p, x) => {
                let Some((k, p)) = p.split_last() else { continue };
                if let Some(m) = at_path(v, p) {
                    m.insert(k.clone(), x.clone());
                }
            }
            Ov::Add(p, x) => {
                if let (Some(m), Some(x)) = (at_path(v, p), x.as_object()) {
                    for (k, x) in x {
                        m.insert(k.clone(), x.clone());
                    }
                }
            }
            Ov::Append(p, t) => {
                let Some((k, p)) = p.split_last() else { continue };
                if let Some(m) = at_path(v, p) {
                    let new = match m.get(k) {
                        Some(Value::String(s)) => json!(s.clone() + t),
                        Some(Value::Number(n)) => json!(format!("{n}{t}")),
                        Some(e) if is_lazy(e) => e.clone(),
                        _ => lazy("no such field"),
                    };
                    m.insert(k.clone(), new);
                }
            }
            Ov::Import(i) => match all.get(*i) {
                Some(x) => overlay_model(v, x, all, depth + 1, errs),
                None => errs.push("no such file".into()),
            },
            Ov::Error(m) => {
                if let Some(o) = v.as_object_mut() {
                    o.insert("name".into(), lazy(m));
                }
            }
            Ov::Raw(t) => errs.push(t.clone()),
        }
    }
}
fn survivors(v: &Value, errs: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            if let Some(e) = m.get("$error") {
                errs.push(e.as_str().unwrap_or("").to_string());
            }
            m.values().for_each(|x| survivors(x, errs));
        }
        Value::Array(l) => l.iter().for_each(|x| survivors(x, errs)),
        _ => {}
    }
}
fn path(s: &str) -> Vec<String> {
    s.split('/').map(String::from).collect()
}
fn time(r: &mut Rng) -> Value {
    // seconds, as the adaptation writes times
    json!(r.range(0, 40) as f64 * 60.0)
}
fn gen_ov(r: &mut Rng, j: usize, vols: &[String]) -> Ov {
    let word = |r: &mut Rng| (*r.pick(&["x", "Übung \"2\"", "a\\b", "", "line\nbreak", "{}", "日本"])).to_string();
    if !vols.is_empty() && r.chance(0.2) {
        // the airspace of the pack itself
        let v = r.pick(vols).clone();
        let at = |f: &str| vec!["volumes".to_string(), v.clone(), f.to_string()];
        return match r.idx(4) {
            0 => Ov::Set(at("upper_level"), json!(r.range(0, 700) * 100)),
            1 => Ov::Set(at("lower_level"), json!(r.range(0, 400) * 100)),
            2 => {
                let mut pts: Vec<Value> = ring(r).iter().map(|p| json!({ "x": p.0, "y": p.1 })).collect();
                if let Some(f) = pts.first().cloned() {
                    pts.push(f);
                }
                Ov::Set(at("lateral_border"), json!({ "exterior": pts, "interiors": [] }))
            }
            _ => Ov::Add(vec!["volumes".into(), v.clone()], json!({ "upper_level": 66_000, "lower_level": 0 })),
        };
    }
    match r.idx(22) {
        0 => Ov::Set(path("name"), json!(word(r))),
        1 | 2 => Ov::Append(path("name"), word(r)),
        3 => Ov::Add(path("settings/ssr/special_use_codes"), json!({ (*r.pick(&["7000", "1000", "0020"])): word(r) })),
        4 => Ov::Set(path("settings/ssr/special_use_codes"), json!({ "7500": "HJ" })),
        5 => Ov::Set(path("settings/track/vector/enabled"), json!(r.chance(0.5))),
        6 => Ov::Add(path("colours/other"), json!({ (*r.pick(&["coast", "new", "runway"])): format!("#{:06x}", r.below(1 << 24)) })),
        7 => Ov::Add(
            path("positions"),
            json!({ (*r.pick(&["XX", "ZUG", "GND"])): { "id": "XX", "name": word(r), "frequency": "123.450", "prefix": "EDMM", "suffix": "CTR", "visibility_points": [{ "x": 11.123_456_789_012_3, "y": -0.1 }] } }),
        ),
        // members of members that are (or, for XX, may be) there
        8 => Ov::Add(path("settings/ssr"), json!({ "special_use_codes": { "7000": "V" } })),
        9 => Ov::Append(path("positions/XX/frequency"), "5".into()),
        10 => Ov::Set(path(*r.pick(&["positions", "line_styles", "airlines", "departure_constraints", "sectors", "volumes"])), json!({})),
        11 => Ov::Add(path("line_styles"), json!({ "zz": null })),
        12 => {
            let mut t = json!({});
            for k in ["act_time", "abi_time", "rev_time"] {
                if r.chance(0.6) {
                    t[k] = time(r);
                } else {
                    t[k] = Value::Null;
                }
            }
            Ov::Add(path("settings/coordination/fir_overrides"), json!({ (*r.pick(&["LOVV", "EDUU", ""])): t }))
        }
        13 => Ov::Set(path(&format!("settings/coordination/{}", r.pick(&["act_time", "abi_time", "rev_time", "lam_timeout"]))), time(r)),
        14 | 15 => {
            let (lower, upper) = levels(r);
            let ring = ring(r);
            let mut pts: Vec<Value> = ring.iter().map(|p| json!({ "x": p.0, "y": p.1 })).collect();
            if let Some(f) = pts.first().cloned() {
                pts.push(f);
            }
            let k = format!("V{}", r.idx(4));
            Ov::Add(path("volumes"), json!({ (k.clone()): { "id": k, "lower_level": lower, "upper_level": upper, "lateral_border": { "exterior": pts, "interiors": [] }, "private": null } }))
        }
        16 => {
            let k = format!("{}{}", r.pick(&["A", "S"]), r.idx(3));
            Ov::Add(
                path("sectors"),
                json!({ (k.clone()): { "id": k, "position_priority": if r.chance(0.8) { vec!["XX"] } else { vec![] }, "runway_filter": [], "volumes": [format!("V{}", r.idx(4)), format!("V{}", r.idx(4) + 4)], "departure_aerodromes": [], "arrival_aerodromes": ["EDDM"] } }),
            )
        }
        17 => Ov::Set(path(&format!("volumes/V{}/upper_level", r.idx(4))), json!(66_000)),
        18 => Ov::Set(path(*r.pick(&["positions/XX/suffix", "airlines/DLH/callsign"])), json!(word(r))),
        19 => Ov::Set(path("symbols"), json!({ "__keep": true })),
        _ if j > 0 && r.chance(0.6) => Ov::Import(r.idx(j)),
        _ => Ov::Append(path("name"), word(r)),
    }
}
fn gen_bad(r: &mut Rng) -> Ov {
    match r.idx(10) {
        0 => Ov::Error("boom 4711".into()),
        1 => Ov::Raw("{ name: ".into()),
        2 => Ov::Set(path("name"), json!(3)),
        3 => Ov::Set(path("positions"), json!({ "XX": { "id": "XX" } })),
        4 => Ov::Set(path("settings/track/vector/enabled"), json!("yes")),
        5 => Ov::Raw("{ assert false : \"boom 4711\" }".into()),
        6 => Ov::Raw("(import \"no such file.jsonnet\")".into()),
        7 => Ov::Set(path("colours/other"), json!({ "x": "#12345" })),
        8 => Ov::Set(path("volumes"), Value::Null),
        _ => Ov::Raw("[1, 2]".into()),
    }
}
fn gen_overlays(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 3) as usize;
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, n);
    let versions = r.range(1, 3) as usize;
    let mut ov = vec![];
    let base = gen_pack(r, size.min(4));
    let vols: Vec<String> = crate::model::volumes(&base.ese).into_keys().collect();
    for k in 0..versions {
        let bad = if k > 0 && r.chance(0.4) || r.chance(0.1) { Some(r.idx(n)) } else { None };
        let list: Vec<Vec<Ov>> = (0..n)
            .map(|j| {
                let m = r.range(0, 4);
                let mut items: Vec<Ov> = (0..m).map(|_| gen_ov(r, j, &vols)).filter(|o| !matches!(o, Ov::Set(p, _) if p == &path("symbols"))).collect();
                if bad == Some(j) {
                    let at = r.idx(items.len() + 1);
                    items.insert(at, gen_bad(r));
                }
                items
            })
            .collect();
        let mut p = if r.chance(0.7) { base.clone() } else { gen_pack(r, size.min(4)) };
        p.overlays = list.iter().enumerate().map(|(k, i)| overlay_text(i, &names_from(&s.layout, k))).collect();
        s.packs.push(p);
        ov.push(list);
    }
    let roles: Vec<Role> = (0..n).map(Role::Overlay).collect();
    for _ in 0..r.range(1, 4) {
        if r.chance(0.6) {
            s.ops.push(Op::Install(r.idx(versions)));
        }
        if r.chance(0.1) {
            s.ops.push(Op::Crash(r.u64()));
        }
        let lost = r.chance(0.15);
        if lost {
            s.ops.push(Op::Apply(RAct::Remove(*r.pick(&roles))));
        }
        let faults = match r.idx(6) {
            0 | 1 => gen_transient(r, &roles),
            2 => gen_hard(r, &roles),
            _ => vec![],
        };
        let events = if r.chance(0.3) { gen_events(r, &roles, versions) } else { vec![] };
        let k = if r.chance(0.3) { 2 } else { 1 };
        // the base for comparison first, then the overlays
        let loaders = (0..k).map(|_| if r.chance(0.5) { Api::Toml } else { Api::Overlays }).collect();
        s.ops.push(Op::Load { loaders, faults, events, policy: gen_policy(r) });
        if lost {
            s.ops.push(Op::Install(r.idx(versions)));
        }
    }
    serde_json::to_value(OvCase { s, ov }).unwrap()
}
fn whole_names(l: &Layout) -> Vec<String> {
    l.overlays.iter().map(|o| join(&l.toml_dir, o)).collect()
}
/// how overlay `k` names the others: as seen from its own directory, or by the whole path
fn names_from(l: &Layout, k: usize) -> Vec<String> {
    let all = whole_names(l);
    let here = all.get(k).map_or(String::new(), |p| p.rsplit_once('/').map_or("", |x| x.0).to_string());
    all.iter().enumerate().map(|(i, p)| if (i + k + all.len()) % 2 == 0 { p.clone() } else { relative(&here, p) }).collect()
}
fn exec_overlays(v: &Value) -> Report {
    let mut c: OvCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let names = whole_names(&c.s.layout);
    let seq = c.s.layout.sequence();
    for (p, list) in c.s.packs.iter_mut().zip(&c.ov) {
        p.overlays = list.iter().enumerate().map(|(k, i)| overlay_text(i, &names_from(&c.s.layout, k))).collect();
    }
    if c.ov.len() != c.s.packs.len() {
        return invalid("versions");
    }
    let texts: Vec<Vec<Vec<u8>>> = c.s.packs.iter().map(|p| p.overlays.iter().map(|t| t.clone().into_bytes()).collect()).collect();
    let mut asks = Rng::new(c.s.lat_seed);
    let ov = c.ov.clone();
    let mut rep = Sim::new(&c.s).drive(|sim, ld| {
        // which text of each overlay was there while the load ran
        let n = names.len();
        let mut saw: Vec<Vec<Option<usize>>> = vec![vec![]; n];
        for (i, name) in names.iter().enumerate() {
            let path = canon(name);
            for o in ld.opens.iter().filter(|o| o.path == path) {
                if !o.ok || o.read_errno != 0 {
                    saw[i].push(None);
                    continue;
                }
                // texts of several versions may be the same, with other imports
                saw[i].extend((0..texts.len()).filter(|k| texts[*k].get(i).is_some_and(|t| *t == o.delivered)).map(Some));
            }
        }
        let lost = saw.iter().any(|s| s.contains(&None));
        let gone = |i: usize| ld.gone.contains(&Role::Overlay(i));
        let missing = (0..n).any(gone);
        // never found at all
        let certain = (0..n).any(|i| gone(i) && ld.never.contains(&Role::Overlay(i)));
        // the same files without overlays
        let base = {
            let kept = sim.installed.clone();
            let b = ld_base(sim);
            sim.installed = kept;
            b
        };
        let base_ad = base;
        let base = base_ad.as_ref().map_or(Value::Null, |a| serde_json::to_value(a).expect("serialise"));
        if ld.hard && ld.res.is_err() || lost || missing {
            if let Err((k, m)) = &ld.res {
                sim.probe("lost_overlay_reported");
                if !["Jsonnet", "FileRead"].contains(&k.as_str()) {
                    // a broken overlay elsewhere may have been met first
                    if k != "JSON" {
                        sim.fail("error-kind", format!("an overlay could not be read, reported as {k}: {m}"));
                    }
                }
            } else if (lost || missing) && ld.res.is_ok() && saw.iter().all(|s| !s.iter().any(Option::is_some)) {
                sim.fail("lost-overlay", "an overlay could not be read, the load succeeded".into());
            } else if certain {
                sim.fail("lost-overlay", "an overlay is missing, the load succeeded".into());
            }
            if !(ld.res.is_ok() && saw.iter().all(|s| s.iter().any(Option::is_some))) {
                return;
            }
        }
        // every combination of what was read
        let mut combos: Vec<Vec<usize>> = vec![vec![]];
        for s in &saw {
            let mut o: Vec<usize> = s.iter().flatten().copied().collect();
            o.dedup();
            if o.is_empty() {
                o = (0..ov.len()).collect();
            }
            combos = combos.into_iter().flat_map(|c| o.iter().map(move |k| [c.clone(), vec![*k]].concat())).take(32).collect();
        }
        let mut firsterr = None;
        let mut fine = false;
        for combo in combos {
            let all: Vec<Vec<Ov>> = combo.iter().enumerate().map(|(i, k)| ov[*k].get(i).cloned().unwrap_or_default()).collect();
            let mut want = base.clone();
            let mut errs = vec![];
            for o in seq.iter().filter_map(|i| all.get(*i)) {
                overlay_model(&mut want, o, &all, 0, &mut errs);
            }
            survivors(&want, &mut errs);
            // a merge that is no adaptation fails as well
            let valid = match errs.is_empty() {
                true => serde_json::from_value::<Adaptation>(want.clone()).map_err(|e| format!("JSON {e}")),
                false => Err(errs.join("; ")),
            };
            let bad = match (&valid, &ld.res) {
                (Ok(w), Ok(g)) => {
                    let (w, g) = (serde_json::to_value(w).expect("serialise"), serde_json::to_value(g).expect("serialise"));
                    diff("adaptation", &canonical(&w), &canonical(&g))
                }
                (Err(e), Err((k, m))) => {
                    let json = e.starts_with("JSON ");
                    if json && k != "JSON" || !json && k != "Jsonnet" && k != "JSON" {
                        Some(format!("error {k} ({m}) for {e}"))
                    } else if !errs.is_empty() && errs.iter().all(|e| e.contains("boom 4711")) && !m.contains("boom 4711") {
                        Some(format!("the overlay's own message is not in {m:?}"))
                    } else {
                        None
                    }
                }
                (Ok(_), Err((k, m))) => Some(format!("a valid merge failed: {k}: {m}")),
                (Err(e), Ok(_)) => Some(format!("the load succeeded though an overlay is broken ({e})")),
            };
            match bad {
                None => {
                    fine = true;
                    break;
                }
                Some(m) => {
                    firsterr.get_or_insert(m);
                }
            }
        }
        sim.probe(if ld.res.is_ok() { "merged" } else { "merge_rejected" });
        if !fine {
            sim.fail("merge", format!("loader {}: {}", ld.loader, firsterr.unwrap_or_default()));
            return;
        }
        if let Ok(ad) = &ld.res {
            if let Some(m) = base_ad.as_ref().and_then(|b| untouched(b, ad)) {
                sim.fail("untouched", m);
            }
            let s = spots(ad, &mut asks, 40);
            if let Some(m) = ask(ad, &s) {
                sim.fail("query", format!("after the overlays: {m}"));
            }
            for _ in 0..6 {
                if let Some(m) = coordination(ad, &mut asks) {
                    sim.fail("coordination", m);
                }
            }
        }
    });
    rep.nontrivial = rep.probes.keys().any(|k| k.starts_with("merge") || k.starts_with("lost"));
    rep
}
/// the base the overlays were applied to, from the files as they are now
fn ld_base(sim: &mut Sim) -> Option<Box<Adaptation>> {
    let (l, slot) = (&sim.s.layout, Mutex::new(None));
    {
        let slot = &slot;
        sim.tasks(&Policy::Random { seed: 5, gap: 5000 }, vec![Box::new(move || *slot.lock().unwrap() = Some(load(Api::Prf, l)))]);
    }
    let r = slot.into_inner().unwrap();
    r.and_then(Result::ok)
}
/// first difference between two values that must be the same to the last bit
fn exact(p: &str, want: &Value, got: &Value) -> Option<String> {
    if want == got {
        return None;
    }
    Some(diff(p, want, got).unwrap_or_else(|| deep(p, want, got)))
}
fn deep(p: &str, a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                if y.get(k) != Some(v) {
                    return deep(&format!("{p}.{k}"), v, y.get(k).unwrap_or(&Value::Null));
                }
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if v != w {
                    return deep(&format!("{p}[{i}]"), v, w);
                }
            }
        }
        _ => {}
    }
    format!("{p}: expected {a}, got {b}")
}
/// the timing in effect: constraint over FIR over global, field by field
pub fn coordination(ad: &Adaptation, r: &mut Rng) -> Option<String> {
    let c = &ad.settings.coordination;
    let mut firs: Vec<&str> = c.fir_overrides.keys().map(String::as_str).collect();
    firs.sort_unstable();
    firs.push("ZZZZ");
    let fir = if r.chance(0.8) { Some(*r.pick(&firs)) } else { None };
    let mut own = vatsim_parser::adaptation::settings::CoordinationTiming::default();
    let has = r.chance(0.6);
    for f in [&mut own.act_time, &mut own.abi_time, &mut own.rev_time] {
        if r.chance(0.5) {
            *f = Some(if r.chance(0.5) { c.act_time } else { c.rev_time + c.lam_timeout });
        }
    }
    let over = fir.and_then(|f| c.fir_overrides.get(f));
    let pick = |a: Option<_>, b: Option<_>, d| if has && a.is_some() { a.unwrap() } else { b.unwrap_or(d) };
    let want = (
        pick(own.act_time, over.and_then(|o| o.act_time), c.act_time),
        pick(own.abi_time, over.and_then(|o| o.abi_time), c.abi_time),
        pick(own.rev_time, over.and_then(|o| o.rev_time), c.rev_time),
    );
    let got = c.resolve(fir, if has { Some(&own) } else { None });
    if (got.act_time, got.abi_time, got.rev_time) != want {
        return Some(format!("timing for {fir:?} with {:?}: expected {want:?}, got {got:?}", if has { Some(own) } else { None }));
    }
    None
}

// ------------------------------------------------------------------ P10 saved adaptations

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct SavedCase {
    pub s: Scenario,
    pub ops: Vec<FOp>,
    /// spatial index first used by concurrent readers
    pub seed: u64,
}
struct Saved {
    ads: Vec<Adaptation>,
    vals: Vec<Value>,
    seed: u64,
}
fn plain(ad: &Adaptation) -> Value {
    canonical(&serde_json::to_value(ad).expect("serialise"))
}
impl Doc for Saved {
    type Got = Adaptation;
    fn text(&self, v: usize) -> Vec<u8> {
        serde_json::to_vec_pretty(&self.ads[v]).expect("serialise")
    }
    fn save(&self, v: usize, w: &mut dyn Write) -> Option<std::io::Result<()>> {
        Some(serde_json::to_writer(w, &self.ads[v]).map_err(std::io::Error::other))
    }
    fn read(b: &[u8]) -> Result<Adaptation, String> {
        if b.len() % 2 == 0 {
            serde_json::from_slice(b).map_err(|e| e.to_string())
        } else {
            serde_json::from_reader(b).map_err(|e| e.to_string())
        }
    }
    fn judge(&self, v: usize, _: bool, got: &Adaptation) -> Option<String> {
        let orig = &self.ads[v];
        if let Some(m) = diff("adaptation", &self.vals[v], &plain(got)) {
            return Some(m);
        }
        if let Some(m) = in_memory(orig, got) {
            return Some(m);
        }
        let mut r = Rng::new(self.seed ^ v as u64);
        // the first queries on the restored copy come from two threads
        let s = spots(orig, &mut r, 10);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        {
            let (bad, s) = (&bad, &s);
            let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..2)
                .map(|_| {
                    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                        let m = ask(got, s).or_else(|| same_answers(orig, got));
                        if m.is_some() {
                            sched::quiet(|| *bad.lock().unwrap() = m);
                        }
                    });
                    f
                })
                .collect();
            sched::run(&Policy::Random { seed: self.seed, gap: 50 }, tasks);
        }
        bad.into_inner().unwrap().map(|m| format!("restored: {m}"))
    }
    fn judge_torn(&self, got: &Adaptation) -> Option<String> {
        let g = plain(got);
        if self.vals.iter().any(|v| diff("adaptation", v, &g).is_none()) {
            None
        } else {
            Some("a torn file was taken for an adaptation".into())
        }
    }
}
/// fields compared without going through the serialised form
fn in_memory(a: &Adaptation, b: &Adaptation) -> Option<String> {
    let (mut x, mut y) = (crate::dbg::fields(a), crate::dbg::fields(b));
    x.remove("sector_index");
    y.remove("sector_index");
    diff("in memory", &Value::Object(x), &Value::Object(y))
}
/// what the overlays do not mention is the same in memory as well
fn untouched(base: &Adaptation, got: &Adaptation) -> Option<String> {
    let (x, y) = (crate::dbg::fields(base), crate::dbg::fields(got));
    let (v, w) = (plain(base), plain(got));
    x.iter().filter(|(k, _)| *k != "sector_index" && v[k.as_str()] == w[k.as_str()]).find_map(|(k, x)| diff(&format!("untouched {k}"), x, y.get(k).unwrap_or(&Value::Null)))
}
/// the restored copy answers as the original does
fn same_answers(a: &Adaptation, b: &Adaptation) -> Option<String> {
    let mut names: Vec<&String> = a.locations.fixes.iter_all().map(|x| x.0).collect();
    names.extend(a.locations.vors.iter_all().map(|x| x.0));
    names.extend(a.locations.ndbs.iter_all().map(|x| x.0));
    names.extend(a.locations.airports.keys());
    names.sort();
    names.dedup();
    let same = |x: Option<Point>, y: Option<Point>| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => (x.x() - y.x()).abs() < 1e-9 && (x.y() - y.y()).abs() < 1e-9,
        _ => false,
    };
    for n in &names {
        for q in [(*n).clone(), format!("{n}090010")] {
            let (x, y) = (a.locations.convert_designator(&q), b.locations.convert_designator(&q));
            if x.as_ref().map(|f| &f.designator) != y.as_ref().map(|f| &f.designator) || !same(x.map(|f| f.coordinate), y.map(|f| f.coordinate)) {
                return Some(format!("{q} is somewhere else"));
            }
            let l = Location::Fix(q.clone());
            if !same(a.locations.convert_location(&l), b.locations.convert_location(&l)) {
                return Some(format!("location {q} is somewhere else"));
            }
        }
        for c in a.colours.get(n, &a.settings).map(|c| (c.r, c.g, c.b)).into_iter() {
            if b.colours.get(n, &b.settings).map(|c| (c.r, c.g, c.b)) != Some(c) {
                return Some(format!("colour {n} differs"));
            }
        }
    }
    // positions at which the last bit may decide the rounding are no fair question
    let edge = |c: f64| ((c * 1e6).rem_euclid(1.0) - 0.5).abs() < 1e-3;
    let g = serde_json::to_value(&a.locations.airways).unwrap_or_default();
    let awys: Vec<&str> = g["airway_name_by_id"].as_array().into_iter().flatten().filter_map(Value::as_str).collect();
    let fixes: Vec<Fix> = names.iter().filter_map(|n| a.locations.convert_designator(n)).filter(|f| !edge(f.coordinate.x()) && !edge(f.coordinate.y())).take(8).collect();
    for w in awys.iter().take(6) {
        for f in &fixes {
            for t in &fixes {
                let e = |x: &Adaptation| {
                    x.locations.airways.expand_airway_segment(f, &t.designator, w, &x.locations).map(|v| {
                        v.iter().map(|(a, i)| format!("{} {:.9} {:.9} {} {:?} {i}", a.fix.designator, a.fix.coordinate.x(), a.fix.coordinate.y(), a.valid_direction, a.minimum_level)).collect::<Vec<_>>()
                    })
                };
                if e(a) != e(b) {
                    return Some(format!("{w} from {} to {} expands differently", f.designator, t.designator));
                }
            }
        }
    }
    None
}
fn gen_saved(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, 0);
    let n = r.range(1, 2) as usize;
    for _ in 0..n {
        let mut p = gen_pack(r, size.min(6));
        if let (Some(was), true) = (s.packs.last(), r.chance(0.4)) {
            p = crate::amend::amend(r, was, &p);
        }
        s.packs.push(p);
    }
    let mut ops = vec![FOp::Put(0)];
    ops.extend(gen_fops(r, n, true).into_iter().map(|o| match o {
        // the files are large
        FOp::Save { version, atomic, chunk, faults, stop, power } => FOp::Save { version, atomic, chunk: chunk.max(512), faults, stop, power },
        FOp::Read { readers, faults, events, policy } => FOp::Read {
            readers,
            faults: faults
                .into_iter()
                .map(|f| match f {
                    crate::os::FaultKind::Short { max } => crate::os::FaultKind::Short { max: max * 97 + 200 },
                    crate::os::FaultKind::ReadErr { at, errno } => crate::os::FaultKind::ReadErr { at: at * 50, errno },
                    f => f,
                })
                .collect(),
            events,
            policy,
        },
        o => o,
    }));
    for o in &mut ops {
        if let FOp::Save { faults, .. } = o {
            for f in faults {
                match f {
                    crate::os::FaultKind::ShortWrite { max } => *max = *max * 97 + 200,
                    crate::os::FaultKind::WriteErr { at, .. } => *at *= 20,
                    _ => {}
                }
            }
        }
    }
    serde_json::to_value(SavedCase { s, ops, seed: r.u64() }).unwrap()
}
fn exec_saved(v: &Value) -> Report {
    let c: SavedCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    if c.s.packs.is_empty() {
        return invalid("no version");
    }
    let mut ads = vec![];
    {
        let mut sim = Sim::new(&c.s);
        for k in 0..c.s.packs.len() {
            sim.install(k);
            for ld in sim.load(&[Api::Prf], &[], &[], &Policy::Random { seed: 3, gap: 5000 }) {
                match ld.res {
                    Ok(a) => ads.push(*a),
                    Err((k, m)) => {
                        return Report { violation: Some(Violation { class: "load-error".into(), msg: format!("{k}: {m}") }), ..Report::default() };
                    }
                }
            }
        }
    }
    let vals = ads.iter().map(plain).collect();
    let n = ads.len();
    drive(c.s.hash_seed, c.s.lat_seed, &c.ops, n, &Saved { ads, vals, seed: c.seed })
}
fn sketch_case(v: &Value) -> Value {
    let mut o = v.clone();
    if let Some(s) = o.get("s").cloned() {
        o["s"] = sketch(&s);
    }
    o
}

// ------------------------------------------------------------------ P22 encodings

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct EncCase {
    pub s: Scenario,
    /// letters the generated ones are replaced by, in every file
    pub letters: Vec<(char, char)>,
    /// loads: which files are in Windows-1252, and what goes wrong meanwhile
    pub loads: Vec<(Vec<Role>, Vec<RFault>, Policy)>,
    pub docs: Vec<(u8, String)>,
    /// files whose first such letter is moved across this offset by a comment
    pub across: Vec<(Role, usize)>,
}
/// the text with a comment that moves its first non-ASCII letter across an offset
fn across(role: Role, t: &str, at: usize) -> Option<String> {
    let o = t.bytes().position(|b| !b.is_ascii())?;
    let more = (at - 1).checked_sub(o + 4)?;
    let fill = "-".repeat(more);
    Some(match role {
        // behind the header of the first section
        Role::Sct | Role::Ese => {
            let eol = t.find(['\r', '\n']).filter(|e| *e < o)?;
            format!("{} ; {fill} {}", &t[..eol], &t[eol..])
        }
        _ => format!("; {fill} \n{t}"),
    })
}
const LETTERS: &[char] = &['é', 'ü', 'ß', 'Ä', 'ñ', 'ø', 'å', 'š', 'ž', 'œ', 'Ÿ', 'Š', 'Ž', 'Œ', 'À', 'ÿ', 'Ø', 'æ', 'þ', '°', '½', '€', '’', '–', '“', '™', '§', '·', '¿'];
fn cp1252(s: &str) -> Option<Vec<u8>> {
    const HI: [u32; 32] = [
        0x20AC, 0, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0, 0x17D, 0, 0, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0, 0x17E, 0x178,
    ];
    s.chars()
        .map(|c| match c as u32 {
            x @ (0..=0x7f | 0xa0..=0xff) => Some(x as u8),
            x => HI.iter().position(|h| *h == x && x != 0).map(|i| 0x80 + i as u8),
        })
        .collect()
}
fn gen_enc(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, 0);
    let mut p = gen_pack(r, size.min(8));
    p.enc = 0;
    s.packs.push(p);
    let letters = ['é', 'ü', 'ö', 'ä', 'Ü', 'ß', 'Ö', 'Ä'].iter().filter(|_| r.chance(0.7)).copied().collect::<Vec<_>>();
    let letters = letters.into_iter().map(|c| (c, *r.pick(LETTERS))).collect();
    let roles: Vec<Role> = s.layout.roles().iter().map(|x| x.0).filter(|r| !matches!(r, Role::Toml | Role::Squawks)).collect();
    let loads = (0..r.range(1, 4))
        .map(|_| {
            let all = r.chance(0.3);
            let rs = roles.iter().filter(|_| all || r.chance(0.4)).copied().collect();
            let f = if r.chance(0.6) { gen_transient(r, &roles) } else { vec![] };
            (rs, f, gen_policy(r))
        })
        .collect();
    let mut docs = vec![];
    for _ in 0..2 {
        docs.push((0, gen_asr_text(r, size.min(12))));
        docs.push((1, gen_isec_text(r, size.min(12))));
    }
    let mut across = vec![];
    if r.chance(0.15) {
        for role in [Role::Sct, Role::Ese, Role::Airports, Role::Nav, Role::Aircraft, Role::Airlines, Role::TsMaps, Role::TsSymbols, Role::TsSettings] {
            if r.chance(0.4) {
                across.push((role, *r.pick(&[1 << 13, 1 << 16, 1 << 17])));
            }
        }
    }
    serde_json::to_value(EncCase { s, letters, loads, docs, across }).unwrap()
}
fn exec_enc(v: &Value) -> Report {
    let c: EncCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let mut sim = Sim::new(&c.s);
    sim.install(0);
    let swap = |t: &str| -> String { t.chars().map(|x| c.letters.iter().find(|l| l.0 == x).map_or(x, |l| l.1)).collect() };
    let mut texts: BTreeMap<Role, String> = BTreeMap::new();
    for (role, _) in c.s.layout.roles() {
        if matches!(role, Role::Toml) {
            continue;
        }
        if let Some(t) = sim.bytes(role, 0).and_then(|b| String::from_utf8(b).ok()) {
            // paths stay as they are
            let t = if role == Role::Prf { t } else { swap(&t) };
            texts.insert(role, t);
        }
    }
    for (role, at) in &c.across {
        if let Some(t) = texts.get_mut(role) {
            if let Some(x) = across(*role, t, *at) {
                *t = x;
                sim.probe("moved_across_offset");
            }
        }
    }
    for (role, t) in &texts {
        sim.apply(&RAct::Raw(*role, Bytes(t.clone().into_bytes())));
    }
    let value = |sim: &mut Sim, faults: &[RFault], policy: &Policy| -> Option<Result<Value, (String, String)>> {
        let ld = sim.load(&[Api::Prf], faults, &[], policy).pop()?;
        Some(ld.res.map(|a| plain(&a)))
    };
    let Some(utf8) = value(&mut sim, &[], &Policy::Random { seed: 9, gap: 5000 }) else { return sim.finish() };
    if !c.across.is_empty() {
        sim.probe(if utf8.is_ok() { "moved_loads" } else { "moved_fails" });
    }
    for (i, (roles, faults, policy)) in c.loads.iter().enumerate() {
        sim.op = i;
        let mut n = 0;
        for (role, t) in &texts {
            let b = match cp1252(t) {
                // bytes that happen to be UTF-8 as well mean what UTF-8 says
                Some(b) if roles.contains(role) && (t.is_ascii() || std::str::from_utf8(&b).is_err()) && *role != Role::Squawks => {
                    n += usize::from(!t.is_ascii());
                    b
                }
                _ => t.clone().into_bytes(),
            };
            sim.apply(&RAct::Raw(*role, Bytes(b)));
        }
        let Some(got) = value(&mut sim, faults, policy) else { continue };
        if n > 0 {
            sim.probe("recoded");
        }
        let bad = match (&utf8, &got) {
            (Ok(a), Ok(b)) => exact("adaptation", a, b),
            (Err(a), Err(b)) if a.0 == b.0 => None,
            (a, b) => Some(format!("UTF-8: {:?}, Windows-1252: {:?}", a.as_ref().err(), b.as_ref().err())),
        };
        if let Some(m) = bad {
            sim.fail("encoding", format!("files {roles:?} in Windows-1252: {m}"));
        }
    }
    for (kind, t) in &c.docs {
        let t = swap(t);
        let Some(b) = cp1252(&t) else { continue };
        if t.is_ascii() || std::str::from_utf8(&b).is_ok() {
            continue;
        }
        let read = |b: &[u8]| -> String {
            if *kind == 0 {
                vatsim_parser::asr::Asr::parse(b).map_or_else(|e| e.to_string(), |a| canonical(&serde_json::to_value(&a).expect("serialise")).to_string())
            } else {
                crate::p_file::isec_value(b).to_string()
            }
        };
        sim.probe("document_recoded");
        let (x, y) = (read(t.as_bytes()), read(&b));
        if x != y {
            let at = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(0);
            let cut = |s: &str| s.get(at.saturating_sub(30)..).unwrap_or(s).chars().take(90).collect::<String>();
            sim.fail("encoding", format!("document of kind {kind}: UTF-8 gives …{}, Windows-1252 …{}", cut(&x), cut(&y)));
        }
    }
    let mut rep = sim.finish();
    rep.nontrivial = rep.probes.contains_key("recoded");
    rep
}

const RULE_SECTORS: &str = "a run loads a generated installation and drives a pool of adaptations through clones, restores, mutations with rebuild, overlays, and queries by 1-4 concurrent clients; non-trivial if queries were compared; distinct = distinct execution trace hashes";
const RULE_OV: &str = "a run is a history of an installation with 1-3 overlays in 1-3 versions, loaded by 1-2 concurrent readers under faults, removals and replacements of the overlays; non-trivial if a merge was compared or an error judged; distinct = distinct execution trace hashes";
const RULE_SAVED: &str = "a run loads one or two versions of an installation and is a history of one file holding the saved adaptation (see P21); non-trivial if something was read back and a fault, event or thread switch happened; distinct = distinct execution trace hashes";
const RULE_ENC: &str = "a run loads an installation in UTF-8 and again with random subsets of its files in Windows-1252 under transient faults; non-trivial if a file with non-ASCII letters was recoded; distinct = distinct execution trace hashes";
pub const DEFS: &[Def] = &[
    Def { id: "P08", gen: gen_sectors, exec: exec_sectors, sketch: sketch_case, rule: RULE_SECTORS, ..BASE },
    Def { id: "P09", gen: gen_overlays, exec: exec_overlays, sketch: sketch_case, rule: RULE_OV, ..BASE },
    Def { id: "P10", gen: gen_saved, exec: exec_saved, sketch: sketch_case, rule: RULE_SAVED, ..BASE },
    Def { id: "P22", gen: gen_enc, exec: exec_enc, sketch: sketch_case, rule: RULE_ENC, ..BASE },
];
