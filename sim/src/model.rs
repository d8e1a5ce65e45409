//! Executable reference model: what a pack *means*, computed from the abstract
//! model alone (never from the text, never with the code under test).

use crate::pack::*;
use crate::topsky_defaults::DEFAULTS;
use crate::world::*;
use geo::{Destination, Geodesic, Point};
use serde_json::{json, Map as JMap, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn pt(p: (f64, f64)) -> Value {
    json!({"x": p.0, "y": p.1})
}

// ---------------------------------------------------------------- locations

#[derive(Clone, Debug)]
pub struct Place {
    pub des: String,
    pub pos: (f64, f64),
}
pub struct Places {
    pub vors: Vec<Place>,
    pub ndbs: Vec<Place>,
    pub fixes: Vec<Place>,
    /// designator -> position, runways (designators, thresholds)
    pub airports: BTreeMap<String, ((f64, f64), Vec<(String, String, (f64, f64), (f64, f64))>)>,
}
fn num(s: &str) -> f64 {
    s.trim_start_matches('+').parse().unwrap_or(f64::NAN)
}
impl Places {
    pub fn new(p: &Pack) -> Self {
        let b = |v: &[Beacon]| v.iter().map(|b| Place { des: b.des.clone(), pos: b.pos.xy() }).collect();
        let mut airports = BTreeMap::new();
        for n in &p.icao.nav {
            airports.entry(n.des.clone()).or_insert(((num(&n.lon), num(&n.lat)), vec![]));
        }
        for a in &p.sct.airports {
            airports.insert(
                a.des.clone(),
                (
                    a.pos.xy(),
                    p.sct
                        .runways
                        .iter()
                        .filter(|r| r.ad == a.des)
                        .map(|r| (r.d1.clone(), r.d2.clone(), r.p1.xy(), r.p2.xy()))
                        .collect(),
                ),
            );
        }
        Places {
            vors: b(&p.sct.vors),
            ndbs: b(&p.sct.ndbs),
            fixes: p.sct.fixes.iter().map(|b| Place { des: b.des.clone(), pos: b.pos.xy() }).collect(),
            airports,
        }
    }
    /// navaid by name: VOR, then NDB, then fix, then airport, then runway threshold
    pub fn named(&self, n: &str) -> Option<Place> {
        for v in [&self.vors, &self.ndbs, &self.fixes] {
            if let Some(p) = v.iter().find(|p| p.des == n) {
                return Some(p.clone());
            }
        }
        if let Some(a) = self.airports.get(n) {
            return Some(Place { des: n.to_string(), pos: a.0 });
        }
        if n.is_ascii() && (n.len() == 6 || n.len() == 7) {
            if let Some(a) = self.airports.get(&n[..4]) {
                for r in &a.1 {
                    if r.0 == n[4..] {
                        return Some(Place { des: n.to_string(), pos: r.2 });
                    }
                    if r.1 == n[4..] {
                        return Some(Place { des: n.to_string(), pos: r.3 });
                    }
                }
            }
        }
        None
    }
    /// "48N011E", "4830N01130E", "483015N0113045E" and their abbreviations
    pub fn coordinate(n: &str) -> Option<Place> {
        let b = n.as_bytes();
        let d1 = b.iter().take_while(|c| c.is_ascii_digit()).count();
        if !(1..=6).contains(&d1) {
            return None;
        }
        let ns = *b.get(d1)?;
        if ns != b'N' && ns != b'S' {
            return None;
        }
        let rest = &b[d1 + 1..];
        let d2 = rest.iter().take_while(|c| c.is_ascii_digit()).count();
        if !(2..=7).contains(&d2) || rest.len() != d2 + 1 {
            return None;
        }
        let ew = rest[d2];
        if ew != b'E' && ew != b'W' {
            return None;
        }
        let (mut la, mut lo) = (n[..d1].to_string(), n[d1 + 1..d1 + 1 + d2].to_string());
        if la.len() % 2 == 1 {
            if la.starts_with('0') {
                return None;
            }
            la.insert(0, '0');
        }
        if lo.len() % 2 == 0 {
            if lo.starts_with('0') {
                return None;
            }
            lo.insert(0, '0');
        }
        if lo.len() != la.len() + 1 {
            return None;
        }
        let val = |s: &str, deg: usize| {
            let mut v = num(&s[..deg]);
            if s.len() >= deg + 2 {
                v += num(&s[deg..deg + 2]) / 60.0;
            }
            if s.len() >= deg + 4 {
                v += num(&s[deg + 2..deg + 4]) / 3600.0;
            }
            v
        };
        let y = val(&la, 2) * if ns == b'N' { 1.0 } else { -1.0 };
        let x = val(&lo, 3) * if ew == b'E' { 1.0 } else { -1.0 };
        Some(Place {
            des: format!("{la}{}{lo}{}", ns as char, ew as char),
            pos: (x, y),
        })
    }
    /// point/bearing/range: "MUN090010"
    pub fn polar(&self, n: &str) -> Option<Place> {
        if !n.is_ascii() || n.len() < 8 || n.len() > 11 {
            return None;
        }
        let (base, rest) = n.split_at(n.len() - 6);
        if !rest.bytes().all(|c| c.is_ascii_digit())
            || !base.bytes().all(|c| c.is_ascii_digit() || c.is_ascii_uppercase())
        {
            return None;
        }
        let o = self.named(base)?;
        let d = Geodesic.destination(Point::new(o.pos.0, o.pos.1), num(&rest[..3]), num(&rest[3..]) * 1852.0);
        Some(Place { des: n.to_string(), pos: (d.x(), d.y()) })
    }
    pub fn find(&self, n: &str) -> Option<Place> {
        self.named(n).or_else(|| Self::coordinate(n)).or_else(|| self.polar(n))
    }
    pub fn loc(&self, l: &Loc) -> Option<(f64, f64)> {
        match l {
            Loc::At(l) => Some(l.xy()),
            Loc::Fix(n) => self.find(n).map(|p| p.pos),
        }
    }
    pub fn mloc(&self, l: &MLoc) -> Option<(f64, f64)> {
        match l {
            MLoc::Dms(l) => Some(l.xy()),
            MLoc::Dec(a, b) => Some((num(b), num(a))),
            MLoc::Name(n) => self.find(n).map(|p| p.pos),
        }
    }
    /// a VOR, NDB or fix of that name at that place
    /// a nav element of that name lies just where two cells of the grid meet, so that which
    /// one it is in depends on how its decimal degrees were rounded
    pub fn on_edge(&self, n: &str) -> bool {
        let edge = |x: f64| ((x * 1e6).abs().fract() - 0.5).abs() < 1e-3;
        [&self.vors, &self.ndbs, &self.fixes]
            .iter()
            .any(|v| v.iter().any(|p| p.des == n && (edge(p.pos.0) || edge(p.pos.1))))
    }
    pub fn nav_at(&self, n: &str, qp: (i64, i64)) -> bool {
        [&self.vors, &self.ndbs, &self.fixes]
            .iter()
            .any(|v| v.iter().any(|p| p.des == n && (q(p.pos.0), q(p.pos.1)) == qp))
    }
}

fn push(m: &mut JMap<String, Value>, k: &str, v: Value) {
    if let Value::Array(a) = m.entry(k.to_string()).or_insert_with(|| json!([])) {
        a.push(v);
    }
}

/// fixes, vors, ndbs, airports, sids, stars
pub fn locations(p: &Pack) -> Value {
    let pl = Places::new(p);
    let mut fixes = JMap::new();
    for f in &p.sct.fixes {
        push(&mut fixes, &f.des, json!({"designator": f.des, "coordinate": pt(f.pos.xy())}));
    }
    let beacons = |v: &[Beacon]| {
        let mut m = JMap::new();
        for b in v {
            push(
                &mut m,
                &b.des,
                json!({"designator": b.des, "frequency": b.freq, "coordinate": pt(b.pos.xy())}),
            );
        }
        m
    };
    let mut airports = JMap::new();
    for (des, (pos, _)) in &pl.airports {
        let nav = p.icao.nav.iter().find(|n| n.des == *des);
        let icao = p.icao.airports.iter().find(|n| n.des == *des);
        let in_sct = p.sct.airports.iter().any(|a| a.des == *des);
        let rw: Vec<Value> = p
            .sct
            .runways
            .iter()
            .filter(|r| in_sct && r.ad == *des)
            .map(|r| {
                json!({"designators": [r.d1, r.d2], "headings": [r.h1, r.h2],
                    "location": [pt(r.p1.xy()), pt(r.p2.xy())], "aerodrome": r.ad})
            })
            .collect();
        airports.insert(
            des.clone(),
            json!({"designator": des, "coordinate": pt(*pos),
                "name": nav.map(|n| n.name.clone()).or_else(|| icao.map(|n| n.name.clone())),
                "country": icao.map(|n| n.country.clone()), "runways": rw}),
        );
    }
    let procs = |star: bool| {
        let mut m: JMap<String, Value> = JMap::new();
        for s in p.ese.sidstars.iter().filter(|s| s.star == star) {
            let w: Vec<Value> = s
                .wpts
                .iter()
                .filter_map(|w| pl.find(w))
                .map(|p| json!({"designator": p.des, "coordinate": pt(p.pos)}))
                .collect();
            let v = json!({"name": s.name, "airport": s.apt, "runway": s.rwy, "waypoints": w});
            let e = m.entry(s.apt.clone()).or_insert_with(|| json!({}));
            if let Value::Object(o) = e {
                push(o, &s.name, v);
            }
        }
        m
    };
    json!({"fixes": fixes, "vors": beacons(&p.sct.vors), "ndbs": beacons(&p.sct.ndbs),
        "airports": airports, "sids": procs(false), "stars": procs(true)})
}

// ---------------------------------------------------------------- airways

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node(pub String, pub i64, pub i64);
#[derive(Clone, Debug)]
pub struct Edge {
    pub to: usize,
    pub valid: bool,
    pub min: Option<u32>,
    pub ty: &'static str,
}
#[derive(Default, Clone)]
pub struct Graph {
    /// name, position; identity is (name, position to 1e-6 degrees)
    pub nodes: Vec<(String, (f64, f64))>,
    /// (node, airway) -> neighbours in order of first mention
    pub edges: BTreeMap<(usize, String), Vec<Edge>>,
}
impl Graph {
    fn node(&mut self, n: &str, p: &(String, String)) -> usize {
        let xy = (num(&p.1), num(&p.0));
        let k = (q(xy.0), q(xy.1));
        if let Some(i) = self.nodes.iter().position(|m| m.0 == n && (q(m.1 .0), q(m.1 .1)) == k) {
            return i;
        }
        self.nodes.push((n.to_string(), xy));
        self.nodes.len() - 1
    }
    fn join(&mut self, from: usize, awy: &str, e: Edge) {
        let v = self.edges.entry((from, awy.to_string())).or_default();
        match v.iter_mut().find(|x| x.to == e.to) {
            Some(x) => {
                x.valid |= e.valid;
                x.min = match (x.min, e.min) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                };
            }
            None => v.push(e),
        }
    }
    pub fn new(rows: &[AwyRow]) -> Self {
        let mut g = Graph::default();
        for r in rows {
            let ty = match r.ty.as_str() {
                "B" => "Both",
                "H" => "High",
                "L" => "Low",
                _ => "Unknown",
            };
            for e in [&r.prev, &r.next].into_iter().flatten() {
                let a = g.node(&r.des, &r.pos);
                let b = g.node(&e.des, &e.pos);
                let min = e.level.parse::<u32>().ok();
                g.join(a, &r.awy, Edge { to: b, valid: e.ok, min, ty });
                g.join(b, &r.awy, Edge { to: a, valid: false, min, ty });
            }
        }
        g
    }
    fn key(&self, i: usize) -> String {
        let n = &self.nodes[i];
        format!("{}@{},{}", n.0, q(n.1 .0), q(n.1 .1))
    }
    /// every directed edge once, in a canonical form
    pub fn canon(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for i in 0..self.nodes.len() {
            s.insert(format!("fix {}", self.key(i)));
        }
        for ((n, a), v) in &self.edges {
            for e in v {
                s.insert(format!(
                    "{a}: {} -> {} valid={} min={:?} {}",
                    self.key(*n),
                    self.key(e.to),
                    e.valid,
                    e.min,
                    e.ty
                ));
            }
        }
        s
    }
    /// fixes after `start` up to `end` along the airway, if unambiguous
    pub fn expand(&self, name: &str, pos: (f64, f64), end: &str, awy: &str, pl: &Places) -> Option<Vec<(String, (f64, f64), bool, Option<u32>, bool)>> {
        let k = (q(pos.0), q(pos.1));
        let on = |i: usize| self.edges.contains_key(&(i, awy.to_string()));
        let by_name = |n: &str| (0..self.nodes.len()).find(|i| self.nodes[*i].0 == n && on(*i));
        let start = match (0..self.nodes.len())
            .find(|i| self.nodes[*i].0 == name && (q(self.nodes[*i].1 .0), q(self.nodes[*i].1 .1)) == k)
        {
            Some(i) => Some(i).filter(|i| on(*i)),
            None => by_name(name),
        }?;
        let end = by_name(end)?;
        let first = &self.edges[&(start, awy.to_string())];
        if first.len() > 2 {
            return None;
        }
        'edge: for e in first {
            let mut out = vec![];
            let (mut prev, mut cur) = (start, e.clone());
            for _ in 0..self.nodes.len() {
                let n = &self.nodes[cur.to];
                out.push((n.0.clone(), n.1, cur.valid, cur.min, pl.nav_at(&n.0, (q(n.1 .0), q(n.1 .1)))));
                if cur.to == end {
                    return Some(out);
                }
                let v = &self.edges[&(cur.to, awy.to_string())];
                if v.len() > 2 {
                    continue 'edge;
                }
                let at = cur.to;
                match v.iter().find(|x| x.to != prev) {
                    Some(x) => cur = x.clone(),
                    None => continue 'edge,
                }
                prev = at;
            }
        }
        None
    }
}

// ---------------------------------------------------------------- airspace

#[derive(Clone, Debug)]
pub struct MVolume {
    pub id: String,
    pub lower: u32,
    pub upper: u32,
    /// undirected unit edges of the border, in micro degrees
    pub edges: Vec<((i64, i64), (i64, i64))>,
    pub owner: Vec<String>,
    pub active: Vec<(String, String)>,
    pub dep: Vec<String>,
    pub arr: Vec<String>,
}
fn connected(e: &[((i64, i64), (i64, i64))]) -> bool {
    let mut seen = BTreeSet::from([e[0].0]);
    loop {
        let n = seen.len();
        for (a, b) in e {
            if seen.contains(a) || seen.contains(b) {
                seen.insert(*a);
                seen.insert(*b);
            }
        }
        if seen.len() == n {
            break;
        }
    }
    e.iter().all(|(a, _)| seen.contains(a))
}
pub fn volumes(e: &Ese) -> BTreeMap<String, MVolume> {
    let mut lines: BTreeMap<&str, &Vec<Ll>> = BTreeMap::new();
    for i in &e.items {
        if let AirItem::Line { id, pts, .. } = i {
            lines.insert(id, pts);
        }
    }
    let mut last: BTreeMap<&str, &SectorDef> = BTreeMap::new();
    for i in &e.items {
        if let AirItem::Sector(s) = i {
            last.insert(&s.id, s);
        }
    }
    let mut out = BTreeMap::new();
    for (id, s) in last {
        let mut edges = vec![];
        for l in s.border.iter().flatten() {
            if let Some(p) = lines.get(l.as_str()) {
                for w in p.windows(2) {
                    edges.push((w[0].q(), w[1].q()));
                }
            }
        }
        let mut deg: BTreeMap<(i64, i64), usize> = BTreeMap::new();
        for (a, b) in &edges {
            *deg.entry(*a).or_default() += 1;
            *deg.entry(*b).or_default() += 1;
        }
        if edges.is_empty() || deg.values().any(|d| d % 2 == 1) || !connected(&edges) {
            continue;
        }
        out.insert(
            id.to_string(),
            MVolume {
                id: id.to_string(),
                lower: s.bottom,
                upper: s.top,
                edges,
                owner: s.owner.clone().unwrap_or_default(),
                active: s.active.clone(),
                dep: s.dep.clone().unwrap_or_default(),
                arr: s.arr.clone().unwrap_or_default(),
            },
        );
    }
    out
}
#[derive(Debug, Default)]
pub struct MSector {
    pub volumes: BTreeSet<String>,
    pub dep: BTreeSet<String>,
    pub arr: BTreeSet<String>,
}
pub type SectorKey = (Vec<String>, Vec<(String, String)>);
pub fn sectors(v: &BTreeMap<String, MVolume>) -> BTreeMap<SectorKey, MSector> {
    let mut m: BTreeMap<SectorKey, MSector> = BTreeMap::new();
    for x in v.values() {
        let s = m.entry((x.owner.clone(), x.active.clone())).or_default();
        s.volumes.insert(x.id.clone());
        s.dep.extend(x.dep.iter().cloned());
        s.arr.extend(x.arr.iter().cloned());
    }
    m
}
pub fn positions(e: &Ese) -> Value {
    let mut m = JMap::new();
    for p in &e.positions {
        let v: Vec<Value> = p.vis.iter().take(4).map(|l| pt(l.xy())).collect();
        m.insert(
            p.id.clone(),
            json!({"id": p.id, "name": p.name, "frequency": p.freq, "prefix": p.prefix, "suffix": p.suffix, "visibility_points": v}),
        );
    }
    Value::Object(m)
}
/// (departure, destination)
pub fn constraints(e: &Ese) -> (Value, Value) {
    let (mut dep, mut dst) = (JMap::new(), JMap::new());
    for i in &e.items {
        let AirItem::Cop(c) = i else { continue };
        if c.climb.is_none() && c.descent.is_none() {
            continue;
        }
        let w = |x: &Option<String>| x.clone().unwrap_or_else(|| "*".into());
        let key = [&w(&c.prev), &w(&c.dep_rwy), &w(&c.next), &w(&c.arr_rwy), &w(&c.fix), &c.exit, &c.entry]
            .iter()
            // escaped, as a '#' in a name is no separator
            .map(|s| s.replace('\\', "\\\\").replace('#', "\\#"))
            .collect::<Vec<_>>()
            .join("#");
        let v = json!({"previous_fix": c.prev, "departure_runway": c.dep_rwy, "subsequent_fix": c.next,
            "arrival_runway": c.arr_rwy, "fix": c.fix, "exit_sector": c.exit, "entry_sector": c.entry,
            "climb_level": c.climb, "descent_level": c.descent, "description": c.desc, "coord_timing": null});
        if c.climb.is_some() { &mut dep } else { &mut dst }.insert(key, v);
    }
    (Value::Object(dep), Value::Object(dst))
}

// ---------------------------------------------------------------- ICAO data

pub fn aircraft(i: &Icao) -> Value {
    let mut m = JMap::new();
    for a in &i.aircraft {
        if m.contains_key(&a.des) {
            continue;
        }
        let wtc = match a.wtc.as_str() {
            "L" => "LIGHT",
            "M" => "MEDIUM",
            "H" => "HEAVY",
            "J" => "SUPER",
            _ => "UNKNOWN",
        };
        let ty = match a.ty.as_str() {
            "L" => "LANDPLANE",
            "S" => "SEAPLANE",
            "A" => "AMPHIBIAN",
            "G" => "GYROCOPTER",
            "H" => "HELICOPTER",
            "T" => "TILTROTOR",
            _ => "UNKNOWN",
        };
        let en = match a.eng.as_str() {
            "J" => "JET",
            "T" => "TURBOPROP",
            "P" => "PISTON",
            "E" => "ELECTRIC",
            "R" => "ROCKET",
            _ => "UNKNOWN",
        };
        m.insert(
            a.des.clone(),
            json!({"designator": a.des, "wtc": wtc, "aircrafttype": ty, "num_engines": a.num.parse::<u8>().unwrap_or(0),
                "enginetype": en, "manufacturer": a.man, "name": a.name}),
        );
    }
    Value::Object(m)
}
pub fn airlines(i: &Icao) -> Value {
    let mut m = JMap::new();
    for a in &i.airlines {
        m.entry(a.des.clone()).or_insert_with(
            || json!({"designator": a.des, "name": a.name, "callsign": a.callsign, "country": a.country}),
        );
    }
    Value::Object(m)
}

// ---------------------------------------------------------------- symbols

pub fn rule(r: &SRule) -> Value {
    let p = |x: &T, y: &T| json!([tv(*x), tv(*y)]);
    let m = |a: &i64| a % 360;
    match r {
        SRule::Move(x, y) => json!({"Move": p(x, y)}),
        SRule::Line(x, y) => json!({"Line": p(x, y)}),
        SRule::Pixel(x, y) => json!({"Pixel": p(x, y)}),
        SRule::Arc(x, y, r, a, b) => json!({"Arc": [p(x, y), tv(*r), m(a), m(b)]}),
        SRule::ArcE(x, y, r, s, a, b) if r == s => json!({"Arc": [p(x, y), tv(*r), m(a), m(b)]}),
        SRule::ArcE(x, y, r, s, a, b) => json!({"EllipticArc": [p(x, y), tv(*r), tv(*s), m(a), m(b)]}),
        SRule::Fill(x, y, r, a, b) => json!({"FilledArc": [p(x, y), tv(*r), m(a), m(b)]}),
        SRule::FillE(x, y, r, s, a, b) if r == s => json!({"FilledArc": [p(x, y), tv(*r), m(a), m(b)]}),
        SRule::FillE(x, y, r, s, a, b) => json!({"FilledEllipticArc": [p(x, y), tv(*r), tv(*s), m(a), m(b)]}),
        SRule::Circle(x, y, r) => json!({"FilledArc": [p(x, y), tv(*r), 0, 0]}),
        SRule::Ellipse(x, y, r, s) => json!({"FilledEllipticArc": [p(x, y), tv(*r), tv(*s), 0, 0]}),
        SRule::Rect(a, b, c, d) => json!({"Polygon": [p(a, b), p(c, b), p(c, d), p(a, d)]}),
        SRule::Poly(v) => json!({"Polygon": v.iter().map(|(x, y)| p(x, y)).collect::<Vec<_>>()}),
    }
}
pub fn rules(r: &[SRule]) -> Value {
    Value::Array(r.iter().map(rule).collect())
}
/// is the TopSky plugin installed and readable
pub fn topsky(l: &Layout, p: &Pack) -> bool {
    let maps = p.ts_maps.as_ref().is_some_and(|m| {
        m.items.iter().any(|i| match i {
            MItem::Map { rules, .. } => !rules.is_empty(),
            MItem::Symbol { rules, .. } => !rules.is_empty(),
            _ => true,
        })
    });
    let sym = p
        .ts_symbols
        .as_ref()
        .is_none_or(|s| !s.symbols.is_empty() && s.symbols.iter().all(|x| !x.1.is_empty()));
    l.topsky.is_some() && p.ts_settings.is_some() && maps && sym
}
fn ts_symbols(p: &Pack) -> BTreeMap<String, Vec<SRule>> {
    let mut m = BTreeMap::new();
    for (k, v) in p.ts_symbols.iter().flat_map(|s| &s.symbols) {
        m.insert(k.clone(), v.clone());
    }
    for i in p.ts_maps.iter().flat_map(|m| &m.items) {
        if let MItem::Symbol { name, rules } = i {
            if !rules.is_empty() {
                m.insert(name.clone(), rules.clone());
            }
        }
    }
    m
}
pub fn symbols(l: &Layout, p: &Pack) -> Value {
    let ts = if topsky(l, p) { ts_symbols(p) } else { BTreeMap::new() };
    let d = |v: &[(char, f64, f64)]| {
        Value::Array(
            v.iter()
                .map(|(k, x, y)| match k {
                    'M' => json!({"Move": [x, y]}),
                    _ => json!({"Line": [x, y]}),
                })
                .collect(),
        )
    };
    let def = |k: &str| match k {
        "history_dot" => json!([{"Polygon": [[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]]}]),
        "fix" => d(&[('M', -5., 5.), ('L', 0., -5.), ('L', 5., 5.), ('L', -5., 5.)]),
        "ndb" => json!([{"Pixel": [0.0, 0.0]}, {"Arc": [[0.0, 0.0], 1.0, 0, 360]}, {"Arc": [[0.0, 0.0], 3.0, 0, 360]}, {"Arc": [[0.0, 0.0], 5.0, 0, 360]}]),
        "vor" => d(&[
            ('M', -6., 0.), ('L', -2., -5.), ('L', 2., -5.), ('L', 6., 0.), ('L', 2., 5.), ('L', -2., 5.), ('L', -6., 0.),
            ('M', -6., -5.), ('L', -6., 5.), ('L', 6., 5.), ('L', 6., -5.), ('L', -6., -5.),
        ]),
        "airport" => d(&[
            ('M', -3., -3.), ('L', 3., -3.), ('L', 3., 3.), ('L', -3., 3.), ('L', -3., -3.),
            ('M', 5., 0.), ('L', -6., 0.), ('M', 0., 5.), ('L', 0., -6.),
        ]),
        "primary" => d(&[('M', -3., -3.), ('L', 4., 4.), ('M', -3., 3.), ('L', 4., -4.)]),
        "controlled" => d(&[('M', -5., 0.), ('L', 0., -5.), ('L', 5., 0.), ('L', 0., 5.), ('L', -5., 0.)]),
        "uncontrolled" => d(&[('M', -4., 3.), ('L', 0., -4.), ('L', 3., 3.), ('L', -4., 3.)]),
        _ => d(&[('M', -4., -4.), ('L', -4., 4.), ('L', 4., 4.), ('L', 4., -4.)]),
    };
    let mut o = JMap::new();
    for (f, t, id) in [
        ("history_dot", "HISTORY", 14),
        ("fix", "FIX", 3),
        ("ndb", "NDB", 1),
        ("vor", "VOR", 2),
        ("airport", "AIRPORT", 0),
        ("primary", "PRIMARY", 5),
        ("coasted", "COASTED", 13),
        ("uncontrolled", "UNCONTROLLED", 18),
        ("controlled", "DAPS", 9),
    ] {
        let v = match ts.get(t) {
            Some(r) => rules(r),
            None => match p.symbology.symbols.iter().rev().find(|s| s.id == id) {
                Some(s) => rules(&s.rules),
                None => def(f),
            },
        };
        o.insert(f.into(), v);
    }
    o.insert(
        "other".into(),
        Value::Object(ts.iter().map(|(k, v)| (k.clone(), rules(v))).collect()),
    );
    Value::Object(o)
}

// ---------------------------------------------------------------- colours

type Rgb = (u8, u8, u8);
pub fn hex(c: Rgb) -> String {
    format!("#{:02x}{:02x}{:02x}", c.0, c.1, c.2)
}
pub fn es_colour(c: i64) -> Option<Rgb> {
    if !(0..=0xff_ffff).contains(&c) {
        return None;
    }
    Some(((c & 255) as u8, (c >> 8 & 255) as u8, (c >> 16 & 255) as u8))
}
pub struct Palette {
    pub coopans: bool,
    pub topsky: BTreeMap<String, Rgb>,
    pub other: BTreeMap<String, Rgb>,
}
impl Palette {
    pub fn new(l: &Layout, p: &Pack) -> Self {
        let on = topsky(l, p);
        let mut ts = BTreeMap::new();
        if on {
            for (k, v) in p.ts_settings.iter().flat_map(|s| &s.colours) {
                if let Some((r, g, b)) = v {
                    if let (Ok(r), Ok(g), Ok(b)) = (u8::try_from(*r), u8::try_from(*g), u8::try_from(*b)) {
                        ts.insert(k.clone(), (r, g, b));
                    }
                }
            }
            for i in p.ts_maps.iter().flat_map(|m| &m.items) {
                if let MItem::Colour { name, rgb } = i {
                    if let (Ok(r), Ok(g), Ok(b)) = (u8::try_from(rgb.0), u8::try_from(rgb.1), u8::try_from(rgb.2)) {
                        ts.insert(name.clone(), (r, g, b));
                    }
                }
            }
        }
        // definitions are read section by section, in file order
        let mut other: BTreeMap<String, Rgb> = BTreeMap::new();
        for k in p.sct.def_order() {
            for c in p.sct.colours.iter().filter(|c| c.section % 14 == k) {
                if let Some(v) = es_colour(i64::from(c.value)) {
                    other.insert(c.name.clone(), v);
                }
            }
        }
        other.extend(ts.clone());
        Palette { coopans: coopans(l, p), topsky: ts, other }
    }
    fn default(&self, n: &str) -> Option<Rgb> {
        let d = DEFAULTS.iter().find(|d| d.0 == n)?;
        if self.coopans {
            d.2
        } else {
            d.1
        }
    }
    pub fn named(&self, n: &str) -> Option<Rgb> {
        self.other.get(n).copied().or_else(|| self.default(n))
    }
    fn ts(&self, n: &str, fb: Rgb) -> Value {
        json!(hex(self.topsky.get(n).copied().or_else(|| self.default(n)).unwrap_or(fb)))
    }
}
/// Symbology item in effect: the last valid one of that name
pub fn item<'a>(p: &'a Pack, folder: &str, name: &str) -> Option<&'a SymItem> {
    p.symbology
        .items
        .iter()
        .rev()
        .find(|i| i.folder == folder && i.name == name && es_colour(i.colour).is_some())
}
pub const MAP_COLOURS: &[(&str, &str, &str)] = &[
    ("fix_symbol", "Fixes", "symbol"), ("fix_name", "Fixes", "name"),
    ("airport_symbol", "Airports", "symbol"), ("airport_name", "Airports", "name"),
    ("ndb_symbol", "NDBs", "symbol"), ("ndb_name", "NDBs", "name"), ("ndb_frequency", "NDBs", "frequency"),
    ("vor_symbol", "VORs", "symbol"), ("vor_name", "VORs", "name"), ("vor_frequency", "VORs", "frequency"),
    ("low_airway_line", "Low airways", "line"), ("low_airway_name", "Low airways", "name"),
    ("high_airway_line", "High airways", "line"), ("high_airway_name", "High airways", "name"),
    ("sid", "Sids", "line"), ("star", "Stars", "line"),
    ("artcc_boundary", "ARTCC boundary", "line"), ("artcc_low_boundary", "ARTCC low boundary", "line"),
    ("artcc_high_boundary", "ARTCC high boundary", "line"), ("geo", "Geo", "line"),
    ("runway_centreline", "Runways", "centerline"), ("runway_extended_centreline", "Runways", "extended centerline"),
    ("runway_name", "Runways", "name"), ("free_text", "Other", "freetext"),
];
fn item_colour(p: &Pack, f: &str, n: &str, d: Rgb) -> Rgb {
    item(p, f, n).and_then(|i| es_colour(i.colour)).unwrap_or(d)
}
pub fn colours(l: &Layout, p: &Pack) -> Value {
    let pal = Palette::new(l, p);
    let map: JMap<String, Value> = MAP_COLOURS
        .iter()
        .map(|(k, f, n)| ((*k).to_string(), json!(hex(item_colour(p, f, n, (0, 0, 0))))))
        .collect();
    json!({
        "map": map,
        "sector": {
            "active_background": hex(item_colour(p, "Sector", "active sector background", (200, 200, 200))),
            "inactive_background": hex(item_colour(p, "Sector", "inactive sector background", (200, 200, 200))),
        },
        "track": {
            "assumed": pal.ts("Assumed", (0, 0, 0)),
            "advanced": pal.ts("Concerned", (0, 0, 255)),
            "concerned": pal.ts("Redundant", (0, 0, 255)),
            "unconcerned": pal.ts("Unconcerned", (255, 255, 255)),
            "flight_leg": pal.ts("Flight_Leg", (0, 0, 0)),
            "predicted_alert": pal.ts("Warning", (255, 255, 0)),
            "current_alert": pal.ts("Urgency", (255, 0, 0)),
            "reaction": pal.ts("Proposition_In", (230, 185, 184)),
            "cleared": pal.ts("Rwy_Locked", (34, 139, 34)),
            "vfr": pal.ts("VFR", (180, 150, 95)),
        },
        "ui": {
            "foreground": pal.ts("Foreground", (0, 0, 0)),
            "background": pal.ts("Background", (192, 192, 192)),
            "armed": pal.ts("Arm", (160, 160, 160)),
            "window_title_background_selected": pal.ts("Background", (192, 192, 192)),
            "text_input": pal.ts("Field_Highlight", (170, 224, 224)),
            "warning": pal.ts("Warning", (255, 255, 0)),
            "alert": pal.ts("Urgency", (255, 0, 0)),
        },
        "other": pal.other.iter().map(|(k, v)| (k.clone(), json!(hex(*v)))).collect::<JMap<_, _>>(),
    })
}

// ---------------------------------------------------------------- line styles

/// name -> acceptable values (definitions that differ only in letter case clash)
pub fn line_styles(l: &Layout, p: &Pack) -> BTreeMap<String, Vec<Value>> {
    let mut defs: BTreeMap<String, Value> = BTreeMap::new();
    if topsky(l, p) {
        for i in p.ts_maps.iter().flat_map(|m| &m.items) {
            if let MItem::Style { name, dashes, .. } = i {
                let v = if dashes.len() > 1 {
                    Value::Array(
                        dashes
                            .chunks_exact(2)
                            .map(|c| json!({"length": f64::from(c[0]), "gap": f64::from(c[1])}))
                            .collect(),
                    )
                } else {
                    Value::Null
                };
                defs.insert(name.clone(), v);
            }
        }
    }
    let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (k, v) in defs {
        m.entry(k.to_uppercase()).or_default().push(v);
    }
    let dash = |v: &[(f64, f64)]| {
        Value::Array(v.iter().map(|(a, b)| json!({"length": a, "gap": b})).collect())
    };
    for (k, v) in [
        ("SOLID", Value::Null),
        ("DOT", dash(&[(1., 1.)])),
        ("ALTERNATE", dash(&[(1., 1.)])),
        ("DASH", dash(&[(3., 3.)])),
        ("DASHDOT", dash(&[(3., 3.), (1., 3.)])),
        ("DASHDOTDOT", dash(&[(3., 3.), (1., 3.), (1., 3.)])),
    ] {
        m.insert(k.into(), vec![v]);
    }
    m
}

// ---------------------------------------------------------------- settings

fn setting<'a>(l: &Layout, p: &'a Pack, k: &str) -> Option<&'a str> {
    if !topsky(l, p) {
        return None;
    }
    p.ts_settings
        .as_ref()?
        .settings
        .iter()
        .rev()
        .find(|s| s.0 == k)
        .map(|s| s.1.as_str())
}
pub fn coopans(l: &Layout, p: &Pack) -> bool {
    setting(l, p, "Setup_COOPANS") != Some("0")
}
const STYLE_NAMES: [&str; 5] = ["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"];
pub fn settings(l: &Layout, p: &Pack) -> Value {
    let line = |f: &str, n: &str| match item(p, f, n) {
        Some(i) => json!({"width": i.weight, "style": STYLE_NAMES[usize::from(i.style) % 5]}),
        None => json!({"width": 1, "style": "SOLID"}),
    };
    let mut labels = JMap::new();
    for (k, f, n) in [
        ("vor", "VORs", "name"),
        ("ndb", "NDBs", "name"),
        ("fix", "Fixes", "name"),
        ("airport", "Airports", "name"),
        ("runway", "Runways", "name"),
    ] {
        let (al, scale) = item(p, f, n).map_or((7, 3.0f32), |i| (i.align, tv(i.scale) as f32));
        let h = ["Left", "Center", "Right"][usize::from(al / 6) % 3];
        let v = ["Top", "Center", "Bottom"][usize::from(al % 6) % 3];
        labels.insert(format!("{k}_alignment"), json!({"horizontal": h, "vertical": v}));
        labels.insert(format!("{k}_font_size"), json!(scale * 3.5f32));
    }
    let on = topsky(l, p);
    let dots: u32 = setting(l, p, "Track_HistoryDots").and_then(|s| s.parse().ok()).unwrap_or(6);
    let vec: f32 = setting(l, p, "Track_PredictionLine").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let font: f32 = setting(l, p, "Maps_FontSize").and_then(|s| s.parse().ok()).unwrap_or(12.0);
    let (de, dc) = if on && dots != 0 { (true, dots) } else { (false, 6) };
    let (ve, vl) = if on && vec != 0.0 { (true, vec) } else { (false, 1.0) };
    let mut codes = JMap::new();
    if l.squawks.is_some() {
        for s in p.squawks.iter().flat_map(|s| &s.squawks) {
            let oct = |x: &str| u16::from_str_radix(x, 8).ok().filter(|_| !x.starts_with(['+', '-']));
            let r = match (&s.code, &s.range) {
                (Some(c), None) => oct(c).map(|v| (v, v)),
                (None, Some((a, b))) => oct(a).zip(oct(b)),
                _ => None,
            };
            if let Some((a, b)) = r {
                for v in a..=b {
                    codes.insert(format!("{v:04o}"), json!(s.message));
                }
            }
        }
    }
    let mut asr: Vec<&(u8, String)> = l.recent.iter().filter(|r| (1..=9).contains(&r.0)).collect();
    asr.sort_by_key(|r| r.0);
    json!({
        "maps": {
            "font": null, "font_size": font, "auto_folder": "AUTO", "layer": 1.0, "label_offset": [3.0, 3.0],
            "line_styles": {
                "runway_centreline": line("Runways", "centerline"),
                "geo": line("Geo", "line"),
                "sid": line("Sids", "line"),
                "star": line("Stars", "line"),
                "high_airways": line("High airways", "line"),
                "low_airways": line("Low airways", "line"),
                "artcc_low": line("ARTCC low boundary", "line"),
                "artcc": line("ARTCC boundary", "line"),
                "artcc_high": line("ARTCC high boundary", "line"),
            },
            "labels": labels,
        },
        "track": {
            "history_dots": {"enabled": de, "count": dc, "options": [0, 1, 2, 3, 4, 5, 6, 7, 8]},
            "vector": {"enabled": ve, "length": vl,
                "options": [0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 15.0, 20.0]},
        },
        "coopans": coopans(l, p),
        "ssr": {"special_use_codes": codes},
        "asr_files": asr.iter().map(|r| canon(&l.resolve(&r.1))).collect::<Vec<_>>(),
        "coordination": {"act_time": 900.0, "abi_time": 1800.0, "rev_time": 300.0, "lam_timeout": 5.0, "fir_overrides": {}},
    })
}

// ---------------------------------------------------------------- drawing items

/// chains of segments -> drawn poly lines: consecutive connected segments of one
/// colour form one line
pub fn runs(segs: &[Seg]) -> Vec<(Option<String>, Vec<Vec<Loc>>)> {
    let mut g: Vec<(Option<String>, Vec<Vec<Loc>>)> = vec![];
    for s in segs {
        if g.last().is_none_or(|l| l.0 != s.colour) {
            g.push((s.colour.clone(), vec![]));
        }
        let lines = &mut g.last_mut().unwrap().1;
        match lines.last_mut() {
            Some(l) if l.last() == Some(&s.a) => {
                if s.a != s.b {
                    l.push(s.b.clone());
                }
            }
            _ => lines.push(if s.a == s.b { vec![s.a.clone()] } else { vec![s.a.clone(), s.b.clone()] }),
        }
    }
    g
}
fn coloured(v: &[Lines], pl: &Places, pal: &Palette, own: Rgb) -> Value {
    let mut m = JMap::new();
    for l in v {
        for (c, lines) in runs(&l.segs) {
            let drawn: Vec<Value> = lines
                .iter()
                .filter_map(|l| {
                    let mut pts: Vec<(f64, f64)> = l.iter().filter_map(|p| pl.loc(p)).collect();
                    pts.dedup();
                    (!pts.is_empty()).then(|| Value::Array(pts.into_iter().map(pt).collect()))
                })
                .collect();
            if drawn.is_empty() {
                continue;
            }
            let col = c.as_ref().and_then(|c| pal.named(c)).unwrap_or(own);
            push(&mut m, &l.name, json!({"colour": hex(col), "lines": drawn}));
        }
    }
    Value::Object(m)
}
/// sids, stars, artccs*, geo, regions, labels (not the airways)
pub fn sct_items(l: &Layout, p: &Pack) -> Value {
    let pl = Places::new(p);
    let pal = Palette::new(l, p);
    let own = |f: &str| item_colour(p, f, "line", (0, 0, 0));
    let mut regions = JMap::new();
    for r in p.sct.regions.iter().filter(|r| !r.pts.is_empty()) {
        push(
            &mut regions,
            &r.name,
            json!({"name": r.name, "colour_name": r.colour, "polygon": r.pts.iter().map(|l| pt(l.xy())).collect::<Vec<_>>()}),
        );
    }
    let mut labels = JMap::new();
    for r in &p.sct.labels {
        push(
            &mut labels,
            &r.name,
            json!({"name": r.name, "colour_name": r.colour, "coordinate": {"Coordinate": pt(r.pos.xy())}}),
        );
    }
    json!({
        "sids": coloured(&p.sct.sids, &pl, &pal, own("Sids")),
        "stars": coloured(&p.sct.stars, &pl, &pal, own("Stars")),
        "artccs_high": coloured(&p.sct.artcc_high, &pl, &pal, own("ARTCC high boundary")),
        "artccs": coloured(&p.sct.artcc, &pl, &pal, own("ARTCC boundary")),
        "artccs_low": coloured(&p.sct.artcc_low, &pl, &pal, own("ARTCC low boundary")),
        "geo": coloured(&p.sct.geo, &pl, &pal, own("Geo")),
        "regions": regions,
        "labels": labels,
    })
}
pub type Unit = ((i64, i64), (i64, i64));
pub fn unit(a: (f64, f64), b: (f64, f64)) -> Unit {
    let (a, b) = ((q(a.0), q(a.1)), (q(b.0), q(b.1)));
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
pub type Spot = (i64, i64);
/// designator -> legs as written, where both ends are known
pub fn drawn_airways(v: &[Awy], pl: &Places) -> BTreeMap<String, Vec<(Spot, Spot)>> {
    let mut m: BTreeMap<String, Vec<(Spot, Spot)>> = BTreeMap::new();
    for a in v {
        let e = m.entry(a.des.clone()).or_default();
        if let (Some(x), Some(y)) = (pl.loc(&a.a), pl.loc(&a.b)) {
            e.push(((q(x.0), q(x.1)), (q(y.0), q(y.1))));
        }
    }
    m
}
/// (before, at, after): legs that have to be drawn as one line, because nothing else meets there
pub fn must_join(legs: &[(Spot, Spot)]) -> Vec<(Spot, Spot, Spot)> {
    let mut v = vec![];
    for (i, a) in legs.iter().enumerate() {
        for b in legs[i + 1..].iter().filter(|b| b.0 == a.1) {
            let ends = legs.iter().map(|l| usize::from(l.0 == a.1) + usize::from(l.1 == a.1)).sum::<usize>();
            if ends == 2 {
                v.push((a.0, a.1, b.1));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- TopSky maps

pub fn active(a: &Act) -> Value {
    let rw = |v: &Option<Vec<(String, String)>>| {
        v.as_ref()
            .map(|v| v.iter().map(|(a, b)| json!({"icao": a, "designator": b})).collect::<Vec<_>>())
    };
    let ids = |v: &[Option<Vec<String>>]| json!({"own": v[0], "own_excludes": v[1], "online": v[2], "online_excludes": v[3]});
    match a {
        Act::Always => json!("True"),
        Act::Sched(..) => json!("Schedule"),
        Act::Id(v) => json!({"Id": ids(v)}),
        Act::Callsign(v) => json!({"Callsign": ids(v)}),
        Act::Area(a, e) => json!({"Area": {"areas": a, "area_excludes": e}}),
        Act::Aup(a) => json!({"Aup": a}),
        Act::Map(eq, f, n) => json!({"Map": [if *eq { "Same" } else { "Opposite" }, f, n]}),
        Act::Notam(i, n) => json!({"Notam": [i, n]}),
        Act::Rwy(a, d) => json!({"Runway": {"arrival": rw(a), "arrival_excludes": null, "departure": rw(d), "departure_excludes": null}}),
        Act::RwyEx(v) => json!({"Runway": {"arrival": rw(&v[0]), "arrival_excludes": rw(&v[1]), "departure": rw(&v[2]), "departure_excludes": rw(&v[3])}}),
    }
}
#[derive(Clone)]
struct Group {
    colour: Rgb,
    font: f32,
    layer: f64,
    asr: Option<Vec<String>>,
    zoom: Option<f32>,
    style: (i64, String),
    lines: Vec<Value>,
    labels: Vec<Value>,
    symbols: Vec<Value>,
    polys: Vec<Value>,
}
impl Group {
    fn drawn(&self) -> bool {
        !(self.lines.is_empty() && self.labels.is_empty() && self.symbols.is_empty() && self.polys.is_empty())
    }
    fn json(&self) -> Value {
        json!({"colour": hex(self.colour), "font_size": self.font, "layer": self.layer, "asr_data": self.asr,
            "zoom": self.zoom, "line_style": {"width": self.style.0, "style": self.style.1},
            "lines": self.lines, "labels": self.labels, "symbols": self.symbols, "polygons": self.polys})
    }
}
fn same(a: &MLoc, b: &MLoc) -> bool {
    match (a, b) {
        (MLoc::Name(x), MLoc::Name(y)) => x == y,
        (MLoc::Name(_), _) | (_, MLoc::Name(_)) => false,
        _ => {
            let f = |l: &MLoc| match l {
                MLoc::Dms(l) => l.xy(),
                MLoc::Dec(a, b) => (num(b), num(a)),
                MLoc::Name(_) => (0.0, 0.0),
            };
            f(a) == f(b)
        }
    }
}
/// LINE records that continue each other are one line
pub fn join(v: &[(MLoc, MLoc)]) -> Vec<Vec<MLoc>> {
    let mut out: Vec<Vec<MLoc>> = vec![];
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if same(l.last().unwrap(), a) => {
                if !same(a, b) {
                    l.push(b.clone());
                }
            }
            _ => out.push(if same(a, b) { vec![a.clone()] } else { vec![a.clone(), b.clone()] }),
        }
    }
    out
}
pub fn maps(l: &Layout, p: &Pack) -> Value {
    let mut folders: BTreeMap<String, Vec<(String, Value)>> = BTreeMap::new();
    if !topsky(l, p) {
        return json!({});
    }
    let pal = Palette::new(l, p);
    let pl = Places::new(p);
    let font: f32 = setting(l, p, "Maps_FontSize").and_then(|s| s.parse().ok()).unwrap_or(12.0);
    let items = &p.ts_maps.as_ref().unwrap().items;
    let at = |v: &[MLoc]| -> Vec<(f64, f64)> { v.iter().filter_map(|l| pl.mloc(l)).collect() };
    let arr = |v: Vec<(f64, f64)>| Value::Array(v.into_iter().map(pt).collect());
    for i in items {
        let MItem::Map { name, rules } = i else { continue };
        let Some(first) = rules.iter().find_map(|r| match r {
            MRule::Colour(c, _) => pal.named(c),
            _ => None,
        }) else {
            continue;
        };
        let mut folder = "AUTO".to_string();
        let mut hidden = false;
        let mut act: Vec<Vec<Value>> = vec![];
        let mut buf: Vec<MLoc> = vec![];
        let mut g = vec![Group {
            colour: first,
            font,
            layer: 1.0,
            asr: None,
            zoom: None,
            style: (1, "SOLID".into()),
            lines: vec![],
            labels: vec![],
            symbols: vec![],
            polys: vec![],
        }];
        // attributes apply to what is drawn after them
        let fresh = |g: &mut Vec<Group>| {
            let last = g.last().unwrap().clone();
            if last.drawn() {
                g.push(Group { lines: vec![], labels: vec![], symbols: vec![], polys: vec![], ..last });
            }
        };
        for r in rules {
            match r {
                MRule::Folder(f) => folder = f.clone(),
                MRule::Hidden => hidden = true,
                MRule::Colour(c, _) => {
                    if let Some(c) = pal.named(c) {
                        fresh(&mut g);
                        g.last_mut().unwrap().colour = c;
                    }
                }
                MRule::Asr(a) => {
                    fresh(&mut g);
                    g.last_mut().unwrap().asr = a.clone();
                }
                MRule::Layer(x) => {
                    fresh(&mut g);
                    g.last_mut().unwrap().layer = f64::from(*x);
                }
                MRule::Zoom(z) => {
                    fresh(&mut g);
                    g.last_mut().unwrap().zoom = Some(tenths(*z, false).parse().unwrap());
                }
                MRule::Style(s, w) => {
                    fresh(&mut g);
                    g.last_mut().unwrap().style = (i64::from(w.unwrap_or(1)), s.to_uppercase());
                }
                MRule::Font(k, t) => {
                    fresh(&mut g);
                    let x: f32 = tenths(*t, false).parse().unwrap();
                    let f = &mut g.last_mut().unwrap().font;
                    *f = match k {
                        '=' => x,
                        '+' => *f + x,
                        '-' => *f - x,
                        '*' => *f * x,
                        _ => font,
                    };
                }
                MRule::Active(a) => act.push(vec![active(a)]),
                MRule::AndActive(a) => {
                    if let Some(v) = act.last_mut() {
                        v.push(active(a));
                    }
                }
                MRule::Symbol(n, at, lab, _) => {
                    if let Some(xy) = pl.mloc(at) {
                        g.last_mut().unwrap().symbols.push(json!({"name": n, "coordinate": pt(xy),
                            "label": lab.as_ref().map(|l| l.0.clone()),
                            "label_alignment": {"horizontal": "Center", "vertical": "Center"},
                            "label_offset": lab.as_ref().map_or([3.0, 3.0], |l| [tv(l.1), tv(l.2)])}));
                    }
                }
                MRule::Text(at, t, _) => {
                    if let Some(xy) = pl.mloc(at) {
                        g.last_mut().unwrap().labels.push(json!({"coordinate": pt(xy), "text": t,
                            "alignment": {"horizontal": "Center", "vertical": "Center"}}));
                    }
                }
                MRule::Lines(v) => {
                    for o in join(v) {
                        g.last_mut().unwrap().lines.push(arr(at(&o)));
                    }
                }
                MRule::Coord(l) => buf.push(l.clone()),
                MRule::CoordLine => {
                    g.last_mut().unwrap().lines.push(arr(at(&buf)));
                    buf.clear();
                }
                MRule::CoordPoly(_) => {
                    let mut v = at(&buf);
                    if v.first() != v.last() {
                        v.push(v[0]);
                    }
                    g.last_mut().unwrap().polys.push(json!({"exterior": arr(v), "interiors": []}));
                    buf.clear();
                }
                MRule::Global | MRule::Screen | MRule::Ignored(_) => {}
            }
        }
        let f = folders.entry(folder.clone()).or_default();
        let mut n = name.clone();
        let mut k = 2;
        while f.iter().any(|m| m.0 == n) {
            n = format!("{name}_{k}");
            k += 1;
        }
        f.push((
            n.clone(),
            json!({"name": n, "folder": folder, "hidden": hidden, "active": act,
                "map_groups": g.iter().map(Group::json).collect::<Vec<_>>()}),
        ));
    }
    let hidden = |f: &str| {
        f == "AUTO"
            || items
                .iter()
                .any(|i| matches!(i, MItem::Override { folder, name: None } if folder == f))
    };
    Value::Object(
        folders
            .into_iter()
            .map(|(f, m)| {
                let h = hidden(&f);
                (f.clone(), json!({"name": f, "hidden": h, "maps": m.into_iter().collect::<JMap<_, _>>()}))
            })
            .collect(),
    )
}
