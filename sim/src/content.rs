//! Comparison of what a load returned with what the reference model says.

use crate::model::{self, Graph, Places};
use crate::pack::q;
use crate::world::{Layout, Pack};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 160 {
        format!("{}…", s.chars().take(160).collect::<String>())
    } else {
        s
    }
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 2e-9 + 1e-9 * a.abs().max(b.abs()) || (a.is_nan() && b.is_nan())
}
/// first difference, as "path: expected …, got …"
pub fn diff(path: &str, want: &Value, got: &Value) -> Option<String> {
    match (want, got) {
        (Value::Number(a), Value::Number(b)) => {
            let (x, y) = (a.as_f64().unwrap_or(f64::NAN), b.as_f64().unwrap_or(f64::NAN));
            // f32 fields: shortest decimal differs from the f64 value
            if close(x, y) {
                return None;
            }
            Some(format!("{path}: expected {a}, got {b}"))
        }
        (Value::Array(a), Value::Array(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = diff(&format!("{path}[{i}]"), x, y) {
                    return Some(d);
                }
            }
            if a.len() != b.len() {
                return Some(format!("{path}: expected {} elements {}, got {} {}", a.len(), short(want), b.len(), short(got)));
            }
            None
        }
        (Value::Object(a), Value::Object(b)) => {
            for (k, x) in a {
                match b.get(k) {
                    None => return Some(format!("{path}.{k}: missing, expected {}", short(x))),
                    Some(y) => {
                        if let Some(d) = diff(&format!("{path}.{k}"), x, y) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, y) in b {
                if !a.contains_key(k) {
                    return Some(format!("{path}.{k}: unexpected {}", short(y)));
                }
            }
            None
        }
        _ if want == got => None,
        _ => Some(format!("{path}: expected {}, got {}", short(want), short(got))),
    }
}
/// got restricted to the keys of want (new fields may be added to the adaptation)
fn sub(want: &Value, got: &Value) -> Value {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            Value::Object(b.iter().filter(|(k, _)| a.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect())
        }
        _ => got.clone(),
    }
}
fn strs(v: &Value) -> BTreeSet<String> {
    v.as_array().into_iter().flatten().filter_map(|x| x.as_str()).map(String::from).collect()
}
fn set_diff<T: Ord + std::fmt::Debug>(what: &str, want: &BTreeSet<T>, got: &BTreeSet<T>) -> Option<String> {
    if let Some(x) = want.difference(got).next() {
        return Some(format!("{what}: missing {x:?}"));
    }
    got.difference(want).next().map(|x| format!("{what}: unexpected {x:?}"))
}
fn xy(v: &Value) -> Option<(f64, f64)> {
    Some((v.get("x")?.as_f64()?, v.get("y")?.as_f64()?))
}
fn qxy(v: &Value) -> Option<(i64, i64)> {
    xy(v).map(|p| (q(p.0), q(p.1)))
}
fn und(a: (i64, i64), b: (i64, i64)) -> model::Unit {
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}

pub fn locations(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let _ = l;
    let want = model::locations(p);
    diff("locations", &want, &sub(&want, &v["locations"]))
}

/// the serialised graph in the model's canonical form
pub fn graph_canon(v: &Value) -> Result<BTreeSet<String>, String> {
    let bad = |s: &str| format!("airway graph: {s}");
    let names: Vec<&str> = v["fix_name_by_id"].as_array().ok_or_else(|| bad("no fix names"))?.iter().filter_map(|x| x.as_str()).collect();
    let awys: Vec<&str> = v["airway_name_by_id"].as_array().ok_or_else(|| bad("no airway names"))?.iter().filter_map(|x| x.as_str()).collect();
    let fixes = v["fixes"].as_array().ok_or_else(|| bad("no fixes"))?;
    if fixes.len() != names.len() {
        return Err(bad("name table does not fit the fixes"));
    }
    for (i, n) in names.iter().enumerate() {
        let ids = v["fix_id_by_name"][*n].as_array().ok_or_else(|| bad(&format!("{n} has no id")))?;
        if ids.iter().filter(|x| x.as_u64() == Some(i as u64)).count() != 1 {
            return Err(bad(&format!("fix {i} {n} not found by its name exactly once: {ids:?}")));
        }
    }
    let n_ids: usize = v["fix_id_by_name"].as_object().map_or(0, |o| o.values().map(|x| x.as_array().map_or(0, Vec::len)).sum());
    if n_ids != names.len() {
        return Err(bad("ids by name and fixes differ in number"));
    }
    for (i, n) in awys.iter().enumerate() {
        if v["airway_id_by_name"][*n].as_u64() != Some(i as u64) {
            return Err(bad(&format!("airway {n} is not found by its name")));
        }
    }
    let mut s = BTreeSet::new();
    let key = |i: usize| -> Result<String, String> {
        let p = qxy(&fixes[i]["position"]).ok_or_else(|| bad("position"))?;
        Ok(format!("{}@{},{}", names[i], p.0, p.1))
    };
    for (i, f) in fixes.iter().enumerate() {
        s.insert(format!("fix {}", key(i)?));
        for (a, es) in f["edges"].as_object().into_iter().flatten() {
            let a = a.parse::<usize>().ok().and_then(|a| awys.get(a)).ok_or_else(|| bad("edge of an unknown airway"))?;
            for e in es.as_array().into_iter().flatten() {
                let to = e["to"].as_u64().unwrap_or(u64::MAX) as usize;
                if to >= fixes.len() {
                    return Err(bad("edge to an unknown fix"));
                }
                let line = format!(
                    "{a}: {} -> {} valid={} min={:?} {}",
                    key(i)?,
                    key(to)?,
                    e["valid_direction"],
                    e["minimum_level"].as_u64().map(|x| x as u32),
                    e["airway_type"].as_str().unwrap_or("?")
                );
                if !s.insert(line.clone()) {
                    return Err(bad(&format!("duplicate edge {line}")));
                }
            }
        }
    }
    Ok(s)
}
pub fn airways(_: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let want = Graph::new(&p.airways).canon();
    match graph_canon(&v["locations"]["airways"]) {
        Err(e) => Some(e),
        Ok(got) => set_diff("airways", &want, &got),
    }
}

fn area2(r: &[(i64, i64)]) -> i128 {
    r.windows(2).map(|w| i128::from(w[0].0) * i128::from(w[1].1) - i128::from(w[1].0) * i128::from(w[0].1)).sum()
}
/// Two edges of the ring that are no neighbours touch or cross.
fn crosses(r: &[(i64, i64)]) -> bool {
    let side = |a: (i64, i64), b: (i64, i64), c: (i64, i64)| {
        (i128::from(b.0 - a.0) * i128::from(c.1 - a.1) - i128::from(b.1 - a.1) * i128::from(c.0 - a.0)).signum()
    };
    let e: Vec<_> = r.windows(2).map(|w| (w[0], w[1])).collect();
    (0..e.len()).any(|i| {
        (i + 2..e.len()).filter(|j| i > 0 || *j + 1 < e.len()).any(|j| {
            let ((a, b), (c, d)) = (e[i], e[j]);
            side(a, b, c) * side(a, b, d) <= 0 && side(c, d, a) * side(c, d, b) <= 0
        })
    })
}
pub fn airspace(_: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let want = model::volumes(&p.ese);
    let empty = serde_json::Map::new();
    let got = v["volumes"].as_object().unwrap_or(&empty);
    if let Some(d) = set_diff(
        "volumes",
        &want.keys().cloned().collect::<BTreeSet<_>>(),
        &got.keys().cloned().collect::<BTreeSet<_>>(),
    ) {
        return Some(d);
    }
    for (id, w) in &want {
        let g = &got[id];
        let head = json!({"id": id, "lower_level": w.lower, "upper_level": w.upper});
        if let Some(d) = diff(&format!("volumes.{id}"), &head, &sub(&head, g)) {
            return Some(d);
        }
        let ring: Vec<(i64, i64)> = g["lateral_border"]["exterior"].as_array().into_iter().flatten().filter_map(qxy).collect();
        if g["lateral_border"]["interiors"].as_array().is_none_or(|a| !a.is_empty()) {
            return Some(format!("volumes.{id}: has holes"));
        }
        if ring.len() < 2 || ring.first() != ring.last() {
            return Some(format!("volumes.{id}: border is not a closed ring"));
        }
        let mut a: Vec<_> = ring.windows(2).map(|w| und(w[0], w[1])).collect();
        let mut b: Vec<_> = w.edges.iter().map(|e| und(e.0, e.1)).collect();
        a.sort_unstable();
        b.sort_unstable();
        if a != b {
            return Some(format!("volumes.{id}: border consists of edges {a:?}, expected {b:?}"));
        }
        let simple = ring[1..].iter().collect::<BTreeSet<_>>().len() == ring.len() - 1 && ring.len() > 3 && !crosses(&ring);
        if simple && area2(&ring) < 0 {
            return Some(format!("volumes.{id}: border is not counter-clockwise: {ring:?}"));
        }
    }
    let ws = model::sectors(&want);
    let gs = v["sectors"].as_object().unwrap_or(&empty);
    if ws.len() != gs.len() {
        return Some(format!("sectors: expected {} groups, got {} ({:?})", ws.len(), gs.len(), gs.keys().collect::<Vec<_>>()));
    }
    let mut seen = BTreeSet::new();
    for (k, s) in gs {
        if s["id"].as_str() != Some(k) {
            return Some(format!("sectors.{k}: id is {}", s["id"]));
        }
        let pri: Vec<String> = s["position_priority"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
        let f = s["runway_filter"].as_array().cloned().unwrap_or_default();
        if f.len() != 1 {
            return Some(format!("sectors.{k}: {} runway filters", f.len()));
        }
        let filter: Vec<(String, String)> = f[0]
            .as_array()
            .into_iter()
            .flatten()
            .map(|x| (x["icao"].as_str().unwrap_or("").to_string(), x["designator"].as_str().unwrap_or("").to_string()))
            .collect();
        let key = (pri, filter);
        let Some(w) = ws.get(&key) else {
            return Some(format!("sectors.{k}: no sector has owners and runways {key:?}"));
        };
        if !seen.insert(key) {
            return Some(format!("sectors.{k}: two sectors with the same owners and runways"));
        }
        if !w.volumes.contains(k) {
            return Some(format!("sectors.{k}: named after a volume that is not its own"));
        }
        for (n, w) in [("volumes", &w.volumes), ("departure_aerodromes", &w.dep), ("arrival_aerodromes", &w.arr)] {
            let g = strs(&s[n]);
            if let Some(d) = set_diff(&format!("sectors.{k}.{n}"), w, &g) {
                return Some(d);
            }
        }
    }
    None
}
pub fn positions(_: &Layout, p: &Pack, v: &Value) -> Option<String> {
    diff("positions", &model::positions(&p.ese), &v["positions"])
}
pub fn constraints(_: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let (a, b) = model::constraints(&p.ese);
    diff("departure_constraints", &a, &v["departure_constraints"]).or_else(|| diff("destination_constraints", &b, &v["destination_constraints"]))
}
pub fn icao(_: &Layout, p: &Pack, v: &Value) -> Option<String> {
    diff("aircraft", &model::aircraft(&p.icao), &v["aircraft"]).or_else(|| diff("airlines", &model::airlines(&p.icao), &v["airlines"]))
}
pub fn symbols(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    diff("symbols", &model::symbols(l, p), &v["symbols"])
}
pub fn colours(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let want = model::colours(l, p);
    diff("colours", &want, &sub(&want, &v["colours"]))
}
pub fn line_styles(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let want = model::line_styles(l, p);
    let empty = serde_json::Map::new();
    let got = v["line_styles"].as_object().unwrap_or(&empty);
    if let Some(d) = set_diff(
        "line_styles",
        &want.keys().cloned().collect::<BTreeSet<_>>(),
        &got.keys().cloned().collect::<BTreeSet<_>>(),
    ) {
        return Some(d);
    }
    for (k, c) in &want {
        if c.iter().all(|w| diff("", w, &got[k]).is_some()) {
            return diff(&format!("line_styles.{k}"), &c[0], &got[k]);
        }
    }
    None
}
pub fn settings(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let mut got = v["settings"].clone();
    // a path may be spelled with redundant components
    for x in got["asr_files"].as_array_mut().into_iter().flatten() {
        if let Some(s) = x.as_str() {
            *x = json!(crate::world::canon(s));
        }
    }
    diff("settings", &model::settings(l, p), &got)
}
pub fn sct_items(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    let want = model::sct_items(l, p);
    if let Some(d) = diff("sct_items", &want, &sub(&want, &v["sct_items"])) {
        return Some(d);
    }
    let pl = Places::new(p);
    for (k, list) in [("high_airways", &p.sct.high_airways), ("low_airways", &p.sct.low_airways)] {
        let want = model::drawn_airways(list, &pl);
        let mut got: BTreeMap<String, Vec<Vec<model::Spot>>> = BTreeMap::new();
        for (des, mls) in v["sct_items"][k].as_object().into_iter().flatten() {
            let e = got.entry(des.clone()).or_default();
            for line in mls.as_array().into_iter().flatten().flat_map(|m| m.as_array().into_iter().flatten()) {
                e.push(line.as_array().into_iter().flatten().filter_map(qxy).collect());
            }
        }
        let count = |v: Vec<model::Unit>| {
            let mut m: BTreeMap<model::Unit, usize> = BTreeMap::new();
            // zero-length legs draw nothing
            v.into_iter().filter(|u| u.0 != u.1).for_each(|u| *m.entry(u).or_default() += 1);
            m
        };
        for d in want.keys().chain(got.keys()) {
            let (e, f) = (vec![], vec![]);
            let legs = want.get(d).unwrap_or(&e);
            let lines = got.get(d).unwrap_or(&f);
            let w = count(legs.iter().map(|l| und(l.0, l.1)).collect());
            let g = count(lines.iter().flat_map(|l| l.windows(2)).map(|w| und(w[0], w[1])).collect());
            let keys = |m: &BTreeMap<model::Unit, usize>| m.keys().copied().collect::<BTreeSet<_>>();
            if let Some(x) = set_diff(&format!("sct_items.{k}.{d}"), &keys(&w), &keys(&g)) {
                return Some(x);
            }
            if let Some((u, n)) = g.iter().find(|(u, n)| **n > w[u]) {
                return Some(format!("sct_items.{k}.{d}: {u:?} is written {} times and drawn {n} times", w[u]));
            }
            for j in model::must_join(legs) {
                if !lines.iter().any(|l| l.windows(3).any(|w| (w[0], w[1], w[2]) == j || (w[2], w[1], w[0]) == j)) {
                    return Some(format!("sct_items.{k}.{d}: {j:?} is not drawn in one go: {lines:?}"));
                }
            }
        }
    }
    None
}
pub fn maps(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    diff("maps", &model::maps(l, p), &v["maps"])
}
/// every position in them, in order, whatever the rest says
fn spots(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Object(o) if xy(v).is_some() && o.len() == 2 => out.push(v.clone()),
        Value::Object(o) => o.values().for_each(|x| spots(x, out)),
        Value::Array(a) => a.iter().for_each(|x| spots(x, out)),
        _ => (),
    }
}
/// the places named by coordinates outside of the location tables: visibility points,
/// maps, labels and lines
pub fn places(l: &Layout, p: &Pack, v: &Value) -> Option<String> {
    for (k, want) in [("positions", model::positions(&p.ese)), ("maps", model::maps(l, p)), ("sct_items", model::sct_items(l, p))] {
        let (mut a, mut b) = (vec![], vec![]);
        spots(&want, &mut a);
        spots(&sub(&want, &v[k]), &mut b);
        if let Some(d) = diff(&format!("places of {k}"), &Value::Array(a), &Value::Array(b)) {
            return Some(d);
        }
    }
    None
}
pub fn name(_: &Layout, p: &Pack, v: &Value) -> Option<String> {
    diff("name", &json!(p.sct.name), &v["name"])
}

pub type Part = fn(&Layout, &Pack, &Value) -> Option<String>;
pub const PARTS: &[(&str, Part)] = &[
    ("name", name),
    ("locations", locations),
    ("places", places),
    ("airways", airways),
    ("airspace", airspace),
    ("positions", positions),
    ("constraints", constraints),
    ("icao", icao),
    ("symbols", symbols),
    ("colours", colours),
    ("line_styles", line_styles),
    ("settings", settings),
    ("sct_items", sct_items),
    ("maps", maps),
];
pub fn part(n: &str) -> Part {
    PARTS.iter().find(|p| p.0 == n).expect("part").1
}

/// order-insensitive form of a whole adaptation: sets sorted, so two equal ones compare equal
pub fn canonical(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(s) = v["sectors"].as_object_mut() {
        for x in s.values_mut() {
            for k in ["volumes", "departure_aerodromes", "arrival_aerodromes"] {
                if let Some(a) = x[k].as_array_mut() {
                    a.sort_by_key(|x| x.to_string());
                }
            }
        }
    }
    v
}
