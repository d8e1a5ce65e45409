//! What a load means: every part of the adaptation against the reference model,
//! over histories of updates, faults, retries, crashes and concurrent loaders; then
//! clients query the result and every answer is compared too.

use crate::hist::*;
use crate::model::{Graph, Palette, Places};
use crate::pack::q;
use crate::props::*;
use crate::rng::Rng;
use crate::sched::Policy;
use crate::topsky_defaults::DEFAULTS;
use crate::world::*;
use geo::Point;
use std::collections::BTreeSet;
use std::sync::Mutex;
use vatsim_parser::adaptation::icao::Wtc;
use vatsim_parser::adaptation::locations::{Fix, GraphPosition};
use uom::si::f32::Time;
use uom::si::time::second;
use vatsim_parser::adaptation::settings::CoordinationTiming;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::Location;

/// run the same read-only client in two concurrent tasks; both must see the same answers
fn clients(sim: &mut Sim, r: &mut Rng, class: &str, f: &(dyn Fn() -> Option<String> + Sync)) {
    let out: Mutex<Vec<Option<String>>> = Mutex::new(vec![]);
    let n = if r.chance(0.3) { 2 } else { 1 };
    let policy = Policy::Random { seed: r.u64(), gap: *r.pick(&[20, 200, 2000]) };
    let ts: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|_| {
            let b: Box<dyn FnOnce() + Send> = Box::new(|| {
                let x = f();
                crate::sched::quiet(|| out.lock().unwrap().push(x));
            });
            b
        })
        .collect();
    crate::child::set_op("queries on a loaded adaptation");
    sim.tasks(&policy, ts);
    let bad = out.into_inner().unwrap().into_iter().flatten().next();
    if let Some(m) = bad {
        sim.fail(class, m);
    }
    sim.probe("queried");
}
fn near(a: (f64, f64), b: Point) -> bool {
    (a.0 - b.x()).abs() < 2e-9 && (a.1 - b.y()).abs() < 2e-9
}

// ------------------------------------------------------------------ locations

pub fn designators(p: &Pack, r: &mut Rng) -> Vec<String> {
    let mut s: BTreeSet<String> = BTreeSet::new();
    let pl = Places::new(p);
    for v in [&pl.vors, &pl.ndbs, &pl.fixes] {
        s.extend(v.iter().map(|x| x.des.clone()));
    }
    for (a, (_, rw)) in &pl.airports {
        s.insert(a.clone());
        for x in rw {
            s.insert(format!("{a}{}", x.0));
            s.insert(format!("{a}{}", x.1));
        }
        s.insert(format!("{a}99"));
    }
    for x in p.ese.sidstars.iter().flat_map(|x| &x.wpts) {
        s.insert(x.clone());
    }
    let base: Vec<String> = s.iter().cloned().collect();
    for _ in 0..12 {
        if base.is_empty() {
            break;
        }
        let b = r.pick(&base).clone();
        s.insert(format!("{b}{:03}{:03}", r.range(0, 361), r.range(0, 300)));
        s.insert(b.to_lowercase());
        s.insert(b.chars().take(b.len().saturating_sub(1)).collect());
    }
    for _ in 0..16 {
        // degrees, degrees+minutes, degrees+minutes+seconds; abbreviated or not; mismatched
        let n = r.range(0, 2) as usize;
        let m = if r.chance(0.85) { n } else { r.range(0, 2) as usize };
        let mut part = |deg: i64, w: usize, k: usize| {
            let d = r.range(0, deg);
            let mut t = if r.chance(0.3) { d.to_string() } else { format!("{d:0w$}") };
            for _ in 0..k {
                t.push_str(&format!("{:02}", r.range(0, 59)));
            }
            t
        };
        let (la, lo) = (part(89, 2, n), part(179, 3, m));
        s.insert(format!("{la}{}{lo}{}", r.pick(&["N", "S"]), r.pick(&["E", "W"])));
    }
    let base: Vec<String> = s.iter().cloned().collect();
    for _ in 0..24 {
        let b = r.pick(&base).clone();
        s.insert(crate::pack::foreign(r, &b));
    }
    for x in ["", "48N011E", "0N0E", "999999N9999999W", "4860N01160E", "N48E011", "EDDM26R5", "MUN36", "MUN3600010", "48N011E "] {
        s.insert(x.into());
    }
    s.into_iter().collect()
}
fn locations_after(sim: &mut Sim, p: &Pack, ad: &Adaptation, r: &mut Rng) {
    let pl = Places::new(p);
    let names = designators(p, r);
    let l = &ad.locations;
    let mut at: Vec<(String, (f64, f64))> = vec![];
    for v in [&pl.vors, &pl.ndbs, &pl.fixes] {
        for x in v.iter() {
            at.push((x.des.clone(), x.pos));
            at.push((x.des.clone(), (x.pos.0 + 0.000_002, x.pos.1)));
        }
    }
    at.extend(pl.airports.iter().map(|(n, a)| (n.clone(), a.0)));
    for _ in 0..10.min(at.len()) {
        let (a, b) = (r.pick(&at).0.clone(), r.pick(&at).1);
        at.push((a, b));
    }
    let f = || {
        for n in &names {
            let want = pl.find(n);
            let got = l.convert_designator(n);
            let same = match (&want, &got) {
                (None, None) => true,
                (Some(w), Some(g)) => w.des == g.designator && near(w.pos, g.coordinate),
                _ => false,
            };
            if !same {
                return Some(format!("designator {n:?}: expected {want:?}, got {got:?}"));
            }
            let got = l.convert_location(&Location::Fix(n.clone()));
            if got.is_some() != want.is_some() || got.is_some_and(|g| !near(want.as_ref().unwrap().pos, g)) {
                return Some(format!("location {n:?}: expected {want:?}, got {got:?}"));
            }
            let want = pl.named(n).is_some();
            if l.contains_designator(n) != want {
                return Some(format!("contains_designator({n:?}) is not {want}"));
            }
        }
        for (n, pos) in &at {
            if pl.on_edge(n) {
                continue;
            }
            let want = pl.nav_at(n, (q(pos.0), q(pos.1)));
            if l.contains_nav_element(n, GraphPosition(Point::new(pos.0, pos.1))) != want {
                return Some(format!("a nav element {n} at {pos:?}: expected {want}"));
            }
        }
        let c = Point::new(11.5, -3.25);
        if l.convert_location(&Location::Coordinate(c)) != Some(c) {
            return Some("a coordinate is not its own location".into());
        }
        None
    };
    clients(sim, r, "query:designator", &f);
}

// ------------------------------------------------------------------ airways

fn airways_after(sim: &mut Sim, p: &Pack, ad: &Adaptation, r: &mut Rng) {
    let g = Graph::new(&p.airways);
    let pl = Places::new(p);
    let mut names: Vec<String> = g.nodes.iter().map(|n| n.0.clone()).collect();
    names.sort();
    names.dedup();
    names.push("NOWHR".into());
    let mut awys: Vec<String> = g.edges.keys().map(|k| k.1.clone()).collect();
    awys.sort();
    awys.dedup();
    if g.nodes.is_empty() {
        return;
    }
    let mut asks: Vec<(String, (f64, f64), String, String)> = vec![];
    for _ in 0..60 {
        let a = if r.chance(0.95) { r.pick(&awys).clone() } else { "Z999".into() };
        let n = r.pick(&g.nodes).clone();
        // the start as the graph has it, or another place of that name
        let pos = match r.idx(4) {
            0 => (n.1 .0 + 0.5, n.1 .1),
            1 => (n.1 .0 + 0.000_000_3, n.1 .1),
            _ => n.1,
        };
        asks.push((n.0, pos, r.pick(&names).clone(), a));
    }
    // ends of the same airway
    for a in &awys {
        let on: Vec<&(usize, String)> = g.edges.keys().filter(|k| k.1 == *a).collect();
        for _ in 0..8 {
            let (x, y) = (r.pick(&on).0, r.pick(&on).0);
            asks.push((g.nodes[x].0.clone(), g.nodes[x].1, g.nodes[y].0.clone(), a.clone()));
        }
        // from one end to the other
        let by = |k: &&&(usize, String)| k.0;
        if let (Some(x), Some(y)) = (on.iter().min_by_key(by), on.iter().max_by_key(by)) {
            asks.push((g.nodes[x.0].0.clone(), g.nodes[x.0].1, g.nodes[y.0].0.clone(), a.clone()));
            asks.push((g.nodes[y.0].0.clone(), g.nodes[y.0].1, g.nodes[x.0].0.clone(), a.clone()));
        }
    }
    let l = &ad.locations;
    let f = || {
        for (n, pos, end, awy) in &asks {
            let start = Fix { designator: n.clone(), coordinate: Point::new(pos.0, pos.1) };
            let got = l.airways.expand_airway_segment(&start, end, awy, l);
            let want = g.expand(n, *pos, end, awy, &pl);
            let text = |v: &[(String, (f64, f64), bool, Option<u32>, bool)]| {
                v.iter().map(|x| format!("{}@{},{} {} {:?} {}", x.0, q(x.1 .0), q(x.1 .1), x.2, x.3, x.4 && !pl.on_edge(&x.0))).collect::<Vec<_>>()
            };
            for (a, _) in got.iter().flatten() {
                // a point prints as airway.txt has it
                let level = a.minimum_level.map_or_else(String::new, |l| format!("{l:05}"));
                let dir = if a.valid_direction { 'Y' } else { 'N' };
                let c = a.fix.coordinate;
                let line = format!("{}\t{:.6}\t{:.6}\t{level}\t{dir}", a.fix.designator, c.y(), c.x());
                if a.to_string() != line {
                    return Some(format!("{awy}: {:?} prints as {:?}", line, a.to_string()));
                }
            }
            let got = got.map(|v| {
                let v: Vec<_> = v
                    .into_iter()
                    .map(|(a, i)| {
                        let c = a.fix.coordinate;
                        (a.fix.designator, (c.x(), c.y()), a.valid_direction, a.minimum_level, i)
                    })
                    .collect();
                text(&v)
            });
            let want = want.map(|v| text(&v));
            if want != got {
                return Some(format!("{awy} from {n} {pos:?} to {end}: expected {want:?}, got {got:?}"));
            }
        }
        None
    };
    clients(sim, r, "query:expand", &f);
}

// ------------------------------------------------------------------ others

/// the names and what is only nearly one of them
fn with_misses(names: impl IntoIterator<Item = String>) -> Vec<String> {
    let mut s = BTreeSet::new();
    for n in names {
        let k = n.chars().count();
        s.insert(n.chars().take(k.saturating_sub(1)).collect());
        s.insert(n.chars().skip(1).collect());
        s.insert(format!("{n}1"));
        s.insert(format!("{n}/M"));
        s.insert(format!("{n} "));
        s.insert(format!(" {n}"));
        s.insert(n.to_lowercase());
        s.insert(n.to_uppercase());
        s.insert(n);
    }
    s.extend(["", "nothing", "no such volume"].map(String::from));
    s.into_iter().collect()
}

fn airspace_after(sim: &mut Sim, p: &Pack, ad: &Adaptation, r: &mut Rng) {
    let names = with_misses(p.ese.items.iter().filter_map(|i| match i {
        crate::pack::AirItem::Sector(s) => Some(s.id.clone()),
        _ => None,
    }));
    let f = || {
        for v in &names {
            let want = ad.sectors.iter().find(|(_, s)| s.volumes.contains(v)).map(|x| x.0);
            let got = ad.sectors.find_id_by_volume(v);
            if got != want {
                return Some(format!("volume {v} of sector {want:?} is found in {got:?}"));
            }
        }
        None
    };
    clients(sim, r, "query:sector_of_volume", &f);
}
fn constraints_after(sim: &mut Sim, _: &Pack, ad: &Adaptation, r: &mut Rng) {
    let f = || {
        for m in [&ad.departure_constraints, &ad.destination_constraints] {
            for (k, c) in m {
                if c.key() != *k {
                    return Some(format!("constraint {c:?} is filed under {k} but its key is {}", c.key()));
                }
            }
        }
        None
    };
    clients(sim, r, "query:constraint_key", &f);
}
fn colours_after(sim: &mut Sim, p: &Pack, ad: &Adaptation, r: &mut Rng) {
    let pal = Palette::new(&sim.s.layout, p);
    let mut names: Vec<String> = pal.other.keys().cloned().collect();
    names.extend(DEFAULTS.iter().map(|d| d.0.to_string()));
    names.extend(["nothing", "", "coast", "COAST"].map(String::from));
    let names = with_misses(names);
    let f = || {
        for n in &names {
            let want = pal.named(n).map(|c| crate::model::hex(c));
            let got = ad.colours.get(n, &ad.settings).map(|c| format!("#{:02x}{:02x}{:02x}", c.r, c.g, c.b));
            if want != got {
                return Some(format!("colour {n}: expected {want:?}, got {got:?}"));
            }
        }
        None
    };
    clients(sim, r, "query:colour", &f);
}
fn symbols_after(sim: &mut Sim, p: &Pack, ad: &Adaptation, r: &mut Rng) {
    let want = crate::model::symbols(&sim.s.layout, p);
    let names = with_misses(["FIX", "VOR", "HISTORY", "RWY", "NDB", "DAPS"].into_iter().map(String::from).chain(want["other"].as_object().into_iter().flat_map(|o| o.keys().cloned())));
    let f = || {
        for n in &names {
            let got = ad.symbols.get(n).map(|r| serde_json::to_value(r).unwrap_or_default());
            if crate::content::diff("symbol", &want["other"].get(n).cloned().into(), &got.clone().into()).is_some() {
                return Some(format!("symbol {n}: expected {:?}, got {got:?}", want["other"].get(n)));
            }
        }
        None
    };
    clients(sim, r, "query:symbol", &f);
}
fn icao_after(sim: &mut Sim, p: &Pack, ad: &Adaptation, r: &mut Rng) {
    let want = crate::model::aircraft(&p.icao);
    let names = with_misses(p.icao.aircraft.iter().map(|a| a.des.clone()));
    let f = || {
        for n in &names {
            let w = want[n.as_str()]["wtc"].as_str().unwrap_or("UNKNOWN").to_string();
            let got = serde_json::to_value(ad.aircraft.wtc(Some(n))).unwrap_or_default();
            if got.as_str() != Some(&w) {
                return Some(format!("wake category of {n:?}: expected {w}, got {got}"));
            }
            let letter = match w.as_str() {
                "LIGHT" => "L",
                "MEDIUM" => "M",
                "HEAVY" => "H",
                "SUPER" => "J",
                _ => "?",
            };
            if ad.aircraft.wtc(Some(n)).to_string() != letter {
                return Some(format!("{w} prints as {}", ad.aircraft.wtc(Some(n))));
            }
        }
        if ad.aircraft.wtc(None) != Wtc::UNKNOWN {
            return Some("no aircraft type has a wake category".into());
        }
        None
    };
    clients(sim, r, "query:wtc", &f);
}
fn settings_after(sim: &mut Sim, _: &Pack, ad: &Adaptation, r: &mut Rng) {
    let secs = |v: Option<Time>| v.map(|t| t.get::<second>());
    let mut timing = |r: &mut Rng| {
        let mut t = || if r.chance(0.5) { Some(Time::new::<second>(r.range(0, 40) as f32 * 30.0)) } else { None };
        CoordinationTiming { act_time: t(), abi_time: t(), rev_time: t() }
    };
    let mut c = ad.settings.coordination.clone();
    let mut firs = vec![];
    for f in ["EDMM", "LOVV", "EDM", "edmm"] {
        if r.chance(0.6) {
            let t = timing(r);
            firs.push((f.to_string(), t.clone()));
            c.fir_overrides.insert(f.to_string(), t);
        }
    }
    let own: Vec<Option<CoordinationTiming>> = (0..4).map(|_| if r.chance(0.7) { Some(timing(r)) } else { None }).collect();
    let asks = [None, Some("EDMM"), Some("LOVV"), Some("EDM"), Some("EDMMX"), Some("edmm"), Some("")];
    let f = || {
        for fir in asks {
            for o in own.iter().map(Option::as_ref) {
                let of = firs.iter().find(|x| Some(x.0.as_str()) == fir).map(|x| &x.1);
                let want = |pick: fn(&CoordinationTiming) -> Option<Time>, all: Time| secs(o.and_then(pick).or(of.and_then(pick)).or(Some(all)));
                let want = [want(|t| t.act_time, c.act_time), want(|t| t.abi_time, c.abi_time), want(|t| t.rev_time, c.rev_time)];
                let g = c.resolve(fir, o);
                let got = [secs(Some(g.act_time)), secs(Some(g.abi_time)), secs(Some(g.rev_time))];
                if got != want {
                    return Some(format!("timing towards {fir:?} with {o:?} and {of:?}: expected {want:?}, got {got:?}"));
                }
            }
        }
        None
    };
    clients(sim, r, "query:timing", &f);
}

pub const DEFS: &[Def] = &[
    Def {
        id: "P11",
        gen: |r, n| {
            let m = if r.chance(0.4) { TS } else { 0 };
            gen_focus(r, n, SCT | ICAO | ESE | m)
        },
        exec: |v| exec_then(v, &["name", "locations", "places"], locations_after),
        ..BASE
    },
    Def { id: "P12", gen: |r, n| gen_focus(r, n, AWY), exec: |v| exec_then(v, &["airways"], airways_after), ..BASE },
    Def { id: "P13", gen: |r, n| gen_focus(r, n, ESE), exec: |v| exec_then(v, &["airspace"], airspace_after), ..BASE },
    Def { id: "P14", gen: |r, n| gen_focus(r, n, ESE), exec: |v| exec_then(v, &["positions", "constraints"], constraints_after), ..BASE },
    Def { id: "P15", gen: |r, n| gen_focus(r, n, SCT), exec: |v| exec_parts(v, &["sct_items"]), ..BASE },
    Def { id: "P16", gen: |r, n| gen_focus(r, n, TS), exec: |v| exec_parts(v, &["maps"]), ..BASE },
    Def { id: "P17", gen: |r, n| gen_focus(r, n, SYM | SCT | TS), exec: |v| exec_then(v, &["colours"], colours_after), ..BASE },
    Def { id: "P18", gen: |r, n| gen_focus(r, n, SYM | TS), exec: |v| exec_then(v, &["symbols", "line_styles"], symbols_after), ..BASE },
    Def { id: "P19", gen: |r, n| gen_focus(r, n, SYM), exec: |v| exec_then(v, &["settings"], settings_after), ..BASE },
    Def { id: "P20", gen: |r, n| gen_focus(r, n, ICAO), exec: |v| exec_then(v, &["icao"], icao_after), ..BASE },
];
