//! What clients ask of loaded adaptations, in any order and from any thread: an answer
//! depends on the adaptation and the question alone, and asking changes nothing.

use crate::child::{run_forked, Outcome, Report};
use crate::content::canonical;
use crate::hist::*;
use crate::p_content::designators;
use crate::props::*;
use crate::rng::{hash_bytes, Rng};
use crate::sched::Policy;
use crate::world::*;
use geo::{Coord, Line, Point};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::Mutex;
use vatsim_parser::adaptation::icao::Wtc;
use vatsim_parser::adaptation::locations::{Fix, GraphPosition};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::Location;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QStep {
    /// install that version and load it
    Load(usize, Vec<RFault>, Policy),
    Copy(usize),
    /// an adaptation taken from its saved form
    Saved(usize),
    /// the client changes something in its adaptation
    Edit(usize, u64),
    /// the airways, the airports or the aircraft of another adaptation
    Take(usize, usize, u8),
    Drop(usize),
    /// several clients at once, and others loading the installation meanwhile
    Ask { who: Vec<(usize, u64)>, clients: usize, n: usize, loading: usize, policy: Policy },
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct QueryCase {
    pub s: Scenario,
    pub steps: Vec<QStep>,
}

fn gen_queries(r: &mut Rng, size: usize) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, 0);
    let n = r.range(1, 2) as usize + usize::from(r.chance(0.3));
    for _ in 0..n {
        let mut p = gen_pack(r, size.min(7));
        if let (Some(was), true) = (s.packs.last(), r.chance(0.7)) {
            p = crate::amend::amend(r, was, &p);
        }
        s.packs.push(p);
    }
    let mut steps = vec![];
    let mut have = 0;
    for v in 0..n {
        steps.push(load_step(r, &s, v));
        have += 1;
        if r.chance(0.5) {
            steps.push(ask(r, have));
        }
    }
    for _ in 0..r.range(2, 7) {
        let i = r.idx(have);
        match r.idx(9) {
            0 => {
                let v = r.idx(n);
                steps.push(load_step(r, &s, v));
                have += 1;
            }
            1 => {
                // copies of an adaptation nobody asked yet, too
                let saved = r.chance(0.5);
                if saved {
                    steps.push(QStep::Saved(i));
                    have += 1;
                }
                if !saved || r.chance(0.7) {
                    steps.push(QStep::Copy(if saved { have - 1 } else { i }));
                    have += 1;
                    if r.chance(0.6) {
                        let k = if r.chance(0.5) { have - 1 } else { have - 2 };
                        steps.push(QStep::Edit(k, r.u64()));
                    }
                }
            }
            2..=5 => steps.push(QStep::Edit(i, r.u64())),
            6 | 7 => steps.push(QStep::Take(i, r.idx(have), r.below(4) as u8)),
            _ => steps.push(QStep::Drop(i)),
        }
        if r.chance(0.7) {
            steps.push(ask(r, have));
        }
    }
    steps.push(ask(r, have));
    serde_json::to_value(QueryCase { s, steps }).unwrap()
}
fn load_step(r: &mut Rng, s: &Scenario, v: usize) -> QStep {
    let mut roles: Vec<Role> = s.layout.roles().into_iter().map(|x| x.0).collect();
    roles.push(Role::Prf);
    let faults = if r.chance(0.4) { gen_transient(r, &roles) } else { vec![] };
    QStep::Load(v, faults, gen_policy(r))
}
fn ask(r: &mut Rng, have: usize) -> QStep {
    let k = r.range(1, 4) as usize;
    let seed = r.u64();
    // often the same questions
    let who = (0..k).map(|_| (r.idx(have), if r.chance(0.7) { seed } else { r.u64() })).collect();
    let clients = if r.chance(0.6) { k } else { r.range(1, k as i64) as usize };
    QStep::Ask { who, clients, n: r.range(10, 60) as usize, loading: usize::from(r.chance(0.25)), policy: Policy::Random { seed: r.u64(), gap: *r.pick(&[3, 20, 200, 2000]) } }
}

/// what can be asked about, whichever adaptation it is of
struct Pool {
    names: Vec<String>,
    at: Vec<(String, (f64, f64))>,
    /// the places clients are most busy with
    busy: Vec<(String, (f64, f64))>,
    airways: Vec<String>,
    volumes: Vec<String>,
    points: Vec<(f64, f64)>,
    colours: Vec<String>,
    symbols: Vec<String>,
    aircraft: Vec<String>,
}
impl Pool {
    fn new(s: &Scenario) -> Self {
        let mut p = Pool { names: vec![], at: vec![], busy: vec![], airways: vec!["Z9".into()], volumes: vec!["none".into()], points: vec![], colours: vec![], symbols: vec![], aircraft: vec!["NONE".into()] };
        let mut r = Rng::new(s.lat_seed ^ 0x77);
        for k in &s.packs {
            p.names.extend(designators(k, &mut r));
            let pl = crate::model::Places::new(k);
            for v in [&pl.vors, &pl.ndbs, &pl.fixes] {
                p.at.extend(v.iter().map(|x| (x.des.clone(), x.pos)));
            }
            let g = crate::model::Graph::new(&k.airways);
            p.at.extend(g.nodes.iter().map(|n| (n.0.clone(), n.1)));
            p.airways.extend(g.edges.keys().map(|e| e.1.clone()));
            let pal = crate::model::Palette::new(&s.layout, k);
            p.colours.extend(pal.other.keys().cloned());
            p.symbols.extend(crate::model::symbols(&s.layout, k)["other"].as_object().into_iter().flat_map(|o| o.keys().cloned()));
            p.aircraft.extend(k.icao.aircraft.iter().map(|a| a.des.clone()));
            for i in &k.ese.items {
                if let crate::pack::AirItem::Sector(x) = i {
                    p.volumes.push(x.id.clone());
                }
            }
        }
        p.colours.extend(crate::topsky_defaults::DEFAULTS.iter().map(|d| d.0.to_string()));
        p.symbols.extend(["FIX", "VOR", "none"].map(String::from));
        p.points = p.at.iter().map(|x| x.1).collect();
        for v in [&mut p.names, &mut p.airways, &mut p.volumes, &mut p.colours, &mut p.symbols, &mut p.aircraft] {
            v.sort();
            v.dedup();
        }
        for _ in 0..10 {
            p.points.push((r.range(-20, 40) as f64 / 10.0 + 11.0, r.range(-20, 40) as f64 / 10.0 + 48.0));
        }
        if p.at.is_empty() {
            p.at.push(("NOWHR".into(), (11.0, 48.0)));
        }
        for _ in 0..3 {
            p.busy.push(r.pick(&p.at).clone());
        }
        p
    }
}
impl Pool {
    fn somewhere(&self, r: &mut Rng) -> (String, (f64, f64)) {
        let of = if r.chance(0.5) { &self.busy } else { &self.at };
        r.pick(of).clone()
    }
}
#[derive(Debug)]
enum Question {
    Designator(String),
    Place(String),
    Contains(String),
    Nav(String, (f64, f64)),
    Expand(String, (f64, f64), String, String),
    Sector((f64, f64), f32),
    At((f64, f64)),
    Line((f64, f64), (f64, f64)),
    OfVolume(String),
    Colour(String),
    Symbol(String),
    Wtc(String),
    Timing(Option<String>),
}
fn questions(p: &Pool, seed: u64, n: usize) -> Vec<Question> {
    let mut r = Rng::new(seed);
    (0..n)
        .map(|_| {
            let at = p.somewhere(&mut r);
            match r.idx(16) {
                0 if r.chance(0.5) => Question::Designator(format!("{}090{:03}", at.0, r.idx(2) * 25)),
                1 if r.chance(0.5) => Question::Designator(at.0),
                0 | 1 => Question::Designator(r.pick(&p.names).clone()),
                2 => Question::Place(r.pick(&p.names).clone()),
                3 => Question::Contains(r.pick(&p.names).clone()),
                4 => Question::Nav(at.0, if r.chance(0.7) { at.1 } else { r.pick(&p.at).1 }),
                5..=7 => {
                    let end = r.pick(&p.at).0.clone();
                    let pos = if r.chance(0.8) { at.1 } else { r.pick(&p.at).1 };
                    Question::Expand(at.0, pos, end, r.pick(&p.airways).clone())
                }
                8 | 9 => Question::Sector(*r.pick(&p.points), *r.pick(&[0.0f32, 2500.0, 9999.0, 10_000.0, 24_500.0, 40_000.0])),
                10 => Question::At(*r.pick(&p.points)),
                11 => Question::Line(*r.pick(&p.points), *r.pick(&p.points)),
                12 => Question::OfVolume(r.pick(&p.volumes).clone()),
                13 => Question::Colour(r.pick(&p.colours).clone()),
                14 => Question::Symbol(r.pick(&p.symbols).clone()),
                _ if r.chance(0.7) => Question::Wtc(r.pick(&p.aircraft).clone()),
                _ => Question::Timing(r.pick(&[None, Some("EDMM"), Some("LOVV")]).map(String::from)),
            }
        })
        .collect()
}
impl Question {
    fn answer(&self, ad: &Adaptation) -> String {
        let pt = |p: &(f64, f64)| Point::new(p.0, p.1);
        let l = &ad.locations;
        let names = |v: Vec<&(String, vatsim_parser::adaptation::sectors::Volume)>| {
            let mut v: Vec<String> = v.iter().map(|x| format!("{} {}-{} in {}", x.1.id, x.1.lower_level, x.1.upper_level, x.0)).collect();
            v.sort();
            format!("{v:?}")
        };
        match self {
            Question::Designator(n) => format!("{:?}", l.convert_designator(n)),
            Question::Place(n) => format!("{:?}", l.convert_location(&Location::Fix(n.clone()))),
            Question::Contains(n) => format!("{:?}", l.contains_designator(n)),
            Question::Nav(n, p) => format!("{:?}", l.contains_nav_element(n, GraphPosition(pt(p)))),
            Question::Expand(n, p, e, a) => format!("{:?}", l.airways.expand_airway_segment(&Fix { designator: n.clone(), coordinate: pt(p) }, e, a, l)),
            Question::Sector(p, lvl) => format!("{:?}", ad.find_sector(pt(p), *lvl)),
            Question::At(p) => names(ad.volumes_at(pt(p)).collect()),
            Question::Line(a, b) => names(ad.volumes_near_line(Line::new(Coord { x: a.0, y: a.1 }, Coord { x: b.0, y: b.1 })).collect()),
            // one of its sectors, if it has several
            Question::OfVolume(v) => format!("{:?}", ad.sectors.find_id_by_volume(v).is_some()),
            Question::Colour(n) => format!("{:?}", ad.colours.get(n, &ad.settings)),
            Question::Symbol(n) => format!("{:?}", ad.symbols.get(n)),
            Question::Wtc(n) => format!("{:?}", ad.aircraft.wtc(Some(n))),
            Question::Timing(f) => format!("{:?}", ad.settings.coordination.resolve(f.as_deref(), None)),
        }
    }
}
/// `fresh`: nobody asked it yet, so that there is no index to rebuild
fn edit(ad: &mut Adaptation, p: &Pool, seed: u64, fresh: bool) {
    let mut r = Rng::new(seed);
    for _ in 0..r.range(1, 6) {
        let l = &mut ad.locations;
        let at = p.somewhere(&mut r);
        let mut other = Point::new(r.pick(&p.at).1 .0, r.pick(&p.at).1 .1);
        if r.chance(0.5) {
            // not far from where it was
            other = Point::new(at.1 .0 + *r.pick(&[0.0, 1e-5, 0.001, 0.02]), at.1 .1 + *r.pick(&[0.0, 0.0005, -0.003]));
        }
        match r.idx(10) {
            0 => match l.fixes.get_mut(&at.0) {
                Some(f) => f.coordinate = other,
                None => l.fixes.insert(at.0.clone(), Fix { designator: at.0.clone(), coordinate: other }),
            },
            1 => {
                l.fixes.remove(&at.0);
            }
            2 => {
                if let Some(v) = l.vors.get_mut(&at.0) {
                    v.coordinate = other;
                }
            }
            3 => {
                l.vors.remove(&at.0);
                l.ndbs.remove(&at.0);
            }
            4 | 5 => {
                let mut k: Vec<String> = l.airports.keys().cloned().collect();
                k.sort();
                if !k.is_empty() {
                    let k = r.pick(&k).clone();
                    if r.chance(0.3) {
                        l.airports.remove(&k);
                    } else if let Some(a) = l.airports.get_mut(&k) {
                        a.coordinate = other;
                        if r.chance(0.5) {
                            for w in &mut a.runways {
                                w.location = (w.location.1, w.location.0);
                            }
                        }
                    }
                }
            }
            6 => {
                let k = r.pick(&p.aircraft);
                if let Some(a) = ad.aircraft.get_mut(k) {
                    a.wtc = if a.wtc == Wtc::HEAVY { Wtc::LIGHT } else { Wtc::HEAVY };
                }
            }
            7 => ad.settings.coopans = !ad.settings.coopans,
            8 => {
                let v = r.pick(&p.volumes).clone();
                ad.volumes.remove(&v);
                if !fresh {
                    ad.rebuild_sector_index();
                }
            }
            _ => {
                let v = r.pick(&p.volumes).clone();
                if let Some(x) = ad.volumes.get_mut(&v) {
                    x.lower_level = 0;
                    x.upper_level = *r.pick(&[2500, 10_000, 66_000]);
                }
                if !fresh {
                    ad.rebuild_sector_index();
                }
            }
        }
    }
}
/// everything but the questions
fn step(sim: &mut Sim, ads: &mut Vec<Option<Box<Adaptation>>>, fresh: &mut Vec<bool>, p: &Pool, st: &QStep) {
    match st {
        QStep::Load(v, faults, policy) => {
            sim.install(*v);
            let got = sim.load(&[Api::Prf], faults, &[], policy).pop();
            ads.push(got.and_then(|l| l.res.ok()));
            fresh.push(false);
        }
        QStep::Copy(i) => {
            let c = ads.get(*i).cloned().flatten();
            ads.push(c);
            fresh.push(fresh.get(*i) == Some(&true));
        }
        QStep::Saved(i) => {
            let c = ads.get(*i).and_then(|a| a.as_deref()).and_then(|a| {
                let t = serde_json::to_string(a).ok()?;
                serde_json::from_str::<Adaptation>(&t).ok().map(Box::new)
            });
            ads.push(c);
            fresh.push(true);
        }
        QStep::Edit(i, seed) => {
            if let Some(Some(a)) = ads.get_mut(*i) {
                edit(a, p, *seed, fresh[*i]);
            }
        }
        QStep::Take(i, j, part) => {
            let from = ads.get(*j).cloned().flatten();
            if let (Some(Some(a)), Some(b)) = (ads.get_mut(*i), from) {
                match part {
                    0 => a.locations.airways = b.locations.airways,
                    1 => a.locations.airports = b.locations.airports,
                    2 => a.aircraft = b.aircraft,
                    _ => a.colours = b.colours,
                }
            }
        }
        QStep::Drop(i) => {
            if let Some(a) = ads.get_mut(*i) {
                *a = None;
            }
        }
        QStep::Ask { who, .. } => {
            for (i, _) in who {
                if let Some(f) = fresh.get_mut(*i) {
                    *f = false;
                }
            }
        }
    }
}
type Answers = BTreeMap<String, Vec<String>>;
/// the same adaptations in a process that answered no question before
fn unasked(c: &QueryCase, p: &Pool) -> Option<Answers> {
    let out = run_forked(
        || {
            let mut sim = Sim::new(&c.s);
            let (mut ads, mut fresh) = (vec![], vec![]);
            let mut all = Answers::new();
            for (k, st) in c.steps.iter().enumerate() {
                step(&mut sim, &mut ads, &mut fresh, p, st);
                let QStep::Ask { who, n, .. } = st else { continue };
                for (i, seed) in who {
                    let Some(Some(ad)) = ads.get(*i) else { continue };
                    let one = run_forked(
                        || {
                            let mut v: Vec<String> = questions(p, *seed, *n).iter().rev().map(|q| q.answer(ad)).collect();
                            v.reverse();
                            Report { note: serde_json::to_string(&v).unwrap_or_default(), ..Report::default() }
                        },
                        20,
                    );
                    if let Outcome::Report(r) = one {
                        if let Ok(v) = serde_json::from_str(&r.note) {
                            all.insert(format!("{k} {i} {seed}"), v);
                        }
                    }
                }
            }
            let mut rep = sim.finish();
            rep.log.clear();
            rep.note = serde_json::to_string(&all).unwrap_or_default();
            rep
        },
        30,
    );
    match out {
        Outcome::Report(r) => serde_json::from_str(&r.note).ok(),
        Outcome::Died(_) => None,
    }
}
fn exec_queries(v: &Value) -> Report {
    let c: QueryCase = match v.get("s").map_or_else(|| Err(Box::new(invalid("no scenario"))), |s| parse::<Scenario>(s).and_then(|_| parse(v))) {
        Ok(c) => c,
        Err(r) => return *r,
    };
    if c.s.packs.is_empty() || c.steps.iter().any(|s| matches!(s, QStep::Load(v, ..) if *v >= c.s.packs.len())) {
        return invalid("no such version");
    }
    let p = Pool::new(&c.s);
    let Some(want) = unasked(&c, &p) else {
        return invalid("the process that is asked nothing died");
    };
    let mut sim = Sim::new(&c.s);
    let mut ads: Vec<Option<Box<Adaptation>>> = vec![];
    let mut fresh = vec![];
    let print = |ad: &Adaptation| hash_bytes(canonical(&serde_json::to_value(ad).expect("serialise")).to_string().as_bytes());
    for (k, st) in c.steps.iter().enumerate() {
        sim.op = k;
        step(&mut sim, &mut ads, &mut fresh, &p, st);
        let QStep::Ask { who, clients, n, loading, policy } = st else { continue };
        crate::child::set_op(&format!("step {k} queries"));
        let before: Vec<Option<u64>> = ads.iter().map(|a| a.as_deref().map(print)).collect();
        let out: Mutex<Vec<(usize, Vec<String>)>> = Mutex::new(vec![]);
        // a client of several adaptations asks each question of all of them in turn
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let clients = (*clients).max(1);
        for t in 0..clients.min(who.len()) {
            let mine: Vec<(usize, &Adaptation, u64)> = who
                .iter()
                .enumerate()
                .skip(t)
                .step_by(clients)
                .filter_map(|(w, (i, seed))| Some((w, ads.get(*i)?.as_deref()?, *seed)))
                .collect();
            let (out, p) = (&out, &p);
            tasks.push(Box::new(move || {
                let qs: Vec<Vec<Question>> = mine.iter().map(|m| questions(p, m.2, *n)).collect();
                let mut v: Vec<Vec<String>> = vec![vec![]; mine.len()];
                for k in 0..*n {
                    for (j, m) in mine.iter().enumerate() {
                        v[j].push(qs[j][k].answer(m.1));
                    }
                }
                crate::sched::quiet(|| {
                    let mut out = out.lock().unwrap();
                    out.extend(mine.iter().map(|m| m.0).zip(v));
                });
            }));
        }
        for _ in 0..*loading {
            sim.probe("loading_meanwhile");
            let l = &c.s.layout;
            tasks.push(Box::new(move || drop(load(Api::Prf, l))));
        }
        sim.tasks(policy, tasks);
        for (t, got) in out.into_inner().unwrap() {
            let (i, seed) = who[t];
            let Some(want) = want.get(&format!("{k} {i} {seed}")) else { continue };
            sim.probe("answers_compared");
            sim.note(format!("answers {:x}", hash_bytes(got.join("\n").as_bytes())));
            if let Some(x) = (0..n.to_owned()).find(|x| want.get(*x) != got.get(*x)) {
                let q = questions(&p, seed, *n);
                sim.fail(
                    "history-dependent",
                    format!("adaptation {i} asked {:?} answers {:?}; in a process that was asked nothing before it answers {:?}", q.get(x), got.get(x), want.get(x)),
                );
            }
        }
        for (i, b) in before.iter().enumerate() {
            if ads[i].as_deref().map(print) != *b {
                sim.fail("changed-by-query", format!("adaptation {i} is not what it was before it was queried"));
            }
        }
        if sim.report.violation.is_some() {
            break;
        }
    }
    sim.loads_ok = sim.loads_ok.max(ads.len() as u64);
    let switched = sim.report.switches > 0;
    let mut rep = sim.finish();
    rep.nontrivial = rep.probes.contains_key("answers_compared") && switched;
    rep
}
fn sketch_queries(v: &Value) -> Value {
    let mut o = v.clone();
    if let Some(s) = o.get_mut("s") {
        *s = sketch(s);
    }
    o
}

pub const DEFS: &[Def] = &[Def {
    id: "P30",
    gen: gen_queries,
    exec: exec_queries,
    sketch: sketch_queries,
    rule: "a run loads, copies, edits and drops adaptations of several versions of a pack and asks them questions from concurrent clients; it is non-trivial if answers were compared with those of a process asked nothing before and threads were switched; distinct = distinct execution trace hashes",
    ..BASE
}];
