//! The properties, each as a generator of scenarios and an executor that judges them.

use crate::child::{Report, Violation};
use crate::content;
use crate::hist::*;
use crate::rng::Rng;
use crate::world::*;
use serde_json::{json, Value};
use vatsim_parser::adaptation::Adaptation;

pub struct Def {
    pub id: &'static str,
    pub gen: fn(&mut Rng, usize) -> Value,
    pub exec: fn(&Value) -> Report,
    pub sketch: fn(&Value) -> Value,
    /// runs of the quick tier
    pub runs: u64,
    /// CPU seconds a single run may take
    pub cpu: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub const REAL: &[&str] = &[
    "vatsim-parser: every parser and the whole adaptation pipeline, unmodified",
    "std::fs, std::thread, std::sync, HashMap and RandomState, fs-err, toml, serde_json, pest, regex, rstar, geo",
    "jrsonnet evaluator (when overlays are applied)",
];
pub const STUB: &[&str] = &[
    "kernel file system, working directory, clock, entropy (simulated at the libc boundary)",
    "thread scheduling (real threads, one runs at a time, order chosen by the seeded scheduler)",
    "the pack updater / operator (simulated peer that replaces, removes, truncates files)",
];
pub const ASSUME: &[&str] = &[
    "the reference model and the renderers of the pack files are trusted",
    "threads interleave at intercepted points (system calls, lock operations, allocations), not between arbitrary instructions",
];
pub const MEASURE: &str = "distinct hashes of the per-load event order: which task did which simulated system call, with which result, relative to which update or fault";

pub fn invalid(e: impl std::fmt::Display) -> Report {
    Report { violation: Some(Violation { class: "invalid".into(), msg: e.to_string() }), ..Report::default() }
}
pub fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, Box<Report>> {
    // an airway file without a single row is not an airway file
    let no_rows = |p: &Value| p.get("airways").and_then(Value::as_array).is_some_and(Vec::is_empty);
    if v.get("packs").and_then(Value::as_array).is_some_and(|p| p.iter().any(no_rows)) {
        return Err(Box::new(invalid("no airways")));
    }
    serde_json::from_value(v.clone()).map_err(|e| Box::new(invalid(e)))
}
pub fn sketch(v: &Value) -> Value {
    fn size(v: &Value, depth: usize) -> Value {
        match v {
            Value::Array(a) if depth == 0 => json!(a.len()),
            Value::Array(a) => Value::Array(a.iter().map(|x| size(x, depth - 1)).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), size(x, depth.saturating_sub(1)))).collect()),
            x => x.clone(),
        }
    }
    let mut o = v.clone();
    if let Some(p) = o.get_mut("packs") {
        *p = size(p, 1);
    }
    o
}

// ------------------------------------------------------------------ content

pub fn gen_content(r: &mut Rng, size: usize) -> Value {
    gen_focus(r, size, 0xff)
}
pub const SCT: u8 = 1;
pub const ESE: u8 = 2;
pub const AWY: u8 = 4;
pub const ICAO: u8 = 8;
pub const SYM: u8 = 16;
pub const TS: u8 = 32;
/// the files a property is about at full size, the others small
pub fn gen_pack_focus(r: &mut Rng, size: usize, f: u8) -> Pack {
    let small = size.min(2);
    let z = |b: u8| if f & b != 0 { size } else { small };
    let mut p = gen_pack(r, 0);
    p.sct = crate::pack::gen_sct(r, z(SCT));
    p.ese = crate::pack::gen_ese(r, z(ESE));
    p.airways = crate::pack::gen_airways(r, z(AWY));
    crate::pack::gen_shared(r, &mut p.sct, &p.airways);
    p.icao = crate::pack::gen_icao(r, z(ICAO));
    p.symbology = gen_symbology(r, z(SYM));
    if p.ts_maps.is_some() {
        p.ts_maps = Some(gen_ts_maps(r, z(TS)));
    }
    p
}
pub fn gen_focus(r: &mut Rng, size: usize, f: u8) -> Value {
    let mut s = Scenario { hash_seed: r.u64(), lat_seed: r.u64(), ..Scenario::default() };
    s.layout = gen_layout(r, 0);
    s.packs = vec![gen_pack_focus(r, size, f)];
    if r.chance(0.45) {
        let mut p = gen_pack_focus(r, size.min(6), f);
        if r.chance(0.6) {
            let of = |k: &str| {
                let b = match k {
                    "sct" => SCT,
                    "ese" => ESE,
                    "airways" => AWY,
                    "icao" => ICAO,
                    "symbology" => SYM,
                    _ => TS | SYM,
                };
                f & b != 0
            };
            p = crate::amend::amend_in(r, &s.packs[0], &p, of);
        }
        s.packs.push(p);
    }
    gen_history(r, &mut s, Flavour { toml: true, hard: true, crash: true });
    serde_json::to_value(&s).unwrap()
}
/// the view that explains every part, if the load succeeded and one does
pub fn judge(sim: &mut Sim, ld: &Loaded, parts: &[&str]) -> Option<usize> {
    match &ld.res {
        Err((kind, msg)) => {
            if !ld.hard && ld.unreadable.is_empty() && !ld.views.is_empty() {
                sim.fail("load-error", format!("loader {} on readable valid files failed: {kind}: {msg}", ld.loader));
            }
            None
        }
        Ok(ad) => {
            let v = serde_json::to_value(ad).expect("serialise");
            let v = &v;
            sim.note(format!("load {} ok {:016x}", ld.loader, crate::rng::hash_bytes(content::canonical(v).to_string().as_bytes())));
            if ld.views.is_empty() {
                sim.probe("load_of_unknown_bytes");
                return None;
            }
            sim.probe("content_compared");
            if !ld.opens.iter().all(|o| o.ok && o.read_errno == 0) {
                sim.probe("content_compared_degraded");
            }
            let mut first = None;
            for (i, p) in ld.views.iter().enumerate() {
                let bad = parts.iter().find_map(|part| content::part(part)(&sim.s.layout, p, v).map(|m| (*part, m)));
                match bad {
                    None => return Some(i),
                    Some(b) => {
                        first.get_or_insert(b);
                    }
                }
            }
            let (part, msg) = first.unwrap_or_default();
            sim.fail(&format!("mismatch:{part}"), format!("loader {}: {msg}", ld.loader));
            None
        }
    }
}
pub fn exec_parts(v: &Value, parts: &[&str]) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    Sim::new(&s).drive(|sim, ld| {
        judge(sim, &ld, parts);
    })
}

pub type After = fn(&mut Sim, &Pack, &Adaptation, &mut Rng);
/// compare, then let a client use the result
pub fn exec_then(v: &Value, parts: &[&str], after: After) -> Report {
    let s: Scenario = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let mut r = Rng::new(s.lat_seed ^ 0x5151);
    Sim::new(&s).drive(|sim, ld| {
        if let (Some(i), Ok(ad)) = (judge(sim, &ld, parts), &ld.res) {
            after(sim, &ld.views[i], ad, &mut r);
        }
    })
}

pub const BASE: Def = Def {
    id: "",
    gen: gen_content,
    exec: |v| exec_parts(v, &[]),
    sketch,
    runs: 800,
    cpu: 30,
    rule: "a run is one simulated installation history generated from its seed (a pack in one or more versions, installs, loads by 1-3 concurrent readers under transient or hard I/O faults and racing updates, crashes, retries); it is non-trivial if at least one load succeeded and at least one fault, update event or thread switch happened in it; distinct = distinct execution trace hashes",
    measure: MEASURE,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

pub fn all() -> Vec<&'static Def> {
    [crate::p_content::DEFS, crate::p_env::DEFS, crate::p_file::DEFS, crate::p_topsky::DEFS, crate::p_ref::DEFS, crate::p_data::DEFS, crate::p_query::DEFS].into_iter().flatten().collect()
}
