//! The reference files - aircraft, airlines, airports, airport positions and airways - each
//! read on its own, by clients that do not build an adaptation from them.

use crate::child::Report;
use crate::content::{diff, graph_canon};
use crate::model::Graph;
use crate::p_file::{drive, gen_fops, sketch_docs, Doc, FOp, FileCase, RULE_FILE, STUB_FILE};
use crate::pack::{gen_airways, gen_icao, render_airways, AwyRow, Icao};
use crate::props::*;
use crate::rng::{hash_bytes, Rng};
use crate::world::encode;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::io::Write;
use vatsim_parser::{airway, icao_aircraft, icao_airlines, icao_airports, navdata_airports};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct RefDoc {
    pub icao: Icao,
    pub airways: Vec<AwyRow>,
    /// saved as Windows-1252
    pub win: bool,
    /// this version is damaged in this way
    pub broken: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefCase {
    kind: u8,
    file: FileCase<RefDoc>,
}
/// K: 0 aircraft, 1 airlines, 2 airports, 3 airport positions, 4 airways
struct RefDocs<const K: u8>(Vec<RefDoc>);

fn first<T>(v: &[T], key: impl Fn(&T) -> &String, val: impl Fn(&T) -> Value) -> Value {
    let mut m = Map::new();
    for x in v {
        m.entry(key(x).clone()).or_insert_with(|| val(x));
    }
    Value::Object(m)
}
fn num(s: &str) -> f64 {
    s.parse().unwrap_or(f64::NAN)
}
impl<const K: u8> RefDocs<K> {
    fn plain(&self, v: usize) -> Vec<u8> {
        let d = &self.0[v];
        match K {
            0 => d.icao.render_aircraft(),
            1 => d.icao.render_airlines(),
            2 => d.icao.render_airports(),
            3 => d.icao.render_nav(),
            _ => render_airways(&d.airways),
        }
    }
    fn expect(&self, v: usize) -> Value {
        let d = &self.0[v];
        match K {
            0 => crate::model::aircraft(&d.icao),
            1 => crate::model::airlines(&d.icao),
            2 => first(&d.icao.airports, |a| &a.des, |a| json!({"designator": a.des, "name": a.name, "country": a.country})),
            3 => first(&d.icao.nav, |a| &a.des, |a| json!({"designator": a.des, "name": a.name, "location": {"x": num(&a.lon), "y": num(&a.lat)}})),
            _ => json!(Graph::new(&d.airways).canon()),
        }
    }
}
fn val(x: impl Serialize) -> Value {
    serde_json::to_value(x).expect("serialise")
}
impl<const K: u8> Doc for RefDocs<K> {
    type Got = Value;
    fn text(&self, v: usize) -> Vec<u8> {
        let d = &self.0[v];
        let mut b = encode(self.plain(v), d.win);
        if let Some(x) = d.broken {
            // a line that is none of the records of this file, somewhere between its lines
            let at: Vec<usize> = (0..b.len()).filter(|i| *i == 0 || b[i - 1] == b'\n').collect();
            let at = at[(x as usize) % at.len()];
            let junk: &[u8] = match K {
                0 | 1 => b"A380\tno columns\n",
                2 => b"EDDX\tone column\n",
                3 => b"EDDX 48.1 name\n",
                _ => b"GIVMI\t48.7\t11.3\t14\tY101\n",
            };
            b.splice(at..at, junk.iter().copied());
        }
        b
    }
    fn save(&self, _: usize, _: &mut dyn Write) -> Option<std::io::Result<()>> {
        None
    }
    fn read(b: &[u8]) -> Result<Value, String> {
        match K {
            0 => icao_aircraft::parse_aircraft(b).map(val).map_err(|e| e.to_string()),
            1 => icao_airlines::parse_airlines(b).map(val).map_err(|e| e.to_string()),
            2 => icao_airports::parse_airports(b).map(val).map_err(|e| e.to_string()),
            3 => navdata_airports::parse_navdata_airports(b).map(val).map_err(|e| e.to_string()),
            _ => airway::parse_airway_txt(b).map_err(|e| e.to_string()).map(|g| match graph_canon(&val(g)) {
                Ok(s) => json!(s),
                Err(e) => json!(e),
            }),
        }
    }
    fn judge(&self, v: usize, _: bool, got: &Value) -> Option<String> {
        let want = self.expect(v);
        diff(["aircraft", "airlines", "airports", "positions", "airways"][K as usize], &want, got)
    }
    fn invalid(&self, v: usize) -> bool {
        self.0[v].broken.is_some()
    }
}
fn gen_ref_case(r: &mut Rng, size: usize) -> Value {
    let n = r.range(1, 3) as usize;
    let kind = r.below(5) as u8;
    let mut docs: Vec<RefDoc> = vec![];
    for _ in 0..n {
        let mut d = RefDoc { win: r.chance(0.3), ..RefDoc::default() };
        if kind == 4 {
            d.airways = gen_airways(r, size);
        } else {
            d.icao = gen_icao(r, size);
        }
        docs.push(d);
    }
    if n > 1 && r.chance(0.25) {
        let k = r.idx(n);
        docs[k].broken = Some(r.u64());
    }
    let mut ops = vec![FOp::Put(r.idx(n))];
    ops.extend(gen_fops(r, n, false));
    val(RefCase { kind, file: FileCase { hash_seed: r.u64(), lat_seed: r.u64(), docs, ops } })
}
fn exec_ref(v: &Value) -> Report {
    let c: RefCase = match parse(v) {
        Ok(s) => s,
        Err(r) => return *r,
    };
    let c_docs = &c.file.docs;
    if c_docs.is_empty() || c.kind == 4 && c_docs.iter().any(|d| d.airways.is_empty()) {
        return invalid("no document");
    }
    let f = c.file;
    let n = f.docs.len();
    match c.kind {
        0 => drive(f.hash_seed, f.lat_seed, &f.ops, n, &RefDocs::<0>(f.docs)),
        1 => drive(f.hash_seed, f.lat_seed, &f.ops, n, &RefDocs::<1>(f.docs)),
        2 => drive(f.hash_seed, f.lat_seed, &f.ops, n, &RefDocs::<2>(f.docs)),
        3 => drive(f.hash_seed, f.lat_seed, &f.ops, n, &RefDocs::<3>(f.docs)),
        4 => drive(f.hash_seed, f.lat_seed, &f.ops, n, &RefDocs::<4>(f.docs)),
        _ => invalid("no such file"),
    }
}
fn sketch(v: &Value) -> Value {
    let mut s = sketch_docs(&v["file"]);
    s["kind"] = v["kind"].clone();
    s
}

pub const DEFS: &[Def] = &[Def { id: "P28", runs: 3000, gen: gen_ref_case, exec: exec_ref, sketch, rule: RULE_FILE, stub: STUB_FILE, ..BASE }];
