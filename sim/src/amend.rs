//! A pack as the operator amends it: the same pack but for a few edits. What was
//! remembered of the former one (by name, by length, by first point...) is wrong then.

use crate::world::Pack;
use crate::rng::Rng;
use serde_json::Value;
use std::collections::BTreeMap;

/// names and keys: changed only together with what refers to them
const NAMES: &[&str] = &["id", "name", "des", "noise", "enc", "overlays", "style", "section", "rest"];

fn whole(v: &Value) -> bool {
    match v {
        Value::Object(o) => o.contains_key("lat") && o.contains_key("lon") && o["lat"].is_object(),
        Value::Array(a) => a.len() == 2 && a.iter().all(Value::is_string),
        _ => true,
    }
}
fn walk(v: &Value, at: &mut Vec<String>, f: &mut dyn FnMut(&[String], &Value)) {
    f(at, v);
    if whole(v) {
        return;
    }
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                if !NAMES.contains(&k.as_str()) {
                    at.push(k.clone());
                    walk(x, at, f);
                    at.pop();
                }
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                walk(x, at, f);
                at.pop();
            }
        }
        _ => {}
    }
}
fn shape(at: &[String]) -> String {
    // the places of a tuple are not alike
    let lower = |k: &str| k.starts_with(|c: char| c.is_ascii_lowercase());
    (0..at.len()).map(|i| if at[i].parse::<usize>().is_ok() && i > 0 && lower(&at[i - 1]) { "*" } else { &at[i] }).collect::<Vec<_>>().join("/")
}
fn pointer(at: &[String]) -> String {
    at.iter().map(|s| format!("/{}", s.replace('~', "~0").replace('/', "~1"))).collect()
}
/// as long as it likes, unlike what stands for a tuple
fn list(at: &[String]) -> bool {
    at.last().is_some_and(|k| k.parse::<usize>().is_err() && k.starts_with(|c: char| c.is_ascii_lowercase()))
}
pub fn amend(r: &mut Rng, p: &Pack, donor: &Pack) -> Pack {
    amend_in(r, p, donor, |_| true)
}
/// edits of some of its files only
pub fn amend_in(r: &mut Rng, p: &Pack, donor: &Pack, of: impl Fn(&str) -> bool) -> Pack {
    let Ok(mut v) = serde_json::to_value(p) else { return p.clone() };
    let mut pool: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for d in [p, donor] {
        let d = serde_json::to_value(d).unwrap_or_default();
        walk(&d, &mut vec![], &mut |at, x| {
            if whole(x) && !x.is_null() {
                pool.entry(shape(at)).or_default().push(x.clone());
            }
        });
    }
    for _ in 0..1 + r.idx(4) {
        let mut leaves: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut lists: BTreeMap<String, Vec<String>> = BTreeMap::new();
        walk(&v, &mut vec![], &mut |at, x| {
            if at.first().is_some_and(|k| !of(k)) {
            } else if whole(x) && !x.is_null() {
                leaves.entry(shape(at)).or_default().push(pointer(at));
            } else if x.as_array().is_some_and(|a| a.len() > 1) && list(at) {
                lists.entry(shape(at)).or_default().push(pointer(at));
            }
        });
        if r.chance(0.7) {
            // kinds of entry alike, however many of each there are
            let kinds: Vec<&String> = leaves.keys().collect();
            if kinds.is_empty() {
                break;
            }
            let k = (*r.pick(&kinds)).clone();
            let at = r.pick(&leaves[&k]).clone();
            // a shape that came up by swapping
            let Some(new) = pool.get(&k).map(|v| r.pick(v).clone()) else { continue };
            if let Some(x) = v.pointer_mut(&at) {
                *x = new;
            }
        } else {
            let kinds: Vec<&String> = lists.keys().collect();
            if kinds.is_empty() {
                continue;
            }
            let k = *r.pick(&kinds);
            let at = r.pick(&lists[k]).clone();
            if let Some(a) = v.pointer_mut(&at).and_then(Value::as_array_mut) {
                let (i, j) = (r.idx(a.len()), r.idx(a.len()));
                if r.chance(0.5) {
                    a.remove(i);
                } else {
                    a.swap(i, j);
                }
            }
        }
    }
    serde_json::from_value(v).unwrap_or_else(|_| p.clone())
}
