//! A value's `Debug` text as a tree, maps and sets in sorted order: sees fields
//! that are left out of the JSON.

use serde_json::{Map, Value};

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn text(&mut self) -> String {
        let a = self.i;
        self.i += 1;
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            self.i += if self.s[self.i] == b'\\' { 2 } else { 1 };
        }
        self.i = (self.i + 1).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn word(&mut self) -> Value {
        let a = self.i;
        while self.i < self.s.len() && !b"{}[](),\"".contains(&self.s[self.i]) && !self.s[self.i].is_ascii_whitespace() {
            // `name: value`
            if self.s[self.i] == b':' && self.s.get(self.i + 1).is_none_or(|c| c.is_ascii_whitespace()) {
                break;
            }
            self.i += 1;
        }
        if self.i == a {
            self.i += 1;
        }
        let t = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
        if t.starts_with(|c: char| c.is_ascii_digit() || c == '-') {
            if let Some(n) = t.parse::<i64>().ok().map(Value::from).or_else(|| t.parse::<f64>().ok().and_then(|f| serde_json::Number::from_f64(f).map(Value::Number))) {
                return n;
            }
        }
        Value::String(t)
    }
    fn list(&mut self, end: u8) -> Vec<(Value, Option<Value>)> {
        self.i += 1;
        let mut v = vec![];
        loop {
            match self.peek() {
                0 => break,
                c if c == end => {
                    self.i += 1;
                    break;
                }
                b',' => self.i += 1,
                _ => {
                    let k = self.value();
                    if self.peek() == b':' {
                        self.i += 1;
                        let x = self.value();
                        v.push((k, Some(x)));
                    } else {
                        v.push((k, None));
                    }
                }
            }
        }
        v
    }
    fn value(&mut self) -> Value {
        let mut atoms = vec![];
        loop {
            match self.peek() {
                0 | b',' | b'}' | b']' | b')' => break,
                b':' if !atoms.is_empty() => break,
                b'"' => atoms.push(Value::String(self.text())),
                b'[' => atoms.push(Value::Array(self.list(b']').into_iter().map(|x| x.0).collect())),
                b'(' => atoms.push(Value::Array(self.list(b')').into_iter().map(|x| x.0).collect())),
                b'{' => {
                    let v = self.list(b'}');
                    if v.iter().any(|x| x.1.is_some()) {
                        let mut m = Map::new();
                        for (k, x) in v {
                            m.insert(k.as_str().map_or_else(|| k.to_string(), String::from), x.unwrap_or(Value::Null));
                        }
                        atoms.push(Value::Object(m));
                    } else {
                        let mut v: Vec<Value> = v.into_iter().map(|x| x.0).collect();
                        v.sort_by_key(Value::to_string);
                        atoms.push(Value::Array(v));
                    }
                }
                _ => atoms.push(self.word()),
            }
        }
        match atoms.len() {
            1 => atoms.remove(0),
            _ => Value::Array(atoms),
        }
    }
}
/// the fields of a struct
pub fn fields(v: &impl std::fmt::Debug) -> Map<String, Value> {
    let t = format!("{v:?}");
    let mut p = P { s: t.as_bytes(), i: 0 };
    match p.value() {
        Value::Array(a) => a.into_iter().find_map(|x| if let Value::Object(m) = x { Some(m) } else { None }).unwrap_or_default(),
        Value::Object(m) => m,
        _ => Map::new(),
    }
}
