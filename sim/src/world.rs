//! The rest of an operator's installation: Symbology, squawks.json, the TopSky
//! plugin files, the .prf that ties everything together, overlays, and the
//! rendering of a whole installation into the files of the simulated disk.

use crate::pack::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

macro_rules! model {
    ($($(#[$m:meta])* pub struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? })*) => {
        $($(#[$m])* #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
        #[serde(default)]
        pub struct $n { $($(#[$fm])* pub $f: $t),* })*
    };
}

/// decimal number in tenths
pub type T = i32;
pub fn tenths(t: T, short: bool) -> String {
    let s = if t < 0 { "-" } else { "" };
    let a = t.abs();
    if a % 10 == 0 && short {
        format!("{s}{}", a / 10)
    } else if a < 10 && short {
        format!("{s}.{a}")
    } else {
        format!("{s}{}.{}", a / 10, a % 10)
    }
}
pub fn tv(t: T) -> f64 {
    tenths(t, false).parse().unwrap_or(0.0)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SRule {
    Move(T, T),
    Line(T, T),
    Pixel(T, T),
    Arc(T, T, T, i64, i64),
    ArcE(T, T, T, T, i64, i64),
    Fill(T, T, T, i64, i64),
    FillE(T, T, T, T, i64, i64),
    Circle(T, T, T),
    Ellipse(T, T, T, T),
    Rect(T, T, T, T),
    Poly(Vec<(T, T)>),
}
impl SRule {
    pub fn text(&self, d: char) -> String {
        let j = |k: &str, v: &[String]| {
            let mut s = k.to_string();
            for x in v {
                s.push(d);
                s.push_str(x);
            }
            s
        };
        let t = |x: &T| tenths(*x, true);
        let a = |x: &i64| x.to_string();
        match self {
            SRule::Move(x, y) => j("MOVETO", &[t(x), t(y)]),
            SRule::Line(x, y) => j("LINETO", &[t(x), t(y)]),
            SRule::Pixel(x, y) => j("SETPIXEL", &[t(x), t(y)]),
            SRule::Arc(x, y, r, b, e) => j("ARC", &[t(x), t(y), t(r), a(b), a(e)]),
            SRule::ArcE(x, y, r, s, b, e) => j("ARC", &[t(x), t(y), t(r), t(s), a(b), a(e)]),
            SRule::Fill(x, y, r, b, e) => j("FILLARC", &[t(x), t(y), t(r), a(b), a(e)]),
            SRule::FillE(x, y, r, s, b, e) => j("FILLARC", &[t(x), t(y), t(r), t(s), a(b), a(e)]),
            SRule::Circle(x, y, r) => j("ELLIPSE", &[t(x), t(y), t(r)]),
            SRule::Ellipse(x, y, r, s) => j("ELLIPSE", &[t(x), t(y), t(r), t(s)]),
            SRule::Rect(x, y, r, s) => j("FILLRECT", &[t(x), t(y), t(r), t(s)]),
            SRule::Poly(v) => {
                let mut o = vec![];
                for (x, y) in v {
                    o.push(t(x));
                    o.push(t(y));
                }
                j("POLYGON", &o)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MLoc {
    Name(String),
    Dms(Ll),
    Dec(String, String),
}
impl MLoc {
    pub fn text(&self) -> String {
        match self {
            MLoc::Name(n) => n.clone(),
            MLoc::Dms(l) => l.ese(),
            MLoc::Dec(a, b) => format!("{a}:{b}"),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Always,
    Id(Vec<Option<Vec<String>>>),
    Callsign(Vec<Option<Vec<String>>>),
    Area(Vec<String>, Option<Vec<String>>),
    Aup(Vec<String>),
    Map(bool, String, String),
    Notam(String, Vec<String>),
    Rwy(Option<Vec<(String, String)>>, Option<Vec<(String, String)>>),
    RwyEx(Vec<Option<Vec<(String, String)>>>),
    Sched(String, String, String, String, String),
}
impl Act {
    pub fn text(&self) -> String {
        let w = |v: &Option<Vec<String>>| v.as_ref().map_or("*".to_string(), |v| v.join(","));
        let rw = |v: &Option<Vec<(String, String)>>| {
            v.as_ref().map_or("*".to_string(), |v| {
                v.iter().map(|(a, b)| format!("{a}{b}")).collect::<Vec<_>>().join(",")
            })
        };
        match self {
            Act::Always => "1".into(),
            Act::Id(v) => format!("ID:{}", v.iter().map(w).collect::<Vec<_>>().join(":")),
            Act::Callsign(v) => format!("CALLSIGN:{}", v.iter().map(w).collect::<Vec<_>>().join(":")),
            Act::Area(a, None) => format!("AREA:{}", a.join(",")),
            Act::Area(a, Some(e)) => format!("AREA:{}:{}", a.join(","), e.join(",")),
            Act::Aup(a) => format!("AUP:{}", a.join(",")),
            Act::Map(eq, f, n) => format!("MAP:{}:{f}\\{n}", if *eq { "=" } else { "!" }),
            Act::Notam(i, n) => format!("NOTAM:{i}:{}", n.join(",")),
            Act::Rwy(a, d) => format!("RWY:ARR:{}:DEP:{}", rw(a), rw(d)),
            Act::RwyEx(v) => format!("RWY:ARR:{}:{}:DEP:{}:{}", rw(&v[0]), rw(&v[1]), rw(&v[2]), rw(&v[3])),
            Act::Sched(a, b, d, c, e) => format!("{a}:{b}:{d}:{c}:{e}"),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MRule {
    Folder(String),
    Colour(String, Option<String>),
    Asr(Option<Vec<String>>),
    Active(Act),
    AndActive(Act),
    Layer(i32),
    /// name, where, label (text, offset), alignment text
    Symbol(String, MLoc, Option<(String, T, T)>, Option<String>),
    Text(MLoc, String, Option<String>),
    /// '=','+','-','*' and tenths; '0' = default
    Font(char, T),
    Zoom(T),
    Style(String, Option<i32>),
    Lines(Vec<(MLoc, MLoc)>),
    Coord(MLoc),
    CoordLine,
    CoordPoly(i32),
    Global,
    Screen,
    Hidden,
    /// recognised by the format, without effect
    Ignored(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MItem {
    Map { name: String, rules: Vec<MRule> },
    Symbol { name: String, rules: Vec<SRule> },
    Colour { name: String, rgb: (u32, u32, u32) },
    Style { name: String, brush: String, hatch: String, dashes: Vec<i32> },
    Override { folder: String, name: Option<String> },
    Sct { path: String },
}

model! {
    pub struct SymItem { folder: String, name: String, colour: i64, scale: T, style: u8, weight: i32, align: u8 }
    pub struct SymDef { id: u32, rules: Vec<SRule> }
    pub struct Symbology { items: Vec<SymItem>, symbols: Vec<SymDef>, colon: bool, noise: u64 }

    pub struct Squawk { code: Option<String>, range: Option<(String, String)>, message: String, colour: String }
    pub struct Squawks {
        squawks: Vec<Squawk>, pretty: bool,
        /// the other half of the file: colour, message and codes that are not discrete
        rest: Option<(String, String, Vec<String>)>,
    }

    pub struct TsSettings { settings: Vec<(String, String)>, colours: Vec<(String, Option<(u32, u32, u32)>)>, section: Vec<(String, String)>, noise: u64 }
    pub struct TsSymbols { symbols: Vec<(String, Vec<SRule>)>, noise: u64 }
    pub struct TsMaps { items: Vec<MItem>, noise: u64 }

    /// values of the .prf and where things live
    pub struct Layout {
        dir: String, prf: String, cwd: String,
        sector: String, airways: String, nav: String, airports: String, airlines: String, aircraft: String,
        symbology: String, squawks: Option<String>, topsky: Option<String>,
        recent: Vec<(u8, String)>,
        extra: Vec<(String, String, String)>,
        overlays: Vec<String>, toml_dir: String,
        order: u64, crlf: bool, prf_link: Option<String>,
        /// overlays are handed over as paths seen from the working directory
        rel_overlays: bool,
        /// the order in which the overlays apply, with repetitions (empty: as listed)
        seq: Vec<usize>,
    }
    pub struct Pack {
        sct: Sct, ese: Ese, airways: Vec<AwyRow>, icao: Icao, symbology: Symbology,
        squawks: Option<Squawks>, ts_settings: Option<TsSettings>, ts_symbols: Option<TsSymbols>, ts_maps: Option<TsMaps>,
        /// one jsonnet source per overlay of the layout
        overlays: Vec<String>,
        /// bit per role: written in windows-1252 instead of UTF-8
        enc: u64,
    }
}

// ------------------------------------------------------------------ rendering

struct Nz {
    r: Rng,
    on: bool,
    crlf: bool,
    /// the last line has no line end
    open_end: bool,
}
impl Nz {
    fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let on = seed != 0;
        let crlf = on && r.chance(0.5);
        Nz { r, on, crlf, open_end: on && seed % 7 == 3 }
    }
    fn blank(&mut self) -> &'static str {
        if self.on && self.r.chance(0.2) {
            "\n"
        } else {
            ""
        }
    }
    fn comment(&mut self) -> &'static str {
        if self.on && self.r.chance(0.15) {
            *self.r.pick(&["; comment line\n", "// MAP:not a map\n", "  ; indented\n"])
        } else {
            ""
        }
    }
    fn fin(&self, mut s: String) -> Vec<u8> {
        while self.open_end && (s.ends_with('\n') || s.ends_with(' ')) {
            s.pop();
        }
        if self.crlf {
            s.replace('\n', "\r\n").into_bytes()
        } else {
            s.into_bytes()
        }
    }
}

impl Symbology {
    pub fn render(&self) -> Vec<u8> {
        let mut n = Nz::new(self.noise);
        let mut o = String::new();
        o.push_str(n.blank());
        o.push_str("SYMBOLOGY\nSYMBOLSIZE\n");
        for i in &self.items {
            o.push_str(&format!(
                "{}:{}:{}:{}:{}:{}:{}\n{}",
                i.folder,
                i.name,
                i.colour,
                tenths(i.scale, false),
                i.style,
                i.weight,
                i.align,
                n.blank()
            ));
        }
        for s in &self.symbols {
            o.push_str(&format!("SYMBOL:{}\n", s.id));
            for r in &s.rules {
                o.push_str(&format!("SYMBOLITEM:{}\n{}", r.text(if self.colon { ':' } else { ' ' }), n.blank()));
            }
        }
        o.push_str("m_ClipArea:5\nEND");
        if self.noise % 3 != 1 {
            o.push('\n');
        }
        n.fin(o)
    }
}
impl Squawks {
    pub fn other(&self) -> (String, String, Vec<String>) {
        self.rest.clone().unwrap_or_else(|| ("#ff0102".into(), "ndis".into(), vec!["1000".into(), "2000".into()]))
    }
    pub fn render(&self) -> Vec<u8> {
        let (c, m, codes) = self.other();
        let v = serde_json::json!({
            "NonDiscreteColor": c,
            "NonDiscreteMessage": m,
            "NonDiscrete": codes,
            "Squawks": self.squawks.iter().map(|s| {
                let mut m = serde_json::Map::new();
                if let Some(c) = &s.code { m.insert("code".into(), c.clone().into()); }
                if let Some((a, b)) = &s.range { m.insert("range".into(), serde_json::json!({"start": a, "end": b})); }
                m.insert("message".into(), s.message.clone().into());
                m.insert("color".into(), s.colour.clone().into());
                serde_json::Value::Object(m)
            }).collect::<Vec<_>>(),
        });
        if self.pretty {
            serde_json::to_vec_pretty(&v).unwrap_or_default()
        } else {
            serde_json::to_vec(&v).unwrap_or_default()
        }
    }
}
impl TsSettings {
    pub fn render(&self) -> Vec<u8> {
        let mut n = Nz::new(self.noise);
        let mut lines: Vec<String> = vec![];
        for (k, v) in &self.settings {
            lines.push(format!("{k}={v}"));
        }
        for (k, v) in &self.colours {
            lines.push(match v {
                Some((r, g, b)) => format!("Color_{k}={r},{g},{b}"),
                None => format!("Color_{k}"),
            });
        }
        // of what is said twice the last counts
        let mut keys: Vec<&String> = self.settings.iter().map(|s| &s.0).chain(self.colours.iter().map(|c| &c.0)).collect();
        keys.sort();
        if self.noise != 0 && keys.windows(2).all(|w| w[0] != w[1]) {
            let k = n.r.idx(lines.len().max(1));
            lines.rotate_left(k);
        }
        let mut o = String::new();
        if self.noise % 2 == 1 {
            o.push_str("//header comment\n");
        }
        for l in lines {
            o.push_str(n.comment());
            o.push_str(&l);
            o.push('\n');
            o.push_str(n.blank());
        }
        if !self.section.is_empty() {
            o.push_str("[Plugin/Section]\n");
            for (k, v) in &self.section {
                o.push_str(&format!("{k}={v}\n"));
            }
        }
        n.fin(o)
    }
}
impl TsSymbols {
    pub fn render(&self) -> Vec<u8> {
        let mut n = Nz::new(self.noise);
        let mut o = String::new();
        o.push_str(n.blank());
        for (k, r) in &self.symbols {
            o.push_str(n.comment());
            o.push_str(&format!("SYMBOL:{k}\n"));
            for x in r {
                o.push_str(&format!("{}\n{}", x.text(':'), n.blank()));
            }
        }
        n.fin(o)
    }
}
impl MRule {
    fn lines(&self) -> Vec<String> {
        let al = |a: &Option<String>| a.as_ref().map_or(String::new(), |a| format!("/{a}"));
        vec![match self {
            MRule::Folder(f) => format!("FOLDER:{f}"),
            MRule::Colour(c, None) => format!("COLOR:{c}"),
            MRule::Colour(c, Some(x)) => format!("COLOR:{c}:{x}"),
            MRule::Asr(None) => "ASRDATA:*".into(),
            MRule::Asr(Some(v)) => format!("ASRDATA:{}", v.join(",")),
            MRule::Active(a) => format!("ACTIVE:{}", a.text()),
            MRule::AndActive(a) => format!("AND_ACTIVE:{}", a.text()),
            MRule::Layer(l) => format!("LAYER:{l}"),
            MRule::Symbol(n, l, lab, a) => format!(
                "SYMBOL{}:{n}:{}{}",
                al(a),
                l.text(),
                lab.as_ref()
                    .map_or(String::new(), |(t, x, y)| format!(":{t}:{}:{}", tenths(*x, true), tenths(*y, true)))
            ),
            MRule::Text(l, t, a) => format!("TEXT{}:{}:{t}", al(a), l.text()),
            MRule::Font('0', _) => "FONTSIZE:0".into(),
            MRule::Font(c, t) => format!("FONTSIZE:{c}:{}", tenths(*t, true)),
            MRule::Zoom(t) => format!("ZOOM:{}", tenths(*t, true)),
            MRule::Style(s, None) => format!("STYLE:{s}"),
            MRule::Style(s, Some(w)) => format!("STYLE:{s}:{w}"),
            MRule::Lines(v) => return v.iter().map(|(a, b)| format!("LINE:{}:{}", a.text(), b.text())).collect(),
            MRule::Coord(l) => format!("COORD:{}", l.text()),
            MRule::CoordLine => "COORDLINE".into(),
            MRule::CoordPoly(h) => format!("COORDPOLY:{h}"),
            MRule::Global => "GLOBAL".into(),
            MRule::Screen => "SCREEN-SPECIFIC".into(),
            MRule::Hidden => "HIDDEN".into(),
            MRule::Ignored(s) => s.clone(),
        }]
    }
}
impl TsMaps {
    pub fn render(&self) -> Vec<u8> {
        let mut n = Nz::new(self.noise);
        let mut o = String::new();
        if self.noise % 2 == 1 {
            o.push('\n');
        }
        for i in &self.items {
            o.push_str(n.comment());
            match i {
                MItem::Map { name, rules } => {
                    if rules.is_empty() {
                        continue;
                    }
                    o.push_str(&format!("MAP:{name}\n"));
                    let indent = if n.on && n.r.chance(0.3) { "  " } else { "" };
                    for r in rules {
                        // a run of LINE: records is one unit: keep it unindented and unbroken
                        let is_lines = matches!(r, MRule::Lines(_));
                        for l in r.lines() {
                            if !is_lines {
                                o.push_str(indent);
                            }
                            o.push_str(&l);
                            o.push('\n');
                        }
                        o.push_str(n.blank());
                    }
                }
                MItem::Symbol { name, rules } => {
                    if rules.is_empty() {
                        continue;
                    }
                    o.push_str(&format!("SYMBOLDEF:{name}\n"));
                    for x in rules {
                        o.push_str(&format!("{}\n", x.text(':')));
                    }
                }
                MItem::Colour { name, rgb } => o.push_str(&format!("COLORDEF:{name}:{}:{}:{}\n", rgb.0, rgb.1, rgb.2)),
                MItem::Style { name, brush, hatch, dashes } => {
                    let d = if dashes.is_empty() {
                        String::new()
                    } else {
                        format!(":{}", dashes.iter().map(ToString::to_string).collect::<Vec<_>>().join(","))
                    };
                    o.push_str(&format!("LINESTYLEDEF:{name}:{brush}:{hatch}{d}\n"));
                }
                MItem::Override { folder, name } => o.push_str(&match name {
                    Some(x) => format!("OVERRIDE_SCT_MAP:{folder}\\{x}\n"),
                    None => format!("OVERRIDE_SCT_MAP:{folder}\n"),
                }),
                MItem::Sct { path } => o.push_str(&format!("SCTFILEPATH:{path}\n")),
            }
            o.push_str(n.blank());
        }
        n.fin(o)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Role {
    Sct,
    Ese,
    Airways,
    Symbology,
    Squawks,
    TsSettings,
    TsSymbols,
    TsMaps,
    Airports,
    Nav,
    Aircraft,
    Airlines,
    Overlay(usize),
    Prf,
    Toml,
}
impl Role {
    pub fn bit(self) -> u64 {
        match self {
            Role::Sct => 0,
            Role::Ese => 1,
            Role::Airways => 2,
            Role::Symbology => 3,
            Role::TsSettings => 5,
            Role::TsSymbols => 6,
            Role::TsMaps => 7,
            Role::Airports => 8,
            Role::Nav => 9,
            Role::Aircraft => 10,
            Role::Airlines => 11,
            Role::Prf => 12,
            // JSON, jsonnet and TOML are UTF-8 by definition
            Role::Squawks | Role::Overlay(_) | Role::Toml => 63,
        }
    }
    pub fn mandatory(self) -> bool {
        !matches!(self, Role::Squawks | Role::TsSettings | Role::TsSymbols | Role::TsMaps)
    }
}

fn cp1252(s: &str) -> Option<Vec<u8>> {
    const HI: &[(char, u8)] = &[
        ('€', 0x80), ('‚', 0x82), ('ƒ', 0x83), ('„', 0x84), ('…', 0x85), ('†', 0x86), ('‡', 0x87), ('ˆ', 0x88),
        ('‰', 0x89), ('Š', 0x8a), ('‹', 0x8b), ('Œ', 0x8c), ('Ž', 0x8e), ('‘', 0x91), ('’', 0x92), ('“', 0x93),
        ('”', 0x94), ('•', 0x95), ('–', 0x96), ('—', 0x97), ('˜', 0x98), ('™', 0x99), ('š', 0x9a), ('›', 0x9b),
        ('œ', 0x9c), ('ž', 0x9e), ('Ÿ', 0x9f),
    ];
    let mut o = vec![];
    for c in s.chars() {
        let u = c as u32;
        if u < 0x80 || (0xa0..0x100).contains(&u) {
            o.push(u as u8);
        } else {
            o.push(HI.iter().find(|(h, _)| *h == c)?.1);
        }
    }
    Some(o)
}
/// bytes as stored: windows-1252 if asked for, representable and unambiguous
pub fn encode(b: Vec<u8>, win: bool) -> Vec<u8> {
    if !win {
        return b;
    }
    let Ok(s) = std::str::from_utf8(&b) else { return b };
    match cp1252(s) {
        Some(w) if s.is_ascii() || std::str::from_utf8(&w).is_err() => w,
        _ => b,
    }
}

impl Layout {
    /// the documented way a .prf value names a file
    pub fn resolve(&self, v: &str) -> String {
        let v = v.trim_end().replace('\\', "/");
        match v.strip_prefix('/') {
            Some(rel) => join(&self.dir, rel),
            None => join(&self.cwd, &v),
        }
    }
    pub fn prf_path(&self) -> String {
        join(&self.dir, &self.prf)
    }
    pub fn sequence(&self) -> Vec<usize> {
        if self.seq.is_empty() {
            (0..self.overlays.len()).collect()
        } else {
            self.seq.clone()
        }
    }
    pub fn toml_path(&self) -> String {
        join(&self.toml_dir, "adaptation.toml")
    }
    pub fn sct(&self) -> String {
        self.resolve(&self.sector)
    }
    pub fn ese(&self) -> String {
        let s = self.sct();
        let (d, f) = s.rsplit_once('/').unwrap_or(("", &s));
        let stem = match f.rsplit_once('.') {
            Some((st, _)) if !st.is_empty() => st,
            _ => f,
        };
        format!("{d}/{stem}.ese")
    }
    pub fn plugin_dir(&self, v: &str) -> String {
        let p = self.resolve(v);
        p.rsplit_once('/').map_or(String::new(), |(d, _)| d.to_string())
    }
    /// (role, path as resolved) of every file a load reads, in no particular order
    pub fn roles(&self) -> Vec<(Role, String)> {
        let mut v = vec![
            (Role::Prf, self.prf_path()),
            (Role::Toml, self.toml_path()),
            (Role::Sct, self.sct()),
            (Role::Ese, self.ese()),
            (Role::Airways, self.resolve(&self.airways)),
            (Role::Symbology, self.resolve(&self.symbology)),
            (Role::Airports, self.resolve(&self.airports)),
            (Role::Nav, self.resolve(&self.nav)),
            (Role::Aircraft, self.resolve(&self.aircraft)),
            (Role::Airlines, self.resolve(&self.airlines)),
        ];
        if let Some(s) = &self.squawks {
            v.push((Role::Squawks, format!("{}/squawks.json", self.plugin_dir(s))));
        }
        if let Some(s) = &self.topsky {
            let d = self.plugin_dir(s);
            v.push((Role::TsSettings, format!("{d}/TopSkySettings.txt")));
            v.push((Role::TsSymbols, format!("{d}/TopSkySymbols.txt")));
            v.push((Role::TsMaps, format!("{d}/TopSkyMaps.txt")));
        }
        for (i, o) in self.overlays.iter().enumerate() {
            v.push((Role::Overlay(i), join(&self.toml_dir, o)));
        }
        v
    }
    pub fn render_prf(&self) -> Vec<u8> {
        let mut l: Vec<(String, String, String)> = self.extra.clone();
        let mut p = |c: &str, k: &str, v: &str| l.push((c.into(), k.into(), v.into()));
        p("Settings", "sector", &self.sector);
        p("Settings", "airways", &self.airways);
        p("Settings", "airportcoords", &self.nav);
        p("Settings", "airports", &self.airports);
        p("Settings", "airlines", &self.airlines);
        p("Settings", "aircraft", &self.aircraft);
        p("Settings", "SettingsfileSYMBOLOGY", &self.symbology);
        if let Some(s) = &self.squawks {
            p("Plugins", "Plugin7", s);
        }
        if let Some(s) = &self.topsky {
            p("Plugins", "Plugin1", s);
        }
        for (n, v) in &self.recent {
            p("RecentFiles", &format!("Recent{n}"), v);
        }
        Rng::new(self.order).shuffle(&mut l);
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut o = String::new();
        for (c, k, v) in l {
            o.push_str(&format!("{c}\t{k}\t{v}{nl}"));
        }
        o.into_bytes()
    }
    pub fn render_toml(&self) -> Vec<u8> {
        let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
        let prf = self.prf_link.clone().unwrap_or_else(|| self.prf_path());
        format!(
            "prf = {}\noverlays = [{}]\n",
            q(&prf),
            self.sequence().iter().filter_map(|i| self.overlays.get(*i)).map(|o| q(o)).collect::<Vec<_>>().join(", ")
        )
        .into_bytes()
    }
}
/// path of `to` seen from directory `from`
pub fn relative(from: &str, to: &str) -> String {
    let (f, t) = (canon(from), canon(to));
    let a: Vec<&str> = f.split('/').filter(|x| !x.is_empty()).collect();
    let b: Vec<&str> = t.split('/').filter(|x| !x.is_empty()).collect();
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut v: Vec<&str> = vec![".."; a.len() - n];
    v.extend(&b[n..]);
    v.join("/")
}
pub fn join(a: &str, b: &str) -> String {
    if b.starts_with('/') {
        return b.to_string();
    }
    if a.ends_with('/') {
        format!("{a}{b}")
    } else {
        format!("{a}/{b}")
    }
}
/// canonical spelling of a path of the simulated disk (no links involved)
pub fn canon(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

impl Pack {
    /// bytes of one role; None: the file does not exist
    pub fn bytes(&self, l: &Layout, r: Role) -> Option<Vec<u8>> {
        let b = match r {
            Role::Sct => self.sct.render(),
            Role::Ese => self.ese.render(),
            Role::Airways => render_airways(&self.airways),
            Role::Symbology => self.symbology.render(),
            Role::Squawks => self.squawks.as_ref()?.render(),
            Role::TsSettings => self.ts_settings.as_ref()?.render(),
            Role::TsSymbols => self.ts_symbols.as_ref()?.render(),
            Role::TsMaps => self.ts_maps.as_ref()?.render(),
            Role::Airports => self.icao.render_airports(),
            Role::Nav => self.icao.render_nav(),
            Role::Aircraft => self.icao.render_aircraft(),
            Role::Airlines => self.icao.render_airlines(),
            Role::Overlay(i) => self.overlays.get(i)?.clone().into_bytes(),
            Role::Prf => l.render_prf(),
            Role::Toml => l.render_toml(),
        };
        Some(encode(b, r.bit() < 63 && self.enc >> r.bit() & 1 == 1))
    }
    pub fn files(&self, l: &Layout) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for (r, p) in l.roles() {
            if let Some(b) = self.bytes(l, r) {
                m.insert(canon(&p), b);
            }
        }
        m
    }
    /// take the content of one role from another version
    pub fn adopt(&mut self, r: Role, o: &Pack) {
        let b = r.bit();
        if b < 63 {
            self.enc = self.enc & !(1 << b) | o.enc & (1 << b);
        }
        match r {
            Role::Sct => self.sct = o.sct.clone(),
            Role::Ese => self.ese = o.ese.clone(),
            Role::Airways => self.airways = o.airways.clone(),
            Role::Symbology => self.symbology = o.symbology.clone(),
            Role::Squawks => self.squawks = o.squawks.clone(),
            Role::TsSettings => self.ts_settings = o.ts_settings.clone(),
            Role::TsSymbols => self.ts_symbols = o.ts_symbols.clone(),
            Role::TsMaps => self.ts_maps = o.ts_maps.clone(),
            Role::Airports => self.icao.airports = o.icao.airports.clone(),
            Role::Nav => self.icao.nav = o.icao.nav.clone(),
            Role::Aircraft => self.icao.aircraft = o.icao.aircraft.clone(),
            Role::Airlines => self.icao.airlines = o.icao.airlines.clone(),
            Role::Overlay(i) => {
                if i < self.overlays.len() && i < o.overlays.len() {
                    self.overlays[i] = o.overlays[i].clone();
                }
            }
            Role::Prf | Role::Toml => {}
        }
    }
}

// ------------------------------------------------------------------ generation

pub const ITEMS: &[(&str, &str)] = &[
    ("Fixes", "symbol"), ("Fixes", "name"), ("Airports", "symbol"), ("Airports", "name"),
    ("NDBs", "symbol"), ("NDBs", "name"), ("NDBs", "frequency"),
    ("VORs", "symbol"), ("VORs", "name"), ("VORs", "frequency"),
    ("Low airways", "line"), ("Low airways", "name"), ("High airways", "line"), ("High airways", "name"),
    ("Sids", "line"), ("Stars", "line"), ("ARTCC boundary", "line"), ("ARTCC low boundary", "line"),
    ("ARTCC high boundary", "line"), ("Geo", "line"), ("Runways", "centerline"),
    ("Runways", "extended centerline"), ("Runways", "name"), ("Other", "freetext"),
    ("Sector", "active sector background"), ("Sector", "inactive sector background"),
    ("Datablock", "non concerned"), ("Sector", "msaw"), ("Ångström", "line"),
];
pub const TS_COLOURS: &[&str] = &[
    "Assumed", "Concerned", "Redundant", "Unconcerned", "VFR", "Flight_Leg", "Warning", "Urgency",
    "Proposition_In", "Rwy_Locked", "Arm", "Background", "Foreground", "Field_Highlight",
    "Active_Map_Type_20", "Map_Land", "FPLSEP_Tool_1", "SEP_Vert", "MyColour", "COAST", "Unknown_Colour",
];
pub const STYLES: &[&str] = &["Solid", "Dot", "dash", "DASHDOT", "AlTernate", "DashDotDot", "MyStyle", "mystyle", "RNAV"];
pub const FOLDERS: &[&str] = &["FIXES", "SECTORLINES", "AUTO", "EDDM", "München", "auto", "Fixes"];
pub const SYMS: &[&str] = &["HISTORY", "FIX", "NDB", "VOR", "AIRPORT", "PRIMARY", "COASTED", "UNCONTROLLED", "DAPS", "Custom", "APPFix"];

fn gt(r: &mut Rng) -> T {
    num(r, &[0, 10, -10, 30, -32, 5, -5, 60, 100, 15], -999, 999)
}
fn ga(r: &mut Rng) -> i64 {
    num(r, &[0, 360, 90, 45, -90, 400, 720, -360, 180], -720, 720)
}
pub fn gen_srules(r: &mut Rng) -> Vec<SRule> {
    let n = 1 + few(r, 5);
    (0..n)
        .map(|_| match r.idx(11) {
            0 => SRule::Move(gt(r), gt(r)),
            1 => SRule::Line(gt(r), gt(r)),
            2 => SRule::Pixel(gt(r), gt(r)),
            3 => SRule::Arc(gt(r), gt(r), gt(r).abs(), ga(r), ga(r)),
            4 => SRule::ArcE(gt(r), gt(r), gt(r).abs(), gt(r).abs(), ga(r), ga(r)),
            5 => SRule::Fill(gt(r), gt(r), gt(r).abs(), ga(r), ga(r)),
            6 => SRule::FillE(gt(r), gt(r), gt(r).abs(), gt(r).abs(), ga(r), ga(r)),
            7 => SRule::Circle(gt(r), gt(r), gt(r).abs()),
            8 => SRule::Ellipse(gt(r), gt(r), gt(r).abs(), gt(r).abs()),
            9 => SRule::Rect(gt(r), gt(r), gt(r), gt(r)),
            _ => {
                let n = 1 + few(r, 5);
                SRule::Poly((0..n).map(|_| (gt(r), gt(r))).collect())
            }
        })
        .collect()
}
pub fn gen_symbology(r: &mut Rng, size: usize) -> Symbology {
    let mut s = Symbology {
        colon: r.chance(0.3),
        noise: if r.chance(0.4) { 0 } else { r.below(1 << 40) + 1 },
        ..Symbology::default()
    };
    let all = r.chance(0.3);
    for (f, n) in ITEMS {
        if !all && !r.chance(0.5) {
            continue;
        }
        for _ in 0..if r.chance(0.06) { 2 } else { 1 } {
            s.items.push(SymItem {
                folder: (*f).into(),
                name: (*n).into(),
                colour: match r.idx(12) {
                    0 => -1,
                    1 => 16_777_216,
                    2 => -5_905_897,
                    3 => 0,
                    4 => 16_777_215,
                    5 => *r.pick(&[255, 65280, 16_711_680]),
                    _ => r.below(16_777_216) as i64,
                },
                scale: num(r, &[10, 20, 35, 0, 105, 5], 0, 3000),
                style: r.idx(5) as u8,
                weight: num(r, &[0, 1, 2, 7, -1], -9, 30),
                align: *r.pick(&[0, 1, 2, 6, 7, 8, 12, 13, 14]),
            });
        }
    }
    if s.items.is_empty() {
        s.items.push(SymItem { folder: "Geo".into(), name: "line".into(), align: 7, ..SymItem::default() });
    }
    r.shuffle(&mut s.items);
    let n = 1 + r.idx(size + 3);
    for _ in 0..n {
        s.symbols.push(SymDef {
            id: *r.pick(&[0, 1, 2, 3, 5, 9, 13, 14, 18, 0, 3, 4, 17, 23, 24, 99]),
            rules: gen_srules(r),
        });
    }
    s
}
pub fn gen_squawks(r: &mut Rng) -> Squawks {
    let n = few(r, 6);
    Squawks {
        pretty: r.chance(0.5),
        rest: r.chance(0.4).then(|| {
            let k = r.idx(4);
            let codes = (0..k).map(|_| (*r.pick(&["1000", "2000", "0100", "7000", "2000"])).to_string()).collect();
            ((*r.pick(&["#000000", "#0a0B0c", "#FFFFFF"])).into(), (*r.pick(&["ndis", "", "NÖ"])).into(), codes)
        }),
        squawks: (0..n)
            .map(|_| {
                let k = r.idx(12);
                Squawk {
                    code: if k < 6 || k == 11 {
                        Some(if r.chance(0.3) { format!("{:04o}", r.range(0, 4095)) } else { (*r.pick(&["7000", "0020", "20", "7777", "1000", "8000", "", "x"])).into() })
                    } else {
                        None
                    },
                    range: if (6..10).contains(&k) || k == 11 {
                        let (a, b) = *r.pick(&[("0001", "0017"), ("7000", "7007"), ("7770", "7777"), ("0010", "0001"), ("1", "12"), ("9", "10")]);
                        if r.chance(0.2) {
                            let a = r.range(0, 4095);
                            Some((format!("{a:04o}"), format!("{:04o}", (a + r.range(0, 30)).min(4095))))
                        } else {
                            Some((a.into(), b.into()))
                        }
                    } else {
                        None
                    },
                    message: (*r.pick(&["V", "HIJACK", "ÜB", "", "SAR"])).into(),
                    colour: (*r.pick(&["#ff0000", "#00Ff7a"])).into(),
                }
            })
            .collect(),
    }
}
pub fn gen_ts_settings(r: &mut Rng) -> TsSettings {
    let mut s = TsSettings {
        noise: if r.chance(0.4) { 0 } else { r.below(1 << 40) + 1 },
        ..TsSettings::default()
    };
    let opts: &[(&str, &[&str])] = &[
        ("Setup_COOPANS", &["0", "1", "2"]),
        ("Maps_FontSize", &["10", "13.5", "x", "7"]),
        ("Track_HistoryDots", &["0", "5", "12", "-1", "abc"]),
        ("Track_PredictionLine", &["0", "3", "2.5", "0.0", "none"]),
        ("System_GUI_Scale_Windows", &["1"]),
        ("Airspace_File", &["München path"]),
    ];
    for (k, v) in opts {
        if r.chance(0.5) {
            let any = if r.chance(0.3) { r.range(0, 40).to_string() } else { format!("{}.{}", r.range(0, 30), r.range(0, 9)) };
            let v = if k.starts_with("Setup") || r.chance(0.8) { (*r.pick(v)).to_string() } else { any };
            s.settings.push(((*k).into(), v));
        }
    }
    for _ in 0..few(r, 8) {
        let v = match r.idx(8) {
            0 => None,
            1 => Some((300, 0, 0)),
            _ => Some((r.below(256) as u32, r.below(256) as u32, r.below(256) as u32)),
        };
        let name = (*r.pick(TS_COLOURS)).to_string();
        if !s.colours.iter().any(|c| c.0 == name) {
            s.colours.push((name, v));
        }
    }
    if r.chance(0.12) {
        // said twice: what comes last counts (noise would turn them around)
        s.noise = 0;
        s.settings.push(("Maps_FontSize".into(), (*r.pick(&["11", "y"])).into()));
        s.settings.push(("Setup_COOPANS".into(), (*r.pick(&["0", "1"])).into()));
        let name = (*r.pick(TS_COLOURS)).to_string();
        s.colours.push((name, Some((r.below(300) as u32, 7, 8))));
    }
    if r.chance(0.4) {
        s.section = vec![
            ("Setup_COOPANS".into(), "0".into()),
            ("Color_Assumed".into(), "1,2,3".into()),
            ("Maps_FontSize".into(), "99".into()),
        ];
    }
    s
}
fn gen_mloc(r: &mut Rng) -> MLoc {
    match r.idx(6) {
        0..=2 => MLoc::Name(
            (*r.pick(&["UPALA", "MUN", "KPT", "GL", "EDDM", "ROKIL", "NOWHR", "GIVMI", "EDDM26R", "48N011E", "MUN090010"])).into(),
        ),
        3 => MLoc::Dms(grid(r.range(-3, 3), r.range(-3, 3))),
        4 => MLoc::Dms(gen_ll(r)),
        _ => MLoc::Dec(
            (*r.pick(&["48.5", "-12.25", "0.5", "+47.125", "48", ".5", "-.25"])).into(),
            (*r.pick(&["11.25", "-11.5", "0.0", "12"])).into(),
        ),
    }
}
fn gen_names(r: &mut Rng) -> Vec<String> {
    let n = 1 + r.idx(3);
    (0..n).map(|_| (*r.pick(&["CTR", "APP", "EDDM_APP", "ALB", "FRK"])).to_string()).collect()
}
fn gen_on(r: &mut Rng) -> Option<Vec<String>> {
    if r.chance(0.5) {
        None
    } else {
        Some(gen_names(r))
    }
}
fn gen_orw(r: &mut Rng) -> Option<Vec<(String, String)>> {
    if r.chance(0.4) {
        None
    } else {
        let n = 1 + r.idx(3);
        Some((0..n).map(|_| ((*r.pick(AIRPORTS)).to_string(), (*r.pick(&["26R", "08L", "18", "36", "22G"])).to_string())).collect())
    }
}
pub fn gen_act(r: &mut Rng) -> Act {
    match r.idx(10) {
        0 => Act::Always,
        1 => Act::Id((0..4).map(|_| gen_on(r)).collect()),
        2 => Act::Callsign((0..4).map(|_| gen_on(r)).collect()),
        3 => Act::Area(gen_names(r), if r.chance(0.5) { Some(gen_names(r)) } else { None }),
        4 => Act::Aup(gen_names(r)),
        5 => Act::Map(r.chance(0.5), (*r.pick(FOLDERS)).into(), "AOR ALTMUEHL".into()),
        6 => Act::Notam((*r.pick(&["EDMM", "LOVV"])).into(), vec!["D1234/24".into()]),
        7 => Act::Rwy(gen_orw(r), gen_orw(r)),
        8 => Act::RwyEx((0..4).map(|_| gen_orw(r)).collect()),
        _ => Act::Sched(
            (*r.pick(&["0101", "240101", "0715"])).into(),
            (*r.pick(&["1231", "241231", "0930"])).into(),
            (*r.pick(&["0", "1234567", "67", "135"])).into(),
            (*r.pick(&["0000", "0630"])).into(),
            (*r.pick(&["2359", "1530"])).into(),
        ),
    }
}
fn gen_mrules(r: &mut Rng, size: usize) -> Vec<MRule> {
    let n = 1 + few(r, size * 2 + 4);
    let mut v = vec![];
    for _ in 0..n {
        let a = if r.chance(0.2) { Some((*r.pick(&["L", "CT", "RB", "C"])).to_string()) } else { None };
        let x = match r.idx(22) {
            0 => MRule::Folder((*r.pick(FOLDERS)).into()),
            1 | 2 => MRule::Colour((*r.pick(TS_COLOURS)).into(), if r.chance(0.2) { Some("Map_Land".into()) } else { None }),
            3 => MRule::Asr(gen_on(r)),
            4 => MRule::Active(gen_act(r)),
            5 => MRule::AndActive(gen_act(r)),
            6 => MRule::Layer(num(r, &[-2, 0, 5, 1], -300, 300)),
            7 | 8 => {
                let lab = if r.chance(0.5) { Some(((*r.pick(&["UPALA", "Lbl ü", ""])).to_string(), gt(r), gt(r))) } else { None };
                MRule::Symbol((*r.pick(SYMS)).into(), gen_mloc(r), lab, a)
            }
            9 | 10 => MRule::Text(gen_mloc(r), (*r.pick(&["FL 95-", "München", "a:b", "x"])).into(), a),
            11 => MRule::Font(*r.pick(&['=', '+', '-', '*', '0']), num(r, &[10, 25, 120, 5], 1, 999)),
            12 => MRule::Zoom(num(r, &[90, 5, 125, 0], 0, 9999)),
            13 => MRule::Style((*r.pick(STYLES)).into(), if r.chance(0.6) { Some(num(r, &[1, 2, 3, -1], -5, 40)) } else { None }),
            14 | 15 => {
                let n = 1 + few(r, 4);
                let mut l: Vec<(MLoc, MLoc)> = vec![];
                for _ in 0..n {
                    // a LINE record names its two ends in the same way
                    let named = r.chance(0.5);
                    let is = |m: &MLoc| matches!(m, MLoc::Name(_)) == named;
                    let mut pick = |r: &mut Rng| loop {
                        let m = gen_mloc(r);
                        if is(&m) {
                            return m;
                        }
                    };
                    let s = match l.last() {
                        Some(p) if r.chance(0.6) && is(&p.1) => p.1.clone(),
                        _ => pick(r),
                    };
                    let e = if r.chance(0.15) { s.clone() } else { pick(r) };
                    l.push((s, e));
                }
                MRule::Lines(l)
            }
            16 => {
                let k = few(r, 5);
                for _ in 0..k {
                    v.push(MRule::Coord(gen_mloc(r)));
                }
                if r.chance(0.5) {
                    MRule::CoordLine
                } else {
                    MRule::CoordPoly(num(r, &[100, 25, 0], 0, 100))
                }
            }
            17 => MRule::Coord(gen_mloc(r)),
            18 => MRule::Global,
            19 => MRule::Screen,
            20 => MRule::Hidden,
            _ => MRule::Ignored(
                (*r.pick(&["FONTSTYLE:0", "FONTSTYLE:700:1:0:1", "TEXTALIGN:LC", "COORD_CIRCLE:N048.00.00.000:E011.00.00.000:5.0:10", "CIRCLE:48.5:11.25:5:10",
                    "OVERRIDE_SCT_MAP:GEO\\X", "SCTFILEDATA/MONO:geo\\Küste", "SCTDATA:regions\\EDDM", "COORD_PBD:EDDM/26R:5.0:90",
                    "COORD_AF:MUN:1:90:180:<:5", "COORD_HM:MUN:090M:R:1.5MIN:210KTS:5", "FONTSTYLE:400:0:0:0", "TEXTALIGN:"])).into(),
            ),
        };
        v.push(x);
    }
    // two LINE runs in a row would be one run on disk
    v.dedup_by(|b, a| matches!((a, b), (MRule::Lines(_), MRule::Lines(_))));
    if r.chance(0.9) {
        let k = if r.chance(0.7) { 0 } else { r.idx(v.len() + 1) };
        v.insert(k, MRule::Colour((*r.pick(&["Active_Map_Type_20", "Map_Land", "COAST", "runway", "MyColour"])).into(), None));
    }
    // inserting may not join runs; removing nothing either
    v
}
pub fn gen_ts_symbols(r: &mut Rng) -> TsSymbols {
    let n = 1 + r.idx(5);
    TsSymbols {
        noise: if r.chance(0.4) { 0 } else { r.below(1 << 40) + 1 },
        symbols: (0..n).map(|_| ((*r.pick(SYMS)).to_string(), gen_srules(r))).collect(),
    }
}
pub fn gen_ts_maps(r: &mut Rng, size: usize) -> TsMaps {
    let n = 1 + r.idx(size + 4);
    let one = r.chance(0.25);
    let items: Vec<MItem> = (0..n)
        .map(|_| match r.idx(10) {
            0..=4 => MItem::Map {
                name: if one { "SYMBOLS" } else { *r.pick(&["SYMBOLS", "AOR ALTMUEHL", "EDMO_RNP22", "Küste", "X"]) }.into(),
                rules: gen_mrules(r, size),
            },
            5 => MItem::Symbol { name: (*r.pick(SYMS)).into(), rules: gen_srules(r) },
            6 | 7 => MItem::Colour {
                name: (*r.pick(TS_COLOURS)).into(),
                rgb: if r.chance(0.07) { *r.pick(&[(256, 0, 0), (0, 300, 0), (1, 2, 999_999_999)]) } else { (r.below(256) as u32, r.below(256) as u32, r.below(256) as u32) },
            },
            8 => {
                let n = few(r, 6);
                MItem::Style {
                    name: (*r.pick(STYLES)).into(),
                    brush: (*r.pick(&["BRUSH", "Solid", ""])).into(),
                    hatch: (*r.pick(&["HATCH", ""])).into(),
                    dashes: (0..n).map(|_| num(r, &[1, 2, 5, 10, 0], 0, 90)).collect(),
                }
            }
            _ => {
                if r.chance(0.8) {
                    MItem::Override {
                        folder: (*r.pick(FOLDERS)).into(),
                        name: if r.chance(0.4) { Some("X".into()) } else { None },
                    }
                } else {
                    MItem::Sct { path: "\\EDMM.sct".into() }
                }
            }
        })
        .collect();
    // an override line inside a map definition belongs to that map: keep the
    // stand-alone ones in front
    let (mut head, tail): (Vec<MItem>, Vec<MItem>) = items.into_iter().partition(|i| matches!(i, MItem::Override { .. }));
    head.extend(tail);
    if r.chance(0.05) {
        // a name given out again and again
        if let Some(MItem::Map { name, rules }) = head.iter().find(|i| matches!(i, MItem::Map { .. })).cloned() {
            for k in 0..8 + r.idx(7) {
                let mut rules = if r.chance(0.5) { rules.clone() } else { gen_mrules(r, size) };
                if k > 2 {
                    // not taken out: that may make one run of two
                    rules.iter_mut().filter(|x| matches!(x, MRule::Folder(_))).for_each(|x| *x = MRule::Folder(FOLDERS[0].into()));
                    rules.insert(0, MRule::Folder(FOLDERS[0].into()));
                }
                head.push(MItem::Map { name: name.clone(), rules });
            }
        }
    }
    TsMaps { noise: if r.chance(0.4) { 0 } else { r.below(1 << 40) + 1 }, items: head }
}

pub fn gen_layout(r: &mut Rng, n_overlays: usize) -> Layout {
    let dir = (*r.pick(&["/es", "/Euroscope Data/EDMM", "/data/München/v1.2"])).to_string();
    let cwd = (*r.pick(&["/work", "/", "/work/sub dir"])).to_string();
    let tail = |r: &mut Rng| (*r.pick(&["", "", "  ", "\t"])).to_string();
    let mut spell = |r: &mut Rng, rel: &str| {
        // prf-relative most of the time, else relative to the working directory
        let w = rel.replace('/', "\\");
        match r.idx(8) {
            0 => format!("{w}{}", tail(r)),
            1 => format!("./{rel}"),
            2 => format!("..\\{w}"),
            3 => format!("/{rel}{}", tail(r)),
            4 => format!("\\.\\{w}"),
            _ => format!("\\{w}{}", tail(r)),
        }
    };
    let stem = *r.pick(&["EDMM", "EDMM_2401.1", "sector file"]);
    let sub = *r.pick(&["", "Sector/"]);
    let mut l = Layout {
        prf: (*r.pick(&["iCAS2.prf", "EDMM Full.prf"])).into(),
        sector: spell(r, &format!("{sub}{stem}.sct")),
        airways: spell(r, "EDMM/NavData/airway.txt"),
        nav: spell(r, "EDMM/NavData/icao.txt"),
        airports: spell(r, "EDMM/ICAO/ICAO_Airports.txt"),
        airlines: spell(r, "EDMM/ICAO/ICAO_Airlines.txt"),
        aircraft: spell(r, "EDMM/ICAO/ICAO_Aircraft.txt"),
        symbology: spell(r, "EDMM/Settings/Symbology.txt"),
        squawks: if r.chance(0.75) { Some(spell(r, "EDMM/Plugins/Squawks/Squawks.dll")) } else { None },
        topsky: if r.chance(0.8) { Some(spell(r, "EDMM/Plugins/Topsky/TopSky.dll")) } else { None },
        order: r.u64(),
        crlf: r.chance(0.5),
        dir,
        cwd,
        toml_dir: "/cfg".into(),
        ..Layout::default()
    };
    let n = r.idx(4);
    for i in 0..n {
        let k = 1 + (i as u8 * 4 + r.idx(4) as u8) % 10;
        if !l.recent.iter().any(|x| x.0 == k) {
            let v = spell(r, &format!("EDMM/ASR/view {k}.asr"));
            l.recent.push((k, v));
        }
    }
    let extras: &[(&str, &str, &str)] = &[
        ("ASRFastKeys", "1", "\\EDMM\\ASR\\EDDM_GND.asr"),
        ("Plugins", "Plugin0", "\\EDMM\\Plugins\\AfvEuroScopeBridge.dll"),
        ("Plugins", "Plugin1Display0", "Standard ES radar screen"),
        ("Plugins", "Plugin2", "\\EDMM\\Plugins\\TopSkyX.dll"),
        ("Plugins", "Plugin3", "\\EDMM\\Squawks.dll.bak"),
        ("Other", "sector", "\\wrong.sct"),
        ("Settings", "sectorX", "\\wrong2.sct"),
        ("Settings", "airport", "\\wrong3.txt"),
        ("LastSession", "atis_url0", "http://uniatis.net/atis.php?arr=$arrrwy"),
        ("RecentFilesX", "Recent2", "\\no.asr"),
    ];
    for e in extras {
        if r.chance(0.4) {
            l.extra.push((e.0.into(), e.1.into(), e.2.into()));
        }
    }
    // entries that only look like the plugins
    for (i, e) in ["\\EDMM\\Plugins\\MyTopSky.dll", "\\EDMM\\Plugins\\XSquawks.dll", "\\EDMM\\TopSky.dll\\Foo.dll", "\\EDMM\\Plugins\\TopSky.dll.old", "\\EDMM\\Squawks.dll\\Squawks.dll2", "\\EDMM\\Plugins\\squawks.json", "\\EDMM\\Plugins\\Squawks", "\\EDMM\\Plugins\\TopSky"].iter().enumerate() {
        if r.chance(0.2) {
            l.extra.push(("Plugins".into(), format!("Plugin{}", if r.chance(0.5) { 20 + i } else { 8 + i }), (*e).into()));
        }
    }
    for i in 0..n_overlays {
        let k = 9 - i;
        l.overlays.push((*r.pick(&[&format!("overlay{k}.jsonnet"), &format!("./overlay{k}.jsonnet"), &format!("ov/overlay {k}.jsonnet"), &format!("../shared/o{k}.jsonnet"), &format!("/shared/x y/{k}.libsonnet"), &format!("my \"{k}\".jsonnet"), &format!("new\\t{k}.jsonnet"), &format!("it's Übung'{k}.jsonnet")])).to_string());
    }
    l.rel_overlays = r.chance(0.5);
    if n_overlays > 0 && r.chance(0.4) {
        let m = r.idx(n_overlays + 2);
        l.seq = (0..n_overlays).chain((0..m).map(|_| r.idx(n_overlays))).collect();
        r.shuffle(&mut l.seq);
    }
    l
}
pub fn gen_pack(r: &mut Rng, size: usize) -> Pack {
    Pack {
        sct: gen_sct(r, size),
        ese: gen_ese(r, size),
        airways: gen_airways(r, size),
        icao: gen_icao(r, size),
        symbology: gen_symbology(r, size),
        squawks: if r.chance(0.9) { Some(gen_squawks(r)) } else { None },
        ts_settings: if r.chance(0.95) { Some(gen_ts_settings(r)) } else { None },
        ts_symbols: if r.chance(0.8) { Some(gen_ts_symbols(r)) } else { None },
        ts_maps: if r.chance(0.95) { Some(gen_ts_maps(r, size)) } else { None },
        overlays: vec![],
        enc: if r.chance(0.5) { 0 } else { r.u64() },
    }
}
