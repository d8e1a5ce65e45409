//! Abstract model of a EuroScope pack (what the operator *means*), its random
//! generator, and the renderer that writes it in the on-disk formats.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};

macro_rules! model {
    ($($(#[$m:meta])* pub struct $n:ident { $($f:ident : $t:ty),* $(,)? })*) => {
        $($(#[$m])* #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
        #[serde(default)]
        pub struct $n { $(pub $f: $t),* })*
    };
}

/// the same place however it is written
impl PartialEq for Dms {
    fn eq(&self, o: &Dms) -> bool {
        self.val() == o.val()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Dms {
    pub hemi: String,
    pub deg: u16,
    pub min: u8,
    /// thousandths of an arc second
    pub ms: u32,
    /// how it is written: 0 padded, 1 bare degrees, 2 as short as possible, 3 wide,
    /// 4 decimal degrees where those are allowed
    pub style: u8,
}
impl Default for Dms {
    fn default() -> Self {
        Dms {
            hemi: "N".into(),
            deg: 1,
            min: 0,
            ms: 0,
            style: 0,
        }
    }
}
impl Dms {
    pub fn val(&self) -> f64 {
        let s = match self.hemi.as_str() {
            "S" | "s" | "W" | "w" => -1.0,
            _ => 1.0,
        };
        s * (f64::from(self.deg)
            + f64::from(self.min) / 60.0
            + f64::from(self.ms) / 1000.0 / 3600.0)
    }
    pub fn text(&self) -> String {
        let (h, deg, min, s, f) = (&self.hemi, self.deg, self.min, self.ms / 1000, self.ms % 1000);
        match self.style {
            1 => format!("{h}{deg}.{min:02}.{s:02}.{f:03}"),
            2 if f == 0 => format!("{h}{deg}.{min}.{s}"),
            2 => format!("{h}{deg}.{min}.{}", format!("{s}.{f:03}").trim_end_matches('0')),
            3 => format!("{h}{deg:04}.{min:02}.{s:02}.{f:03}00"),
            _ => format!("{h}{deg:03}.{min:02}.{s:02}.{f:03}"),
        }
    }
}
impl Dms {
    /// where decimal degrees are as good
    pub fn any(&self) -> String {
        if self.style == 4 {
            format!("{}", self.val())
        } else {
            self.text()
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Ll {
    pub lat: Dms,
    pub lon: Dms,
}
impl Default for Ll {
    fn default() -> Self {
        Ll {
            lat: Dms::default(),
            lon: Dms {
                hemi: "E".into(),
                ..Dms::default()
            },
        }
    }
}
impl Ll {
    pub fn sct(&self) -> String {
        format!("{} {}", self.lat.text(), self.lon.text())
    }
    pub fn ese(&self) -> String {
        format!("{}:{}", self.lat.any(), self.lon.any())
    }
    pub fn xy(&self) -> (f64, f64) {
        (self.lon.val(), self.lat.val())
    }
    pub fn q(&self) -> (i64, i64) {
        let (x, y) = self.xy();
        (q(x), q(y))
    }
}
pub fn q(x: f64) -> i64 {
    // whole milliseconds and seven-digit decimals both stay clear of this boundary
    (x * 1e6 + 0.47).floor() as i64
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Loc {
    Fix(String),
    At(Ll),
}
impl Default for Loc {
    fn default() -> Self {
        Loc::At(Ll::default())
    }
}
impl Loc {
    pub fn sct(&self) -> String {
        match self {
            Loc::Fix(f) => format!("{f} {f}"),
            Loc::At(l) => l.sct(),
        }
    }
}

model! {
    pub struct Beacon { des: String, freq: String, pos: Ll }
    pub struct FixDef { des: String, pos: Ll }
    pub struct SctAirport { des: String, freq: String, pos: Ll, class: String }
    pub struct Rwy { d1: String, d2: String, h1: u32, h2: u32, p1: Ll, p2: Ll, ad: String, trail: String }
    pub struct Seg { a: Loc, b: Loc, colour: Option<String> }
    pub struct Lines { name: String, segs: Vec<Seg> }
    pub struct Awy { des: String, a: Loc, b: Loc }
    pub struct Region { name: String, colour: String, pts: Vec<Ll> }
    pub struct Label { name: String, pos: Ll, colour: String }
    pub struct ColourDef { name: String, value: u32, section: u8 }
    pub struct Sct {
        name: String, callsign: String, airport: String, centre: Ll,
        miles_lat: String, miles_lon: String, magvar: String, scale: Option<String>,
        colours: Vec<ColourDef>,
        vors: Vec<Beacon>, ndbs: Vec<Beacon>, fixes: Vec<FixDef>,
        // (index, text): unparsable lines inserted in [NDB] / [FIXES]
        broken_ndb: Vec<(usize, String)>, broken_fix: Vec<(usize, String)>,
        airports: Vec<SctAirport>, runways: Vec<Rwy>,
        sids: Vec<Lines>, stars: Vec<Lines>,
        artcc_high: Vec<Lines>, artcc: Vec<Lines>, artcc_low: Vec<Lines>, geo: Vec<Lines>,
        high_airways: Vec<Awy>, low_airways: Vec<Awy>,
        regions: Vec<Region>, labels: Vec<Label>,
        noise: u64,
    }

    pub struct Pos {
        name: String, callsign: String, freq: String, id: String, middle: String,
        prefix: String, suffix: String, sq: Option<(u16, u16)>, vis: Vec<Ll>,
    }
    pub struct SectorDef {
        id: String, bottom: u32, top: u32, owner: Option<Vec<String>>, alt: Vec<Vec<String>>,
        border: Option<Vec<String>>, active: Vec<(String, String)>,
        dep: Option<Vec<String>>, arr: Option<Vec<String>>, guest: bool,
    }
    pub struct Cop {
        fir: bool, prev: Option<String>, dep_rwy: Option<String>, fix: Option<String>,
        next: Option<String>, arr_rwy: Option<String>, exit: String, entry: String,
        climb: Option<u32>, descent: Option<u32>, desc: String,
    }
    pub struct SidStar { star: bool, apt: String, rwy: Option<String>, name: String, wpts: Vec<String> }
    pub struct Ese {
        positions: Vec<Pos>, items: Vec<AirItem>, sidstars: Vec<SidStar>, unparsed: bool, noise: u64,
    }

    pub struct AwyEnd { des: String, pos: (String, String), level: String, ok: bool }
    pub struct AwyRow {
        des: String, pos: (String, String), awy: String, ty: String,
        prev: Option<AwyEnd>, next: Option<AwyEnd>, zero: bool,
    }
    pub struct Aircraft { des: String, wtc: String, ty: String, num: String, eng: String, man: String, name: String, cont: bool }
    pub struct Airline { des: String, name: String, callsign: String, country: String }
    pub struct IcaoAirport { des: String, name: String, country: String }
    pub struct NavAirport { des: String, lat: String, lon: String, name: String }
    pub struct Icao { aircraft: Vec<Aircraft>, airlines: Vec<Airline>, airports: Vec<IcaoAirport>, nav: Vec<NavAirport>, noise: u64 }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AirItem {
    Line { id: String, pts: Vec<Ll>, display: bool },
    Circle { id: String, fix: String, radius: String },
    Display { id: String },
    Sector(SectorDef),
    Cop(Cop),
    Msaw { id: String, alt: u32, pts: Vec<Ll> },
}

// ------------------------------------------------------------------ rendering

/// Textual noise that must not change the meaning.
pub struct Noise {
    rng: Rng,
    on: bool,
    /// bytes of comment still to be written somewhere: files of more than 64 KiB
    big: usize,
    pub crlf: bool,
    /// the last line has no line end
    open_end: bool,
}
impl Noise {
    pub fn new(seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let on = seed != 0;
        let crlf = on && rng.chance(0.5);
        let big = if on && seed % 41 == 7 { 70_000 + (seed % 9_000) as usize } else { 0 };
        let open_end = on && seed % 7 == 3;
        Noise { rng, on, big, crlf, open_end }
    }
    /// blank / comment lines between records
    fn gap(&mut self, comments: bool) -> String {
        let mut s = String::new();
        if self.on && self.rng.chance(0.15) {
            s.push_str(if self.rng.chance(0.5) { "\n" } else { "  \n" });
        }
        if self.on && comments && self.rng.chance(0.1) {
            s.push_str("; a comment: with [text] N048.00.00.000\n");
        }
        if comments && self.big > 0 && self.rng.chance(0.4) {
            while self.big > 0 {
                let l = self.big.min(4 + (self.big * 7) % 90);
                s.push_str("; ");
                s.push_str(&"-".repeat(l));
                s.push('\n');
                self.big -= l;
            }
        }
        s
    }
    /// what may follow a record on its line
    fn end(&mut self) -> &'static str {
        if self.on && self.rng.chance(0.15) {
            self.rng.pick::<&str>(&["  ", " ; old", "; N048.00.00.000 E011.00.00.000", "\t// TODO", " "])
        } else {
            ""
        }
    }
    fn tail(&mut self) -> &'static str {
        if self.on && self.rng.chance(0.1) {
            "  "
        } else {
            ""
        }
    }
    pub fn finish(&self, mut s: String) -> Vec<u8> {
        while self.open_end && (s.ends_with('\n') || s.ends_with(' ')) {
            s.pop();
        }
        if self.crlf {
            s.replace('\n', "\r\n").into_bytes()
        } else {
            s.into_bytes()
        }
    }
}

impl Sct {
    /// the order of the sections in the file
    fn order(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..15).collect();
        if self.noise % 3 == 2 {
            Rng::new(self.noise).shuffle(&mut v);
        }
        v
    }
    /// the order in which the definitions of the sections come
    pub fn def_order(&self) -> Vec<u8> {
        const K: [u8; 15] = [2, 3, 4, 5, 6, 7, 8, 9, 99, 10, 11, 99, 12, 99, 13];
        [0, 1].into_iter().chain(self.order().into_iter().map(|i| K[i]).filter(|k| *k != 99)).collect()
    }
    fn lines(out: &mut String, n: &mut Noise, title: &str, v: &[Lines], defs: &str) {
        out.push_str(&format!("[{title}]\n{defs}"));
        for l in v {
            if l.segs.is_empty() {
                continue;
            }
            out.push_str(&n.gap(false));
            for (i, s) in l.segs.iter().enumerate() {
                let head = if i == 0 {
                    format!("{:<30} ", l.name)
                } else {
                    " ".repeat(31)
                };
                let c = s.colour.as_ref().map_or(String::new(), |c| format!(" {c}"));
                out.push_str(&format!("{head}{} {}{c}{}\n", s.a.sct(), s.b.sct(), n.end()));
            }
        }
        out.push('\n');
    }
    pub fn render(&self) -> Vec<u8> {
        let mut n = Noise::new(self.noise);
        let mut o = String::new();
        let defs = |k: u8| -> String {
            self.colours
                .iter()
                .filter(|c| c.section % 14 == k)
                .map(|c| format!("#define {} {}\n", c.name, c.value))
                .collect()
        };
        o.push_str(&defs(0));
        o.push_str(&n.gap(true));
        o.push_str(&format!(
            "[INFO]\n{}\n{}\n{}\n{}\n{}\n{}\n{}\n{}\n",
            self.name,
            self.callsign,
            self.airport,
            self.centre.lat.text(),
            self.centre.lon.text(),
            self.miles_lat,
            self.miles_lon,
            self.magvar
        ));
        if let Some(s) = &self.scale {
            o.push_str(&format!("{s}\n"));
        }
        o.push_str(&defs(1));
        o.push('\n');
        let head = o;
        let mut blocks: Vec<String> = vec![];
        let mut o = String::new();
        o.push_str(&format!("[VOR]\n{}", defs(2)));
        for b in &self.vors {
            o.push_str(&n.gap(true));
            o.push_str(&format!("{:<4} {} {}{}\n", b.des, b.freq, b.pos.sct(), n.tail()));
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!("\n[NDB]\n{}", defs(3)));
        for (i, b) in self.ndbs.iter().enumerate() {
            for (k, t) in &self.broken_ndb {
                if *k % self.ndbs.len() == i {
                    o.push_str(&format!("{t}\n"));
                }
            }
            o.push_str(&format!("{:<4} {} {}{}\n", b.des, b.freq, b.pos.sct(), n.tail()));
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!("\n[FIXES]\n{}", defs(4)));
        for (i, b) in self.fixes.iter().enumerate() {
            for (k, t) in &self.broken_fix {
                if *k % self.fixes.len() == i {
                    o.push_str(&format!("{t}\n"));
                }
            }
            o.push_str(&format!("{:<5} {}{}\n", b.des, b.pos.sct(), n.tail()));
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!("\n[AIRPORT]\n{}", defs(5)));
        for a in &self.airports {
            o.push_str(&n.gap(true));
            o.push_str(&n.gap(true));
            o.push_str(&format!("{} {} {} {}{}\n", a.des, a.freq, a.pos.sct(), a.class, n.tail()));
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!("\n[RUNWAY]\n{}", defs(6)));
        for r in &self.runways {
            o.push_str(&n.gap(true));
            o.push_str(&format!(
                "{:<3} {:<3} {:03} {:03} {} {} {} {}\n",
                r.d1,
                r.d2,
                r.h1,
                r.h2,
                r.p1.sct(),
                r.p2.sct(),
                r.ad,
                r.trail
            ));
        }
        o.push('\n');
        blocks.push(o);
        let mut o = String::new();
        Self::lines(&mut o, &mut n, "SID", &self.sids, &defs(7));
        blocks.push(o);
        let mut o = String::new();
        Self::lines(&mut o, &mut n, "STAR", &self.stars, &defs(8));
        blocks.push(o);
        let mut o = String::new();
        Self::lines(&mut o, &mut n, "ARTCC HIGH", &self.artcc_high, &defs(9));
        blocks.push(o);
        let mut o = String::new();
        Self::lines(&mut o, &mut n, "ARTCC", &self.artcc, "");
        blocks.push(o);
        let mut o = String::new();
        Self::lines(&mut o, &mut n, "ARTCC LOW", &self.artcc_low, &defs(10));
        blocks.push(o);
        let mut o = String::new();
        Self::lines(&mut o, &mut n, "GEO", &self.geo, &defs(11));
        blocks.push(o);
        let mut o = String::new();
        o.push_str("[HIGH AIRWAY]\n");
        for a in &self.high_airways {
            o.push_str(&n.gap(true));
            o.push_str(&format!("{:<10} {} {}{}\n", a.des, a.a.sct(), a.b.sct(), n.tail()));
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!("\n[LOW AIRWAY]\n{}", defs(12)));
        for a in &self.low_airways {
            o.push_str(&n.gap(true));
            o.push_str(&format!("{:<10} {} {}{}\n", a.des, a.a.sct(), a.b.sct(), n.tail()));
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!(
            "\n[{}]\n",
            if self.noise % 2 == 0 { "REGIONS" } else { "Regions" }
        ));
        for r in &self.regions {
            if r.pts.is_empty() {
                continue;
            }
            o.push_str(&n.gap(true));
            o.push_str(&format!("REGIONNAME {}\n", r.name));
            for (i, p) in r.pts.iter().enumerate() {
                if i == 0 {
                    o.push_str(&format!("{:<20} {}\n", r.colour, p.sct()));
                } else {
                    o.push_str(&format!("{:<20} {}{}\n", "", p.sct(), n.tail()));
                }
            }
        }
        blocks.push(o);
        let mut o = String::new();
        o.push_str(&format!("\n[LABELS]\n{}", defs(13)));
        for l in &self.labels {
            o.push_str(&n.gap(true));
            o.push_str(&format!("\"{}\" {} {}{}\n", l.name, l.pos.sct(), l.colour, n.tail()));
        }
        blocks.push(o);
        let mut o = head;
        for k in self.order() {
            o.push_str(&blocks[k]);
            o.push('\n');
        }
        // the file may end without a newline
        if self.noise % 5 == 1 {
            o.truncate(o.trim_end().len());
        }
        n.finish(o)
    }
}

impl Ese {
    pub fn render(&self) -> Vec<u8> {
        let mut n = Noise::new(self.noise);
        let mut o = String::new();
        o.push_str("[POSITIONS]\n");
        for p in &self.positions {
            o.push_str(&n.gap(true));
            let sq = match p.sq {
                Some((a, b)) if n.on && p.callsign.len() % 5 == 0 => format!("+{a}:{b}"),
                Some((a, b)) => format!("{a:04}:{b:04}"),
                None => String::new(),
            };
            let vis: String = p.vis.iter().take(4).map(|v| format!(":{}", v.ese())).collect();
            o.push_str(&format!(
                "{}:{}:{}:{}:{}:{}:{}:-:-:{sq}{}{}\n",
                p.name, p.callsign, p.freq, p.id, p.middle, p.prefix, p.suffix, vis, n.tail()
            ));
        }
        if self.unparsed {
            o.push_str("\n[GROUND]\nTAXI:A:1:2:3\nCOORD:bogus\n");
        }
        o.push_str("\n[SIDSSTARS]\n");
        for s in &self.sidstars {
            o.push_str(&n.gap(true));
            o.push_str(&format!(
                "{}:{}:{}:{}:{}\n",
                if s.star { "STAR" } else { "SID" },
                s.apt,
                s.rwy.as_deref().unwrap_or(""),
                s.name,
                s.wpts.join(" ")
            ));
        }
        if self.unparsed {
            o.push_str("\n[FREETEXT]\nN048.00.00.000:E011.00.00.000:Group:Text\n");
        }
        o.push_str("\n[AIRSPACE]\n");
        for i in &self.items {
            o.push_str(&n.gap(true));
            match i {
                AirItem::Line { id, pts, display } => {
                    o.push_str(&format!("SECTORLINE:{id}\n"));
                    // display conditions stand anywhere among the coordinates
                    let at = id.bytes().map(usize::from).sum::<usize>() % (pts.len() + 1);
                    for (i, p) in pts.iter().enumerate() {
                        if *display && (i == at || i == 3) {
                            o.push_str("DISPLAY:AAA:BBB:CCC\n");
                        }
                        o.push_str(&format!("COORD:{}{}\n", p.ese(), n.tail()));
                    }
                    if *display && at == pts.len() {
                        o.push_str("DISPLAY:AAA:BBB:CCC\n");
                    }
                }
                AirItem::Circle { id, fix, radius } => {
                    o.push_str(&format!("CIRCLE_SECTORLINE:{id}:{fix}:{radius}\n"));
                    for _ in 0..(fix.len() + 2 * radius.len()) % 4 {
                        o.push_str("DISPLAY:A:B:C\n");
                    }
                }
                AirItem::Display { id } => {
                    o.push_str(&format!("DISPLAY_SECTORLINE:{id}:A:B:C\n"));
                }
                AirItem::Sector(s) => {
                    o.push_str(&format!("SECTOR:{}:{:05}:{:05}\n", s.id, s.bottom, s.top));
                    let list = |k: &str, v: &Option<Vec<String>>| {
                        v.as_ref().filter(|v| !v.is_empty()).map(|v| format!("{k}:{}\n", v.join(":")))
                    };
                    // in any order but that of the activation conditions
                    let mut sub: Vec<String> = list("OWNER", &s.owner).into_iter().collect();
                    sub.extend(s.alt.iter().filter(|a| a.len() >= 2).map(|a| format!("ALTOWNER:{}\n", a.join(":"))));
                    sub.extend(list("BORDER", &s.border));
                    let active: String = s.active.iter().map(|(a, b)| format!("ACTIVE:{a}:{b}\n")).collect();
                    sub.push(active);
                    if s.guest {
                        sub.push("GUEST:XX:*:EDDM\n".into());
                    }
                    sub.extend(list("DEPAPT", &s.dep));
                    sub.extend(list("ARRAPT", &s.arr));
                    if n.on {
                        let k = (s.id.len() + s.top as usize / 100) % sub.len();
                        sub.rotate_left(k);
                        if s.bottom % 1000 == 500 {
                            sub.reverse();
                        }
                    }
                    o.push_str(&sub.concat());
                }
                AirItem::Cop(c) => {
                    let w = |x: &Option<String>| x.clone().unwrap_or_else(|| "*".into());
                    let l = |x: &Option<u32>| x.map_or("*".to_string(), |v| format!("{v:05}"));
                    o.push_str(&format!(
                        "{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}\n",
                        if c.fir { "FIR_COPX" } else { "COPX" },
                        w(&c.prev),
                        w(&c.dep_rwy),
                        w(&c.fix),
                        w(&c.next),
                        w(&c.arr_rwy),
                        c.exit,
                        c.entry,
                        l(&c.climb),
                        l(&c.descent),
                        c.desc
                    ));
                }
                AirItem::Msaw { id, alt, pts } => {
                    if pts.is_empty() {
                        continue;
                    }
                    o.push_str(&format!("MSAW:{id}:{alt}\n"));
                    for p in pts {
                        o.push_str(&format!("COORD:{}\n", p.ese()));
                    }
                }
            }
        }
        n.finish(o)
    }
}

pub fn render_airways(rows: &[AwyRow]) -> Vec<u8> {
    let mut o = String::new();
    for r in rows {
        o.push_str(&format!("{}\t{}\t{}\t14\t{}\t{}", r.des, r.pos.0, r.pos.1, r.awy, r.ty));
        for e in [&r.prev, &r.next] {
            match e {
                Some(e) => o.push_str(&format!(
                    "\t{}\t{}\t{}\t{}\t{}",
                    e.des,
                    e.pos.0,
                    e.pos.1,
                    e.level,
                    if e.ok { "Y" } else { "N" }
                )),
                None => {
                    // five columns, the last one is the N flag
                    if r.zero {
                        o.push_str("\t0\t0\t0\t0\tN");
                    } else {
                        o.push_str("\t\t\t\t\tN");
                    }
                }
            }
        }
        o.push('\n');
    }
    // the notation depends on the content, as there is nothing to note it down in
    let h = crate::rng::hash_bytes(o.as_bytes());
    if h % 4 == 1 {
        o = o.replace('\n', "\n\n");
    }
    if h % 5 == 2 {
        o = o.replace('\n', "\r\n");
    }
    if h % 3 == 1 {
        o = o.trim_end().to_string();
    }
    o.into_bytes()
}

impl Icao {
    pub fn render_aircraft(&self) -> Vec<u8> {
        let mut n = Noise::new(self.noise);
        let mut o = String::from(";=====COMMENT====;\n");
        for a in &self.aircraft {
            o.push_str(&n.gap(true));
            o.push_str(&format!(
                "{}\t{}{}{}{}\t{}\t{}{}\n",
                a.des, a.wtc, a.ty, a.num, a.eng, a.man, a.name, n.tail()
            ));
            if a.cont {
                o.push_str("continued model name from the previous line\n");
            }
        }
        n.finish(o)
    }
    pub fn render_airlines(&self) -> Vec<u8> {
        let mut n = Noise::new(self.noise);
        let mut o = String::from(";=====COMMENT====;\n");
        for a in &self.airlines {
            o.push_str(&n.gap(true));
            o.push_str(&format!("{}\t{}\t{}\t{}{}\n", a.des, a.name, a.callsign, a.country, n.tail()));
        }
        n.finish(o)
    }
    pub fn render_airports(&self) -> Vec<u8> {
        let mut n = Noise::new(self.noise);
        let mut o = String::from(";=====COMMENT====;\n");
        for a in &self.airports {
            o.push_str(&format!("{}\t{}\t{}{}\n", a.des, a.name, a.country, n.tail()));
        }
        n.finish(o)
    }
    pub fn render_nav(&self) -> Vec<u8> {
        let mut n = Noise::new(self.noise);
        let mut o = String::new();
        for a in &self.nav {
            o.push_str(&n.gap(true));
            o.push_str(&format!("{}    {}    {}    {}\n", a.des, a.lat, a.lon, a.name));
        }
        n.finish(o)
    }
}

// ------------------------------------------------------------------ generation

pub const FIXES: &[&str] = &[
    "UPALA", "GIVMI", "MAH", "DM060", "ROKIL", "BOMBI", "KPT", "ABC", "A1B2C", "OSNUB", "DN463",
    "ERNAS", "NGD32", "TULSI", "AKINI",
];
/// names of points as sector files also have them
pub const ODD_FIXES: &[&str] = &["R-1", "A.B", "X/Y", "(OLD)", "P[1]", "AB!C", "_Z", "Süd", "n1", "99", "N-(W)", "Å1"];
pub const VORS: &[&str] = &["MUN", "KPT", "MAH", "WLD", "ALG", "ROD"];
pub const NDBS: &[&str] = &["MNW", "GL", "WLD", "ANS", "KPT"];
pub const AIRPORTS: &[&str] = &["EDDM", "EDMO", "EDDN", "LOWS", "EDJA", "LSZH", "ETSI"];
pub const COLOURS: &[&str] = &["COLOR_Stopbar", "runway", "Taxi-1", "grass", "COAST", "fir_border", "Grass", "Coast"];
pub const AIRWAYS: &[&str] = &["T161", "L607", "Y101", "Z99", "UM867"];
pub const TEXTS: &[&str] = &[
    "Muenchen Radar",
    "München",
    "Zürich Arrival/Departure",
    "A (1)",
    "x",
    "Langen  Information",
    "ÄÖÜß é",
    "日本語",
    "#hash",
    "a'b",
];

pub fn gen_dms(r: &mut Rng, lat: bool) -> Dms {
    let hemi = match (lat, r.idx(10)) {
        (true, 0..=5) => "N",
        (true, 6..=8) => "S",
        (true, _) => *r.pick(&["n", "s"]),
        (false, 0..=5) => "E",
        (false, 6..=8) => "W",
        (false, _) => *r.pick(&["e", "w"]),
    };
    let max = if lat { 89 } else { 179 };
    let style = if r.chance(0.2) { r.range(1, 4) as u8 } else { 0 };
    if r.chance(0.01) {
        return Dms { hemi: hemi.into(), deg: max as u16 + 1, style, ..Dms::default() };
    }
    let deg = if r.chance(0.1) { 0 } else { r.range(0, max) as u16 };
    let m = r.range(0, 59) as u8;
    let min = *r.pick(&[0, 59, 30, m]);
    let k = r.range(0, 59_999) as u32;
    let ms = *r.pick(&[0, 59_999, 30_000, k, k, k]);
    Dms {
        hemi: hemi.into(),
        deg,
        min,
        ms,
        style,
    }
}
pub fn gen_ll(r: &mut Rng) -> Ll {
    if r.chance(0.007) {
        // where equator and prime meridian meet
        let z = |h: &str| Dms { hemi: h.into(), deg: 0, min: 0, ms: 0, style: 0 };
        return Ll { lat: z("N"), lon: z("E") };
    }
    Ll {
        lat: gen_dms(r, true),
        lon: gen_dms(r, false),
    }
}
/// Centre-ish coordinate on a small grid, so that things share points.
pub fn grid(x: i64, y: i64) -> Ll {
    // grid unit: 6 arc minutes around 48N 11E
    let gy = 48 * 600 + y * 60;
    let gx = 11 * 600 + x * 60;
    let f = |v: i64, p: &str, m: &str| {
        let a = v.unsigned_abs();
        Dms {
            hemi: if v >= 0 { p.into() } else { m.into() },
            deg: (a / 600) as u16,
            min: ((a % 600) / 10) as u8,
            ms: ((a % 10) * 6000) as u32,
            style: 0,
        }
    };
    Ll {
        lat: f(gy, "N", "S"),
        lon: f(gx, "E", "W"),
    }
}
pub fn gen_text(r: &mut Rng) -> String {
    if r.chance(0.03) {
        // longer than any buffer for a name
        let n = *r.pick(&[33, 65, 130, 260, 530]) + r.idx(9);
        (0..n).map(|i| if i % 7 == 6 { 'é' } else { (b'a' + (i % 26) as u8) as char }).collect()
    } else if r.chance(0.7) {
        (*r.pick(TEXTS)).to_string()
    } else {
        let n = 1 + r.idx(12);
        let mut s: String = (0..n)
            .map(|_| *r.pick(&['a', 'Z', '9', 'é', '-', '_', 'Q', 'ß']))
            .collect();
        if s.starts_with('-') {
            s.insert(0, 'T');
        }
        s
    }
}
/// a usual value, or any
pub fn num<T: Copy + TryFrom<i64>>(r: &mut Rng, usual: &[T], lo: i64, hi: i64) -> T {
    let u = *r.pick(usual);
    if r.chance(0.7) {
        u
    } else {
        T::try_from(r.range(lo, hi)).unwrap_or(u)
    }
}
/// letters only
pub fn code(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'A' + r.idx(26) as u8) as char).collect()
}
/// a small number, or now and then a large one
pub fn few(r: &mut Rng, n: usize) -> usize {
    if r.chance(0.03) {
        12 + r.idx(50)
    } else {
        r.idx(n)
    }
}
pub fn gen_freq(r: &mut Rng) -> String {
    if r.chance(0.3) {
        return format!("{}.{:03}", r.range(108, 136), r.range(0, 999));
    }
    (*r.pick(&["123.450", "118.000", "136.975", "109.50", "0.000", "342", "113.400"])).to_string()
}
fn gen_loc(r: &mut Rng) -> Loc {
    if r.chance(0.35) {
        Loc::Fix(
            (*r.pick(&["UPALA", "MUN", "KPT", "GL", "EDDM", "ROKIL", "NOWHR", "GIVMI", "VFRPOINT1", "VFRPOINT12"])).to_string(),
        )
    } else if r.chance(0.5) {
        let mut p = grid(r.range(-3, 3), r.range(-3, 3));
        if r.chance(0.15) {
            // right beside it
            let (lat, lon) = *r.pick(&[(20, 0), (0, 100), (1500, 40)]);
            p.lat.ms += lat;
            p.lon.ms += lon;
        }
        Loc::At(p)
    } else if r.chance(0.04) {
        // nowhere: what packs put in to end a line or to keep a name
        let d = |h: &str| Dms { hemi: h.into(), deg: 999, ..Dms::default() };
        Loc::At(Ll { lat: d("S"), lon: d("E") })
    } else {
        Loc::At(gen_ll(r))
    }
}
fn gen_lines(r: &mut Rng, n: usize) -> Vec<Lines> {
    (0..n)
        .map(|i| {
            let k = 1 + few(r, 6);
            let mut segs: Vec<Seg> = vec![];
            let mut colour = None;
            for _ in 0..k {
                if r.chance(0.4) {
                    colour = if r.chance(0.3) {
                        None
                    } else {
                        Some((*r.pick(COLOURS)).to_string())
                    };
                }
                let a = match segs.last() {
                    Some(s) if r.chance(0.7) => s.b.clone(),
                    _ => gen_loc(r),
                };
                let b = if r.chance(0.12) { a.clone() } else { gen_loc(r) };
                segs.push(Seg {
                    a,
                    b,
                    colour: colour.clone(),
                });
            }
            let base = (*r.pick(&["EDDM SID", "RWY 26R GIVMI1N", "Border_A", "München FIR", "X"])).to_string();
            let name = if r.chance(0.3) { base } else { format!("{base} {i}") };
            Lines { name, segs }
        })
        .collect()
}

pub fn gen_sct(r: &mut Rng, size: usize) -> Sct {
    let sz = |r: &mut Rng| few(r, size + 1);
    fn fine(r: &mut Rng, usual: &[&str], hi: u64) -> String {
        if r.chance(0.2) {
            format!("{}.{:07}", r.below(hi), r.below(10_000_000))
        } else {
            (*r.pick(usual)).to_string()
        }
    }
    let mut s = Sct {
        name: (*r.pick(&["EDMM AIRAC 2401", "LOVV", "München FIR v1.2", "X"])).to_string(),
        callsign: (*r.pick(&["EDMM_CTR", "ZERO", "A1_B"])).to_string(),
        airport: (*r.pick(AIRPORTS)).to_string(),
        centre: gen_ll(r),
        miles_lat: fine(r, &["60", "60.0", "59.98"], 61),
        miles_lon: fine(r, &["39", "40.1453", "0.5"], 61),
        magvar: fine(r, &["-3.0", "0", "2.75", "+4"], 30),
        scale: if r.chance(0.8) {
            Some(fine(r, &["1", "1.0", "0.5"], 3))
        } else {
            None
        },
        noise: if r.chance(0.4) { 0 } else { r.below(1 << 40) + 1 },
        ..Sct::default()
    };
    for _ in 0..sz(r) + 1 {
        let value = match r.idx(4) {
            0 => *r.pick(&[0, 255, 65280, 16_711_680, 16_777_215]),
            _ => r.below(16_777_216) as u32,
        };
        s.colours.push(ColourDef {
            name: (*r.pick(COLOURS)).to_string(),
            value,
            section: r.idx(14) as u8,
        });
    }
    for _ in 0..sz(r) {
        s.vors.push(Beacon {
            des: (*r.pick(VORS)).into(),
            freq: gen_freq(r),
            pos: gen_ll(r),
        });
    }
    for _ in 0..sz(r) {
        s.ndbs.push(Beacon {
            des: if r.chance(0.1) { (*r.pick(VORS)).into() } else { (*r.pick(NDBS)).into() },
            freq: gen_freq(r),
            pos: gen_ll(r),
        });
    }
    for _ in 0..sz(r) * 2 {
        s.fixes.push(FixDef {
            des: match r.idx(20) {
                0 => *r.pick(AIRPORTS),
                1 => *r.pick(NDBS),
                2 => *r.pick(&["EDDM08L", "EDDM26R", "LOWS18", "MUN090010", "4800N01100E"]),
                3 => *r.pick(&["VFRPOINT1", "VFRPOINT12", "VFRPOINT"]),
                4 => *r.pick(ODD_FIXES),
                _ => *r.pick(FIXES),
            }
            .into(),
            pos: if r.chance(0.3) { grid(r.range(-2, 2), r.range(-2, 2)) } else { gen_ll(r) },
        });
    }
    if r.chance(0.3) {
        s.broken_fix.push((
            r.idx(5),
            (*r.pick(&["TWO WORDS N048.00.00.000 E011.00.00.000", "garbage", "UPALA N048.00.00"])).into(),
        ));
    }
    if r.chance(0.2) {
        s.broken_ndb.push((
            r.idx(5),
            (*r.pick(&["lower 345.0 N048.00.00.000 E011.00.00.000", "????"])).into(),
        ));
    }
    let mut aps: Vec<&str> = AIRPORTS.to_vec();
    r.shuffle(&mut aps);
    let na = sz(r).min(aps.len());
    for a in &aps[..na] {
        s.airports.push(SctAirport {
            des: (*a).into(),
            freq: (*r.pick(&["000.000", "118.700", ".", ""])).into(),
            pos: gen_ll(r),
            class: (*r.pick(&["A", "B", "C", "D", "E", "F", "G"])).into(),
        });
    }
    for _ in 0..sz(r) {
        let (d1, d2) = *r.pick(&[("08L", "26R"), ("08R", "26L"), ("18", "36"), ("07C", "25C"), ("04G", "22G"), ("09", "27"), ("17L", "35R"), ("01", "19")]);
        s.runways.push(Rwy {
            d1: d1.into(),
            d2: d2.into(),
            h1: num(r, &[0, 83, 80, 360, 7], 0, 360),
            h2: num(r, &[0, 263, 260, 180, 187], 0, 360),
            p1: gen_ll(r),
            p2: gen_ll(r),
            ad: if r.chance(0.06) { (*r.pick(&["EDD", "EDDMA", "LOWSX", "ETS"])).into() } else { (*r.pick(AIRPORTS)).into() },
            trail: (*r.pick(&["", "EDDM Munich", "München"])).into(),
        });
    }
    let k = sz(r);
    s.sids = gen_lines(r, k.min(3));
    let k = sz(r);
    s.stars = gen_lines(r, k.min(3));
    let k = sz(r);
    s.artcc_high = gen_lines(r, k.min(3));
    let k = sz(r);
    s.artcc = gen_lines(r, k.min(3));
    let k = sz(r);
    s.artcc_low = gen_lines(r, k.min(3));
    let k = sz(r);
    s.geo = gen_lines(r, k.min(4));
    for high in [true, false] {
        for _ in 0..sz(r) {
            let des = (*r.pick(AIRWAYS)).to_string();
            let prev = if high { s.high_airways.last() } else { s.low_airways.last() };
            let a = match prev {
                Some(p) if r.chance(0.6) => match p.b.clone() {
                    // a gap of centimetres
                    Loc::At(mut x) if r.chance(0.15) && x.lat.ms < 59_000 => {
                        x.lat.ms += 20;
                        Loc::At(x)
                    }
                    x => x,
                },
                _ => gen_loc(r),
            };
            let b = if r.chance(0.08) { a.clone() } else { gen_loc(r) };
            let w = Awy { des, a, b };
            if high {
                s.high_airways.push(w);
            } else {
                s.low_airways.push(w);
            }
        }
    }
    for i in 0..sz(r).min(4) {
        let n = 1 + few(r, 5);
        s.regions.push(Region {
            name: if r.chance(0.3) { "EDDM".into() } else { format!("EDDM Taxi {i}") },
            colour: (*r.pick(COLOURS)).into(),
            pts: gen_outline(r, n),
        });
    }
    for _ in 0..sz(r).min(4) {
        s.labels.push(Label {
            name: gen_text(r),
            pos: gen_ll(r),
            colour: (*r.pick(COLOURS)).into(),
        });
    }
    // the same entry written twice
    for _ in 0..(if r.chance(0.3) { 3 } else { 0 }) {
        match r.idx(10) {
            0 => again(r, &mut s.airports),
            1 => again(r, &mut s.runways),
            2 => again(r, &mut s.fixes),
            3 => again(r, &mut s.vors),
            4 => again(r, &mut s.ndbs),
            5 => again(r, &mut s.high_airways),
            6 => again(r, &mut s.low_airways),
            7 => again(r, &mut s.regions),
            8 => again(r, &mut s.runways),
            _ => again(r, &mut s.labels),
        }
    }
    s
}
fn again<T: Clone>(r: &mut Rng, v: &mut Vec<T>) {
    if !v.is_empty() {
        let x = v[r.idx(v.len())].clone();
        v.insert(r.idx(v.len() + 1), x);
    }
}
/// points that may come back to an earlier one, as a closed outline does
fn gen_outline(r: &mut Rng, n: usize) -> Vec<Ll> {
    let mut pts: Vec<Ll> = (0..n).map(|_| gen_ll(r)).collect();
    if r.chance(0.3) {
        let p = if r.chance(0.6) { pts[0].clone() } else { pts[r.idx(n)].clone() };
        if r.chance(0.7) {
            pts.push(p);
        } else {
            pts.insert(r.idx(n + 1), p);
        }
    }
    pts
}

/// Border lines that form (mostly) closed rings on the grid.
fn gen_ring(r: &mut Rng, id: &str) -> (Vec<AirItem>, Vec<String>) {
    let x0 = r.range(-6, 4);
    let y0 = r.range(-6, 4);
    let w = r.range(1, 5);
    let h = r.range(1, 5);
    let mut pts = vec![(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)];
    match r.idx(5) {
        0 => {
            // L shape
            pts = vec![
                (x0, y0),
                (x0 + w + 1, y0),
                (x0 + w + 1, y0 + 1),
                (x0 + 1, y0 + 1),
                (x0 + 1, y0 + h + 1),
                (x0, y0 + h + 1),
            ];
        }
        1 => {
            pts.pop();
        }
        _ => {}
    }
    for p in &mut pts {
        *p = (p.0 * 360_000, p.1 * 360_000);
    }
    if r.chance(0.12) {
        // many points, as borders along rivers have
        let n = if r.chance(0.3) { 100 + r.idx(120) } else { 7 + r.idx(30) };
        pts = (0..n)
            .map(|i| {
                let (a, d) = ((i as f64 + r.f() * 0.8) / n as f64 * std::f64::consts::TAU, 100_000.0 + r.f() * 900_000.0);
                (x0 * 360_000 + (a.cos() * d) as i64, y0 * 360_000 + (a.sin() * d) as i64)
            })
            .collect();
    }
    // elsewhere in the world, as well where degrees are counted the other way
    let base = if r.chance(0.85) { (11, 48) } else { *r.pick(&[(-71, 42), (0, 51), (151, -33), (-58, -34), (0, 0), (-179, 60)]) };
    let at = |x: i64, y: i64| {
        let f = |v: i64, p: &str, m: &str| {
            let mut a = v.unsigned_abs();
            if a % 18 == 9 {
                // halfway between two millionths of a degree
                a += 1;
            }
            Dms { hemi: if v >= 0 { p.into() } else { m.into() }, deg: (a / 3_600_000) as u16, min: (a / 60_000 % 60) as u8, ms: (a % 60_000) as u32, style: 0 }
        };
        Ll { lat: f(base.1 * 3_600_000 + y, "N", "S"), lon: f(base.0 * 3_600_000 + x, "E", "W") }
    };
    if r.chance(0.5) {
        pts.reverse();
    }
    let k = r.idx(pts.len());
    pts.rotate_left(k);
    pts.push(pts[0]);
    if r.chance(0.12) {
        // leave it open
        pts.pop();
    }
    // cut into 1..3 lines
    let mut cuts = vec![0, pts.len() - 1];
    for _ in 0..few(r, 3) {
        cuts.push(1 + r.idx(pts.len() - 1));
    }
    cuts.sort_unstable();
    cuts.dedup();
    let mut items = vec![];
    let mut ids = vec![];
    for (i, c) in cuts.windows(2).enumerate() {
        let lid = format!("{id}L{i}");
        let mut p: Vec<Ll> = pts[c[0]..=c[1]].iter().map(|(x, y)| at(*x, *y)).collect();
        for d in p.iter_mut().flat_map(|p| [&mut p.lat, &mut p.lon]) {
            if r.chance(0.15) {
                d.style = r.range(1, 4) as u8;
            }
        }
        if r.chance(0.3) {
            p.reverse();
        }
        if r.chance(0.1) {
            let k = r.idx(p.len());
            p.insert(k, p[k].clone());
        }
        if r.chance(0.1) {
            // defined again below
            items.push(AirItem::Line {
                id: lid.clone(),
                pts: vec![grid(x0, y0), grid(x0 + 1, y0 - 1)],
                display: false,
            });
        }
        items.push(AirItem::Line {
            id: lid.clone(),
            pts: p,
            display: r.chance(0.3),
        });
        ids.push(lid);
    }
    r.shuffle(&mut ids);
    (items, ids)
}

fn opt<T>(r: &mut Rng, p: f64, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(p) {
        Some(f(r))
    } else {
        None
    }
}

pub const SECTORS: &[&str] = &[
    "EDMM·EDMMALB·105·135",
    "EDMM·EDMMFRK·000·135",
    "ALB_LOW",
    "FRK",
    "ZUG 1",
    "Zürich·A",
    "RDG",
    "STA",
];
pub const OWNERS: &[&str] = &["ALB", "FRK", "MX", "ZUG", "GIXX", "RDG"];

pub fn gen_ese(r: &mut Rng, size: usize) -> Ese {
    let mut e = Ese {
        noise: if r.chance(0.4) { 0 } else { r.below(1 << 40) + 1 },
        unparsed: r.chance(0.4),
        ..Ese::default()
    };
    for _ in 0..few(r, size + 2) {
        let sq = opt(r, 0.8, |r| {
            if r.chance(0.3) {
                let mut o = || format!("{:o}", r.range(0, 4095)).parse().unwrap_or(0);
                return (o(), o());
            }
            *r.pick(&[(0, 0), (2354, 2367), (1, 7777), (4600, 4677), (4677, 4600), (7777, 7777)])
        });
        let nv = r.idx(5);
        e.positions.push(Pos {
            name: (*r.pick(&["EDDM_ATIS", "EDMM_ALB_CTR", "EDXX_FIS_CTR", "LOWS_APP"])).into(),
            callsign: gen_text(r),
            freq: (*r.pick(&["123.130", "129.100", "118.000", "199.998"])).into(),
            id: (*r.pick(OWNERS)).into(),
            middle: (*r.pick(&["", "ALB", "1"])).into(),
            prefix: (*r.pick(&["EDDM", "EDMM", "EDXX", ""])).into(),
            suffix: (*r.pick(&["CTR", "ATIS", "APP", "TWR"])).into(),
            vis: (0..nv).fold(vec![], |mut v: Vec<Ll>, _| {
                let p = if !v.is_empty() && r.chance(0.08) { r.pick(&v).clone() } else { gen_ll(r) };
                v.push(p);
                v
            }),
            sq,
        });
    }
    // many volumes of one sector
    let many = r.chance(0.06);
    let ns = if many { 5 + r.idx(4) } else { r.idx(size + 2) };
    let mut lines: Vec<AirItem> = vec![];
    let mut line_ids: Vec<String> = vec![];
    let mut items: Vec<AirItem> = vec![];
    for i in 0..ns {
        let (it, mut ids) = gen_ring(r, &format!("{i}"));
        lines.extend(it);
        line_ids.extend(ids.clone());
        if r.chance(0.05) {
            ids.push("missing".into());
        }
        if r.chance(0.05) && !line_ids.is_empty() {
            let k = r.pick(&line_ids).clone();
            ids.push(k);
        }
        let b = num(r, &[0, 0, 10_500, 24_500, 2500, 100], 0, 70_000);
        let t = num(r, &[b, b + 1, 13_500, 24_500, 66_000, 31_500, 100_000], 0, 120_000);
        let no = 1 + few(r, 3);
        let mut sec = SectorDef {
            id: (*r.pick(SECTORS)).into(),
            bottom: b,
            top: t,
            owner: opt(r, 0.85, |r| (0..no).map(|k| if no > 3 { format!("O{k}") } else { (*r.pick(OWNERS)).to_string() }).collect()),
            alt: (0..if r.chance(0.2) { 1 + few(r, 3) } else { 0 })
                .map(|k| {
                    let mut v = vec![if k == 0 { "Alt".to_string() } else { format!("Alt {k}") }];
                    v.extend((0..1 + few(r, 2)).map(|_| (*r.pick(OWNERS)).to_string()));
                    v
                })
                .collect(),
            border: opt(r, 0.95, |_| ids),
            active: (0..if r.chance(0.3) { 1 + few(r, 2) } else { 0 })
                .map(|_| ((*r.pick(AIRPORTS)).to_string(), (*r.pick(&["26L", "08R", "18"])).to_string()))
                .collect(),
            dep: opt(r, 0.3, |r| (0..1 + few(r, 2)).map(|_| (*r.pick(AIRPORTS)).to_string()).collect()),
            arr: opt(r, 0.3, |r| (0..1 + few(r, 2)).map(|_| (*r.pick(AIRPORTS)).to_string()).collect()),
            guest: r.chance(0.1),
        };
        if many {
            sec.id = SECTORS[i % SECTORS.len()].into();
            sec.owner = Some(vec!["ALB".into(), "MX".into()]);
            sec.active = vec![];
            sec.arr = opt(r, 0.7, |r| (0..1 + few(r, 2)).map(|_| (*r.pick(AIRPORTS)).to_string()).collect());
        }
        items.push(AirItem::Sector(sec));
    }
    for _ in 0..few(r, size + 3) {
        let mut c = gen_cop(r);
        if let Some(AirItem::Cop(o)) = items.iter_mut().rev().find(|i| matches!(i, AirItem::Cop(_))) {
            if r.chance(0.03) {
                // another way whose names only look alike when run together
                let bs = if r.chance(0.3) { "\\" } else { "" };
                o.exit = format!("EDMM{bs}");
                o.entry = "ALB#FRK".into();
                c = Cop { fir: c.fir, climb: c.climb, descent: c.descent, desc: c.desc, ..o.clone() };
                c.exit = format!("EDMM{bs}#ALB");
                c.entry = "FRK".into();
            } else if r.chance(0.3) {
                // the same way once more
                c = Cop { fir: c.fir, climb: c.climb, descent: c.descent, desc: c.desc, ..o.clone() };
            }
        }
        items.push(AirItem::Cop(c));
    }
    if r.chance(0.3) {
        items.push(AirItem::Circle {
            id: (*r.pick(&["C1", "Süd 1", "1"])).into(),
            fix: match r.idx(6) {
                0 | 1 => *r.pick(&["EDDM", "n1", "Süd"]),
                2 => *r.pick(FIXES),
                _ => *r.pick(&["(OLD)", "X/Y", "R-1", "_Z", "A.B"]),
            }
            .into(),
            radius: (*r.pick(&["5.0", "5", "0.25", "12"])).into(),
        });
    }
    if r.chance(0.3) {
        items.push(AirItem::Display { id: "D1".into() });
    }
    if r.chance(0.3) {
        items.push(AirItem::Msaw {
            id: "M1".into(),
            alt: 4000,
            pts: vec![gen_ll(r), gen_ll(r)],
        });
    }
    if r.chance(0.5) {
        items.extend(lines);
        r.shuffle(&mut items);
        e.items = items;
    } else {
        lines.extend(items);
        e.items = lines;
    }
    for _ in 0..few(r, size + 2) {
        let nw = few(r, 6);
        e.sidstars.push(SidStar {
            star: r.chance(0.5),
            apt: (*r.pick(AIRPORTS)).into(),
            rwy: opt(r, 0.8, |r| (*r.pick(&["26R", "08L", "18", "36"])).to_string()),
            name: (*r.pick(&["GIVMI1N", "UPALA1V", "MAHxRNP", "GIVMI2S"])).into(),
            wpts: (0..nw).map(|_| gen_wpt(r)).collect(),
        });
    }
    e
}

/// some of its digits (or letters) in those of another alphabet
pub fn foreign(r: &mut Rng, s: &str) -> String {
    let p = *r.pick(&[0.3, 1.0]);
    let d = *r.pick(&['\u{0660}', '\u{ff10}', '\u{0966}']);
    s.chars()
        .map(|c| match c.to_digit(10) {
            Some(k) if r.chance(p) => char::from_u32(d as u32 + k).unwrap_or(c),
            _ => c,
        })
        .collect()
}
pub fn gen_wpt(r: &mut Rng) -> String {
    match r.idx(10) {
        0..=4 => (*r.pick(FIXES)).to_string(),
        5 => (*r.pick(VORS)).to_string(),
        6 => (*r.pick(NDBS)).to_string(),
        7 => {
            let a = *r.pick(AIRPORTS);
            if r.chance(0.5) {
                a.to_string()
            } else {
                format!("{a}{}", r.pick(&["26R", "08L", "18", "36", "99"]))
            }
        }
        8 => (*r.pick(&[
            "48N011E", "4830N01130E", "483015N0113045E", "5N12W", "05N012W", "4800S01100W", "48N11E",
            "4830N11E", "90N180E", "0N000E", "123N0123E",
        ]))
        .to_string(),
        _ => format!("{}{:03}{:03}", r.pick(&["MUN", "KPT", "UPALA", "XXX", "EDDM"]), r.range(0, 360), r.range(0, 120)),
    }
}

pub fn gen_cop(r: &mut Rng) -> Cop {
    Cop {
        fir: r.chance(0.4),
        prev: opt(r, 0.4, |r| (*r.pick(&["EDDM", "EDDN", "MUN"])).to_string()),
        dep_rwy: opt(r, 0.3, |r| (*r.pick(&["26R", "08L"])).to_string()),
        fix: opt(r, 0.8, |r| {
            let of = if r.chance(0.1) { ODD_FIXES } else { FIXES };
            (*r.pick(of)).to_string()
        }),
        next: opt(r, 0.5, |r| (*r.pick(AIRPORTS)).to_string()),
        arr_rwy: opt(r, 0.3, |r| (*r.pick(&["26R", "08L"])).to_string()),
        exit: (*r.pick(SECTORS)).into(),
        entry: (*r.pick(SECTORS)).into(),
        climb: opt(r, 0.4, |r| num(r, &[0, 9000, 12_500, 24_000, 66_000], 0, 99_999)),
        descent: opt(r, 0.5, |r| num(r, &[0, 9000, 13_000, 25_000, 66_000], 0, 99_999)),
        desc: (*r.pick(&["UPALA", "", "FL110 lvl", "Zürich"])).into(),
    }
}

fn dec(v: f64) -> String {
    format!("{v:.6}")
}
pub fn gen_airways(r: &mut Rng, size: usize) -> Vec<AwyRow> {
    // chains of fixes per airway, as the Navigraph-style export has them
    let mut rows = vec![];
    let mut names: Vec<&str> = AIRWAYS.iter().take(1 + r.idx(4)).copied().collect();
    if r.chance(0.25) {
        // an airway in two parts
        names.push(names[0]);
    }
    for a in &names {
        // now and then one that crosses half a continent
        let n = if r.chance(0.06) { 20 + r.idx(45) } else { 2 + r.idx(size + 3) };
        let mut chain: Vec<(String, (String, String))> = vec![];
        for i in 0..n {
            let des = if r.chance(0.6) {
                FIXES[(i * 3 + r.idx(3)) % FIXES.len()].to_string()
            } else {
                format!("P{i}X")
            };
            let p = grid(i as i64, r.range(-2, 2));
            let (x, y) = p.xy();
            chain.push((des, (dec(y), dec(x))));
        }
        let ty = (*r.pick(&["B", "H", "L", ""])).to_string();
        let mut lv = vec![];
        for _ in 0..n {
            lv.push(if r.chance(0.2) { format!("{:05}", r.range(0, 99_999)) } else { (*r.pick(&["00000", "09500", "24500", "NESTB", "", "5500"])).to_string() });
        }
        let fwd = r.chance(0.8);
        let bwd = r.chance(0.7);
        let zero = r.chance(0.5);
        // the two ends of a segment need not agree on its level
        let differ = r.chance(0.3);
        let closed = n > 2 && r.chance(0.15);
        for i in 0..n {
            let end = |j: usize, l: &str, ok: bool| AwyEnd {
                des: chain[j].0.clone(),
                pos: chain[j].1.clone(),
                level: l.to_string(),
                ok,
            };
            let other = if differ { "12500" } else { "" };
            let back = if i > 0 && differ && i % 2 == 0 { other } else if i > 0 { &lv[i - 1] } else { "" };
            let prev = match i {
                0 if closed => Some(end(n - 1, &lv[n - 1], bwd)),
                0 => None,
                _ => Some(end(i - 1, back, bwd)),
            };
            let next = if i + 1 < n || closed { Some(end((i + 1) % n, &lv[i], fwd)) } else { None };
            rows.push(AwyRow {
                des: chain[i].0.clone(),
                pos: chain[i].1.clone(),
                awy: (*a).to_string(),
                ty: ty.clone(),
                prev,
                next,
                zero,
            });
        }
        if r.chance(0.15) && n > 2 {
            // a branch
            let j = r.idx(n);
            rows.push(AwyRow {
                des: chain[j].0.clone(),
                pos: chain[j].1.clone(),
                awy: (*a).to_string(),
                ty: ty.clone(),
                prev: None,
                next: Some(AwyEnd {
                    des: "BRNCH".into(),
                    pos: ("47.000000".into(), "-0.500000".into()),
                    level: "10000".into(),
                    ok: true,
                }),
                zero,
            });
        }
    }
    if r.chance(0.3) {
        r.shuffle(&mut rows);
    }
    if r.chance(0.15) && !rows.is_empty() {
        let k = r.idx(rows.len());
        let x = rows[k].clone();
        rows.push(x);
    }
    rows
}

/// some fixes of the airways are navaids of the sector file, or nearly
pub fn gen_shared(r: &mut Rng, s: &mut Sct, rows: &[AwyRow]) {
    for w in rows {
        if !r.chance(0.25) {
            continue;
        }
        let f = |t: &str, p: &str, m: &str| {
            let v: f64 = t.parse().unwrap_or(0.0);
            let a = (v.abs() * 3_600_000.0).round() as u64;
            Dms {
                hemi: if v >= 0.0 { p.into() } else { m.into() },
                deg: (a / 3_600_000) as u16,
                min: (a / 60_000 % 60) as u8,
                ms: (a % 60_000) as u32, style: 0,
            }
        };
        let mut pos = Ll { lat: f(&w.pos.0, "N", "S"), lon: f(&w.pos.1, "E", "W") };
        if r.chance(0.2) {
            pos.lat.min = (pos.lat.min + 1) % 60;
        }
        let des = w.des.clone();
        match r.idx(4) {
            0 => {
                let freq = gen_freq(r);
                s.vors.push(Beacon { des, freq, pos });
            }
            1 => {
                let freq = gen_freq(r);
                s.ndbs.push(Beacon { des, freq, pos });
            }
            2 => {
                s.fixes.push(FixDef { des, pos });
            }
            _ => {
                let freq = gen_freq(r);
                s.airports.push(SctAirport { des, freq, pos, class: "D".into() });
            }
        }
    }
}

fn icao_airport(r: &mut Rng) -> String {
    let odd = ["00AK", "ED22", "K1G4", "7"];
    (*if r.chance(0.1) { r.pick(&odd) } else { r.pick(AIRPORTS) }).to_string()
}
pub fn gen_icao(r: &mut Rng, size: usize) -> Icao {
    let mut i = Icao {
        noise: if r.chance(0.5) { 0 } else { r.below(1 << 40) + 1 },
        ..Icao::default()
    };
    for _ in 0..1 + few(r, size + 2) {
        i.aircraft.push(Aircraft {
            des: if r.chance(0.2) { code(r, 4) } else { (*r.pick(&["A388", "C208", "EUFI", "EC45", "C08T", "ZZZZ", "F260", "3XTR"])).into() },
            wtc: (*r.pick(&["L", "M", "H", "J", "-"])).into(),
            ty: (*r.pick(&["L", "S", "A", "G", "H", "T", "-"])).into(),
            num: (*r.pick(&["1", "2", "4", "8", "C", "-", "0", "9"])).into(),
            eng: (*r.pick(&["P", "T", "J", "E", "R", "-"])).into(),
            man: (*r.pick(&["AIRBUS", "-", "CESSNA (USA)", "ŠKODA"])).into(),
            name: gen_text(r),
            cont: r.chance(0.2),
        });
    }
    for _ in 0..1 + few(r, size + 2) {
        i.airlines.push(Airline {
            des: if r.chance(0.3) { code(r, 3) } else { (*r.pick(&["DLH", "BAW", "AUA", "SWR", "EZY"])).into() },
            name: gen_text(r),
            callsign: (*r.pick(&["LUFTHANSA", "SPEEDBIRD", "", "Swiss Air"])).into(),
            country: (*r.pick(&["Germany", "United Kingdom", "Österreich", ""])).into(),
        });
    }
    for _ in 0..1 + few(r, size + 3) {
        i.airports.push(IcaoAirport {
            des: icao_airport(r),
            name: gen_text(r),
            country: (*r.pick(&["Germany", "Schweiz", "Österreich"])).into(),
        });
    }
    for _ in 0..1 + r.idx(size + 3) {
        let (x, y) = gen_ll(r).xy();
        i.nav.push(NavAirport {
            des: icao_airport(r),
            lat: format!("{y:.7}"),
            lon: format!("{x:.7}"),
            name: gen_text(r),
        });
    }
    i
}
