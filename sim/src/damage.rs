//! Storage damage: what bit rot, torn writes, half-finished updates and careless
//! editors do to a file; and contents that are certainly not what the file should be.

use crate::rng::Rng;
use crate::world::Role;

const PAGE: &[u8] = b"<html>404 Not Found</html>\n";
const ZERO: &[u8] = b"\0\0\0\0\0\0\0\0";
/// a shorter version over a longer one
const TAIL: &[u8] = br##"{"NonDiscreteColor": "#ffffff", "NonDiscreteMessage": "", "NonDiscrete": [], "Squawks": [{"code": "7001", "message": "XX", "color": "#ffffff"}]}
, "message": "YY", "color": "#ff0000"}]}"##;
const SHORT: &[u8] = br##"{"NonDiscreteColor": "#ffffff", "NonDiscreteMessage": "", "NonDiscrete": [], "Squawks": [{"code": "7001", "message": "XX"}]}"##;
/// contents no reader may take for a file of that role
pub fn broken(r: Role) -> &'static [&'static [u8]] {
    match r {
        Role::Sct => &[PAGE, ZERO, b"[INFO"],
        Role::Ese => &[PAGE, ZERO, b""],
        Role::Airways => &[PAGE, ZERO, b""],
        Role::Symbology => &[PAGE, ZERO, b"", b"SYMBOLOGY\n"],
        Role::Squawks => &[PAGE, ZERO, b"", b"[]", b"null", b"{\"squawks\": [{", TAIL, SHORT],
        Role::TsSettings => &[PAGE, ZERO],
        Role::TsSymbols | Role::TsMaps => &[PAGE, ZERO],
        Role::Airports => &[PAGE, ZERO, b""],
        Role::Nav => &[PAGE, ZERO],
        Role::Aircraft => &[b"", b"a\tb\tc\n"],
        Role::Airlines => &[PAGE, ZERO, b""],
        Role::Overlay(_) => &[PAGE, ZERO, b"", b"{ name: ", b"{ }}", b"{ name: 1 } x"],
        Role::Prf => &[PAGE, ZERO],
        Role::Toml => &[PAGE, ZERO, b"", b"prf = \n", b"overlays = []\n", b"prf = 'x.prf'\n", b"prf = './iCAS2.prf'\noverlays = []\nerlays = []\n]\n"],
    }
}

const TOKENS: &[&str] = &[
    "99999999999999999999", "-1", "-", "nan", "inf", "1e308", "1e-400", "0", "00000000000000000000001",
    "N048.60.60.000", "N999.99.99.999", "S090.00.00.001", "W180.00.00.001", "N048.21.13", "48.0", ".", "°", "\u{feff}", "٣", "٣٤٥",
    ":", "::::", ",", "\t", "\"", "[", "]", "[INFO]", "[VOR]", "[AIRSPACE]", "[SIDSSTARS]", "[POSITIONS]", "[", "\0", "\r", "\r\n", "\n", "\n\n",
    "SYMBOL:", "MAP:", "LINESTYLEDEF:", "COLORDEF:", "SECTOR:", "SECTORLINE:", "COORD:", "BORDER:", "OWNER:", "COPX:", "DISPLAY:",
    "*", "//", ";", "\\", "/", "{", "}", "null", "\u{1F6E9}", "ß", "é", "\u{2028}", "Y", "N", "NESTB", "H", "L",
    "18446744073709551616", "4294967296", "65536", "256", "361", "3600", "32768", "-32769",
];
/// values at the edges of the types and notations in use
const EDGES: &[&str] = &[
    "", "0", "1", "7", "8", "9", "10", "-0", "-1", "59", "60", "61", "89", "90", "91", "99", "100", "127", "128", "-127", "-128", "-129", "179", "180", "181",
    "200", "255", "256", "300", "-300", "359", "360", "361", "777", "0777", "7777", "7778", "8888", "999", "1000", "9999", "10000", "32767", "32768", "-32768",
    "-32769", "65535", "65536", "177777", "199999", "200000", "99999", "16777215", "16777216", "-16777216", "2147483647", "2147483648", "-2147483648", "-2147483649",
    "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999999999999999999", "0.5", "-0.5", "1e39", "1e308", "1e309", "-1e309", "nan", "+5", "0x10", "00000000000000000001", "5 ", " 5",
    "É", "ÉÉÉÉÉÉ", "ÄÄ", "€€€", "A", "AB", "ABC", "ABCDE12345", "AÄ090010", "MUN360360", "N090.00.00.000", "S090.00.00.000", "E180.00.00.000", "W180.00.00.000",
    "N091.00.00.000", "E181.00.00.000", "N089.59.59.999", "N048.59.59.9999", "N999.00.00.000", "E32767.59.59.999", "N32768.00.00.000", "N000.00.00.000", "*", ":", "|", "\u{1F6E9}",
];
/// one field of one record: each kind of record and each of its fields equally likely
fn strike(r: &mut Rng, b: &mut Vec<u8>) {
    use std::collections::BTreeMap;
    let mut kinds: BTreeMap<Vec<u8>, Vec<(usize, usize)>> = BTreeMap::new();
    let (mut o, mut section) = (0, vec![]);
    for l in b.split_inclusive(|c| *c == b'\n') {
        let e = o + l.len() - usize::from(l.ends_with(b"\n"));
        let t = &b[o..e];
        if t.first() == Some(&b'[') {
            section = t.to_vec();
        }
        if !t.is_empty() {
            // the keyword if there is one, and how many fields there are
            let w = t.iter().position(|c| matches!(c, b':' | b' ' | b'\t')).unwrap_or(t.len());
            let n = t.iter().filter(|c| matches!(c, b':' | b' ' | b'\t')).count().min(12);
            let mut k = section.clone();
            if t[..w].len() > 4 {
                k.extend_from_slice(&t[..w]);
            }
            k.push(n as u8);
            kinds.entry(k).or_default().push((o, e));
        }
        o += l.len();
    }
    if kinds.is_empty() {
        return;
    }
    let v = kinds.values().nth(r.idx(kinds.len())).unwrap();
    let (s, e) = *r.pick(v);
    let seps: &[u8] = *r.pick(&[&b":"[..], b"\t", b": \t", b": \t.-,/\\"]);
    let mut f = vec![];
    let mut a = s;
    for i in s..=e {
        if i == e || seps.contains(&b[i]) {
            f.push((a, i));
            a = i + 1;
        }
    }
    let (x, y) = *r.pick(&f);
    let digits = b[x..y].iter().rposition(|c| !c.is_ascii_digit()).map_or(x, |k| x + k + 1);
    match r.idx(6) {
        // the number at the end of the field
        0 if digits < y => {
            let t = r.pick(EDGES).bytes();
            b.splice(digits..y, t);
        }
        1 => {
            b.drain(x..y);
        }
        2 => {
            let k = x + r.idx(y - x + 1);
            let t = r.pick(EDGES).bytes();
            b.splice(k..k, t);
        }
        3 if y > x => {
            let k = x + r.idx(y - x);
            b.drain(k..y);
        }
        _ => {
            let t = r.pick(EDGES).bytes();
            b.splice(x..y, t);
        }
    }
}
fn at(r: &mut Rng, b: &[u8]) -> usize {
    r.idx(b.len() + 1)
}
pub fn damage(r: &mut Rng, src: &[u8], other: &[u8]) -> Vec<u8> {
    let mut b = src.to_vec();
    if r.chance(0.5) {
        for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
            strike(r, &mut b);
        }
        b.truncate(200_000);
        return b;
    }
    let n = *r.pick(&[1usize, 1, 1, 2, 2, 3, 6]);
    for _ in 0..n {
        match r.idx(16) {
            0 => {
                let k = at(r, &b);
                b.truncate(k);
            }
            1 if !b.is_empty() => {
                let k = r.idx(b.len());
                b[k] ^= 1 << r.idx(8);
            }
            2 if !b.is_empty() => {
                let k = r.idx(b.len());
                b[k] = *r.pick(&[0, 0xff, 0x80, 0xc3, b' ', b'\n', b':', b'0', b'9', 0xe9, b'-']);
            }
            3..=5 => {
                let k = at(r, &b);
                let t = *r.pick(TOKENS);
                b.splice(k..k, t.bytes());
            }
            6 | 7 => {
                // a field replaced
                let sep = |c: u8| matches!(c, b':' | b'\t' | b'\n' | b',' | b' ' | b'"' | b'=');
                let k = at(r, &b);
                let s = b[..k].iter().rposition(|c| sep(*c)).map_or(0, |x| x + 1);
                let e = b[k..].iter().position(|c| sep(*c)).map_or(b.len(), |x| x + k);
                let t = if r.chance(0.3) { "" } else { *r.pick(TOKENS) };
                b.splice(s..e, t.bytes());
            }
            8 | 9 => {
                // lines dropped, repeated, moved
                let mut l: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(<[u8]>::to_vec).collect();
                if l.is_empty() {
                    continue;
                }
                let k = r.idx(l.len());
                match r.idx(3) {
                    0 => {
                        l.remove(k);
                    }
                    1 => {
                        let x = l[k].clone();
                        l.insert(k, x);
                    }
                    _ => {
                        let j = r.idx(l.len());
                        l.swap(k, j);
                    }
                }
                b = l.concat();
            }
            10 => {
                // a digit run becomes a nasty number
                let d: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
                if d.is_empty() {
                    continue;
                }
                let k = *r.pick(&d);
                let s = b[..k].iter().rposition(|c| !c.is_ascii_digit()).map_or(0, |x| x + 1);
                let e = b[k..].iter().position(|c| !c.is_ascii_digit()).map_or(b.len(), |x| x + k);
                let t = *r.pick(&["", "0", "9", "60", "99", "100", "999", "4294967296", "99999999999", "18446744073709551616", "340282366920938463463374607431768211456", "٣"]);
                b.splice(s..e, t.bytes());
            }
            11 => {
                // a block of another version landed here
                let k = at(r, &b);
                let s = at(r, other);
                let n = r.idx(200).min(other.len() - s);
                let e = (k + n).min(b.len());
                b.splice(k..e, other[s..s + n].iter().copied());
            }
            12 => {
                // tail of the other version behind a prefix of this one
                let k = at(r, &b).min(other.len());
                b.truncate(k);
                b.extend_from_slice(&other[k..]);
            }
            13 if !b.is_empty() => {
                let k = r.idx(b.len());
                let e = (k + r.idx(64)).min(b.len());
                for x in &mut b[k..e] {
                    *x = 0;
                }
            }
            14 => {
                let x = b.clone();
                b.extend_from_slice(&x);
            }
            _ => {
                // one very long line
                let k = at(r, &b);
                let t = r.pick(TOKENS).repeat(r.range(1, 400) as usize);
                b.splice(k..k, t.bytes());
            }
        }
    }
    b.truncate(200_000);
    b
}
