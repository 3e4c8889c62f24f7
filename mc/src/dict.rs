//! Literals of the checked sources. They never decide anything: they only add values to the spaces,
//! so that conditions on particular numbers and texts are reached.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// texts of string literals, and common fillers of firmware
    pub words: Vec<Vec<u8>>,
    /// numbers above 255
    pub numbers: Vec<u64>,
    /// sequences of at least three byte sized numbers
    pub arrays: Vec<Vec<u8>>,
    /// byte values that occur more often than in the reviewed tree
    pub fresh: Vec<u8>,
    /// numbers above 255 that do so, and simple products of them
    pub sizes: Vec<usize>,
}

const FILLERS: &[&str] = &[
    "Not Specified", "To Be Filled By O.E.M.", "To be filled by O.E.M.", "Default string", "None", "N/A", "NA", "Unknown", "Other", "Empty", "NULL", "null",
    "Not Available", "Not Present", "NO DIMM", "[Empty]", "System Serial Number", "System manufacturer", "System Product Name", "System Version", "INVALID", "0", "00000000",
    "0123456789", "123456789", "OEM", "O.E.M.", "Undefined", "Reserved", "Default", "No Asset Tag", "<BAD INDEX>", "\u{feff}", "\u{feff}text", "\u{a0}text\u{a0}", "tab\there", "\r\n", "line\nline",
    " leading", "trailing ", "   ", "\u{2014}", "\u{1F600}", "a\u{301}", "en|US|iso8859-1", "enUS", "01/01/1980", "12/31/2099", "2024-01-31", "0x1234", "-1", "%s%n", "{}", "\\0", "\u{7f}", "\u{85}", "\u{fffd}",
    "\u{3000}x\u{3000}", "ÿÿÿÿ", "\u{1}\u{2}\u{3}", "To Be Filled", "Chassis Manufacture", "xxxxxxx", "...", "..", ".", "-", "_SM_", "_SM3_", "_DMI_",
];

pub enum Tok {
    Int(u64),
    Text(Vec<u8>),
    Punct(char),
}
fn tokens(src: &str) -> Vec<Tok> {
    let b: Vec<char> = src.chars().collect();
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    let mut t = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '\'' {
            // a character or a lifetime
            if at(i + 1) == '\\' {
                i += 3;
                while i < b.len() && b[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if at(i + 2) == '\'' {
                if (at(i + 1) as u32) < 256 {
                    t.push(Tok::Int(at(i + 1) as u64));
                }
                i += 3;
            } else {
                i += 1;
            }
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')) {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let mut s = String::new();
            while i < b.len() && !(b[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) {
                s.push(b[i]);
                i += 1;
            }
            i += 1 + n;
            t.push(Tok::Text(s.into_bytes()));
        } else if c == '"' {
            i += 1;
            let mut s = vec![];
            while i < b.len() && b[i] != '"' {
                if b[i] != '\\' {
                    s.extend(b[i].to_string().bytes());
                    i += 1;
                    continue;
                }
                let e = at(i + 1);
                i += 2;
                match e {
                    'n' => s.push(10),
                    't' => s.push(9),
                    'r' => s.push(13),
                    '0' => s.push(0),
                    'x' => {
                        s.push(u8::from_str_radix(&b[i..(i + 2).min(b.len())].iter().collect::<String>(), 16).unwrap_or(b'?'));
                        i += 2;
                    }
                    'u' => {
                        let mut h = String::new();
                        while i < b.len() && b[i] != '}' {
                            if b[i].is_ascii_hexdigit() {
                                h.push(b[i]);
                            }
                            i += 1;
                        }
                        i += 1;
                        let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?');
                        s.extend(c.to_string().bytes());
                    }
                    '\n' => {
                        while i < b.len() && b[i].is_whitespace() {
                            i += 1;
                        }
                    }
                    c => s.extend(c.to_string().bytes()),
                }
            }
            i += 1;
            t.push(Tok::Text(s));
        } else if c.is_ascii_digit() {
            let mut w = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    w.push(b[i]);
                }
                i += 1;
            }
            let (radix, body) = match w.get(..2) {
                Some("0x") => (16, &w[2..]),
                Some("0b") => (2, &w[2..]),
                Some("0o") => (8, &w[2..]),
                _ => (10, &w[..]),
            };
            let body = body.split(['u', 'i']).next().unwrap_or("");
            if let Ok(v) = u64::from_str_radix(body, radix) {
                t.push(Tok::Int(v));
            }
        } else if c.is_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            t.push(Tok::Punct('a'));
        } else {
            if !c.is_whitespace() {
                t.push(Tok::Punct(c));
            }
            i += 1;
        }
    }
    t
}
fn sources(dir: &std::path::Path, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = d.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let s = std::fs::read_to_string(&p).unwrap_or_default();
            // without the unit tests: a module ends at the first brace in the first column
            let mut parts = s.split("#[cfg(test)]\nmod ");
            out.push(parts.next().unwrap_or("").to_string());
            out.extend(parts.map(|p| p.split_once("\n}").map_or("", |x| x.1).to_string()));
        }
    }
}
/// the numbers of the sources with how often they occur
pub fn count() -> (Vec<Tok>, BTreeMap<u64, usize>) {
    let mut s = vec![];
    sources(std::path::Path::new(&format!("{}/src", std::env::var("MC_REPO").unwrap_or("/repo".into()))), &mut s);
    let mut n = BTreeMap::new();
    let mut all = vec![];
    for t in s.iter().flat_map(|s| tokens(s)) {
        if let Tok::Int(v) = t {
            *n.entry(v).or_insert(0) += 1;
        }
        all.push(t);
    }
    (all, n)
}
pub fn dump() -> String {
    count().1.iter().map(|(v, n)| format!("{v}\t{n}\n")).collect()
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let base: BTreeMap<u64, usize> = include_str!("../golden/literals.tsv")
            .lines()
            .filter_map(|l| l.split_once('\t'))
            .map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))
            .collect();
        let (toks, counts) = count();
        let mut words: BTreeSet<Vec<u8>> = FILLERS.iter().map(|s| s.as_bytes().to_vec()).collect();
        let mut arrays = BTreeSet::new();
        let mut run: Vec<u64> = vec![];
        for t in &toks {
            match t {
                Tok::Int(v) => run.push(*v),
                Tok::Punct(',') => {}
                t => {
                    if run.len() >= 3 && run.len() <= 32 && run.iter().all(|v| *v < 256) {
                        arrays.insert(run.iter().map(|v| *v as u8).collect::<Vec<u8>>());
                    }
                    run.clear();
                    if let Tok::Text(s) = t {
                        if !s.is_empty() && s.len() <= 80 && !s.contains(&0) {
                            words.insert(s.clone());
                        }
                    }
                }
            }
        }
        let mut fresh = BTreeSet::new();
        let mut big = BTreeSet::new();
        for (v, n) in &counts {
            if *n <= base.get(v).copied().unwrap_or(0) {
                continue;
            }
            if *v < 256 {
                fresh.insert(*v as u8);
            } else {
                fresh.extend(v.to_le_bytes().into_iter().filter(|b| *b != 0));
            }
            big.insert(*v);
        }
        let mut sizes = BTreeSet::new();
        for a in &big {
            for b in big.iter().chain(&[1, 2, 4, 8, 16, 1 << 10, 1 << 20]) {
                let mut v = vec![a.saturating_mul(*b)];
                if *b < 24 {
                    v.push(a.checked_shl(*b as u32).unwrap_or(0));
                }
                sizes.extend(v.into_iter().filter(|x| (256..=1 << 20).contains(x)).map(|x| x as usize));
            }
        }
        Dict {
            words: words.into_iter().collect(),
            numbers: counts.keys().copied().filter(|v| *v > 255).collect(),
            arrays: arrays.into_iter().collect(),
            fresh: fresh.into_iter().take(24).collect(),
            sizes: sizes.into_iter().take(48).collect(),
        }
    })
}
