//! The finite spaces of inputs that the checks enumerate completely.
use crate::dict::dict;
use crate::engine::Case;
use crate::model;
use std::sync::Arc;

pub type GenFn = Arc<dyn Fn(usize, &mut Case, &mut dyn FnMut(&Case)) + Sync + Send>;
/// A named finite space, split in items.
#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub items: usize,
    pub gen: GenFn,
}
fn space(name: &str, items: usize, gen: impl Fn(usize, &mut Case, &mut dyn FnMut(&Case)) + Sync + Send + 'static) -> Space {
    Space { name: name.into(), items, gen: Arc::new(gen) }
}
impl Space {
    /// the same space with every case changed by `f` into any number of cases
    pub fn each(self, suffix: &str, f: impl Fn(&Case, &mut dyn FnMut(&Case)) + Sync + Send + 'static) -> Space {
        let g = self.gen.clone();
        space(&format!("{}{}", self.name, suffix), self.items, move |i, c, out| g(i, c, &mut |c| f(c, out)))
    }
}

pub const TYPES: [u8; 20] = [0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];
pub const STRS: [&[u8]; 5] = [b"alpha", b"b", "\u{e9}\u{20ac}".as_bytes(), b"delta 4", b"E5-last"];

/// legal lengths of the formatted area with the version that introduced them
pub fn spec(ty: u8) -> &'static [(usize, (u8, u8))] {
    match ty {
        0 => &[(0x12, (2, 0)), (0x13, (2, 1)), (0x14, (2, 3)), (0x18, (2, 4)), (0x1A, (3, 1))],
        1 => &[(8, (2, 0)), (0x19, (2, 1)), (0x1B, (2, 4))],
        2 => &[(8, (2, 0)), (9, (2, 0)), (0xA, (2, 0)), (0xB, (2, 0)), (0xD, (2, 0)), (0xE, (2, 0)), (0xF, (2, 0)), (0x13, (2, 0))],
        3 => &[(9, (2, 0)), (0xD, (2, 1)), (0x11, (2, 3)), (0x13, (2, 3)), (0x15, (2, 3)), (0x16, (2, 7)), (0x1F, (2, 7))],
        4 => &[(0x1A, (2, 0)), (0x20, (2, 1)), (0x23, (2, 3)), (0x28, (2, 5)), (0x2A, (2, 6)), (0x30, (3, 0)), (0x32, (3, 6))],
        7 => &[(0xF, (2, 0)), (0x13, (2, 1)), (0x1B, (3, 1))],
        8 => &[(9, (2, 0))],
        9 => &[(0xC, (2, 0)), (0xD, (2, 1)), (0x11, (2, 6)), (0x13, (3, 2)), (0x18, (3, 4)), (0x22, (3, 4))],
        11 => &[(5, (2, 0))],
        12 => &[(5, (2, 0))],
        13 => &[(0x15, (2, 0)), (0x16, (2, 1))],
        14 => &[(5, (2, 0)), (8, (2, 0)), (0xB, (2, 0)), (0xE, (2, 0))],
        15 => &[(0x14, (2, 0)), (0x17, (2, 1)), (0x19, (2, 1)), (0x1D, (2, 1))],
        16 => &[(0xF, (2, 1)), (0x17, (2, 7))],
        17 => &[(0x15, (2, 1)), (0x1B, (2, 3)), (0x1C, (2, 6)), (0x22, (2, 7)), (0x28, (2, 8)), (0x54, (3, 2)), (0x5C, (3, 3)), (0x64, (3, 7))],
        18 => &[(0x17, (2, 1))],
        19 => &[(0xF, (2, 1)), (0x1F, (2, 7))],
        20 => &[(0x13, (2, 1)), (0x23, (2, 7))],
        21 => &[(7, (2, 1))],
        22 => &[(0x10, (2, 1)), (0x1A, (2, 2))],
        _ => &[(4, (2, 0))],
    }
}
/// offsets of string numbers
pub fn str_offs(ty: u8, f: &[u8]) -> Vec<usize> {
    let mut o: Vec<usize> = match ty {
        0 => vec![4, 5, 8],
        1 => vec![4, 5, 6, 7, 0x19, 0x1A],
        2 => vec![4, 5, 6, 7, 8, 0xA],
        3 => {
            let mut v = vec![4, 6, 7, 8];
            if f.len() >= 0x15 {
                v.push(0x15 + f[0x13] as usize * f[0x14] as usize);
            }
            v
        }
        4 => vec![4, 7, 0x10, 0x20, 0x21, 0x22],
        7 | 9 | 14 => vec![4],
        8 => vec![4, 6],
        17 => vec![0x10, 0x11, 0x17, 0x18, 0x19, 0x1A, 0x2B],
        22 => vec![4, 5, 6, 7, 8, 0xE, 0x14],
        _ => vec![],
    };
    o.retain(|x| *x < f.len());
    o
}

pub const PATS: u8 = 4;
/// Header and formatted area of a structure whose references are all valid.
/// Patterns: 0 all bytes distinct, 1 all zero, 2 all ones, 3 distinct with the specification's escape values.
pub fn base(out: &mut Vec<u8>, ty: u8, len: usize, pat: u8, handle: u16) {
    out.clear();
    out.extend([ty, len as u8, handle as u8, (handle >> 8) as u8]);
    for o in 4..len {
        out.push(match pat {
            1 => 0,
            2 => 0xFF,
            _ => (o * 89 + 17 + ty as usize * 3) as u8 | 1,
        });
    }
    fix(out, ty, len, pat);
}
/// make counts and references consistent
pub fn fix(b: &mut [u8], ty: u8, len: usize, pat: u8) {
    let set = |b: &mut [u8], o: usize, v: u8| {
        if o < len {
            b[o] = v
        }
    };
    match ty {
        3 if len >= 0x15 => {
            let r = match pat {
                2 => 7,
                3 => 4,
                1 => 0,
                _ => 3,
            };
            let c = if r == 0 { 0 } else { ((len - 0x15).saturating_sub(1) / r).min(20) };
            b[0x13] = c as u8;
            b[0x14] = r as u8;
        }
        9 => {
            let n = if pat == 3 || pat == 1 { 0 } else { (len.saturating_sub(0x18) / 5).min(3) };
            set(b, 0x12, n as u8);
        }
        12 => set(b, 4, 5),
        15 if len >= 0x17 => {
            let k = len - 0x17;
            let (x, y) = match pat {
                1 if k == 0 => (0, 0),
                3 => (1, k),
                _ if k % 2 == 0 => (k / 2, 2),
                _ => (k, 1),
            };
            b[0x15] = x as u8;
            b[0x16] = y as u8;
        }
        _ => {}
    }
    if pat == 3 {
        match ty {
            0 => set(b, 9, 0xFF),
            4 => {
                set(b, 6, 0xFE);
                set(b, 0x23, 0xFF);
                set(b, 0x24, 0xFF);
                set(b, 0x25, 0xFF);
            }
            16 => {
                for (i, v) in [0, 0, 0, 0x80].into_iter().enumerate() {
                    set(b, 7 + i, v);
                }
                set(b, 0xB, 0xFE);
                set(b, 0xC, 0xFF);
            }
            17 => {
                set(b, 6, 0xFE);
                set(b, 7, 0xFF);
                set(b, 0xC, 0xFF);
                set(b, 0xD, 0x7F);
            }
            _ => {}
        }
    }
    let offs = str_offs(ty, b);
    for (k, o) in offs.into_iter().enumerate() {
        b[o] = match pat {
            1 => 0,
            2 => 5 - (k % 5) as u8,
            3 => 1 + ((k * 2 + 1) % 5) as u8,
            _ => 1 + (k % 5) as u8,
        };
    }
    if pat == 3 && ty == 22 {
        // basic date and serial number not provided, chemistry unknown: the SBDS fields decide
        set(b, 6, 0);
        set(b, 7, 0);
        set(b, 9, 2);
        set(b, 0x14, 3);
    }
}
pub fn strings(out: &mut Vec<u8>, s: &[&[u8]]) {
    for x in s {
        out.extend(*x);
        out.push(0);
    }
    if s.is_empty() {
        out.push(0);
    }
    out.push(0);
}
pub fn structure(ty: u8, len: usize, pat: u8, handle: u16, s: &[&[u8]]) -> Vec<u8> {
    let mut b = vec![];
    base(&mut b, ty, len, pat, handle);
    strings(&mut b, s);
    b
}

/// versions around every boundary the specification has, and outside of its range
pub fn versions() -> Vec<(u8, u8)> {
    let mut v = vec![(0, 0), (0, 255), (1, 0), (1, 9), (1, 255)];
    for m in 0..=12 {
        v.push((2, m));
    }
    v.extend([(2, 16), (2, 0x23), (2, 64), (2, 127), (2, 128), (2, 255)]);
    for m in 0..=9 {
        v.push((3, m));
    }
    v.extend([(3, 16), (3, 128), (3, 255), (4, 0), (4, 1), (4, 3), (5, 0), (7, 2), (16, 0), (127, 255), (128, 0), (128, 1), (254, 1), (255, 0), (255, 255)]);
    v
}
pub const POINTS: [(u8, u8); 3] = [(2, 0), (3, 0), (3, 5)];

fn set_case(c: &mut Case, v: (u8, u8)) {
    c.v3 = false;
    c.major = v.0;
    c.minor = v.1;
    c.len = c.buf.len() as u32;
    c.place = 0;
    c.aux = 0;
}

/// every type x version x length 4..255 x pattern
pub fn versions_x_lengths(types: &'static [u8], pats: u8) -> Space {
    let vs = versions();
    space("all lengths x versions", types.len() * vs.len(), move |i, c, out| {
        let ty = types[i % types.len()];
        let v = vs[i / types.len()];
        for len in 4..=255 {
            for pat in 0..pats {
                base(&mut c.buf, ty, len, pat, 0x1234);
                strings(&mut c.buf, &STRS);
                set_case(c, v);
                out(c);
            }
        }
    })
}
/// every version (all 65536, or every major with boundary minors and every minor of majors up to 4) x lengths around the legal ones
pub fn all_versions(types: &'static [u8], full: bool) -> Space {
    space("all versions x legal lengths +-1", 256 * types.len(), move |i, c, out| {
        let major = (i % 256) as u8;
        let ty = types[i / 256];
        for minor in 0..=255u8 {
            if !(full || major <= 4 || minor <= 9 || minor == 255) {
                continue;
            }
            let mut last = 0;
            for (l, _) in spec(ty) {
                for len in (*l).max(5) - 1..=l + 1 {
                    if len <= last {
                        continue;
                    }
                    last = len;
                    base(&mut c.buf, ty, len, 0, 0xABCD);
                    strings(&mut c.buf, &STRS);
                    set_case(c, (major, minor));
                    out(c);
                }
            }
        }
    })
}
fn before(v: (u8, u8)) -> (u8, u8) {
    if v.1 > 0 { (v.0, v.1 - 1) } else { (v.0 - 1, 255) }
}
fn points(types: &[u8], wide: bool) -> Vec<(u8, usize, (u8, u8))> {
    let mut p = vec![];
    for ty in types {
        for (l, v) in spec(*ty) {
            for x in [*v, before(*v), (3, 7)] {
                p.push((*ty, *l, x));
            }
            if wide {
                for x in [l - 1, l + 1] {
                    p.push((*ty, x, (3, 7)));
                }
            }
        }
    }
    p.retain(|x| x.1 >= 4);
    p.sort();
    p.dedup();
    p
}
/// one byte of the formatted area takes all 256 values, around every legal layout and pattern
pub fn one_byte(types: &'static [u8], pats: u8, wide: bool) -> Space {
    let p = points(types, wide);
    space("one byte x 256 values", p.len() * pats as usize, move |i, c, out| {
        let (ty, len, v) = p[i / pats as usize];
        base(&mut c.buf, ty, len, (i % pats as usize) as u8, 0x7F80);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        for o in 4..len {
            let old = c.buf[o];
            for x in 0..=255 {
                c.buf[o] = x;
                out(c);
            }
            c.buf[o] = old;
        }
    })
}
/// every legal layout and pattern at the version that introduced it and at 3.7; aux = every offset behind the header
pub fn layouts(types: &'static [u8], all: bool) -> Space {
    let mut p = points(types, false);
    let pats: &'static [u8] = if all { &[0, 3, 1, 2] } else { &[0, 3] };
    for ty in [5u8, 127, 200] {
        p.push((ty, 9, (3, 1)));
    }
    space("bytes of legal layouts", p.len() * pats.len(), move |i, c, out| {
        let (ty, len, v) = p[i / pats.len()];
        base(&mut c.buf, ty, len, pats[i % pats.len()], 0x7F80);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        for o in 0..len {
            c.aux = o as u64;
            out(c);
        }
    })
}
pub const EDGE: [u8; 8] = [0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF];
/// two bytes of the formatted area take edge values (all = every layout and pattern, otherwise the latest)
pub fn two_bytes(types: &'static [u8], all: bool) -> Space {
    let mut p = points(types, false);
    if !all {
        p.retain(|x| x.2 == (3, 7) || spec(x.0).iter().filter(|s| s.0 == x.1).all(|s| s.1 <= x.2 && x.2 < (3, 7)));
    }
    let pats = if all { PATS as usize } else { 2 };
    space("two bytes x edge values", p.len() * pats, move |i, c, out| {
        let (ty, len, v) = p[i / pats];
        base(&mut c.buf, ty, len, if i % pats == 1 { 3 } else if i % pats == 3 { 1 } else { (i % pats) as u8 }, 1);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        for a in 4..len {
            for b in a + 1..len {
                let old = (c.buf[a], c.buf[b]);
                for x in EDGE {
                    for y in EDGE {
                        c.buf[a] = x;
                        c.buf[b] = y;
                        out(c);
                    }
                }
                c.buf[a] = old.0;
                c.buf[b] = old.1;
            }
        }
    })
}
pub const EDGE24: [u8; 24] =
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 0xF, 0x10, 0x1F, 0x20, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0xC0, 0xE0, 0xF0, 0xFE, 0xFF];
/// any two bytes of the latest layout take all pairs of 24 values (full: all 65536 pairs of values)
pub fn byte_pairs(types: &'static [u8], full: bool) -> Space {
    let mut p = vec![];
    for ty in types {
        let (len, _) = *spec(*ty).last().unwrap();
        for a in 4..len {
            for pat in [0, 3] {
                p.push((*ty, len, a, pat));
            }
        }
    }
    space(if full { "any two bytes x 65536 values" } else { "any two bytes x 24 x 24 values" }, p.len(), move |i, c, out| {
        let (ty, len, a, pat) = p[i];
        base(&mut c.buf, ty, len, pat, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, (3, 7));
        let old = c.buf[a];
        for b in a + 1..len {
            let was = c.buf[b];
            if full {
                for w in 0..65_536u32 {
                    c.buf[a] = w as u8;
                    c.buf[b] = (w >> 8) as u8;
                    out(c);
                }
            } else {
                for x in EDGE24 {
                    for y in EDGE24 {
                        c.buf[a] = x;
                        c.buf[b] = y;
                        out(c);
                    }
                }
            }
            c.buf[b] = was;
        }
        c.buf[a] = old;
    })
}
/// offsets of 16-bit quantities with more structure than a plain number
fn words(ty: u8) -> &'static [usize] {
    match ty {
        0 => &[0x18],
        4 => &[0x26, 0x28, 0x2A],
        7 => &[5, 7, 9, 0xB, 0xD],
        9 => &[0xD, 0x16],
        16 => &[0xB],
        17 => &[6, 8, 0xC, 0x13, 0x15, 0x20, 0x22, 0x29],
        22 => &[0xA, 0x10, 0x12],
        _ => &[],
    }
}
/// a pair of adjacent bytes takes all 65536 values
pub fn adjacent(types: &'static [u8], all: bool) -> Space {
    let mut p = vec![];
    for ty in types {
        let (len, _) = *spec(*ty).last().unwrap();
        if all {
            for o in 4..len - 1 {
                for pat in [0, 3] {
                    p.push((*ty, len, o, pat));
                }
            }
        } else {
            for o in words(*ty) {
                p.push((*ty, len, *o, 3));
            }
        }
    }
    space("adjacent bytes x 65536 values", p.len() * 16, move |i, c, out| {
        let (ty, len, o, pat) = p[i / 16];
        let len = if ty == 9 { 0x18 } else { len };
        base(&mut c.buf, ty, len, pat, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, (3, 7));
        for w in 0..4096u32 {
            let w = w + (i % 16) as u32 * 4096;
            c.buf[o] = w as u8;
            c.buf[o + 1] = (w >> 8) as u8;
            out(c);
        }
    })
}
/// 32- and 64-bit fields: every byte lane with every value over zeros and over ones, and every pair of set bits
pub fn wide_fields(types: &'static [u8]) -> Space {
    let mut p = vec![];
    for ty in types {
        let (len, v) = *spec(*ty).last().unwrap();
        p.push((*ty, len, v));
    }
    space("bit pairs over zeros and ones", p.len() * 2, move |i, c, out| {
        let (ty, len, v) = p[i / 2];
        let pat = (i % 2) as u8 + 1;
        base(&mut c.buf, ty, len, pat, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        for o in 4..len {
            let e = (o + 8).min(len);
            for a in 0..(e - o) * 8 {
                for b in a..(e - o) * 8 {
                    let old: Vec<u8> = c.buf[o..e].to_vec();
                    c.buf[o + a / 8] ^= 1 << (a % 8);
                    if a != b {
                        c.buf[o + b / 8] ^= 1 << (b % 8);
                    }
                    out(c);
                    c.buf[o..e].copy_from_slice(&old);
                }
            }
        }
    })
}

/// offset and width of the fields of a type, as far as they lie inside of `len` bytes
fn fields(ty: u8, len: usize) -> Vec<(usize, usize)> {
    let widths: &[usize] = match ty {
        0 => &[1, 1, 2, 1, 1, 8, 1, 1, 1, 1, 1, 1, 2],
        1 => &[1, 1, 1, 1, 16, 1, 1, 1],
        2 => &[1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 2, 2],
        3 => &[1, 1, 1, 1, 1, 1, 1, 1, 1, 4, 1, 1, 1, 1],
        4 => &[1, 1, 1, 1, 8, 1, 1, 2, 2, 2, 1, 1, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2],
        7 => &[1, 2, 2, 2, 2, 2, 1, 1, 1, 1, 4, 4],
        9 => &[1, 1, 1, 1, 1, 2, 1, 1, 2, 1, 1, 1, 1],
        13 => &[1, 1, 15, 1],
        14 => &[1, 1, 2, 1, 2, 1, 2, 1, 2],
        15 => &[2, 2, 2, 1, 1, 4, 4, 1, 1, 1],
        16 => &[1, 1, 1, 4, 2, 2, 8],
        17 => &[
            2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 4, 2, 2, 2, 2, 1, 2, 1, 2, 2, 2, 2, 8, 8, 8, 8, 4, 4, 2, 2, 2, 2,
        ],
        18 => &[1, 1, 1, 4, 4, 4, 4],
        19 => &[4, 4, 2, 1, 8, 8],
        20 => &[4, 4, 2, 2, 1, 1, 1, 8, 8],
        22 => &[1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 2, 2, 1, 1, 4],
        _ => &[],
    };
    let mut v = vec![];
    let mut at = 4;
    for w in widths.iter().copied().chain(std::iter::repeat(1)) {
        if at + w > len {
            break;
        }
        v.push((at, w));
        at += w;
    }
    v
}
/// a field of one byte and another byte of the latest layout take all 65536 pairs of values
/// (all: any other byte, otherwise any other field of one byte)
pub fn code_pairs(types: &'static [u8], all: bool) -> Space {
    let mut p = vec![];
    for ty in types {
        let (len, _) = *spec(*ty).last().unwrap();
        let ones: Vec<usize> = fields(*ty, len).iter().filter(|f| f.1 == 1).map(|f| f.0).collect();
        for a in &ones {
            for b in 4..len {
                if ones.contains(&b) && b > *a || all && !ones.contains(&b) {
                    p.push((*ty, len, *a, b));
                }
            }
        }
    }
    space(if all { "a code and any other byte x 65536 values" } else { "any two codes x 65536 values" }, p.len(), move |i, c, out| {
        let (ty, len, a, b) = p[i];
        base(&mut c.buf, ty, len, 3, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, (3, 7));
        for w in 0..65_536u32 {
            c.buf[a] = w as u8;
            c.buf[b] = (w >> 8) as u8;
            out(c);
        }
    })
}
/// any three codes of the latest layout take all triples of values up to `max` and FFh
pub fn code_triples(types: &'static [u8], max: u8) -> Space {
    let mut p = vec![];
    for ty in types {
        let (len, v) = *spec(*ty).last().unwrap();
        let b = structure(*ty, len, 3, 0, &[]);
        let refs = str_offs(*ty, &b[..len]);
        let ones: Vec<usize> = fields(*ty, len).iter().filter(|f| f.1 == 1 && !refs.contains(&f.0)).map(|f| f.0).collect();
        for a in 0..ones.len() {
            for b in a + 1..ones.len() {
                for c in b + 1..ones.len() {
                    p.push((*ty, len, v, [ones[a], ones[b], ones[c]]));
                }
            }
        }
    }
    space("any three codes x small values", p.len(), move |i, c, out| {
        let (ty, len, v, o) = p[i];
        base(&mut c.buf, ty, len, 0, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, v.max((2, 4)));
        for x in (0..=max).chain([255]) {
            for y in (0..=max).chain([255]) {
                for z in (0..=max).chain([255]) {
                    c.buf[o[0]] = x;
                    c.buf[o[1]] = y;
                    c.buf[o[2]] = z;
                    out(c);
                }
            }
        }
    })
}
/// one byte that is no string number takes all values x any two other fields take edge values (the smallest and the largest
/// ones, the sign bit and its complement)
pub fn code_x_edges(types: &'static [u8], pats: &'static [u8]) -> Space {
    let mut p = vec![];
    for ty in types {
        let (len, v) = *spec(*ty).last().unwrap();
        let b = structure(*ty, len, 3, 0, &[]);
        let refs = str_offs(*ty, &b[..len]);
        for (at, w) in fields(*ty, len) {
            if w == 1 && !refs.contains(&at) {
                for pat in pats {
                    for part in 0..8 {
                        p.push((*ty, len, v, at, *pat, part));
                    }
                }
            }
        }
    }
    space("a code x any two fields with edge values", p.len(), move |i, c, out| {
        let (ty, len, v, code, pat, part) = p[i];
        base(&mut c.buf, ty, len, pat, 1);
        let refs = str_offs(ty, &c.buf);
        strings(&mut c.buf, &STRS);
        set_case(c, v.max((2, 4)));
        let mut f: Vec<(usize, usize, Vec<[u8; 16]>)> = vec![];
        for (at, w) in fields(ty, len).into_iter().filter(|f| f.0 != code) {
            let mut vals = vec![];
            let mut add = |low: u8, mid: u8, top: u8| {
                let mut x = [mid; 16];
                x[0] = low;
                x[w - 1] = if w == 1 { low } else { top };
                vals.push(x);
            };
            if refs.contains(&at) {
                add(if pat == 0 { 1 } else { 0 }, 0, 0);
            } else if w == 1 {
                for n in [1, 0x7F, 0x80, 0xFE, 0xFF] {
                    add(n, 0, 0);
                }
            } else {
                add(1, 0, 0);
                add(0xFE, 0xFF, 0xFF);
                add(0xFF, 0xFF, 0xFF);
                add(0, 0, 0x80);
                add(0xFF, 0xFF, 0x7F);
            }
            if pat != 0 {
                add(0, 0, 0);
            }
            f.push((at, w, vals));
        }
        for x in (0..=255u8).filter(|x| x % 8 == part) {
            c.buf[code] = x;
            for a in 0..f.len() {
                let (at, w, vals) = &f[a];
                let mut old = [0; 16];
                old[..*w].copy_from_slice(&c.buf[*at..at + w]);
                for y in vals {
                    c.buf[*at..at + w].copy_from_slice(&y[..*w]);
                    for (bt, bw, more) in &f[a + 1..] {
                        let mut was = [0; 16];
                        was[..*bw].copy_from_slice(&c.buf[*bt..bt + bw]);
                        for z in more {
                            c.buf[*bt..bt + bw].copy_from_slice(&z[..*bw]);
                            out(c);
                        }
                        c.buf[*bt..bt + bw].copy_from_slice(&was[..*bw]);
                    }
                }
                c.buf[*at..at + w].copy_from_slice(&old[..*w]);
            }
        }
    })
}
/// one byte of the latest layout takes all values x versions around every boundary of the specification
pub fn bytes_x_versions(types: &'static [u8]) -> Space {
    let vs = versions();
    space("one byte x 256 values x versions", types.len() * vs.len(), move |i, c, out| {
        let (ty, v) = (types[i % types.len()], vs[i / types.len()]);
        let (len, _) = *spec(ty).last().unwrap();
        base(&mut c.buf, ty, len, 0, 0x0201);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        for o in 4..len {
            let old = c.buf[o];
            for x in 0..=255 {
                c.buf[o] = x;
                out(c);
            }
            c.buf[o] = old;
        }
    })
}
/// one byte takes edge values x all lengths, and all values x handles x sets of strings
pub fn bytes_x_shapes(types: &'static [u8]) -> Space {
    let many: Vec<Vec<u8>> = (0..255).map(|k| format!("s{k}").into_bytes()).collect();
    space("one byte x lengths, handles, string sets", types.len() * 64, move |i, c, out| {
        let (ty, part) = (types[i / 64], i % 64);
        let (max, v) = *spec(ty).last().unwrap();
        let mut bytes = |c: &mut Case, o: usize, vals: &mut dyn Iterator<Item = u8>| {
            let old = c.buf[o];
            for x in vals {
                c.buf[o] = x;
                out(c);
            }
            c.buf[o] = old;
        };
        for len in (4..=max + 6).chain([127, 128, 254, 255]).filter(|l| l % 64 == part) {
            for pat in [0, 3] {
                base(&mut c.buf, ty, len, pat, 0x0304);
                strings(&mut c.buf, &STRS);
                for v in [v, (3, 7)] {
                    set_case(c, v);
                    for o in 4..len {
                        bytes(c, o, &mut EDGE24.into_iter());
                    }
                }
            }
        }
        const HANDLES: [u16; 12] = [0, 1, 2, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF];
        if part < 12 {
            base(&mut c.buf, ty, max, 0, HANDLES[part]);
            strings(&mut c.buf, &STRS);
            set_case(c, v);
            for o in 4..max {
                bytes(c, o, &mut (0..=255));
            }
        } else if part < 16 {
            let set: Vec<&[u8]> = match part {
                12 => vec![],
                13 => vec![b"only"],
                14 => vec![b"a", b"a", b"\xFF", b"a"],
                _ => many.iter().map(|x| &x[..]).collect(),
            };
            base(&mut c.buf, ty, max, 0, 0x0304);
            for k in str_offs(ty, &c.buf) {
                c.buf[k] = c.buf[k].min(set.len() as u8).min(2);
            }
            strings(&mut c.buf, &set);
            set_case(c, v);
            for o in 4..max {
                bytes(c, o, &mut (0..=255));
            }
        }
    })
}
/// every layout behind and before structures of all kinds, with equal and different handles, and with announced lengths
/// that end anywhere behind the formatted part
pub fn situated(types: &'static [u8]) -> Space {
    let mut p = vec![];
    for ty in types {
        for (len, v) in spec(*ty) {
            for pat in 0..4 {
                p.push((*ty, *len, *v, pat));
            }
        }
    }
    let mut others: Vec<Vec<u8>> = vec![vec![]];
    for ty in TYPES.iter().chain(&[0x80u8]) {
        let n = spec(*ty).last().map_or(9, |s| s.0);
        for h in [0x0304, 0x0305] {
            others.push(structure(*ty, n, 0, h, &STRS));
        }
        // of the same kind as others, and not decodable
        others.push(structure(*ty, 4, 0, 0x0303, &[]));
    }
    space("layouts among others, announced lengths", p.len(), move |i, c, out| {
        let (ty, len, v, pat) = p[i];
        let own = structure(ty, len, pat, 0x0304, &STRS);
        for (k, before) in others.iter().enumerate() {
            for after in [&others[0], &others[k], &others[(k + 1) % others.len()]] {
                c.buf.clear();
                c.buf.extend(before);
                c.buf.extend(&own);
                c.buf.extend(after);
                for v in [v, (3, 7)] {
                    set_case(c, v);
                    out(c);
                    c.v3 = true;
                    out(c);
                }
            }
            // the table ends inside of the strings, and in the next structure
            c.buf.clear();
            c.buf.extend(before);
            c.buf.extend(&own);
            c.buf.extend(&others[1]);
            set_case(c, v);
            let all = before.len() + own.len();
            for n in (before.len() + len + 1..all + 8).chain([c.buf.len() + 1, 0xFFFF]) {
                for v3 in [false, true] {
                    c.v3 = v3;
                    c.len = n as u32;
                    out(c);
                }
            }
        }
    })
}
/// any three (four) fields of a structure take edge values at once: zero, one, the two largest, the sign bit and its complement;
/// string references take small numbers
pub fn field_tuples(types: &'static [u8], four: bool) -> Space {
    let mut p = vec![];
    for ty in types {
        for (len, v) in spec(*ty) {
            if four && spec(*ty).last().unwrap().0 != *len {
                continue;
            }
            for a in 0..fields(*ty, *len).len() {
                for pat in [0, 3] {
                    p.push((*ty, *len, *v, pat, a));
                }
            }
        }
    }
    space(if four { "any four fields x edge values" } else { "any three fields x edge values" }, p.len(), move |i, c, out| {
        let (ty, len, v, pat, a) = p[i];
        // a handle that the fields can refer to
        base(&mut c.buf, ty, len, pat, 1);
        let refs = str_offs(ty, &c.buf);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        let mut f: Vec<(usize, usize, Vec<[u8; 16]>)> = vec![];
        for (at, w) in fields(ty, len) {
            let mut vals = vec![];
            let mut add = |low: u8, mid: u8, top: u8| {
                let mut x = [mid; 16];
                x[0] = low;
                x[w - 1] = if w == 1 { low } else { top };
                vals.push(x);
            };
            if refs.contains(&at) {
                for n in [0, 1, 2, 5] {
                    add(n, 0, 0);
                }
            } else if w == 1 {
                for n in if four { &[0u8, 1, 0xFE, 0xFF][..] } else { &[0u8, 1, 0x7F, 0x80, 0xFE, 0xFF] } {
                    add(*n, 0, 0);
                }
            } else {
                add(0, 0, 0);
                add(0xFE, 0xFF, 0xFF);
                add(0xFF, 0xFF, 0xFF);
                add(0, 0, 0x80);
                if !four {
                    add(1, 0, 0);
                    add(0xFF, 0xFF, 0x7F);
                }
            }
            f.push((at, w, vals));
        }
        fn go(c: &mut Case, f: &[(usize, usize, Vec<[u8; 16]>)], from: usize, left: usize, out: &mut dyn FnMut(&Case)) {
            if left == 0 {
                return out(c);
            }
            for k in from..f.len() {
                let (at, w, vals) = &f[k];
                let mut old = [0; 16];
                old[..*w].copy_from_slice(&c.buf[*at..at + w]);
                for x in vals {
                    c.buf[*at..at + w].copy_from_slice(&x[..*w]);
                    go(c, f, k + 1, left - 1, out);
                }
                c.buf[*at..at + w].copy_from_slice(&old[..*w]);
            }
        }
        let (at, w, vals) = f[a].clone();
        for x in vals {
            c.buf[at..at + w].copy_from_slice(&x[..w]);
            go(c, &f, a + 1, if four { 3 } else { 2 }, out);
        }
    })
}

// ---------------------------------------------------------------- strings

/// string areas over the alphabet {NUL, 'A', C3, A9} up to `max` bytes behind a raw structure
pub fn string_areas(max: usize) -> Space {
    let alpha = [0u8, b'A', 0xC3, 0xA9];
    space("string areas over a 4 letter alphabet", 4 * (max + 1), move |i, c, out| {
        let n = i / 4;
        let total = 4usize.pow(n as u32);
        for k in (0..total).filter(|k| k % 4 == i % 4) {
            for (tail, body) in [(2usize, 4u8), (0, 5)] {
                c.buf.clear();
                c.buf.extend([0x80, body, 0x34, 0x12]);
                if body == 5 {
                    c.buf.push((k / 4 % 4) as u8);
                }
                let mut x = k;
                for _ in 0..n {
                    c.buf.push(alpha[x % 4]);
                    x /= 4;
                }
                for _ in 0..tail {
                    c.buf.push(0);
                }
                set_case(c, (2, 7));
                out(c);
            }
        }
    })
}
/// 0..=300 strings behind a raw structure and behind each kind that lists its strings
pub fn string_counts(kinds: &'static [(u8, usize)]) -> Space {
    space("0..300 strings", kinds.len() * 301, move |i, c, out| {
        let (ty, len) = kinds[i / 301];
        let n = i % 301;
        for style in 0..4 {
            base(&mut c.buf, ty, len, 0, 0x55AA);
            if ty == 12 {
                c.buf[4] = n as u8;
            }
            for k in 0..n {
                match style {
                    0 => c.buf.push(1 + (k % 255) as u8 % 127),
                    1 => c.buf.extend(format!("string {k}").as_bytes()),
                    2 => c.buf.extend(std::iter::repeat(b'a' + (k % 26) as u8).take(1 + k % 7)),
                    // one of them is not UTF-8
                    _ => c.buf.extend(if k == n / 2 { &b"\xff\xfe"[..] } else { &b"ok"[..] }),
                }
                c.buf.push(0);
            }
            if n == 0 {
                c.buf.push(0);
            }
            c.buf.push(0);
            set_case(c, (3, 1));
            out(c);
        }
    })
}
/// strings of any length up to `max` (selected beyond 300), alone, first and last
pub fn string_lengths() -> Space {
    let mut l: Vec<usize> = (1..=300).collect();
    for k in 9..=16 {
        l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    l.push(70_000);
    space("string lengths", l.len(), move |i, c, out| {
        let long: Vec<u8> = (0..l[i]).map(|k| b'!' + (k % 90) as u8).collect();
        // the same length in characters of two and three bytes, at every phase
        let wide: Vec<Vec<u8>> = (0..3usize)
            .map(|phase| {
                let mut w = vec![b'.'; phase.min(l[i])];
                let unit = ["\u{e9}", "\u{20ac}"][(i + phase) % 2].as_bytes();
                while w.len() + unit.len() <= l[i] {
                    w.extend(unit);
                }
                w.resize(l[i], b',');
                w
            })
            .collect();
        for order in 0..6 {
            let s: Vec<&[u8]> = match order {
                3 => vec![&wide[0]],
                4 => vec![b"x", &wide[1], b"\xC3\xA9"],
                5 => vec![&wide[2], &wide[0]],
                0 => vec![&long],
                1 => vec![&long, b"x", b"yz"],
                _ => vec![b"x", &long, b"yz"],
            };
            for ty in [0x80u8, 11, 1, 12, 13] {
                base(&mut c.buf, ty, [5, 8, 0x16][(ty == 1) as usize + 2 * (ty == 13) as usize], 0, 3);
                if ty == 1 {
                    for k in 0..4 {
                        c.buf[4 + k] = (k % (s.len() + 1)) as u8;
                    }
                } else if ty == 12 {
                    c.buf[4] = s.len() as u8;
                } else {
                    c.buf[4] = 2;
                }
                if ty == 13 {
                    c.buf[0x15] = s.len() as u8;
                }
                strings(&mut c.buf, &s);
                set_case(c, (3, 0));
                c.v3 = true;
                out(c);
            }
        }
    })
}
/// string areas of any length up to `max` and around larger powers of two, as one string or as many, followed by another structure
pub fn area_lengths(max: usize) -> Space {
    let mut l: Vec<usize> = (2..=max).collect();
    for k in 13..=20 {
        l.extend((1 << k) - 4..=(1 << k) + 5);
    }
    space("lengths of string areas", l.len(), move |i, c, out| {
        let n = l[i];
        for parts in [0, 1, 2, 64] {
            base(&mut c.buf, [0x80, 11, 0x7E, 0x81][i % 4], 5, 0, 3);
            c.buf[4] = 1;
            let s = c.buf.len();
            c.buf.resize(s + n, b'a' + (n % 26) as u8);
            match parts {
                0 => {}
                1 if n > 4 => c.buf[s + n / 2] = 0,
                2 if n > 8 => c.buf[s + n - 4] = 0,
                64 if n > 70 => (1..n - 2).filter(|k| k % 64 == 63).for_each(|k| c.buf[s + k] = 0),
                _ => continue,
            }
            let e = s + n;
            c.buf[e - 2..].fill(0);
            c.buf.extend([0x83, 4, 9, 9, 0, 0]);
            set_case(c, (2, 8));
            c.v3 = true;
            out(c);
        }
    })
}
/// strings of any length up to 300 and around larger powers of two that stop being UTF-8 at one position
pub fn broken_strings() -> Space {
    let mut l: Vec<usize> = (1..=300).collect();
    for k in 9..=16 {
        l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    space("strings broken at any position", l.len(), move |i, c, out| {
        let n = l[i];
        for at in (0..n).filter(|a| n <= 140 || *a < 4 || n - a < 6 || a.is_power_of_two() || (a + 1).is_power_of_two()) {
            for bad in [&b"\xFF"[..], b"\x80", b"\xC3", b"\xE2\x82", b"\xED\xA0\x80", b"\xC0\x80"] {
                if at + bad.len() > n {
                    continue;
                }
                let mut s: Vec<u8> = (0..n).map(|k| b'!' + (k % 90) as u8).collect();
                if at % 3 == 2 {
                    s[at - 2..at].copy_from_slice("\u{e9}".as_bytes());
                }
                s[at..at + bad.len()].copy_from_slice(bad);
                for (ty, len) in [(0x80u8, 5), (11, 5), (1, 8)] {
                    if ty == 1 && (n > 70 || bad.len() > 1) {
                        continue;
                    }
                    base(&mut c.buf, ty, len, 0, 3);
                    if ty == 1 {
                        c.buf[4..8].copy_from_slice(&[1, 2, 0, 3]);
                    } else {
                        c.buf[4] = 2;
                    }
                    strings(&mut c.buf, &[b"x", &s, b"yz"]);
                    set_case(c, (3, 0));
                    c.v3 = true;
                    out(c);
                }
            }
        }
    })
}
/// strings of any length up to 140 and around larger powers of two with any character at their beginning, middle or end, alone or doubled
pub fn string_ends() -> Space {
    let mut l: Vec<usize> = (1..=140).collect();
    for k in 8..=12 {
        l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let mut u: Vec<String> = (1..128u8).map(|b| (b as char).to_string()).collect();
    u.extend(["\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{e9}", "\u{ff}", "\u{301}", "\u{7ff}", "\u{800}", "\u{1680}", "\u{2003}", "\u{200b}", "\u{2028}", "\u{3000}", "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{1f600}", "\u{10ffff}"].map(String::from));
    space("ends of strings", l.len(), move |i, c, out| {
        for u in &u {
            let u = u.as_bytes();
            for (at, times) in [(0, 1), (1, 1), (2, 1), (0, 2), (2, 2), (2, 3)] {
                let w = u.repeat(times);
                if w.len() > l[i] {
                    continue;
                }
                let room = l[i] - w.len();
                let mut s: Vec<u8> = (0..room).map(|k| b'A' + (k % 58) as u8).collect();
                let k = [0, room / 2, room][at];
                s.splice(k..k, w);
                for (ty, len) in [(0x80u8, 5), (1, 8), (11, 5)] {
                    if ty == 11 && at != 2 {
                        continue;
                    }
                    base(&mut c.buf, ty, len, 0, 3);
                    if ty == 1 {
                        c.buf[4..8].copy_from_slice(&[1, 2, 0, 1]);
                    } else {
                        c.buf[4] = 2;
                    }
                    strings(&mut c.buf, &[&s, b"yz"]);
                    set_case(c, (3, 0));
                    c.v3 = true;
                    out(c);
                }
            }
        }
    })
}
/// neighbouring strings that are equal or nearly so, of any length up to 140
pub fn related_strings() -> Space {
    space("related strings", 140, move |i, c, out| {
        let n = i + 1;
        let s: Vec<u8> = (0..n).map(|k| b'a' + (k % 23) as u8).collect();
        let mut edit: Vec<Vec<u8>> = vec![s.clone(), s.to_ascii_uppercase(), s.iter().rev().copied().collect(), [&s[..], b"!"].concat(), [b" ", &s[..]].concat(), vec![b' '; n], vec![b'0'; n], vec![0xFF; n]];
        for at in [0, n / 2, n - 1] {
            let mut t = s.clone();
            t[at] ^= 1;
            edit.push(t);
        }
        if n > 1 {
            edit.push(s[1..].to_vec());
            edit.push(s[..n - 1].to_vec());
        }
        for t in &edit {
            for set in [vec![&s, t], vec![t, &s], vec![&s, t, &s], vec![&s, t, t], vec![t, t, &s, &s], vec![&s, &s, &s, &s, t]] {
                let set: Vec<&[u8]> = set.iter().map(|x| &x[..]).collect();
                for (ty, len) in [(0x80u8, 5usize), (11, 5), (12, 5), (13, 0x16), (1, 8), (2, 8)] {
                    base(&mut c.buf, ty, len, 0, 3);
                    if len == 8 {
                        for k in 0..4 {
                            c.buf[4 + k] = (k % (set.len() + 1)) as u8;
                        }
                    } else {
                        c.buf[4] = set.len() as u8;
                    }
                    if ty == 13 {
                        c.buf[5..0x15].fill(0);
                        c.buf[0x15] = set.len() as u8;
                    }
                    strings(&mut c.buf, &set);
                    set_case(c, (2, 1));
                    out(c);
                }
            }
        }
    })
}
/// all contents of 1 and 2 (and 3) bytes for the middle one of three strings
pub fn string_contents(bytes: usize) -> Space {
    space("string contents", 255, move |i, c, out| {
        let a = i as u8 + 1;
        let mut go = |x: &[u8]| {
            c.buf.clear();
            c.buf.extend([0x81, 5, 1, 0, 2]);
            strings(&mut c.buf, &[b"p", x, b"q"]);
            set_case(c, (2, 8));
            out(c);
        };
        go(&[a]);
        for b in 1..=255 {
            go(&[a, b]);
            if bytes >= 3 {
                for d in 1..=255 {
                    go(&[a, b, d]);
                }
            }
        }
    })
}
/// all contents of 4 (and 5) bytes made of the boundary bytes of UTF-8
pub fn utf8_contents(five: bool) -> Space {
    const B: [u8; 24] = [
        1, 0x20, b'A', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF,
    ];
    space("string contents over the boundary bytes of UTF-8", 24 * 24, move |i, c, out| {
        for k in 0..if five { 24 * 24 * 24 } else { 24 * 24 } {
            let x = [B[i / 24], B[i % 24], B[k / 24 % 24], B[k % 24], B[k / 576]];
            c.buf.clear();
            c.buf.extend([0x81, 5, 1, 0, 2]);
            strings(&mut c.buf, &[b"p", &x[..if five { 5 } else { 4 }], b"q"]);
            set_case(c, (2, 8));
            out(c);
        }
    })
}
/// every string field of every kind x every string number x sets of strings
pub fn string_fields(types: &'static [u8]) -> Space {
    let mut p = vec![];
    for ty in types {
        for (l, _) in spec(*ty) {
            let b = structure(*ty, *l, 0, 0, &[]);
            for o in str_offs(*ty, &b[..*l]) {
                for set in 0..8 {
                    p.push((*ty, *l, o, set));
                }
            }
        }
    }
    let many: Vec<Vec<u8>> = (0..260).map(|k| format!("s{k}").into_bytes()).collect();
    space("string fields x 256 numbers x string sets", p.len(), move |i, c, out| {
        let (ty, l, o, set) = p[i];
        let s: Vec<&[u8]> = match set {
            0 => vec![],
            1 => vec![b"one"],
            2 => vec![b"first", b"second", b"\xC3\x28", b"4th", b"fifth!"],
            3 => vec![b"\xff", b"2", b"\xF0\x9F\x98\x80", b"\xE2\x82", b" 5 "],
            4 => many[..255].iter().map(|x| &x[..]).collect(),
            5 => vec![b"same", b"same", b"other", b"same", b"sam", b"same"],
            6 => vec![b"x", b"", b"y"],
            _ => many.iter().map(|x| &x[..]).collect(),
        };
        for v in [(2, 0), (2, 4), (2, 8), (3, 7)] {
            for pat in [0, 1] {
                base(&mut c.buf, ty, l, pat, 9);
                if set < 2 {
                    // keep the other references valid
                    for k in str_offs(ty, &c.buf) {
                        c.buf[k] = c.buf[k].min(s.len() as u8);
                    }
                } else if set < 4 || set == 6 {
                    for k in str_offs(ty, &c.buf) {
                        c.buf[k] = if c.buf[k] == 0 { 0 } else if set == 6 { 1 } else { 2 };
                    }
                }
                if ty == 22 {
                    c.buf[9] = 2;
                }
                strings(&mut c.buf, &s);
                set_case(c, v);
                for n in 0..=255 {
                    c.buf[o] = n;
                    out(c);
                }
            }
        }
    })
}
/// every string field x texts of any length up to 72 and of several kinds
pub fn field_texts(types: &'static [u8]) -> Space {
    let mut p = vec![];
    for ty in types {
        for (l, v) in spec(*ty) {
            let b = structure(*ty, *l, 0, 0, &[]);
            for o in str_offs(*ty, &b[..*l]) {
                p.push((*ty, *l, *v, o));
            }
        }
    }
    const U: &[&str] = &[" ", "  ", "\t", "\n", "\r", "\x01", "\x1b", "\x7f", "0", "00", "F", "-", ".", "_", "/", "\"", "%", "@", "[", "\u{80}", "\u{85}", "\u{a0}", "\u{e9}", "\u{ff}", "\u{2003}", "\u{feff}", "\u{fffd}", "\u{1f600}"];
    space("string fields x texts", p.len(), move |i, c, out| {
        let (ty, l, v, o) = p[i];
        base(&mut c.buf, ty, l, 0, 9);
        for k in str_offs(ty, &c.buf) {
            c.buf[k] = 1;
        }
        c.buf[o] = 2;
        if ty == 22 {
            c.buf[9] = 2;
        }
        let head = c.buf.clone();
        for n in (1..=72).chain([127, 128, 129, 255, 256, 257]) {
            let plain: Vec<u8> = (0..n).map(|k| b'A' + (k % 58) as u8).collect();
            let mut texts: Vec<Vec<u8>> = [&b"0"[..], b"F", b"f", b" ", b"x", b"9", b"-", b"*", b"\x01", b"\x7f", b"\xff", b"01", b"\xC3\xA9"].iter().map(|u| u.iter().copied().cycle().take(n).collect()).collect();
            for u in U {
                for at in [0, n / 2, n] {
                    let mut t = plain.clone();
                    t.splice(at..at, u.bytes());
                    texts.push(t);
                }
                let t = [u.as_bytes(), &plain, u.as_bytes()].concat();
                texts.push(t);
            }
            texts.push(plain.iter().map(|b| b'0' + b % 10).collect());
            texts.push(plain.to_ascii_lowercase());
            texts.push(plain);
            for t in texts {
                c.buf.clear();
                c.buf.extend(&head);
                strings(&mut c.buf, &[b"x", &t, b"z"]);
                set_case(c, v);
                out(c);
            }
        }
        // long ones, complete and broken at the end
        let mut long: Vec<usize> = (9..=12).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
        long.extend([65_535, 65_536, 70_000]);
        long.extend(crate::dict::dict().sizes.iter().filter(|n| (2..1 << 20).contains(*n)).flat_map(|n| [n - 1, *n, n + 1]));
        for n in long {
            let plain: Vec<u8> = (0..n).map(|k| b'A' + (k % 58) as u8).collect();
            let wide: Vec<u8> = "\u{e9}".bytes().cycle().take(n & !1).collect();
            let mut broken = plain.clone();
            *broken.last_mut().unwrap() = 0xFF;
            for t in [plain, wide, broken] {
                c.buf.clear();
                c.buf.extend(&head);
                strings(&mut c.buf, &[b"x", &t, b"z"]);
                set_case(c, v);
                c.v3 = true;
                out(c);
            }
        }
    })
}
/// any two string fields x string numbers, with equal and alike strings
pub fn string_pairs(types: &'static [u8]) -> Space {
    let mut p = vec![];
    for ty in types {
        for (l, _) in spec(*ty) {
            let b = structure(*ty, *l, 0, 0, &[]);
            let o = str_offs(*ty, &b[..*l]);
            for x in 0..o.len() {
                for y in 0..x {
                    p.push((*ty, *l, o[x], o[y]));
                }
            }
        }
    }
    space("any two string fields x string numbers x equal strings", p.len(), move |i, c, out| {
        let (ty, l, x, y) = p[i];
        for v in [(2, 0), (2, 8), (3, 7)] {
            for pat in [0, 1] {
                for set in [[b"same", b"same", b"SAME", b"sam ", b"same"], [b"1111", b"2222", b"1111", b"3333", b"2222"]] {
                    base(&mut c.buf, ty, l, pat, 9);
                    if ty == 22 {
                        c.buf[9] = 2;
                    }
                    strings(&mut c.buf, &set.map(|s| &s[..]));
                    set_case(c, v);
                    for a in 0..=6 {
                        for b in 0..=6 {
                            c.buf[x] = a;
                            c.buf[y] = b;
                            out(c);
                        }
                    }
                }
            }
        }
    })
}

// ---------------------------------------------------------------- walks

/// building blocks of tables: sound structures, undecodable ones, and every kind of framing fault
pub fn menu() -> Vec<Vec<u8>> {
    vec![
        vec![0x80, 4, 1, 0, 0, 0],
        structure(1, 8, 0, 0x0102, &STRS),
        vec![127, 4, 0xFE, 0xFF, 0, 0],
        structure(21, 6, 0, 0x0203, &[]),                 // undecodable: length
        vec![0x81, 6, 2, 0, 9, 8, b'x', 0, b'y', b'z', 0, 0],
        structure(1, 8, 0, 0x0304, &[b"only"]),           // undecodable: dangling strings
        vec![0x80, 3, 0, 0, 0, 0],                        // shorter than its header
        vec![0x80, 0xFF, 0, 0, 1, 0, 0],                  // runs over the end
        vec![0x82, 4, 3, 0, b'u', 0, b'v'],               // strings go on into what follows
        vec![0, 0, 0, 0],
        vec![0x83, 5, 4, 0, 7, 0, b'A', 0, 0],            // empty first string
        vec![12, 5, 5, 0, 1, b'c', 0, 0],
        vec![0x84, 9, 6, 0, 0, 0, 0, 0, 0, 0, 0],         // double NULs inside the formatted area
        vec![0x85, 4, 7, 0, 0, 0, 0],                     // one NUL too many
    ]
}
/// sequences of up to `depth` building blocks; every announced length and every truncation
/// (both together up to `both` blocks)
pub fn walks(depth: usize, both: usize, vs: &'static [(u8, u8)]) -> Space {
    let m = menu();
    let k = m.len();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..depth {
        let hi = seqs.len();
        for i in lo..hi {
            for a in 0..k {
                let mut s = seqs[i].clone();
                s.push(a);
                seqs.push(s);
            }
        }
        lo = hi;
    }
    space(&format!("block sequences up to {depth}, announced lengths, truncations"), seqs.len(), move |i, c, out| {
        let s = &seqs[i];
        let mut full = vec![];
        for a in s {
            full.extend(&m[*a]);
        }
        for v in vs {
            for v3 in [false, true] {
                if v3 && v.0 < 2 {
                    continue;
                }
                let mut go = |n: usize, ann: u32| {
                    c.buf.clear();
                    c.buf.extend(&full[..n]);
                    c.v3 = v3;
                    c.major = v.0;
                    c.minor = v.1;
                    c.place = 0;
                    c.aux = 0;
                    c.len = ann;
                    out(c);
                };
                for ann in 0..=full.len() + 2 {
                    go(full.len(), ann as u32);
                }
                go(full.len(), 0xFFFF);
                if v3 {
                    for a in [0x1_0000u32, 0x1_0000 + full.len() as u32, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFB, 0xFFFF_FFFC, 0xFFFF_FFFF] {
                        go(full.len(), a);
                    }
                }
                for n in 0..full.len() {
                    if s.len() <= both {
                        for ann in 0..=n + 1 {
                            go(n, ann as u32);
                        }
                    }
                    go(n, full.len() as u32);
                    go(n, n as u32);
                }
            }
        }
    })
}
/// block sequences (two blocks, and two blocks around an end-of-table structure) with every major version
pub fn walk_versions() -> Space {
    let m = menu();
    let k = m.len();
    space("block sequences x all major versions", 256, move |i, c, out| {
        for minor in [0u8, 1, 5, 6, 255] {
            for s in 0..2 * k * k {
                c.buf.clear();
                c.buf.extend(&m[s / 2 / k]);
                if s % 2 == 1 {
                    c.buf.extend(&m[2]);
                }
                c.buf.extend(&m[s / 2 % k]);
                set_case(c, (i as u8, minor));
                out(c);
                c.len = 0xFFFF;
                out(c);
                if i >= 2 {
                    c.v3 = true;
                    c.len = 0xFFFF_FFFF;
                    out(c);
                    c.len = c.buf.len() as u32;
                    out(c);
                }
            }
        }
    })
}
/// all tables of up to `max` bytes over {0, 1, 4, 5, 127, 'A'}
pub fn raw_tables(max: usize, vs: &'static [(u8, u8)]) -> Space {
    let alpha = [0u8, 1, 4, 5, 127, b'A'];
    space(&format!("all tables up to {max} bytes over 6 values"), 36 * (max + 1), move |i, c, out| {
        let n = i / 36;
        let total = 6usize.pow(n as u32);
        let mut k = i % 36;
        if n < 2 && k >= total {
            return;
        }
        while k < total {
            c.buf.clear();
            let mut x = k;
            for _ in 0..n {
                c.buf.push(alpha[x % 6]);
                x /= 6;
            }
            set_case(c, vs[0]);
            for v in vs {
                c.major = v.0;
                c.minor = v.1;
                c.len = n as u32;
                out(c);
                c.len = 0xFFFF;
                out(c);
                if n > 4 {
                    c.len = n as u32 - 1;
                    out(c);
                }
            }
            k += 36;
        }
    })
}
/// a building block (or two) and then up to 40 bytes of the same value; announced lengths around every place
pub fn tails() -> Space {
    let m = menu();
    let k = m.len();
    space("blocks followed by padding of any byte", 256, move |i, c, out| {
        for a in 0..k {
            for b in 0..=k {
                if b > 0 && !matches!(a, 0 | 1 | 4) {
                    continue;
                }
                c.buf.clear();
                c.buf.extend(&m[a]);
                if b > 0 {
                    c.buf.extend(&m[b - 1]);
                }
                let full = c.buf.len();
                let all = matches!(i, 0 | 1 | 4 | 127 | 128 | 255);
                for pad in 0..=40usize {
                    if !all && !matches!(pad, 1..=9 | 15..=17 | 31..=33) {
                        continue;
                    }
                    c.buf.resize(full + pad, i as u8);
                    set_case(c, (2, 8));
                    out(c);
                    if all && pad > 0 {
                        for cut in [1, pad / 2, pad] {
                            c.len = (full + pad - cut) as u32;
                            out(c);
                        }
                        c.len = 0xFFFF;
                        out(c);
                        // and a structure behind the padding
                        let n = c.buf.len();
                        c.buf.extend(&m[4]);
                        set_case(c, (2, 8));
                        out(c);
                        set_case(c, (3, 3));
                        c.v3 = true;
                        out(c);
                        c.buf.truncate(n);
                    }
                    c.v3 = true;
                    c.major = 3;
                    c.len = c.buf.len() as u32;
                    out(c);
                }
            }
        }
    })
}
/// every type byte behind every type byte
pub fn type_pairs(types: bool) -> Space {
    let ts: Vec<Vec<u8>> = (0..=255u8).map(|t| structure(t, spec(t).last().unwrap().0, 0, 0x0101, &STRS)).collect();
    space("all ordered pairs of types", 256, move |i, c, out| {
        for (j, t) in ts.iter().enumerate() {
            if types && !(TYPES.contains(&(i as u8)) && TYPES.contains(&(j as u8))) {
                continue;
            }
            for (h, g) in [(0x0101u16, 0x0101u16), (0x0203, 0x0405), (0xFFFE, 0)] {
                c.buf.clear();
                c.buf.extend(&ts[i]);
                let at = c.buf.len();
                c.buf.extend(t);
                c.buf[2..4].copy_from_slice(&h.to_le_bytes());
                c.buf[at + 2..at + 4].copy_from_slice(&g.to_le_bytes());
                for (v, v3) in [((2, 8), false), ((3, 7), true)] {
                    set_case(c, v);
                    c.v3 = v3;
                    out(c);
                }
            }
        }
    })
}
/// very many strings, very long ones, very many structures of each kind: what recurses once per byte, string or structure
/// needs more stack than there is
pub fn deep() -> Space {
    space("very many strings and structures", 64, move |i, c, out| {
        c.buf.clear();
        let n = 200_000;
        match i {
            0..=3 => {
                // strings of 1..4 bytes
                c.buf.extend([0x80, 4, 1, 0]);
                for _ in 0..1_000_000 {
                    c.buf.extend(&b"xyzw"[..i + 1]);
                    c.buf.push(0);
                }
                c.buf.push(0);
            }
            4 => {
                c.buf.extend([0x80, 4, 1, 0]);
                c.buf.resize(4 << 20, b'x');
                c.buf.extend([0, 0]);
            }
            5 => {
                // never ends
                c.buf.extend([0x80, 4, 1, 0]);
                for _ in 0..1_000_000 {
                    c.buf.extend(b"x\0");
                }
            }
            6 => c.buf.resize(4 << 20, 0),
            7 => {
                c.buf.extend([0x80, 4, 1, 0, 0, 0]);
                c.buf.resize(4 << 20, 0xFF);
            }
            8..=10 => {
                // lists
                let ty = [11, 12, 13][i - 8];
                base(&mut c.buf, ty, if ty == 13 { 0x16 } else { 5 }, 0, 3);
                c.buf[4] = 255;
                for _ in 0..if ty == 12 { 255 } else { 150_000 } {
                    c.buf.extend(b"x\0");
                }
                c.buf.push(0);
            }
            11..=33 => {
                // structures of one kind, too short for their kind
                let ty = [TYPES.as_slice(), &[0x7E, 0x7F, 0xFF]].concat()[i - 11];
                for k in 0..n {
                    c.buf.extend([ty, 4, k as u8, (k >> 8) as u8, 0, 0]);
                }
            }
            34..=53 => {
                let ty = TYPES[i - 34];
                let b = structure(ty, spec(ty)[0].0, 0, 7, &STRS);
                for _ in 0..n / 20 {
                    c.buf.extend(&b);
                }
            }
            _ => return,
        }
        for v in [(2, 8), (3, 5)] {
            set_case(c, v);
            c.v3 = true;
            out(c);
        }
    })
}
pub fn big_tables() -> Space {
    space("tables beyond 64 KiB", 14, move |i, c, out| {
        c.buf.clear();
        match i / 2 {
            0 => {
                for k in 0..70_000u32 {
                    c.buf.extend([0x80, 4, k as u8, (k >> 8) as u8, 0, 0]);
                }
            }
            1 => {
                // a long string pushes the next structures over the 16-bit limit
                c.buf.extend([0x80, 4, 1, 0]);
                c.buf.extend(std::iter::repeat(b's').take(65_536 - 4 - 2));
                c.buf.extend([0, 0]);
                for h in 0..6 {
                    c.buf.extend(structure(1, 27, 0, h, &STRS));
                }
            }
            2 => {
                for k in 0..3000u32 {
                    c.buf.extend(structure(TYPES[k as usize % 20], spec(TYPES[k as usize % 20])[0].0, 0, k as u16, &STRS));
                }
            }
            3 => {
                // a framing fault beyond 64 KiB
                while c.buf.len() < 66_000 {
                    c.buf.extend([0x80, 4, 0, 0, 0, 0]);
                }
                c.buf.extend([0x80, 3, 0, 0, 0, 0]);
            }
            4 => {
                while c.buf.len() < 66_000 {
                    c.buf.extend([0x80, 5, 0, 0, 1, 0, 0]);
                }
                c.buf.extend([0x80, 4, 0, 0, b'x', 0]);
            }
            5 => {
                while c.buf.len() < 66_000 {
                    c.buf.extend([0x80, 5, 0, 0, 1, 0, 0]);
                }
                c.buf.extend([0x80, 0xF0, 0, 0, b'x', 0, 0]);
            }
            _ => {
                while c.buf.len() < 200_000 {
                    c.buf.extend([127, 5, 0, 0, 1, 0, 0]);
                }
            }
        }
        let n = c.buf.len() as u32;
        for (v3, v, len) in [
            (true, (3, 2), n),
            (true, (2, 8), n),
            (true, (2, 8), n - 1),
            (true, (3, 2), u32::MAX),
            (false, (2, 8), 0xFFFF),
            (false, (2, 8), n & 0xFFFF),
            (true, (2, 1), 65_536),
            (true, (2, 1), 65_540),
        ] {
            if (i % 2 == 1) != v3 {
                continue;
            }
            set_case(c, v);
            c.v3 = v3;
            c.len = len;
            out(c);
        }
    })
}
/// structures of every length at every alignment with neighbours
pub fn len_sweep() -> Space {
    space("every structure length between neighbours", 256, move |i, c, out| {
        for fill in [0u8, 1, 0xFF] {
            for s in 0..4 {
                c.buf.clear();
                c.buf.extend([0x80, 4, 1, 1, b'x', 0, 0]);
                let at = c.buf.len();
                c.buf.extend([0x90, i as u8, 2, 2]);
                while c.buf.len() < at + i {
                    c.buf.push(fill);
                }
                strings(&mut c.buf, &STRS[..s]);
                c.buf.extend([0x91, 4, 3, 3, 0, 0]);
                let full = c.buf.len();
                for (v, v3) in [((2, 3), false), ((3, 1), true)] {
                    set_case(c, v);
                    c.v3 = v3;
                    for l in (at + i).saturating_sub(2)..=full + 1 {
                        c.len = l as u32;
                        out(c);
                    }
                }
            }
        }
    })
}
/// every type byte x handles (all 65536, or every value of either byte) x a few lengths
pub fn types_x_handles(all: bool) -> Space {
    space("all types x handles", 256 * 16, move |i, c, out| {
        let ty = (i / 16) as u8;
        let k = (i % 16) as u32;
        let hs: Vec<u16> = if all || ty == 0x80 || ty == 200 {
            (0..4096).map(|x| (k * 4096 + x) as u16).collect()
        } else {
            (k * 16..k * 16 + 16).flat_map(|x| [x as u16, 0x1200 | x as u16, (x as u16) << 8, (x as u16) << 8 | 0xFE]).collect()
        };
        let mut lens: Vec<usize> = spec(ty).iter().map(|s| s.0).collect();
        if !all {
            lens.drain(1..lens.len().max(2) - 1);
        }
        for v in [(2, 0), (2, 6), (3, 5)] {
            for len in &lens {
                base(&mut c.buf, ty, *len, 0, 0);
                strings(&mut c.buf, &STRS);
                set_case(c, v);
                for h in &hs {
                    c.buf[2] = *h as u8;
                    c.buf[3] = (*h >> 8) as u8;
                    out(c);
                }
            }
        }
    })
}
/// raw structures of every length
pub fn raw_lengths() -> Space {
    space("raw structures of every length", 252, move |i, c, out| {
        let len = i + 4;
        for ty in [5u8, 0x7F, 0xFF] {
            for pat in [0, 2] {
                base(&mut c.buf, ty, len, pat, 0x4321);
                strings(&mut c.buf, &STRS);
                for v in [(2, 1), (3, 4)] {
                    set_case(c, v);
                    out(c);
                }
            }
        }
    })
}

/// tables of up to four structures; every other byte of the entry point takes all values (see `evals::entry_varied`)
pub fn entry_fields() -> Space {
    let m = menu();
    let tables: Vec<Vec<u8>> = vec![
        m[0].repeat(4),
        [&m[1][..], &m[4], &m[2], &m[0]].concat(),
        [&m[3][..], &m[1], &m[0], &m[6]].concat(),
        [structure(17, 0x5C, 0, 5, &STRS), structure(0, 0x1A, 0, 6, &STRS), structure(4, 0x30, 3, 7, &STRS)].concat(),
    ];
    space("tables x all other bytes of the entry point", 2 * 31, move |i, c, out| {
        let (v3, o) = (i % 2 == 1, i / 2);
        if if v3 { o >= 24 || matches!(o, 0..=8 | 12..=15) } else { matches!(o, 6 | 7 | 22 | 23) } {
            return;
        }
        for t in &tables {
            for v in [(2, 1), (2, 8), (3, 0), (3, 7)] {
                c.buf.clear();
                c.buf.extend(t);
                set_case(c, v);
                c.v3 = v3;
                for fill in 0..4u64 {
                    for x in 0..=255u64 {
                        c.aux = o as u64 | x << 8 | fill << 16;
                        out(c);
                    }
                }
            }
        }
    })
}

// ---------------------------------------------------------------- values found in the sources

/// every text of the sources and common fillers as strings of every kind
pub fn dict_strings() -> Space {
    let kinds: Vec<u8> = [0x80u8, 11, 12, 13].into_iter().chain(TYPES.into_iter().filter(|t| !str_offs(*t, &structure(*t, spec(*t).last().unwrap().0, 0, 0, &[])).is_empty())).collect();
    let words = &dict().words;
    space("texts of the sources as strings", words.len(), move |i, c, out| {
        let w = &words[i][..];
        let two = [w, b"!"].concat();
        let sets: [&[&[u8]]; 3] = [&[w], &[b"x", w, &two], &[w, w]];
        for ty in &kinds {
            for (k, s) in sets.iter().enumerate() {
                for v in [(2, 5), (3, 7)] {
                    let len = if *ty == 0x80 { 5 } else { spec(*ty).iter().filter(|s| s.1 <= v).last().unwrap_or(&spec(*ty)[0]).0 };
                    base(&mut c.buf, *ty, len, 0, 0x0708);
                    if *ty == 12 {
                        c.buf[4] = s.len() as u8;
                    } else if *ty == 0x80 {
                        c.buf[4] = 1;
                    }
                    if *ty == 22 {
                        c.buf[9] = 2;
                    }
                    for (j, o) in str_offs(*ty, &c.buf).into_iter().enumerate() {
                        c.buf[o] = [1, 2 + (j % 2) as u8, 1 + (j % 2) as u8][k];
                    }
                    strings(&mut c.buf, s);
                    set_case(c, v);
                    out(c);
                }
            }
        }
    })
}
/// every number above 255 of the sources, and its neighbours, at every offset of the latest layout
pub fn dict_numbers(types: &'static [u8]) -> Space {
    let numbers = &dict().numbers;
    space("numbers of the sources at every offset", types.len() * numbers.len(), move |i, c, out| {
        let ty = types[i % types.len()];
        let n = numbers[i / types.len()];
        let (len, v) = *spec(ty).last().unwrap();
        for pat in [0, 1] {
            base(&mut c.buf, ty, len, pat, 2);
            strings(&mut c.buf, &STRS);
            set_case(c, v);
            for o in 4..len {
                for x in [n - 1, n, n.wrapping_add(1)] {
                    for w in [2usize, 4, 8] {
                        if o + w > len || w < 8 && x >> (8 * w) != 0 {
                            continue;
                        }
                        let mut old = [0; 8];
                        old[..w].copy_from_slice(&c.buf[o..o + w]);
                        c.buf[o..o + w].copy_from_slice(&x.to_le_bytes()[..w]);
                        out(c);
                        c.buf[o..o + w].copy_from_slice(&old[..w]);
                    }
                }
            }
        }
    })
}
/// every sequence of bytes of the sources at every offset of the latest layout
pub fn dict_arrays(types: &'static [u8]) -> Option<Space> {
    let arrays = &dict().arrays;
    if arrays.is_empty() {
        return None;
    }
    Some(space("byte sequences of the sources at every offset", types.len() * arrays.len(), move |i, c, out| {
        let ty = types[i % types.len()];
        let a = &arrays[i / types.len()];
        let (len, v) = *spec(ty).last().unwrap();
        for pat in [0, 1] {
            base(&mut c.buf, ty, len, pat, 2);
            strings(&mut c.buf, &STRS);
            set_case(c, v);
            for o in 4..len {
                let e = (o + a.len()).min(len);
                let old = c.buf[o..e].to_vec();
                c.buf[o..e].copy_from_slice(&a[..e - o]);
                out(c);
                c.buf[o..e].copy_from_slice(&old);
            }
        }
    }))
}
/// numbers that the reviewed sources do not have: any two bytes and any three bytes take these values
pub fn fresh_bytes(types: &'static [u8]) -> Vec<Space> {
    let new: Vec<u8> = dict().fresh.clone();
    if new.is_empty() {
        return vec![];
    }
    let mut vals: Vec<u8> = new.iter().flat_map(|x| [x.wrapping_sub(1), *x, x.wrapping_add(1)]).collect();
    vals.extend(EDGE24);
    let mut seen = [false; 256];
    vals.retain(|x| !std::mem::replace(&mut seen[*x as usize], true));
    let mut three: Vec<u8> = new.iter().copied().take(4).collect();
    three.extend([0, 0xFF].iter().filter(|x| !new.contains(x)));
    let mut p = vec![];
    for ty in types {
        let (len, _) = *spec(*ty).last().unwrap();
        for a in 4..len {
            for pat in [0, 3] {
                p.push((*ty, len, a, pat));
            }
        }
    }
    let p2 = p.clone();
    let n = vals.len();
    let two = space(&format!("any two bytes x {n} x {n} new values of the sources"), p.len(), move |i, c, out| {
        let (ty, len, a, pat) = p[i];
        base(&mut c.buf, ty, len, pat, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, (3, 7));
        let old = c.buf[a];
        for b in a + 1..len {
            let was = c.buf[b];
            for x in &vals {
                for y in &vals {
                    if new.contains(x) || new.contains(y) {
                        c.buf[a] = *x;
                        c.buf[b] = *y;
                        out(c);
                    }
                }
            }
            c.buf[b] = was;
        }
        c.buf[a] = old;
    });
    let n = three.len();
    let three = space(&format!("any three bytes x {n} new values of the sources"), p2.len(), move |i, c, out| {
        let (ty, len, a, pat) = p2[i];
        if pat == 3 {
            return;
        }
        base(&mut c.buf, ty, len, pat, 2);
        strings(&mut c.buf, &STRS);
        set_case(c, (3, 7));
        for b in a + 1..len {
            for d in b + 1..len {
                let old = (c.buf[a], c.buf[b], c.buf[d]);
                for k in 0..n * n * n {
                    (c.buf[a], c.buf[b], c.buf[d]) = (three[k % n], three[k / n % n], three[k / n / n]);
                    out(c);
                }
                (c.buf[a], c.buf[b], c.buf[d]) = old;
            }
        }
    });
    vec![two, three]
}
/// sizes that the reviewed sources do not mention: string lengths, offsets, numbers of structures, handles, table lengths around them
pub fn fresh_sizes() -> Option<Space> {
    let mut sizes: Vec<usize> = dict().sizes.iter().flat_map(|n| [n - 1, *n, n + 1]).collect();
    sizes.sort();
    sizes.dedup();
    if sizes.is_empty() {
        return None;
    }
    Some(space("sizes that are new in the sources", sizes.len(), move |i, c, out| {
        let n = sizes[i];
        let s = vec![b's'; n];
        let mut tables: Vec<Vec<u8>> = vec![];
        for ty in [0x80u8, 1] {
            let mut b = vec![];
            base(&mut b, ty, if ty == 1 { 8 } else { 5 }, 0, n as u16);
            b[4] = 2;
            strings(&mut b, &[b"x", &s, b"y"]);
            b.extend(structure(21, 7, 0, n as u16, &[]));
            tables.push(b);
        }
        // structures at the offset
        for t in [0x80u8, 1, 17, 127] {
            let mut b = vec![0x90, 4, 1, 0];
            b.resize(n - 2, b'f');
            b.extend([0, 0]);
            b.extend(structure(t, spec(t).last().unwrap().0.max(5), 0, 9, &STRS));
            b.extend([0x91, 4, 9, 0, 0, 0]);
            tables.push(b);
        }
        if n <= 100_000 {
            let mut b = vec![];
            for k in 0..n {
                b.extend([0x80, 4, k as u8, (k >> 8) as u8, 0, 0]);
            }
            b.extend(structure(1, 8, 0, 9, &STRS));
            tables.push(b);
        }
        for t in tables {
            c.buf = t;
            let full = c.buf.len();
            for (v3, v, len) in [(true, (3, 2), full), (true, (2, 8), full), (true, (2, 8), full - 1), (true, (3, 1), n), (false, (2, 8), full & 0xFFFF), (false, (2, 8), n & 0xFFFF), (true, (3, 3), u32::MAX as usize)] {
                set_case(c, v);
                c.v3 = v3;
                c.len = len as u32;
                out(c);
            }
        }
    }))
}
/// entry points around such sizes
pub fn fresh_positions() -> Option<Space> {
    let mut sizes: Vec<usize> = dict().sizes.iter().flat_map(|n| [n & !15, n + 16 & !15, (n & !15) - 16]).collect();
    sizes.sort();
    sizes.dedup();
    if sizes.is_empty() {
        return None;
    }
    Some(space("entry points at positions that are new in the sources", sizes.len(), move |i, c, out| {
        let n = sizes[i];
        for v3 in [false, true] {
            for tail in [0usize, 1, 16, 300] {
                for at in [n, 0, n + 1] {
                    c.buf.clear();
                    c.buf.resize(at, 0);
                    c.buf.extend(sm(v3));
                    refit(&mut c.buf, at, sm(v3).len(), v3, 0);
                    let l = (at + tail + sm(v3).len()).max(if at == 0 { n + tail } else { 0 });
                    c.buf.resize(l, 0x44);
                    ep_case(c);
                    out(c);
                }
            }
        }
    }))
}

// ---------------------------------------------------------------- lists

pub fn enclosure_lists(wide: bool) -> Space {
    space("contained elements: all counts x record lengths", 256, move |i, c, out| {
        let count = i;
        for r in 0..256usize {
            let need = 0x15 + count * r;
            let mut lens = vec![need.saturating_sub(1), need, need + 1, need + 2, 255];
            if wide {
                lens.extend(0x15..=255);
            }
            lens.sort();
            lens.dedup();
            for len in lens.into_iter().filter(|l| (0x13..=255).contains(l)) {
                base(&mut c.buf, 3, len, 0, 77);
                if len > 0x13 {
                    c.buf[0x13] = count as u8;
                }
                if len > 0x14 {
                    c.buf[0x14] = r as u8;
                }
                if need < len {
                    c.buf[need] = 2;
                }
                strings(&mut c.buf, &STRS);
                set_case(c, (3, 0));
                out(c);
            }
        }
    })
}
/// every element type byte and count bytes
pub fn enclosure_elements() -> Space {
    space("contained elements: all bytes", 256, move |i, c, out| {
        for r in [1usize, 2, 3, 4] {
            for k in 0..r.min(3) {
                base(&mut c.buf, 3, 0x15 + 2 * r + 1, 0, 77);
                c.buf[0x13] = 2;
                c.buf[0x14] = r as u8;
                c.buf[0x15 + 2 * r] = 3;
                c.buf[0x15 + k] = i as u8;
                strings(&mut c.buf, &STRS);
                set_case(c, (2, 7));
                out(c);
                c.buf[0x15 + r + k] = (i as u8).wrapping_mul(3);
                out(c);
            }
        }
    })
}
pub fn slot_lists() -> Space {
    space("peer devices: all counts x lengths", 256, move |i, c, out| {
        for len in 0x11..=255usize {
            for pat in [0, 2] {
                base(&mut c.buf, 9, len, pat, 78);
                if len > 0x12 {
                    c.buf[0x12] = i as u8;
                }
                strings(&mut c.buf, &STRS);
                for v in [(3, 2), (3, 6)] {
                    set_case(c, v);
                    out(c);
                }
            }
        }
    })
}
pub fn event_lists() -> Space {
    space("log type descriptors: all counts x lengths", 256, move |i, c, out| {
        for y in 0..256usize {
            let need = 0x17 + i * y;
            for (len, v) in [(need, (2, 1)), (need, (3, 3)), (need + 1, (2, 4)), (need.saturating_sub(1), (2, 4)), (255, (2, 1)), (need, (1, 9)), (need + 3, (1, 0)), (255, (1, 255)), (need.saturating_sub(2), (1, 1))] {
                if !(0x17..=255).contains(&len) {
                    continue;
                }
                base(&mut c.buf, 15, len, 0, 79);
                c.buf[0x15] = i as u8;
                c.buf[0x16] = y as u8;
                strings(&mut c.buf, &STRS[..2]);
                set_case(c, v);
                out(c);
            }
        }
    })
}
/// two byte descriptors with every content
pub fn event_descriptors() -> Space {
    space("log type descriptors: all contents", 256, move |i, c, out| {
        base(&mut c.buf, 15, 0x17 + 6, 0, 80);
        c.buf[0x15] = 3;
        c.buf[0x16] = 2;
        strings(&mut c.buf, &[]);
        set_case(c, (2, 5));
        for k in 0..3 {
            for x in 0..=255 {
                let old = (c.buf[0x17 + 2 * k], c.buf[0x18 + 2 * k]);
                c.buf[0x17 + 2 * k] = i as u8;
                c.buf[0x18 + 2 * k] = x;
                out(c);
                c.buf[0x17 + 2 * k] = old.0;
                c.buf[0x18 + 2 * k] = old.1;
            }
        }
    })
}
pub fn group_lists() -> Space {
    space("group items: all lengths", 256, move |i, c, out| {
        for pat in 0..3 {
            for s in 0..5 {
                if i < 4 {
                    return;
                }
                base(&mut c.buf, 14, i, pat, 81);
                strings(&mut c.buf, &STRS[..s]);
                set_case(c, (2, 6));
                out(c);
                if i > 7 {
                    // every value of the bytes of the first item
                    for x in 0..=255 {
                        c.buf[5 + s % 3] = x;
                        out(c);
                    }
                }
            }
        }
    })
}
/// the same structure with an empty string area and no references to strings, at the very end of the buffer
pub fn bare(s: Space) -> Space {
    s.each(", without strings", |c, out| {
        let l = c.buf[1] as usize;
        if l < 4 || c.buf.len() < l {
            return;
        }
        let mut d = c.clone();
        d.buf.truncate(l);
        for o in str_offs(d.buf[0], &d.buf) {
            d.buf[o] = 0;
        }
        d.buf.extend([0, 0]);
        d.len = d.buf.len() as u32;
        out(&d);
    })
}
/// sequences of three structures of any decoded kind (and a raw one); aux = which of them is looked at
pub fn kind_triples(all: bool) -> Space {
    let mut kinds: Vec<Vec<u8>> = TYPES.iter().map(|t| structure(*t, spec(*t).last().unwrap().0, 0, 0x0101, &STRS)).collect();
    kinds.push(structure(0x99, 9, 0, 0x0101, &STRS));
    kinds.push(structure(127, 4, 0, 0x0101, &[]));
    kinds.push(structure(21, 6, 0, 0x0101, &[]));
    let n = kinds.len();
    space("three structures of any kind", n * n, move |i, c, out| {
        for k in 0..n {
            for hs in [[1u16, 2, 3], [7, 7, 7], [0xFFFF, 0, 0xFFFE]] {
                if !all && hs[0] == 0xFFFF && i % n != k {
                    continue;
                }
                c.buf.clear();
                for (j, h) in [i / n, i % n, k].into_iter().zip(hs) {
                    let at = c.buf.len();
                    c.buf.extend(&kinds[j]);
                    c.buf[at + 2..at + 4].copy_from_slice(&h.to_le_bytes());
                }
                for v in [(2, 8), (2, 4)] {
                    set_case(c, v);
                    out(c);
                }
            }
        }
    })
}
/// 300 structures of one type, and 40 rounds of any two kinds, with equal and with ascending handles, before others
pub fn crowds() -> Space {
    let one = |t: u8| {
        let len = if TYPES.contains(&t) { spec(t).last().unwrap().0 } else { 6 };
        structure(t, len, 0, 0x0101, &STRS)
    };
    let tail: Vec<u8> = [one(1), one(17), one(0x98)].concat();
    let mut kinds: Vec<Vec<u8>> = TYPES.iter().map(|t| one(*t)).collect();
    kinds.extend([one(0x99), one(126), one(127), structure(21, 6, 0, 0x0101, &[]), structure(1, 8, 0, 0x0101, &STRS[..1])]);
    let n = kinds.len();
    space("crowds of structures", 512 + n * n, move |i, c, out| {
        let parts = match i {
            0..=255 => vec![one(i as u8)],
            // too short to be decoded
            256..=511 => vec![structure(i as u8, 4, 0, 0x0101, &STRS)],
            _ => vec![kinds[(i - 512) / n].clone(), kinds[(i - 512) % n].clone()],
        };
        for same in [Some(0x0101u16), Some(0), Some(0xFFFF), None] {
            c.buf.clear();
            for k in 0..if i < 512 { 300u16 } else { 80 } {
                let at = c.buf.len();
                c.buf.extend(&parts[k as usize % parts.len()]);
                c.buf[at + 2..at + 4].copy_from_slice(&same.unwrap_or(k).to_le_bytes());
            }
            c.buf.extend(&tail);
            for v in [(2, 8), (3, 2)] {
                set_case(c, v);
                c.v3 = true;
                out(c);
            }
        }
    })
}
/// two structures of any kind, in both orders, where any word of one holds the handle of the other or its own
pub fn references() -> Space {
    let mut kinds: Vec<Vec<u8>> = TYPES.iter().map(|t| structure(*t, spec(*t).last().unwrap().0, 0, 0x0101, &STRS)).collect();
    kinds.push(structure(0x99, 9, 0, 0x0101, &STRS));
    let n = kinds.len();
    space("references to handles", n * n, move |i, c, out| {
        let (a, b) = (&kinds[i / n], &kinds[i % n]);
        for ha in [0x0102u16, 5] {
            for hb in [ha, 3] {
                for at in 4..a[1] as usize - 1 {
                    for after in [false, true] {
                        c.buf.clear();
                        for (k, h) in if after { [(b, hb), (a, ha)] } else { [(a, ha), (b, hb)] } {
                            let from = c.buf.len();
                            c.buf.extend(k);
                            c.buf[from + 2..from + 4].copy_from_slice(&h.to_le_bytes());
                            if h == ha && k[0] == a[0] {
                                c.buf[from + at..from + at + 2].copy_from_slice(&hb.to_le_bytes());
                            }
                        }
                        for v in [(2, 8), (3, 4)] {
                            set_case(c, v);
                            out(c);
                        }
                    }
                }
            }
        }
    })
}
/// legal structures far into a table
pub fn far() -> Space {
    let mut p = vec![];
    for t in TYPES.into_iter().chain([0x99]) {
        for (l, v) in spec(t) {
            p.push((t, *l, *v));
        }
    }
    let filler: Vec<u8> = [&[0x90u8, 4, 0, 0][..], &[b'f'; 1000], &[0, 0]].concat();
    space("structures beyond 64 KiB", p.len(), move |i, c, out| {
        let (t, l, v) = p[i];
        for at in [65_000usize, 65_530, 65_536, 66_000, 131_072, 200_000] {
            c.buf.clear();
            while c.buf.len() + filler.len() + 6 <= at {
                c.buf.extend(&filler);
            }
            let gap = at - c.buf.len();
            c.buf.extend([0x91, 4, 0, 0]);
            c.buf.resize(at - 2, b'g');
            c.buf.extend([0, 0]);
            assert!(gap >= 6 && c.buf.len() == at);
            let mut b = vec![];
            base(&mut b, t, l, 0, 0x0203);
            strings(&mut b, &STRS);
            c.buf.extend(&b);
            set_case(c, v);
            c.v3 = true;
            c.aux = at as u64;
            out(c);
        }
    })
}
pub const LISTS: &[(u8, usize)] = &[(0x80, 4), (11, 5), (12, 5), (13, 0x16), (1, 27)];
/// configuration options: every stated count x number of strings
pub fn option_counts() -> Space {
    space("configuration options: stated x actual counts", 301, move |i, c, out| {
        for len in [5usize, 6, 4] {
            base(&mut c.buf, 12, len, 0, 82);
            for k in 0..i {
                c.buf.push(b'0' + (k % 10) as u8);
                c.buf.push(0);
            }
            if i == 0 {
                c.buf.push(0);
            }
            c.buf.push(0);
            set_case(c, (3, 2));
            for n in 0..=255 {
                if len > 4 {
                    c.buf[4] = n;
                }
                out(c);
            }
        }
    })
}

// ---------------------------------------------------------------- entry points

pub const SM2: [u8; 31] = [
    b'_', b'S', b'M', b'_', 0, 31, 2, 7, 0x34, 0x12, 5, 1, 2, 3, 4, 6, b'_', b'D', b'M', b'I', b'_', 9, 0x78, 0x56, 0x0D, 0x0C, 0x0B, 0x0A, 0xBC, 0x9A, 0x27,
];
pub const SM3: [u8; 24] =
    [b'_', b'S', b'M', b'3', b'_', 0, 24, 3, 2, 1, 1, 0, 0x44, 0x33, 0x22, 0x11, 0x58, 0x57, 0x56, 0x55, 0x54, 0x53, 0x52, 0x51];
/// offset of the checksum byte
pub fn ck(v3: bool) -> usize {
    if v3 { 5 } else { 4 }
}
/// make the `n` bytes at `at` sum to `res`
pub fn refit(b: &mut [u8], at: usize, n: usize, v3: bool, res: u8) {
    if at + ck(v3) >= b.len() {
        return;
    }
    b[at + ck(v3)] = 0;
    let e = (at + n).min(b.len());
    let sum = b[at..e].iter().fold(0u8, |a, x| a.wrapping_add(*x));
    b[at + ck(v3)] = res.wrapping_sub(sum);
}
fn ep_case(c: &mut Case) {
    c.v3 = false;
    c.major = 0;
    c.minor = 0;
    c.len = 0;
    c.place = 0;
    c.aux = 0;
}
fn sm(v3: bool) -> &'static [u8] {
    if v3 { &SM3 } else { &SM2 }
}
/// stated length x available bytes x residue
pub fn ep_lengths() -> Space {
    space("entry points: stated length x available bytes", 512, move |i, c, out| {
        let v3 = i >= 256;
        let stated = i % 256;
        for avail in (0..=64).chain((stated.max(2) - 2)..=stated + 2).chain([255, 256, 257, 279, 280, 287, 288, 300, 320, 511, 512, 543, 544, 767, 768, 799]) {
            for (fill, res) in [(0u8, 0u8), (0x5A, 0), (0x5A, 1)] {
                c.buf.clear();
                c.buf.extend(sm(v3));
                c.buf[if v3 { 6 } else { 5 }] = stated as u8;
                while c.buf.len() < avail.max(32) {
                    let k = c.buf.len();
                    c.buf.push(fill.wrapping_add(k as u8 & 0xF));
                }
                c.buf.truncate(avail.max(4));
                refit(&mut c.buf, 0, stated, v3, res);
                if avail < 4 {
                    c.buf.truncate(avail);
                }
                ep_case(c);
                out(c);
            }
        }
    })
}
/// every byte of the entry point takes every value, with and without a fitting checksum
pub fn ep_bytes() -> Space {
    space("entry points: one byte x 256 values", 2 * 48, move |i, c, out| {
        let v3 = i % 2 == 1;
        let o = i / 2;
        for x in 0..=255u8 {
            for (stated, fit) in [(sm(v3).len(), true), (sm(v3).len(), false), (40, true)] {
                c.buf.clear();
                c.buf.extend(sm(v3));
                c.buf[if v3 { 6 } else { 5 }] = stated as u8;
                while c.buf.len() < 48 {
                    let k = c.buf.len();
                    c.buf.push((k * 7) as u8);
                }
                refit(&mut c.buf, 0, stated, v3, 0);
                c.buf[o] = x;
                if fit && o != ck(v3) {
                    let n = c.buf[if v3 { 6 } else { 5 }] as usize;
                    refit(&mut c.buf, 0, n, v3, 0);
                }
                ep_case(c);
                out(c);
                // and at a later position behind other data
                let b = c.buf.clone();
                c.buf.clear();
                c.buf.extend([0x5F; 32]);
                c.buf.extend(&b);
                out(c);
            }
        }
    })
}
/// an entry point with one byte of any value, and a sound one at the next aligned places
pub fn ep_pairs() -> Space {
    space("entry points: one byte x 256 values, a sound one behind", 4 * 32, move |i, c, out| {
        let (v3, next, o) = (i % 2 == 1, i / 2 % 2 == 1, i / 4);
        if o >= sm(v3).len() {
            return;
        }
        for x in 0..=255u8 {
            for fit in [true, false] {
                for at in [16usize, 32, 48] {
                    c.buf.clear();
                    c.buf.extend(sm(v3));
                    c.buf.resize(at.max(32), 0x21);
                    refit(&mut c.buf, 0, sm(v3).len(), v3, 0);
                    c.buf[o] = x;
                    if fit && o != ck(v3) {
                        let n = c.buf[if v3 { 6 } else { 5 }] as usize;
                        refit(&mut c.buf, 0, n, v3, 0);
                    }
                    c.buf.truncate(at);
                    c.buf.extend(sm(next));
                    refit(&mut c.buf, at, sm(next).len(), next, 0);
                    ep_case(c);
                    out(c);
                    c.buf.resize(96, 0x10);
                    out(c);
                }
            }
        }
    })
}
/// all pairs of bytes at edge values
pub fn ep_two_bytes() -> Space {
    space("entry points: two bytes x edge values", 2 * 32, move |i, c, out| {
        let v3 = i % 2 == 1;
        let a = i / 2;
        for b in a + 1..32 {
            for x in EDGE.into_iter().chain([23, 24, 30, 31, 32]) {
                for y in EDGE.into_iter().chain([23, 24, 30, 31, 32]) {
                    c.buf.clear();
                    c.buf.extend(sm(v3));
                    while c.buf.len() < 64 {
                        let k = c.buf.len();
                        c.buf.push((k * 11) as u8);
                    }
                    c.buf[a] = x;
                    c.buf[b] = y;
                    let n = c.buf[if v3 { 6 } else { 5 }] as usize;
                    refit(&mut c.buf, 0, n, v3, 0);
                    ep_case(c);
                    out(c);
                    c.buf[a] = x;
                    c.buf[b] = y;
                    out(c);
                }
            }
        }
    })
}
/// any two bytes of the entry point take all 65536 pairs of values, with a fitting checksum (all: and as they are)
pub fn ep_byte_pairs(all: bool) -> Space {
    space("entry points: any two bytes x 65536 values", 2 * 32 * 32, move |i, c, out| {
        let (v3, a, b) = (i % 2 == 1, i / 2 % 32, i / 64);
        if a >= b || b >= sm(v3).len() {
            return;
        }
        for w in 0..=0xFFFFu16 {
            c.buf.clear();
            c.buf.extend(sm(v3));
            while c.buf.len() < 64 {
                let k = c.buf.len();
                c.buf.push((k * 13) as u8);
            }
            c.buf[a] = w as u8;
            c.buf[b] = (w >> 8) as u8;
            ep_case(c);
            if all {
                out(c);
            }
            if a != ck(v3) && b != ck(v3) {
                let n = c.buf[if v3 { 6 } else { 5 }] as usize;
                refit(&mut c.buf, 0, n, v3, 0);
                out(c);
            }
        }
    })
}
/// any three (four) bytes of the entry point take edge values, with a fitting checksum
pub fn ep_tuples(four: bool) -> Space {
    space(if four { "entry points: any four bytes x edge values" } else { "entry points: any three bytes x edge values" }, 2 * 32 * 32, move |i, c, out| {
        let (v3, a, b) = (i % 2 == 1, i / 2 % 32, i / 64);
        let size = sm(v3).len();
        if a >= b || b >= size || a == ck(v3) || b == ck(v3) {
            return;
        }
        const VALS: [u8; 10] = [0, 1, 2, 3, 0x5F, 0x80, 0xFF, 24, 31, 32];
        let vals = if four { &VALS[..7] } else { &VALS[..] };
        let mut put = |c: &mut Case, set: &[(usize, u8)]| {
            c.buf.clear();
            c.buf.extend(sm(v3));
            while c.buf.len() < 48 {
                let k = c.buf.len();
                c.buf.push((k * 13) as u8);
            }
            for (at, x) in set {
                c.buf[*at] = *x;
            }
            ep_case(c);
            let n = c.buf[if v3 { 6 } else { 5 }] as usize;
            refit(&mut c.buf, 0, n, v3, 0);
            out(c);
        };
        for d in (b + 1..size).filter(|d| *d != ck(v3)) {
            for x in vals {
                for y in vals {
                    for z in vals {
                        if !four {
                            put(c, &[(a, *x), (b, *y), (d, *z)]);
                            continue;
                        }
                        for e in (d + 1..size).filter(|e| *e != ck(v3)) {
                            for u in vals {
                                put(c, &[(a, *x), (b, *y), (d, *z), (e, *u)]);
                            }
                        }
                    }
                }
            }
        }
    })
}
/// each of six (seven) blocks of 16 bytes starts nothing, an anchor, a sound or a broken entry point, or one at an odd place
pub fn ep_blocks(blocks: u32) -> Space {
    const WAYS: usize = 9;
    space("entry points: blocks of every kind", WAYS * WAYS, move |i, c, out| {
        for rest in 0..WAYS.pow(blocks - 2) {
            let mut k = rest * WAYS * WAYS + i;
            c.buf.clear();
            c.buf.resize(16 * blocks as usize + 16, 0x11);
            for j in 0..blocks as usize {
                let at = 16 * j;
                let way = k % WAYS;
                k /= WAYS;
                let mut whole = |at: usize, v3: bool, residue: u8| {
                    let e = sm(v3);
                    c.buf[at..at + e.len()].copy_from_slice(e);
                    refit(&mut c.buf, at, e.len(), v3, residue);
                };
                match way {
                    0 => {}
                    1 => c.buf[at..at + 4].copy_from_slice(b"_SM_"),
                    2 => c.buf[at..at + 5].copy_from_slice(b"_SM3_"),
                    3 => whole(at, false, 0),
                    4 => whole(at, true, 0),
                    5 => whole(at, false, 1),
                    6 => whole(at, true, 0x80),
                    7 if j + 1 < blocks as usize => whole(at + 1, false, 0),
                    8 if j + 1 < blocks as usize => whole(at + 8, true, 0),
                    _ => {}
                }
            }
            ep_case(c);
            out(c);
        }
    })
}
/// all checksum bytes x majors x minors
pub fn ep_checksums() -> Space {
    space("entry points: versions x checksums", 512, move |i, c, out| {
        let v3 = i >= 256;
        for k in 0..=255u8 {
            c.buf.clear();
            c.buf.extend(sm(v3));
            c.buf.extend([1; 9]);
            c.buf[if v3 { 7 } else { 6 }] = i as u8;
            c.buf[if v3 { 8 } else { 7 }] = k;
            refit(&mut c.buf, 0, sm(v3).len(), v3, 0);
            ep_case(c);
            out(c);
            refit(&mut c.buf, 0, sm(v3).len(), v3, k);
            out(c);
        }
    })
}
/// one or two anchors at every position; complete, partial and broken ones
pub fn ep_positions(max: usize) -> Space {
    space("entry points: pairs of positions and kinds", max + 1, move |i, c, out| {
        // kinds: 0/1 valid SM2/SM3, 2/3 bad checksum, 4 bare SM2 anchor, 5 bare SM3 anchor, 6 partial anchor, 7 none
        let put = |b: &mut Vec<u8>, at: usize, kind: usize| {
            let (v3, part): (bool, &[u8]) = match kind {
                0 | 2 => (false, &SM2),
                1 | 3 => (true, &SM3),
                4 => (false, b"_SM_"),
                5 => (true, b"_SM3_"),
                6 => (false, b"_SM3"),
                _ => return,
            };
            if b.len() < at + part.len() {
                b.resize(at + part.len(), 0x11);
            }
            b[at..at + part.len()].copy_from_slice(part);
            if kind < 4 {
                refit(b, at, part.len(), v3, if kind >= 2 { 0x80 } else { 0 });
            }
        };
        for j in 0..=max {
            for a in 0..7 {
                for b in 0..8 {
                    for tail in [0usize, 40] {
                        c.buf.clear();
                        put(&mut c.buf, j, b);
                        put(&mut c.buf, i, a);
                        let n = c.buf.len() + tail;
                        c.buf.resize(n, 0x22);
                        ep_case(c);
                        out(c);
                    }
                    if b == 7 && j > 0 {
                        break;
                    }
                }
            }
        }
    })
}
/// the last aligned block holds a truncated entry point of every size
pub fn ep_truncated() -> Space {
    space("entry points: every truncation at block positions", 80, move |i, c, out| {
        let v3 = i % 2 == 1;
        for blocks in [0usize, 1, 2, 3, 15, 16, 17, 4095, 4096] {
            c.buf.clear();
            c.buf.resize(blocks * 16, 0x33);
            c.buf.extend(sm(v3));
            c.buf.resize(blocks * 16 + 40, 0);
            refit(&mut c.buf, blocks * 16, sm(v3).len(), v3, 0);
            c.buf.truncate(blocks * 16 + i / 2);
            ep_case(c);
            out(c);
        }
    })
}
/// buffers over {'_','S','M','3',0}
pub fn ep_alphabet(max: usize) -> Space {
    let alpha = *b"_SM3\0";
    space("anchor-like prefixes", 125, move |i, c, out| {
        for n in 3..=max {
            let total = 5usize.pow(n as u32 - 3);
            for k in 0..total {
                for at in [0usize, 16, 1, 15] {
                    for full in [false, true] {
                        c.buf.clear();
                        c.buf.resize(at, b'_');
                        for (p, d) in [(i, 3), (k, n - 3)] {
                            let mut x = p;
                            for _ in 0..d {
                                c.buf.push(alpha[x % 5]);
                                x /= 5;
                            }
                        }
                        if full {
                            c.buf.extend(&SM3[5..]);
                            c.buf.resize(at + 48, 0);
                            for (l, z) in [(31, false), (24, true)] {
                                c.buf[at + if z { 6 } else { 5 }] = l;
                                refit(&mut c.buf, at, l as usize, z, 0);
                                ep_case(c);
                                out(c);
                            }
                        } else {
                            ep_case(c);
                            out(c);
                        }
                    }
                }
            }
        }
    })
}
/// large buffers: entry point far away, available bytes that are multiples of 256
pub fn ep_large() -> Space {
    space("entry points in large buffers", 2 * 40, move |i, c, out| {
        let v3 = i % 2 == 1;
        for at in [0usize, 16, 4096, 65_520, 65_536, 65_552, 0xF_0000] {
            for rest in [256usize, 512, 65_536, 65_560, 1 << 20, 31 + i / 2] {
                for stated in [sm(v3).len(), 32, 200, 255] {
                    c.buf.clear();
                    c.buf.resize(at, 0);
                    c.buf.extend(sm(v3));
                    c.buf.resize(at + rest, (i / 2) as u8);
                    c.buf[at + if v3 { 6 } else { 5 }] = stated as u8;
                    refit(&mut c.buf, at, stated, v3, 0);
                    ep_case(c);
                    out(c);
                }
                if i >= 4 {
                    break;
                }
            }
        }
    })
}
/// the numeric fields take bit pairs
pub fn ep_numbers() -> Space {
    space("entry points: bit pairs in the numeric fields", 2 * 64, move |i, c, out| {
        let v3 = i % 2 == 1;
        let (lo, hi) = if v3 { (7, 24) } else { (6, 31) };
        let a = i / 2;
        for base in [0u8, 0xFF] {
            for o in lo..hi {
                for b in 0..64 {
                    c.buf.clear();
                    c.buf.extend(sm(v3));
                    c.buf.resize(40, 0);
                    for k in lo + 1..hi {
                        c.buf[k] = base;
                    }
                    for bit in [a, b] {
                        if o + bit / 8 < hi {
                            c.buf[o + bit / 8] ^= 1 << (bit % 8);
                        }
                    }
                    refit(&mut c.buf, 0, sm(v3).len(), v3, 0);
                    ep_case(c);
                    out(c);
                }
            }
        }
    })
}

// ---------------------------------------------------------------- values

/// all numbers below `n` in `aux`
pub fn numbers(name: &str, n: u64) -> Space {
    let chunks = (n as usize).div_ceil(4096);
    space(name, chunks, move |i, c, out| {
        c.buf.clear();
        ep_case(c);
        for k in (i as u64 * 4096)..((i as u64 + 1) * 4096).min(n) {
            c.aux = k;
            out(c);
        }
    })
}

/// the UUID: every byte takes all values in every version
pub fn uuids() -> Space {
    let vs = versions();
    space("uuid bytes x versions", vs.len() * 2, move |i, c, out| {
        base(&mut c.buf, 1, 0x1B, (i % 2) as u8 * 2, 0x0B0C);
        strings(&mut c.buf, &STRS);
        set_case(c, vs[i / 2]);
        for o in 8..24 {
            let old = c.buf[o];
            for x in 0..=255 {
                c.buf[o] = x;
                out(c);
            }
            c.buf[o] = old;
        }
    })
}
/// structures of legal length +-1 with 0..=5 strings, all references pointing to the same number 0..=6 or to different ones
pub fn string_sets_x_lengths(types: &'static [u8]) -> Space {
    let vs = versions();
    space("legal lengths +-1 x versions x numbers of strings", types.len() * vs.len(), move |i, c, out| {
        let ty = types[i % types.len()];
        let mut last = 0;
        for (l, _) in spec(ty) {
            for len in (*l).max(5) - 1..=l + 1 {
                if len <= last {
                    continue;
                }
                last = len;
                for n in 0..=5usize {
                    for r in 0..8u8 {
                        base(&mut c.buf, ty, len, 0, 0x0D0E);
                        if r < 7 {
                            for o in str_offs(ty, &c.buf) {
                                c.buf[o] = r;
                            }
                        }
                        if ty == 12 && len > 4 {
                            c.buf[4] = r;
                        }
                        strings(&mut c.buf, &STRS[..n]);
                        set_case(c, vs[i / types.len()]);
                        out(c);
                    }
                }
            }
        }
    })
}
/// peer device bytes: up to 3 devices, cut off anywhere; two adjacent (thorough: any two) bytes take all values
pub fn peers(all: bool) -> Space {
    let mut lanes = vec![];
    for a in 0..5usize {
        for b in a + 1..5 {
            if all || b == a + 1 {
                lanes.push((a, b));
            }
        }
    }
    space("peer devices: pairs of bytes", lanes.len() * 256 + 16, move |i, c, out| {
        c.buf.clear();
        ep_case(c);
        if i >= lanes.len() * 256 {
            for n in 0..16u8 {
                c.buf.push(n.wrapping_mul(37).wrapping_add(i as u8));
                out(c);
            }
            return;
        }
        let (a, b) = lanes[i / 256];
        for fill in [0, 0xFF, 0x31] {
            c.buf.clear();
            c.buf.extend([fill; 5]);
            c.buf[a] = i as u8;
            for x in 0..=255 {
                c.buf[b] = x;
                out(c);
            }
        }
    })
}
/// string areas over {NUL, 'A', FF} behind the structures that list their strings
pub fn string_areas_of(all: bool) -> Space {
    let max = if all { 10 } else { 8 };
    space("string areas behind listing structures", 3 * (max + 1), move |i, c, out| {
        let n = i / 3;
        let total = 3usize.pow(n as u32);
        for k in 0..total {
            for count in 0..=4u8 {
                match i % 3 {
                    0 => base(&mut c.buf, 11, 5, 0, 5),
                    1 => base(&mut c.buf, 12, 5, 0, 5),
                    _ => base(&mut c.buf, 13, 0x16, 1, 5),
                }
                c.buf[4] = count;
                if i % 3 == 2 {
                    c.buf[0x15] = count;
                }
                let mut x = k;
                for _ in 0..n {
                    c.buf.push([0, b'A', 0xFF][x % 3]);
                    x /= 3;
                }
                c.buf.extend([0, 0]);
                set_case(c, (2, 7));
                out(c);
            }
        }
    })
}
/// the byte wide bit fields of real structures with all values; aux = which
pub fn real_bytes() -> Space {
    space("bit fields: all bytes", 6, move |i, c, out| {
        for x in 0..256 {
            crate::values::field_bytes(&mut c.buf, i, x);
            set_case(c, (3, 5));
            c.aux = i as u64;
            out(c);
        }
    })
}
/// BIOS characteristics and POST results: all bit pairs over zeros and ones, all values of every byte (thorough: of any two bytes)
pub fn real_words(all: bool) -> Space {
    let name = if all { "64-bit bit fields: bit pairs, byte pairs" } else { "64-bit bit fields: bit pairs, bytes" };
    space(name, 2 * (64 + 28), move |i, c, out| {
        let which = 6 + i / 92;
        let mut go = |v: u64| {
            if which == 6 {
                crate::values::field_bytes(&mut c.buf, 6, v);
            } else {
                c.buf.clear();
                c.buf.extend(v.to_le_bytes());
            }
            set_case(c, (3, 5));
            c.aux = which as u64;
            out(c);
        };
        let a = i % 92;
        if a < 64 {
            for base in [0u64, u64::MAX] {
                for b in 0..64 {
                    go(base ^ 1 << a ^ if a == b { 0 } else { 1 << b });
                }
            }
            return;
        }
        let mut pair = a - 64;
        let (mut x, mut y) = (0, 1);
        while pair > 0 {
            pair -= 1;
            y += 1;
            if y == 8 {
                x += 1;
                y = x + 1;
            }
        }
        for base in [0u64, u64::MAX] {
            for p in 0..256u64 {
                for q in 0..256u64 {
                    if !all && q != 0 && q != p && q != 255 {
                        continue;
                    }
                    go(base & !(0xFF << (8 * x)) & !(0xFF << (8 * y)) | p << (8 * x) | q << (8 * y));
                }
            }
        }
    })
}

/// small lists of every kind and entry size; aux = offset | value << 16 of the byte that is changed
pub fn list_neighbours() -> Space {
    let mut p: Vec<(Vec<u8>, std::ops::Range<usize>, (u8, u8))> = vec![];
    for r in 0..=6usize {
        for count in 0..=3usize {
            let need = 0x15 + r * count;
            for len in [need, need + 1, need + 3] {
                let mut b = vec![];
                base(&mut b, 3, len, 0, 7);
                b[0x13] = count as u8;
                b[0x14] = r as u8;
                if need < len {
                    b[need] = 2;
                }
                strings(&mut b, &STRS);
                p.push((b, 0x13..len, (3, 1)));
            }
            let need = 0x17 + r * count;
            let mut b = vec![];
            base(&mut b, 15, need, 0, 7);
            b[0x15] = count as u8;
            b[0x16] = r as u8;
            strings(&mut b, &STRS);
            p.push((b.clone(), 0x17..need, (3, 1)));
            p.push((b, 0x15..need, (1, 1)));
        }
    }
    for n in 0..=4usize {
        for len in 0x13 + 5 * n..=0x1B + 5 * n {
            let mut b = vec![];
            base(&mut b, 9, len, 0, 7);
            b[0x12] = n as u8;
            strings(&mut b, &STRS);
            p.push((b, 0x12..len, (3, 5)));
        }
    }
    for len in 5..=20 {
        p.push((structure(14, len, 0, 7, &STRS), 4..len, (2, 8)));
    }
    for (ty, len) in [(11u8, 5usize), (12, 5), (13, 0x16), (13, 0x15)] {
        for n in 0..=5 {
            let mut b = structure(ty, len, 0, 7, &STRS[..n]);
            b[4] = n as u8;
            b[len - 1] = n as u8;
            let e = b.len() - 2;
            p.push((b, 4..e, (2, 8)));
        }
    }
    space("lists differing in one byte", p.len(), move |i, c, out| {
        let (b, range, v) = &p[i];
        c.buf.clear();
        c.buf.extend(b);
        set_case(c, *v);
        for o in range.clone() {
            for x in 0..=255u64 {
                c.aux = o as u64 | x << 16;
                out(c);
            }
        }
    })
}

/// does the model's walk of this case contain a structure that is accepted?
pub fn decodable(c: &Case) -> bool {
    model::Walk::new(&c.buf, c.len, (c.major, c.minor)).any(|i| matches!(i, model::Item::St(s) if model::verdict(&s).accept()))
}

/// slices of 0..=40 bytes, every byte taking every value
pub fn slices() -> Space {
    space("slices x one byte x 256 values", 41, |n, c, out| {
        *c = Case::default();
        for pat in 0..2u8 {
            c.buf = (0..n).map(|i| if pat == 0 { 0 } else { 0x81 + i as u8 }).collect();
            out(c);
            for i in 0..n {
                let old = c.buf[i];
                for v in 0..=255 {
                    c.buf[i] = v;
                    out(c);
                }
                c.buf[i] = old;
            }
        }
    })
}

/// every layout in a table with long strings, for the sweep over addresses
pub fn addressed() -> Space {
    let p = points(&TYPES, false);
    space("layouts x addresses modulo the page size", p.len(), move |i, c, out| {
        let (ty, len, v) = p[i];
        base(&mut c.buf, ty, len, 0, 0x7F80);
        strings(&mut c.buf, &STRS);
        set_case(c, v);
        let one = c.buf.clone();
        c.buf.extend([200, 4, 1, 2]);
        let long = [b'x'; 40];
        strings(&mut c.buf, &[&long, &long[..33], &long[..18]]);
        c.buf.extend(one);
        c.len = c.buf.len() as u32;
        out(c);
    })
}
/// entry points for the sweep over addresses: sound and broken ones, one or two blocks behind the start
pub fn ep_addressed() -> Space {
    space("entry points x addresses modulo the page size", 2 * 3 * 3, |i, c, out| {
        let (v3, block, kind) = (i % 2 == 1, i / 2 % 3, i / 6);
        ep_case(c);
        let n = if v3 { 24 } else { 31 };
        let mut e = sm(v3).to_vec();
        e.resize(n, 3);
        e[if v3 { 6 } else { 5 }] = n as u8;
        refit(&mut e, 0, n, v3, (kind == 1) as u8);
        let mut b = vec![0u8; 16 * block];
        // an anchor at an unaligned place first
        if kind == 2 && block > 0 {
            b[1..6].copy_from_slice(&sm(v3)[..5]);
        }
        b.extend(e);
        c.buf = b;
        out(c);
    })
}

/// structures whose string area gains a byte of any value, or loses one, anywhere; aux as for `distinct`
pub fn string_edits() -> Space {
    let p: Vec<_> = TYPES.iter().map(|t| *t).chain([200]).collect();
    space("pairs: one byte more or less in the strings", p.len() * 2, move |i, c, out| {
        let ty = p[i / 2];
        let (len, _) = spec(ty).last().copied().unwrap_or((9, (3, 1)));
        base(&mut c.buf, ty, len, 0, 0x7F80);
        set_case(c, (3, 7));
        if i % 2 == 0 {
            strings(&mut c.buf, &STRS);
        } else {
            strings(&mut c.buf, &[b"x", b"Ab ", b" y", b"0", b"\tz\n"]);
            for o in str_offs(ty, &c.buf.clone()) {
                c.buf[o] = c.buf[o] % 6;
            }
        }
        c.len = c.buf.len() as u32;
        for o in len..c.buf.len() - 1 {
            for x in 1..=255u64 {
                c.aux = o as u64 | x << 16 | 1 << 24;
                out(c);
            }
            c.aux = o as u64 | 2 << 24;
            out(c);
        }
    })
}
