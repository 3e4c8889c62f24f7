//! The reference model: how an SMBIOS table is laid out and what every byte of a structure means,
//! written from the specification as plain reads of the raw bytes, and the comparison of a decoded
//! structure with it.
use crate::tables as t;
use dmidecode::bitfield::BitField;
use dmidecode::{self as d, InfoType, MalformedStructureError as Mse, Structure};

/// what a comparison looks at
pub const A: u32 = 1; // accepted or rejected
pub const X: u32 = 2; // identity of the error
pub const K: u32 = 4; // kind and handle
pub const F: u32 = 8; // plain fields
pub const S_: u32 = 16; // string fields
pub const E: u32 = 32; // enumerated fields
pub const B: u32 = 64; // bit fields and flag sets
pub const I: u32 = 128; // lists
pub const D: u32 = 256; // derived quantities
pub const P: u32 = 512; // everything handed out lies in the buffer
pub const W: u32 = 1024; // framing of the walk
pub const R_: u32 = 2048; // string references that must (not) resolve
pub const FIELDS: u32 = F | S_ | E | B | I;

/// One structure of the table as the model sees it.
#[derive(Clone, Copy, Debug)]
pub struct S<'a> {
    pub pos: usize,
    pub ty: u8,
    pub len: u8,
    pub handle: u16,
    /// formatted area, header included
    pub f: &'a [u8],
    /// string area, terminators included
    pub s: &'a [u8],
    pub v: (u8, u8),
}
#[derive(Clone, Copy, Debug)]
pub enum Item<'a> {
    BadSize(u32, u8),
    Unterm(u32),
    St(S<'a>),
}
/// The walk as a state machine: position, limit, finished.
#[derive(Clone, Debug)]
pub struct Walk<'a> {
    pub buf: &'a [u8],
    pub limit: usize,
    pub pos: usize,
    pub v: (u8, u8),
    pub done: bool,
}
impl<'a> Walk<'a> {
    pub fn new(buf: &'a [u8], announced: u32, v: (u8, u8)) -> Self {
        Walk { buf, limit: buf.len().min(announced as usize), pos: 0, v, done: false }
    }
}
impl<'a> Iterator for Walk<'a> {
    type Item = Item<'a>;
    fn next(&mut self) -> Option<Item<'a>> {
        if self.done || self.limit < self.pos + 4 {
            self.done = true;
            return None;
        }
        let b = self.buf;
        let p = self.pos;
        let len = b[p + 1] as usize;
        if len < 4 || p + len >= self.limit {
            self.done = true;
            return Some(Item::BadSize(p as u32, len as u8));
        }
        let mut e = p + len;
        loop {
            if e + 1 >= b.len() {
                self.done = true;
                return Some(Item::Unterm(p as u32));
            }
            if b[e] == 0 && b[e + 1] == 0 {
                break;
            }
            e += 1;
        }
        e += 2;
        self.pos = e;
        let ty = b[p];
        if self.v.0 >= 3 && ty == 127 {
            self.done = true;
        }
        Some(Item::St(S {
            pos: p,
            ty,
            len: len as u8,
            handle: u16::from_le_bytes([b[p + 2], b[p + 3]]),
            f: &b[p..p + len],
            s: &b[p + len..e],
            v: self.v,
        }))
    }
}

impl<'a> S<'a> {
    pub fn has(&self, off: usize, n: usize) -> bool {
        off + n <= self.f.len()
    }
    pub fn u8(&self, o: usize) -> u8 {
        self.f[o]
    }
    pub fn u16(&self, o: usize) -> u16 {
        self.f[o] as u16 | (self.f[o + 1] as u16) << 8
    }
    pub fn u32(&self, o: usize) -> u32 {
        self.u16(o) as u32 | (self.u16(o + 2) as u32) << 16
    }
    pub fn u64(&self, o: usize) -> u64 {
        self.u32(o) as u64 | (self.u32(o + 4) as u64) << 32
    }
    pub fn o8(&self, o: usize) -> Option<u8> {
        if self.has(o, 1) { Some(self.u8(o)) } else { None }
    }
    pub fn o16(&self, o: usize) -> Option<u16> {
        if self.has(o, 2) { Some(self.u16(o)) } else { None }
    }
    pub fn o32(&self, o: usize) -> Option<u32> {
        if self.has(o, 4) { Some(self.u32(o)) } else { None }
    }
    pub fn o64(&self, o: usize) -> Option<u64> {
        if self.has(o, 8) { Some(self.u64(o)) } else { None }
    }
    /// bytes of string number `n` (from 1)
    pub fn raw_string(&self, n: usize) -> Option<&'a [u8]> {
        let mut a = self.s;
        let mut k = 1;
        loop {
            let e = a.iter().position(|x| *x == 0)?;
            if e == 0 {
                return None;
            }
            if k == n {
                return Some(&a[..e]);
            }
            a = &a[e + 1..];
            k += 1;
        }
    }
    pub fn string(&self, n: u8) -> Option<&'a str> {
        if n == 0 {
            return Some("");
        }
        std::str::from_utf8(self.raw_string(n as usize)?).ok()
    }
    /// the string the field at `o` refers to; None if dangling; the field must exist
    pub fn str_at(&self, o: usize) -> Option<&'a str> {
        self.string(self.u8(o))
    }
    /// strings up to the first that is missing or not UTF-8
    pub fn readable(&self) -> (Vec<&'a str>, bool) {
        let mut out = vec![];
        let mut a = self.s;
        loop {
            let e = match a.iter().position(|x| *x == 0) {
                None | Some(0) => return (out, true),
                Some(e) => e,
            };
            match std::str::from_utf8(&a[..e]) {
                Ok(s) => out.push(s),
                Err(_) => return (out, false),
            }
            a = &a[e + 1..];
        }
    }
}

/// why a structure is refused
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Er {
    /// required length of the formatted area (None: not representable, unspecified)
    Len(Option<u8>),
    /// a mandatory field is missing
    Slice,
    /// a string number that does not resolve
    Str(u8),
}
/// all acceptable reasons; empty: the structure is accepted
#[derive(Clone, Copy, Debug, Default)]
pub struct Verdict {
    e: [Option<Er>; 10],
    n: usize,
}
impl Verdict {
    fn one(e: Er) -> Verdict {
        let mut v = Verdict::default();
        v.add(e);
        v
    }
    fn add(&mut self, e: Er) {
        self.e[self.n] = Some(e);
        self.n += 1;
    }
    pub fn accept(&self) -> bool {
        self.n == 0
    }
    pub fn list(&self) -> impl Iterator<Item = Er> + '_ {
        self.e[..self.n].iter().map(|e| e.unwrap())
    }
    fn strings(s: &S, offs: &[usize]) -> Verdict {
        let mut v = Verdict::default();
        for o in offs {
            if s.str_at(*o).is_none() {
                v.add(Er::Str(s.u8(*o)));
            }
        }
        v
    }
}

pub fn typed(ty: u8) -> bool {
    matches!(ty, 0..=4 | 7..=9 | 11..=22)
}

/// layout of the variable part of an enclosure: offset of contained elements' data (start, count, record length) and of the SKU
pub struct Encl {
    pub list: Option<(usize, u8, u8)>,
    pub sku: Option<usize>,
}
pub fn encl(s: &S) -> Encl {
    if !s.has(0x13, 2) {
        return Encl { list: None, sku: None };
    }
    let (c, r) = (s.u8(0x13) as usize, s.u8(0x14) as usize);
    if !s.has(0x15, c * r) {
        return Encl { list: None, sku: None };
    }
    let k = 0x15 + c * r;
    Encl { list: Some((0x15, c as u8, r as u8)), sku: if s.has(k, 1) { Some(k) } else { None } }
}

/// which layout a processor structure has (20, 21, 23, 25, 26, 30)
pub fn proc_layout(s: &S) -> u8 {
    let mut l = 20;
    for (v, n, x) in [((2, 1), 0x20, 21), ((2, 3), 0x23, 23), ((2, 5), 0x28, 25), ((2, 6), 0x2A, 26), ((3, 0), 0x30, 30)] {
        if s.v >= v && s.f.len() >= n {
            l = x;
        }
    }
    l
}

pub fn verdict(s: &S) -> Verdict {
    let n = s.f.len();
    let len = |req: usize| Verdict::one(Er::Len(Some(req as u8)));
    let (strs, miss): (&[usize], usize) = match s.ty {
        0 => {
            if n < 0x12 {
                return len(0x12);
            }
            (&[4, 5, 8], 0)
        }
        1 => {
            if n < 8 {
                return len(8);
            }
            if s.v >= (2, 4) && n >= 0x1B {
                (&[4, 5, 6, 7, 0x19, 0x1A], 0)
            } else {
                (&[4, 5, 6, 7], 0)
            }
        }
        2 => {
            if n < 8 {
                return len(8);
            }
            (if n > 0xA { &[4, 5, 6, 7, 8, 0xA] } else if n > 8 { &[4, 5, 6, 7, 8] } else { &[4, 5, 6, 7] }, 0)
        }
        3 => {
            if n < 9 {
                return len(9);
            }
            let mut v = Verdict::strings(s, &[4, 6, 7, 8]);
            if let Some(o) = encl(s).sku {
                if s.str_at(o).is_none() {
                    v.add(Er::Str(s.u8(o)));
                }
            }
            return v;
        }
        4 => {
            if n < 0x1A {
                return len(0x1A);
            }
            (if proc_layout(s) >= 23 { &[4, 7, 0x10, 0x20, 0x21, 0x22] } else { &[4, 7, 0x10] }, 0)
        }
        7 => {
            if n < 0xF {
                return len(0xF);
            }
            (&[4], 0)
        }
        8 => {
            if n < 9 {
                return len(9);
            }
            (&[4, 6], 0)
        }
        9 => {
            let v = s.v;
            if v >= (2, 0) && v < (2, 1) && n != 0x0C {
                return len(0x0C);
            }
            if v >= (2, 1) && v < (2, 6) && n != 0x0D {
                return len(0x0D);
            }
            if v >= (2, 6) && v < (3, 2) && n != 0x11 {
                return len(0x11);
            }
            if v >= (3, 2) && n < 0x11 {
                return len(0x11);
            }
            (&[4], 0x0C)
        }
        11 => (&[], 0),
        12 => {
            if n < 5 {
                return Verdict::one(Er::Slice);
            }
            let (l, ok) = s.readable();
            // a string that is not UTF-8 ends what can be counted; both answers are defensible behind it
            let _ = ok;
            return if l.len() != s.u8(4) as usize { Verdict::one(Er::Str(s.u8(4))) } else { Verdict::default() };
        }
        13 => {
            let min = if s.v >= (2, 1) { 0x16 } else { 0x15 };
            if n < min {
                return len(min);
            }
            (&[], 0)
        }
        14 => {
            if n < 5 {
                return len(5);
            }
            (&[4], 0)
        }
        15 => {
            if s.v == (2, 0) && n != 0x14 {
                return len(0x14);
            }
            if s.v >= (2, 1) {
                if n < 0x17 {
                    return len(0x17);
                }
                let want = 0x17 + s.u8(0x15) as usize * s.u8(0x16) as usize;
                if n != want {
                    return Verdict::one(Er::Len(if want > 255 { None } else { Some(want as u8) }));
                }
            }
            (&[], 0x14)
        }
        16 => {
            if s.v < (2, 1) {
                (&[], 0)
            } else if n < 0x0F {
                (&[], 0x0F)
            } else if s.v >= (2, 7) && s.u32(7) == 0x8000_0000 {
                (&[], 0x17)
            } else {
                (&[], 0)
            }
        }
        17 => {
            if n < 0x15 {
                return len(0x15);
            }
            let k = [0x10usize, 0x11, 0x17, 0x18, 0x19, 0x1A];
            let m = 2 + (0x17..=0x1A).filter(|o| s.has(*o, 1)).count();
            return Verdict::strings(s, &k[..m]);
        }
        18 => {
            if s.v >= (2, 1) && n != 0x17 {
                return len(0x17);
            }
            (&[], 0x17)
        }
        19 => {
            if s.v >= (2, 1) && s.v < (2, 7) && n != 0x0F {
                return len(0x0F);
            }
            if s.v >= (2, 7) && n != 0x1F {
                return len(0x1F);
            }
            (&[], 0x0F)
        }
        20 => {
            if s.v >= (2, 1) && s.v < (2, 7) && n != 0x13 {
                return len(0x13);
            }
            if s.v >= (2, 7) && n != 0x23 {
                return len(0x23);
            }
            (&[], 0x13)
        }
        21 => {
            if s.v >= (2, 1) && n != 7 {
                return len(7);
            }
            (&[], 7)
        }
        22 => {
            if s.v == (2, 1) && n != 0x10 {
                return len(0x10);
            }
            if s.v >= (2, 2) && n != 0x1A {
                return len(0x1A);
            }
            (&[4, 5, 8, 0xE], 0x10)
        }
        _ => (&[], 0),
    };
    if n < miss {
        // some string reference may be dangling as well: either is a correct answer
        let mut v = Verdict::one(Er::Slice);
        for o in strs.iter().filter(|o| s.has(**o, 1)) {
            if s.str_at(*o).is_none() {
                v.add(Er::Str(s.u8(*o)));
            }
        }
        return v;
    }
    Verdict::strings(s, strs)
}

fn inside(buf: &[u8], p: *const u8, n: usize) -> bool {
    let lo = buf.as_ptr() as usize;
    n == 0 || (p as usize >= lo && p as usize + n <= lo + buf.len())
}

macro_rules! eq {
    ($m:expr, $asp:expr, $name:expr, $got:expr, $want:expr) => {
        if $m & ($asp) != 0 {
            let (g, w) = (&$got, &$want);
            if *g != *w {
                return Err(format!("{}: decoded as {:?}, the bytes say {:?}", $name, g, w));
            }
        }
    };
}
/// flags decoded as a mask: the raw value, and each named flag
macro_rules! mask {
    ($m:expr, $name:expr, $got:expr, $want:expr, $t:ty, [$($n:ident = $v:expr),* $(,)?]) => {
        if $m & (F | B) != 0 {
            let (g, w) = (&$got, $want);
            let mut all = 0;
            $(
                all |= $v;
                if g.contains(<$t>::$n) != (w & $v == $v) || g.intersects(<$t>::$n) != (w & $v != 0) {
                    return Err(format!("{}: {} of {:#x} wrong, decoded as {:?}", $name, stringify!($n), w, g));
                }
            )*
            if g.bits() != w & all {
                return Err(format!("{}: decoded as {:?}, the bytes say {:#x}", $name, g, w & all));
            }
        }
    };
}
/// string field: contents and place
macro_rules! st {
    ($m:expr, $buf:expr, $name:expr, $got:expr, $want:expr) => {{
        let g: &str = $got;
        eq!($m, S_, $name, g, $want.unwrap_or("<dangling>"));
        if $m & P != 0 && !inside($buf, g.as_ptr(), g.len()) {
            return Err(format!("{}: string lies outside of the buffer", $name));
        }
    }};
}
macro_rules! ost {
    ($m:expr, $buf:expr, $name:expr, $got:expr, $want:expr) => {{
        let g: Option<&str> = $got;
        eq!($m, S_ | F, $name, g, $want);
        if let (true, Some(g)) = ($m & P != 0, g) {
            if !inside($buf, g.as_ptr(), g.len()) {
                return Err(format!("{}: string lies outside of the buffer", $name));
            }
        }
    }};
}
/// consume an iterator completely and compare, then make sure it stays finished
pub fn drain<T: PartialEq + std::fmt::Debug>(name: &str, mut it: impl Iterator<Item = T>, want: &[T], open: bool) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        match it.next() {
            Some(g) if g == *w => {}
            g => return Err(format!("{name}: entry {i} is {g:?}, the bytes say {w:?}")),
        }
    }
    if open {
        return Ok(());
    }
    for _ in 0..3 {
        if let Some(g) = it.next() {
            return Err(format!("{name}: entry {g:?} behind the last one of {}", want.len()));
        }
    }
    Ok(())
}

pub fn check_error(s: &S, got: &Mse, v: &Verdict) -> Result<(), String> {
    let info = t::lib_info_type(s.ty);
    let hit = v.list().any(|e| match (e, got) {
        (Er::Len(n), Mse::InvalidFormattedSectionLength(i, h, _, l)) => *i == info && *h == s.handle && n.map_or(true, |n| n == *l),
        (Er::Slice, Mse::InvalidSlice(_)) => true,
        (Er::Str(n), Mse::InvalidStringIndex(i, h, g)) => *i == info && *h == s.handle && *g == n,
        _ => false,
    });
    if !hit {
        return Err(format!(
            "structure type {} handle {:#06x} at {}: error is {got:?}, applicable: {:?}",
            s.ty,
            s.handle,
            s.pos,
            v.list().collect::<Vec<_>>()
        ));
    }
    #[cfg(feature = "std")]
    {
        let source = std::error::Error::source(got).map(|e| e.to_string());
        let want = match got {
            Mse::InvalidSlice(cause) => Some(cause.to_string()),
            _ => None,
        };
        if source != want {
            return Err(format!("the source of {got:?} is {source:?}, not {want:?}"));
        }
    }
    let text = got.to_string();
    let need = match got {
        Mse::InvalidFormattedSectionLength(_, h, _, l) => vec![h.to_string(), l.to_string()],
        Mse::InvalidStringIndex(_, h, n) => vec![h.to_string(), n.to_string()],
        _ => vec![],
    };
    for n in need {
        if !has_number(&text, &n) {
            return Err(format!("message {text:?} of {got:?} does not contain {n}"));
        }
    }
    Ok(())
}
/// does `n` occur in `text` as a whole number?
pub fn has_number(text: &str, n: &str) -> bool {
    text.split(|c: char| !c.is_ascii_digit()).any(|w| w == n)
}

pub fn access_method(m: u8, a: u32) -> (d::system_event_log::AccessMethod, u32) {
    use d::system_event_log::AccessMethod as M;
    let lo = (a & 0xFF) as u8;
    let hi = (a >> 8 & 0xFF) as u8;
    let data = (a >> 16 & 0xFF) as u8;
    match m {
        0 => (M::IndexedIoOne8bitIndexOne8bitData { index: lo, data }, a & 0x00FF_00FF),
        1 => (M::IndexedIoTwo8bitIndexOne8bitData { index: [lo, hi], data }, a & 0x00FF_FFFF),
        2 => (M::IndexedIoOne16bitIndexOne8bitData { index: (a & 0xFFFF) as u16, data }, a & 0x00FF_FFFF),
        3 => (M::MemoryMappedPhysicaAddress { physical_address: a }, a),
        4 => (M::GeneralPurposeNonVolatileData { gpnv_handle: (a & 0xFFFF) as u16 }, a & 0xFFFF),
        5..=0x7F => (M::Available { method: m, address: a }, a),
        _ => (M::OemSpecific { method: m, address: a }, a),
    }
}
pub fn rom_bytes(basic: u8, ext: Option<u16>) -> u64 {
    match (basic, ext) {
        (0xFF, Some(e)) if e >> 14 == 0 => (e as u64 & 0x3FFF) * 1024 * 1024,
        (0xFF, Some(e)) if e >> 14 == 1 => (e as u64 & 0x3FFF) * 1024 * 1024 * 1024,
        (0xFF, _) => 16 * 1024 * 1024,
        (b, _) => (b as u64 + 1) * 65536,
    }
}
pub fn contained_type(b: u8) -> d::enclosure::ContainedElementType {
    use d::enclosure::ContainedElementType as T;
    if b < 128 { T::BoardType(t::baseboard_board_type(b)) } else { T::InfoType(t::lib_info_type(b - 128)) }
}
pub fn voltage(b: u8) -> d::processor::Voltage {
    use d::processor::{Voltage as V, VoltageLegacy as L};
    if b >= 0x80 {
        V::Current(b - 0x80)
    } else if b < 8 {
        let mut l = L::empty();
        for (i, f) in [L::VOLTAGE_CAPABILITY_5V0, L::VOLTAGE_CAPABILITY_3V3, L::VOLTAGE_CAPABILITY_2V9].into_iter().enumerate() {
            if b & (1 << i) != 0 {
                l = l.union(f);
            }
        }
        V::Legacy(l)
    } else {
        V::Undefined(b)
    }
}
pub fn cache_size(w: u16) -> d::cache::CacheSize {
    use d::cache::CacheSize as C;
    if w >= 0x8000 { C::Granularity64K(w - 0x8000) } else { C::Granularity1K(w) }
}
pub fn cache_bytes(w: u16) -> u64 {
    if w >= 0x8000 { (w as u64 - 0x8000) * 65536 } else { w as u64 * 1024 }
}
pub fn cache_size2(w: u32) -> d::cache::CacheSize2 {
    use d::cache::CacheSize2 as C;
    if w >= 0x8000_0000 { C::Granularity64K(w - 0x8000_0000) } else { C::Granularity1K(w) }
}
pub fn cache_bytes2(w: u32) -> u64 {
    if w >= 0x8000_0000 { (w as u64 - 0x8000_0000) * 65536 } else { w as u64 * 1024 }
}
/// the cache configuration has private fields: its debug form names the parts
pub fn cache_config(got: &d::cache::CacheConfiguration, w: u16) -> Result<(), String> {
    let text = format!("{got:?}");
    let toks: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
    let mut want = vec![
        format!("{:?}", t::cache_cache_level(w & 7)),
        format!("{:?}", t::cache_cache_location(w >> 5 & 3)),
        format!("{:?}", t::cache_cache_operational_mode(w >> 8 & 3)),
    ];
    // bools are only told apart by their field names
    for (name, bit) in [("socketed", 3), ("enabled_at_boot_time", 7)] {
        if let Some(i) = toks.iter().position(|x| *x == name) {
            if let Some(b @ ("true" | "false")) = toks.get(i + 1).copied() {
                if (b == "true") != (w >> bit & 1 == 1) {
                    return Err(format!("cache configuration {w:#06x}: {name} is {b}"));
                }
            }
        }
    }
    want.sort();
    for k in &want {
        let need = want.iter().filter(|x| *x == k).count();
        if toks.iter().filter(|x| *x == k).count() < need {
            return Err(format!("cache configuration {w:#06x}: {text} lacks {k}"));
        }
    }
    Ok(())
}
pub fn chemistry<'a>(code: u8, sbds: Option<&'a str>) -> d::portable_battery::DeviceChemistry<'a> {
    use d::portable_battery::DeviceChemistry as C;
    match (code, sbds) {
        (2, Some(s)) => C::SmartBatteryDataSpecification(s),
        (1, _) => C::Other,
        (2, None) => C::Unknown,
        (3, _) => C::LeadAcid,
        (4, _) => C::NickelCadmium,
        (5, _) => C::NickelMetalHydride,
        (6, _) => C::LithiumIon,
        (7, _) => C::ZincAir,
        (8, _) => C::LithiumPolymer,
        (c, _) => C::Undefined(c),
    }
}
pub fn uuid_bytes(b: &[u8], v: (u8, u8)) -> [u8; 16] {
    let mut o = [0u8; 16];
    o.copy_from_slice(b);
    if v >= (2, 6) {
        o[0..4].reverse();
        o[4..6].reverse();
        o[6..8].reverse();
    }
    o
}

/// Every bit once, in order, set as in `val`.
pub fn bits<'a, T: BitField<'a>>(name: &str, got: &T, val: u64) -> Result<(), String>
where
    u128: From<T::Size>,
{
    let g: u128 = got.value().into();
    if g != val as u128 {
        return Err(format!("{name}: value {g:#x}, the bytes say {val:#x}"));
    }
    let width = std::mem::size_of::<T::Size>() * 8;
    let mut it = got.iter();
    for i in 0..width {
        match it.next() {
            Some(f) if *f.position == i && f.is_set == (val >> i & 1 == 1) => {}
            f => return Err(format!("{name}: flag {i} of {val:#x} is {f:?}")),
        }
    }
    if it.next().is_some() {
        return Err(format!("{name}: more flags than bits"));
    }
    Ok(())
}

pub fn handle_of(x: &Structure) -> u16 {
    match x {
        Structure::Bios(x) => x.handle,
        Structure::System(x) => x.handle,
        Structure::BaseBoard(x) => x.handle,
        Structure::Enclosure(x) => x.handle,
        Structure::Processor(x) => x.handle,
        Structure::Cache(x) => x.handle,
        Structure::PortConnector(x) => x.handle,
        Structure::SystemSlots(x) => x.handle,
        Structure::OemStrings(x) => x.handle,
        Structure::SystemConfigurationOptions(x) => x.handle,
        Structure::BiosLanguage(x) => x.handle,
        Structure::GroupAssociations(x) => x.handle,
        Structure::SystemEventLog(x) => x.handle,
        Structure::MemoryDevice(x) => x.handle,
        Structure::MemoryError32(x) => x.handle,
        Structure::MemoryArrayMappedAddress(x) => x.handle,
        Structure::MemoryDeviceMappedAddress(x) => x.handle,
        Structure::BuiltInPointingDevice(x) => x.handle,
        Structure::PortableBattery(x) => x.handle,
        Structure::PhysicalMemoryArray(x) => x.handle,
        Structure::Other(x) => x.handle,
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}
pub fn kind_of(x: &Structure) -> Option<u8> {
    Some(match x {
        Structure::Bios(_) => 0,
        Structure::System(_) => 1,
        Structure::BaseBoard(_) => 2,
        Structure::Enclosure(_) => 3,
        Structure::Processor(_) => 4,
        Structure::Cache(_) => 7,
        Structure::PortConnector(_) => 8,
        Structure::SystemSlots(_) => 9,
        Structure::OemStrings(_) => 11,
        Structure::SystemConfigurationOptions(_) => 12,
        Structure::BiosLanguage(_) => 13,
        Structure::GroupAssociations(_) => 14,
        Structure::SystemEventLog(_) => 15,
        Structure::PhysicalMemoryArray(_) => 16,
        Structure::MemoryDevice(_) => 17,
        Structure::MemoryError32(_) => 18,
        Structure::MemoryArrayMappedAddress(_) => 19,
        Structure::MemoryDeviceMappedAddress(_) => 20,
        Structure::BuiltInPointingDevice(_) => 21,
        Structure::PortableBattery(_) => 22,
        Structure::Other(_) => return None,
        // a kind that the model does not know
        #[allow(unreachable_patterns)]
        _ => 0xFF,
    })
}

/// Compare the decoded structure with what the model says about its bytes. `buf` is the caller's buffer.
pub fn check(s: &S, got: &Result<Structure, Mse>, m: u32, buf: &[u8]) -> Result<(), String> {
    check_(s, got, m, buf).map_err(|e| format!("type {} v{}.{} length {:#04x} handle {:#06x} at {}: {e}", s.ty, s.v.0, s.v.1, s.len, s.handle, s.pos))
}
fn check_(s: &S, got: &Result<Structure, Mse>, m: u32, buf: &[u8]) -> Result<(), String> {
    let v = verdict(s);
    let g = match got {
        Err(Mse::BadSize(..)) | Err(Mse::UnterminatedStrings(..)) => {
            return if m & (W | A | X | K) != 0 { Err(format!("a correctly framed structure is reported as {got:?}")) } else { Ok(()) };
        }
        Err(e) => {
            if m & R_ != 0 {
                if matches!(e, Mse::InvalidStringIndex(..)) && !v.list().any(|e| matches!(e, Er::Str(_))) {
                    return Err(format!("all string references resolve, reported is {e:?}"));
                }
                if !v.accept() && v.list().all(|e| matches!(e, Er::Str(_))) {
                    return check_error(s, e, &v);
                }
            }
            if v.accept() {
                return if m & A != 0 { Err(format!("a structure of legal size and references is rejected: {e:?}")) } else { Ok(()) };
            }
            return if m & X != 0 { check_error(s, e, &v) } else { Ok(()) };
        }
        Ok(g) => g,
    };
    if !v.accept() {
        if m & S_ != 0 && v.list().all(|e| matches!(e, Er::Str(_))) {
            return Err(format!("accepted, although a string field refers to what is not a string ({:?})", v.list().collect::<Vec<_>>()));
        }
        return if m & (A | X) != 0 { Err(format!("must be rejected ({:?}) but is accepted", v.list().collect::<Vec<_>>())) } else { Ok(()) };
    }
    if m & K != 0 {
        if handle_of(g) != s.handle {
            return Err(format!("handle {:#06x} reported", handle_of(g)));
        }
        if kind_of(g) != if typed(s.ty) { Some(s.ty) } else { None } {
            return Err(format!("decoded as {g:?}"));
        }
    }
    fields(s, g, m, buf)
}

fn fields(s: &S, g: &Structure, m: u32, buf: &[u8]) -> Result<(), String> {
    if kind_of(g) != if typed(s.ty) { Some(s.ty) } else { None } {
        return if m & FIELDS != 0 { Err(format!("decoded as {g:?}")) } else { Ok(()) };
    }
    let n = s.f.len();
    match g {
        Structure::Bios(g) => {
            st!(m, buf, "vendor", g.vendor, s.str_at(4));
            st!(m, buf, "bios version", g.bios_version, s.str_at(5));
            st!(m, buf, "release date", g.bios_release_date, s.str_at(8));
            eq!(m, F, "starting address segment", g.bios_starting_address_segment, s.u16(6));
            eq!(m, F, "rom size", g.rom_size.basic, s.u8(9));
            if m & (F | B) != 0 {
                bits("characteristics", &g.bios_characteristics, s.u64(0xA))?;
            }
            let e1 = s.v >= (2, 1) && n >= 0x13;
            let e2 = s.v >= (2, 4) && n >= 0x18;
            let e3 = s.v >= (3, 1) && n >= 0x1A;
            eq!(m, F, "presence of characteristics extension byte 1", g.bios_characteristics_exttension_1.is_some(), e1);
            eq!(m, F, "presence of characteristics extension byte 2", g.bios_characteristics_exttension_2.is_some(), e2);
            if m & (F | B) != 0 {
                if let (Some(x), true) = (&g.bios_characteristics_exttension_1, e1) {
                    bits("characteristics extension 1", x, s.u8(0x12) as u64)?;
                }
                if let (Some(x), true) = (&g.bios_characteristics_exttension_2, e2) {
                    bits("characteristics extension 2", x, s.u8(0x13) as u64)?;
                }
            }
            eq!(m, F, "bios revision", g.bios_revision.map(|r| (r.major, r.minor)), if e2 { Some((s.u8(0x14), s.u8(0x15))) } else { None });
            eq!(m, F, "firmware revision", g.firmware_revision.map(|r| (r.major, r.minor)), if e2 { Some((s.u8(0x16), s.u8(0x17))) } else { None });
            eq!(m, F, "extended rom size", g.rom_size.extended, if e3 { Some(s.u16(0x18)) } else { None });
            eq!(m, D, "rom size in bytes", u64::from(g.rom_size), rom_bytes(s.u8(9), if e3 { Some(s.u16(0x18)) } else { None }));
        }
        Structure::System(g) => {
            st!(m, buf, "manufacturer", g.manufacturer, s.str_at(4));
            st!(m, buf, "product", g.product, s.str_at(5));
            st!(m, buf, "version", g.version, s.str_at(6));
            st!(m, buf, "serial", g.serial, s.str_at(7));
            let e1 = s.v >= (2, 1) && n >= 0x19;
            let e2 = s.v >= (2, 4) && n >= 0x1B;
            eq!(m, F, "uuid", g.uuid.map(|u| *u.as_bytes()), if e1 { Some(uuid_bytes(&s.f[8..24], s.v)) } else { None });
            eq!(m, F | E, "wakeup", g.wakeup, if e1 { Some(t::system_wakeup_type(s.u8(0x18))) } else { None });
            ost!(m, buf, "sku", g.sku, if e2 { s.str_at(0x19) } else { None });
            ost!(m, buf, "family", g.family, if e2 { s.str_at(0x1A) } else { None });
        }
        Structure::BaseBoard(g) => {
            st!(m, buf, "manufacturer", g.manufacturer, s.str_at(4));
            st!(m, buf, "product", g.product, s.str_at(5));
            st!(m, buf, "version", g.version, s.str_at(6));
            st!(m, buf, "serial", g.serial, s.str_at(7));
            ost!(m, buf, "asset", g.asset, if n > 8 { s.str_at(8) } else { None });
            eq!(m, F | B, "presence of feature flags", g.feature_flags.is_some(), s.o8(9).is_some());
            if let (Some(x), Some(b)) = (&g.feature_flags, s.o8(9)) {
                mask!(m, "feature flags", x, b, d::baseboard::BaseBoardFlags, [HOSTING = 1, REQUIRES_DAUGHTER = 2, IS_REMOVABLE = 4, IS_REPLACEABLE = 8, IS_HOT_SWAPPABLE = 16]);
            }
            ost!(m, buf, "location", g.location_in_chassis, if n > 0xA { s.str_at(0xA) } else { None });
            eq!(m, F, "chassis handle", g.chassis_handle, s.o16(0xB));
            eq!(m, F | E, "board type", g.board_type, s.o8(0xD).map(t::baseboard_board_type));
        }
        Structure::Enclosure(g) => {
            st!(m, buf, "manufacturer", g.manufacturer, s.str_at(4));
            st!(m, buf, "version", g.version, s.str_at(6));
            st!(m, buf, "serial number", g.serial_number, s.str_at(7));
            st!(m, buf, "asset tag", g.asset_tag_number, s.str_at(8));
            eq!(m, F, "chassis lock", g.chassis_lock, s.u8(5) >= 0x80);
            eq!(m, F | E, "enclosure type", g.enclosure_type, t::enclosure_enclosure_type(s.u8(5) & 0x7F));
            eq!(m, F | E, "boot-up state", g.boot_up_state, s.o8(9).map(t::enclosure_state));
            eq!(m, F | E, "power supply state", g.power_supply_state, s.o8(0xA).map(t::enclosure_state));
            eq!(m, F | E, "thermal state", g.thermal_state, s.o8(0xB).map(t::enclosure_state));
            eq!(m, F | E, "security status", g.security_status, s.o8(0xC).map(t::enclosure_security_status));
            eq!(m, F, "oem defined", g.oem_defined, s.o32(0xD));
            eq!(m, F, "height", g.height, s.o8(0x11));
            eq!(m, F, "power cords", g.power_cords_number, s.o8(0x12));
            let l = encl(s);
            eq!(m, F | I, "presence of contained elements", g.contained_elements.is_some(), l.list.is_some());
            if let (Some(g), Some((o, c, r)), true) = (&g.contained_elements, l.list, m & (F | I) != 0) {
                if g.count() != c {
                    return Err(format!("count of contained elements is {}, the bytes say {c}", g.count()));
                }
                contained(g.clone(), &s.f[o..o + c as usize * r as usize], r as usize)?;
            }
            ost!(m, buf, "sku", g.sku_number, l.sku.and_then(|o| s.str_at(o)));
        }
        Structure::Processor(g) => {
            let l = proc_layout(s);
            st!(m, buf, "socket designation", g.socket_designation, s.str_at(4));
            st!(m, buf, "processor manufacturer", g.processor_manufacturer, s.str_at(7));
            st!(m, buf, "processor version", g.processor_version, s.str_at(0x10));
            eq!(m, F | E, "processor type", g.processor_type, t::processor_processor_type(s.u8(5)));
            let fam = if l >= 26 && s.u8(6) == 0xFE { s.u16(0x28) } else { s.u8(6) as u16 };
            eq!(m, F | E, "processor family", g.processor_family, t::processor_processor_family(fam));
            eq!(m, F, "processor id", g.processor_id, s.u64(8));
            eq!(m, F | E | D, "voltage", g.voltage, voltage(s.u8(0x11)));
            eq!(m, F, "external clock", g.external_clock, s.u16(0x12));
            eq!(m, F, "max speed", g.max_speed, s.u16(0x14));
            eq!(m, F, "current speed", g.current_speed, s.u16(0x16));
            mask!(m, "status", g.status, s.u8(0x18), d::processor::ProcessorStatus,
                [CPU_SOCKET_POPULATED = 0x40, CPU_ENABLED = 1, CPU_DISABLED_BY_USER = 2, CPU_DISABLED_BY_BIOS = 3, CPU_IDLE = 4, CPU_OTHER = 7]);
            eq!(m, F | E, "upgrade", g.processor_upgrade, t::processor_processor_upgrade(s.u8(0x19)));
            let c = |o, x| if l >= x { s.o16(o) } else { None };
            eq!(m, F, "L1 cache handle", g.l1_cache_handle, c(0x1A, 21));
            eq!(m, F, "L2 cache handle", g.l2_cache_handle, c(0x1C, 21));
            eq!(m, F, "L3 cache handle", g.l3_cache_handle, c(0x1E, 21));
            let q = |o| if l >= 23 { s.str_at(o) } else { None };
            ost!(m, buf, "serial number", g.serial_number, q(0x20));
            ost!(m, buf, "asset tag", g.asset_tag, q(0x21));
            ost!(m, buf, "part number", g.part_number, q(0x22));
            let k = |o: usize, o2: usize| {
                if l < 25 {
                    None
                } else if l >= 30 && s.u8(o) == 0xFF {
                    Some(s.u16(o2))
                } else {
                    Some(s.u8(o) as u16)
                }
            };
            eq!(m, F, "core count", g.core_count, k(0x23, 0x2A));
            eq!(m, F, "core enabled", g.core_enabled, k(0x24, 0x2C));
            eq!(m, F, "thread count", g.thread_count, k(0x25, 0x2E));
            eq!(m, F | B, "presence of characteristics", g.processor_characteristics.is_some(), c(0x26, 25).is_some());
            if let (Some(x), Some(w)) = (&g.processor_characteristics, c(0x26, 25)) {
                mask!(m, "characteristics", x, w, d::processor::ProcessorCharacteristics,
                    [RESERVED = 1, UNKNOWN = 2, CAPABLE_64BIT = 4, MULTICORE = 8, HARDWARE_THREAD = 0x10, EXECUTE_PROTECTION = 0x20,
                    ENHANCED_VIRTUALIZATION = 0x40, POWER_PERFORMANCE_CONTROL = 0x80, ARM64_SOC_ID = 0x200]);
            }
        }
        Structure::Cache(g) => {
            st!(m, buf, "socket designation", g.socket_designation, s.str_at(4));
            if m & (F | E) != 0 {
                if g.cache_configuration != d::cache::CacheConfiguration::from(s.u16(5)) {
                    return Err(format!("cache configuration: {:?} decoded from {:#06x}", g.cache_configuration, s.u16(5)));
                }
                cache_config(&g.cache_configuration, s.u16(5))?;
            }
            eq!(m, F, "maximum size", g.maximum_cache_size, cache_size(s.u16(7)));
            eq!(m, F, "installed size", g.installed_size, cache_size(s.u16(9)));
            eq!(m, D, "maximum size in bytes", g.maximum_cache_size.bytes(), cache_bytes(s.u16(7)));
            eq!(m, D, "installed size in bytes", g.installed_size.bytes(), cache_bytes(s.u16(9)));
            mask!(m, "supported sram", g.supported_sram_type, s.u16(0xB), d::cache::CacheSramType,
                [OTHER = 1, UNKNOWN = 2, NONBURST = 4, BURST = 8, PIPELINE_BURST = 0x10, SYNCHRONOUS = 0x20, ASYNCHRONOUS = 0x40]);
            mask!(m, "current sram", g.current_sram_type, s.u16(0xD), d::cache::CacheSramType,
                [OTHER = 1, UNKNOWN = 2, NONBURST = 4, BURST = 8, PIPELINE_BURST = 0x10, SYNCHRONOUS = 0x20, ASYNCHRONOUS = 0x40]);
            let e1 = s.v >= (2, 1) && n >= 0x13;
            let e2 = s.v >= (3, 1) && n >= 0x1B;
            let c = |o| if e1 { s.o8(o) } else { None };
            let q = |o| if e2 { s.o32(o) } else { None };
            eq!(m, F, "speed", g.cache_speed, c(0xF));
            eq!(m, F | E, "error correction", g.error_correction_type, c(0x10).map(t::cache_cache_error_correction_type));
            eq!(m, F | E, "system cache type", g.system_cache_type, c(0x11).map(t::cache_system_cache_type));
            eq!(m, F | E, "associativity", g.associativity, c(0x12).map(t::cache_cache_associativity));
            eq!(m, F, "maximum size 2", g.maximum_cache_size_2, q(0x13).map(cache_size2));
            eq!(m, F, "installed size 2", g.installed_size_2, q(0x17).map(cache_size2));
            eq!(m, D, "maximum size 2 in bytes", g.maximum_cache_size_2.map(|x| x.bytes()), q(0x13).map(cache_bytes2));
            eq!(m, D, "installed size 2 in bytes", g.installed_size_2.map(|x| x.bytes()), q(0x17).map(cache_bytes2));
        }
        Structure::PortConnector(g) => {
            st!(m, buf, "internal designator", g.internal_reference_designator, s.str_at(4));
            eq!(m, F | E, "internal connector", g.internal_connector_type, t::port_connector_connector_type(s.u8(5)));
            st!(m, buf, "external designator", g.external_reference_designator, s.str_at(6));
            eq!(m, F | E, "external connector", g.external_connector_type, t::port_connector_connector_type(s.u8(7)));
            eq!(m, F | E, "port type", g.port_type, t::port_connector_port_type(s.u8(8)));
        }
        Structure::SystemSlots(g) => {
            st!(m, buf, "designation", g.slot_designation, s.str_at(4));
            eq!(m, F | E, "slot type", g.slot_type, t::system_slots_slot_type(s.u8(5)));
            eq!(m, F | E, "data bus width", g.slot_data_bus_width, t::system_slots_slot_width(s.u8(6)));
            eq!(m, F | E, "usage", g.current_usage, t::system_slots_current_usage(s.u8(7)));
            eq!(m, F | E, "length", g.slot_length, t::system_slots_slot_length(s.u8(8)));
            eq!(m, F, "slot id", g.slot_id, s.u16(9));
            eq!(m, F, "presence of characteristics 2", g.slot_characteristics_2.is_some(), s.has(0xC, 1));
            if m & (F | B) != 0 {
                bits("characteristics 1", &g.slot_characteristics_1, s.u8(0xB) as u64)?;
                if let (Some(x), Some(b)) = (&g.slot_characteristics_2, s.o8(0xC)) {
                    bits("characteristics 2", x, b as u64)?;
                }
            }
            eq!(m, F, "segment group", g.segment_group_number, s.o16(0xD).filter(|w| *w != 0xFFFF));
            eq!(m, F, "bus", g.bus_number, s.o8(0xF).filter(|b| *b != 0xFF));
            eq!(m, F | D, "device/function", g.device_and_function_number.map(u8::from), s.o8(0x10).filter(|b| *b != 0xFF));
            eq!(m, F, "device data bus width", g.data_bus_width, s.o8(0x11));
            let k = 5 * s.o8(0x12).unwrap_or(0) as usize;
            eq!(m, F | I, "presence of peer devices", g.peer_devices.is_some(), s.has(0x13, k));
            if let (Some(g), true, true) = (&g.peer_devices, s.has(0x13, k), m & (F | I) != 0) {
                peers(g.clone(), &s.f[0x13..0x13 + k])?;
            }
            eq!(m, F, "slot information", g.slot_information, s.o8(0x14 + k));
            eq!(m, F | E, "physical width", g.slot_physical_width, s.o8(0x15 + k).map(t::system_slots_slot_width));
            eq!(m, F | D, "pitch", g.slot_pitch, s.o16(0x16 + k).map(d::system_slots::SlotPitch::from));
            if let (Some(g), Some(w), true) = (&g.slot_pitch, s.o16(0x16 + k), m & (F | D) != 0) {
                eq!(m, F | D, "displayed pitch", g.to_string(), pitch_text(w));
            }
        }
        Structure::OemStrings(g) => {
            if m & (F | I | S_) != 0 {
                let (l, closed) = s.readable();
                drain("oem strings", g.strings, &l, !closed)?;
            }
            if m & P != 0 {
                strings_inside(g.strings, buf)?;
            }
        }
        Structure::SystemConfigurationOptions(g) => {
            if m & (F | I | S_) != 0 {
                let (l, closed) = s.readable();
                drain("configuration options", g.strings, &l, !closed)?;
            }
            if m & P != 0 {
                strings_inside(g.strings, buf)?;
            }
        }
        Structure::BiosLanguage(g) => {
            let new = s.v >= (2, 1);
            eq!(m, F, "presence of flags", g.flags.is_some(), new);
            if let (Some(x), true, true) = (&g.flags, new, m & (F | B) != 0) {
                bits("language flags", x, s.u8(5) as u64)?;
            }
            eq!(m, F, "current language", g.current_language, s.u8(if new { 0x15 } else { 0x14 }));
            if m & (F | I | S_) != 0 {
                let (mut l, closed) = s.readable();
                l.truncate(255);
                drain("installable languages", g.installable_languages.clone(), &l, !closed)?;
            }
            if m & P != 0 {
                strings_inside(g.installable_languages.clone(), buf)?;
            }
        }
        Structure::GroupAssociations(g) => {
            st!(m, buf, "group name", g.group_name, s.str_at(4));
            if m & (F | I) != 0 {
                let l: Vec<_> = s.f[5..]
                    .chunks_exact(3)
                    .map(|c| d::group_associations::GroupItem { type_: c[0], handle: c[1] as u16 | (c[2] as u16) << 8 })
                    .collect();
                drain("group items", g.items, &l, false)?;
            }
        }
        Structure::SystemEventLog(g) => {
            eq!(m, F, "log area length", g.log_area_length, s.u16(4));
            eq!(m, F, "header start", g.log_header_start_offset, s.u16(6));
            eq!(m, F, "data start", g.log_data_start_offset, s.u16(8));
            let (am, addr) = access_method(s.u8(0xA), s.u32(0x10));
            eq!(m, F | E, "access method", g.access_method, am);
            eq!(m, D, "access address", g.access_method.address(), addr);
            if m & (F | B) != 0 {
                bits("log status", &g.log_status, s.u8(0xB) as u64)?;
            }
            eq!(m, F, "change token", g.log_change_token, s.u32(0xC));
            eq!(m, F | E, "header format", g.log_header_format, s.o8(0x14).map(t::system_event_log_log_header_format));
            let l = match (s.o8(0x15), s.o8(0x16)) {
                (Some(x), Some(y)) if s.has(0x17, x as usize * y as usize) => Some((x as usize, y as usize)),
                _ => None,
            };
            eq!(m, F | I, "presence of log type descriptors", g.supported_event_log_type_descriptors.is_some(), l.is_some());
            if let (Some(g), Some((x, y)), true) = (&g.supported_event_log_type_descriptors, l, m & (F | I | E) != 0) {
                let want: Vec<_> = if y == 2 { s.f[0x17..0x17 + x * y].chunks(2).map(|c| descriptor(c[0], c[1])).collect() } else { vec![] };
                // the layout of descriptors of another size is not defined: they must not be misread
                drain("log type descriptors", g.clone(), &want, false)?;
            }
        }
        Structure::PhysicalMemoryArray(g) => {
            if s.v < (2, 1) {
                // the structure does not exist in these versions; nothing of it is reported
                let mut x = d::PhysicalMemoryArray::default();
                x.handle = g.handle;
                eq!(m, F, "fields before 2.1", *g, x);
                return Ok(());
            }
            eq!(m, F | E, "location", g.location, t::physical_memory_array_memory_array_location(s.u8(4)));
            eq!(m, F | E, "use", g.r#use, t::physical_memory_array_memory_array_use(s.u8(5)));
            eq!(m, F | E, "error correction", g.memory_error_correction, t::physical_memory_array_memory_array_error_correction_types(s.u8(6)));
            let big = s.u32(7) == 0x8000_0000;
            eq!(m, F, "capacity", g.maximum_capacity, if big { None } else { Some(s.u32(7)) });
            eq!(m, F, "error handle", g.memory_error_information_handle, Some(s.u16(0xB)).filter(|h| *h != 0xFFFE));
            eq!(m, F, "devices", g.number_of_memory_devices, s.u16(0xD));
            eq!(m, F, "extended capacity", g.extended_maximum_capacity, if big && s.v >= (2, 7) { s.o64(0xF).filter(|x| *x != 0) } else { None });
        }
        Structure::MemoryDevice(g) => {
            let z16 = |o| s.o16(o).filter(|w| *w != 0);
            let w16 = |o| Some(s.u16(o)).filter(|w| *w != 0xFFFF);
            eq!(m, F, "array handle", g.physical_memory_handle, s.u16(4));
            eq!(m, F, "error handle", g.memory_error_handle, Some(s.u16(6)).filter(|h| *h != 0xFFFE));
            eq!(m, F, "total width", g.total_width, w16(8));
            eq!(m, F, "data width", g.data_width, w16(0xA));
            eq!(m, F, "size", g.size, w16(0xC));
            eq!(m, F | E, "form factor", g.form_factor, t::memory_device_form_factor(s.u8(0xE)));
            eq!(m, F, "device set", g.device_set, Some(s.u8(0xF)));
            st!(m, buf, "device locator", g.device_locator, s.str_at(0x10));
            st!(m, buf, "bank locator", g.bank_locator, s.str_at(0x11));
            eq!(m, F | E, "memory type", g.memory_type, t::memory_device_type(s.u8(0x12)));
            mask!(m, "type detail", g.type_detail, s.u16(0x13), d::memory_device::Detail,
                [OTHER = 2, UNKNOWN = 4, FAST_PAGED = 8, STATIC_COLUMN = 0x10, PSEUDO_STATIC = 0x20, RAMBUS = 0x40, SYNCHRONOUS = 0x80, CMOS = 0x100, EDO = 0x200,
                WINDOW_DRAM = 0x400, CACHE_DRAM = 0x800, NON_VOLATILE = 0x1000, REGISTERED = 0x2000, UNREGISTERED = 0x4000, LRDIMM = 0x8000]);
            eq!(m, F, "speed", g.speed, z16(0x15));
            let q = |o| if s.has(o, 1) { s.str_at(o) } else { Some("") };
            st!(m, buf, "manufacturer", g.manufacturer, q(0x17));
            st!(m, buf, "serial", g.serial, q(0x18));
            st!(m, buf, "asset tag", g.asset_tag, q(0x19));
            st!(m, buf, "part number", g.part_number, q(0x1A));
            eq!(m, F, "attributes", g.attributes, s.o8(0x1B).unwrap_or(0));
            eq!(m, F, "extended size", g.extended_size, s.o32(0x1C).unwrap_or(0));
            eq!(m, F, "configured speed", g.configured_memory_speed, z16(0x20));
            eq!(m, F, "minimum voltage", g.minimum_voltage, z16(0x22));
            eq!(m, F, "maximum voltage", g.maximum_voltage, z16(0x24));
            eq!(m, F, "configured voltage", g.configured_voltage, z16(0x26));
            eq!(m, F | E, "technology", g.memory_technology, s.o8(0x28).map(t::memory_device_memory_technology));
            eq!(m, F | B, "presence of operating modes", g.operating_mode_capability.is_some(), s.o16(0x29).is_some());
            if let (Some(x), Some(w)) = (&g.operating_mode_capability, s.o16(0x29)) {
                mask!(m, "operating modes", x, w, d::memory_device::OperatingModes,
                    [OTHER = 2, UNKNOWN = 4, VOLATILE = 8, BYTE_ACCESSIBLE_PERSISTENT = 0x10, BLOCK_ACCESSIBLE_PERSISTENT = 0x20]);
            }
            ost!(m, buf, "firmware version", g.firmware_version, if s.has(0x2B, 1) { s.str_at(0x2B) } else { None });
            eq!(m, F, "module manufacturer", g.module_manufacturer, s.o16(0x2C));
            eq!(m, F, "module product", g.module_product_id, s.o16(0x2E));
            eq!(m, F, "controller manufacturer", g.memory_subsystem_controller_manufacturer_id, s.o16(0x30));
            eq!(m, F, "controller product", g.memory_subsystem_controller_product_id, s.o16(0x32));
            eq!(m, F, "non-volatile size", g.non_volatile_size, s.o64(0x34));
            eq!(m, F, "volatile size", g.volatile_size, s.o64(0x3C));
            eq!(m, F, "cache size", g.cache_size, s.o64(0x44));
            eq!(m, F, "logical size", g.logical_size, s.o64(0x4C));
            eq!(m, F, "extended speed", g.extended_speed, s.o32(0x54));
            eq!(m, F, "extended configured speed", g.extended_configured_memory_speed, s.o32(0x58));
        }
        Structure::MemoryError32(g) => {
            eq!(m, F | E, "error type", g.error_type, t::memory_error_32_error_type(s.u8(4)));
            eq!(m, F | E, "granularity", g.error_granularity, t::memory_error_32_error_granularity(s.u8(5)));
            eq!(m, F | E, "operation", g.error_operation, t::memory_error_32_error_operation(s.u8(6)));
            eq!(m, F, "syndrome", g.vendor_syndrome, s.u32(7));
            eq!(m, F, "array address", g.memory_array_error_address, s.u32(0xB));
            eq!(m, F, "device address", g.device_error_address, s.u32(0xF));
            eq!(m, F, "resolution", g.error_resolution, s.u32(0x13));
        }
        Structure::MemoryArrayMappedAddress(g) => {
            eq!(m, F, "starting address", g.starting_address, s.u32(4));
            eq!(m, F, "ending address", g.ending_address, s.u32(8));
            eq!(m, F, "array handle", g.memory_array_handle, s.u16(0xC));
            eq!(m, F, "partition width", g.partition_width, s.u8(0xE));
            eq!(m, F, "extended starting address", g.extended_starting_address, s.o64(0xF));
            eq!(m, F, "extended ending address", g.extended_ending_address, s.o64(0x17));
        }
        Structure::MemoryDeviceMappedAddress(g) => {
            eq!(m, F, "starting address", g.starting_address, s.u32(4));
            eq!(m, F, "ending address", g.ending_address, s.u32(8));
            eq!(m, F, "device handle", g.memory_device_handle, s.u16(0xC));
            eq!(m, F, "array mapped address handle", g.memory_array_mapped_address_handle, s.u16(0xE));
            eq!(m, F, "row position", g.partition_row_position, s.u8(0x10));
            eq!(m, F, "interleave position", g.interleave_position, s.u8(0x11));
            eq!(m, F, "interleave depth", g.interleaved_data_depth, s.u8(0x12));
            eq!(m, F, "extended starting address", g.extended_starting_address, s.o64(0x13));
            eq!(m, F, "extended ending address", g.extended_ending_address, s.o64(0x1B));
        }
        Structure::BuiltInPointingDevice(g) => {
            eq!(m, F | E, "type", g.type_, t::built_in_pointing_device_type(s.u8(4)));
            eq!(m, F | E, "interface", g.interface, t::built_in_pointing_device_interface(s.u8(5)));
            eq!(m, F, "buttons", g.number_of_buttons, s.u8(6));
        }
        Structure::PortableBattery(g) => {
            use d::portable_battery::{DesignCapacity as C, ManufactureDate as Md, SerialNumber as Sn};
            st!(m, buf, "location", g.location, s.str_at(4));
            st!(m, buf, "manufacturer", g.manufacturer, s.str_at(5));
            st!(m, buf, "device name", g.device_name, s.str_at(8));
            st!(m, buf, "sbds version", g.sbds_version_number, s.str_at(0xE));
            // a basic field provides a value when it refers to an existing string
            let basic = |o: usize| if s.u8(o) != 0 { s.str_at(o) } else { None };
            let date = match (basic(6), s.o16(0x12)) {
                (Some(x), _) => Md::Basic(x),
                (None, Some(w)) => Md::SmartBatteryDataSpecification { year: 1980 + (w / 512), month: (w / 32 % 16) as u8, date: (w % 32) as u8 },
                _ => Md::None,
            };
            eq!(m, F | S_ | D, "manufacture date", g.manufacture_date, date);
            let serial = match (basic(7), s.o16(0x10)) {
                (Some(x), _) => Sn::Basic(x),
                (None, Some(w)) => Sn::SmartBatteryDataSpecification(w),
                _ => Sn::None,
            };
            eq!(m, F | S_, "serial number", g.serial_number, serial);
            let chem = if s.has(0x14, 1) { s.str_at(0x14) } else { None };
            eq!(m, F | S_ | E, "chemistry", g.device_chemistry, chemistry(s.u8(9), chem));
            let cap = if s.u16(0xA) == 0 { C::Unknown } else { C::Data { value: s.u16(0xA), multiplier: s.o8(0x15).unwrap_or(1) } };
            eq!(m, F, "capacity", g.design_capacity, cap);
            eq!(m, D, "capacity in mWh", u64::from(g.design_capacity), s.u16(0xA) as u64 * s.o8(0x15).unwrap_or(1) as u64);
            eq!(m, F, "voltage", g.design_voltage, s.u16(0xC));
            eq!(m, F, "maximum error", g.maximum_error_in_battery_data, s.u8(0xF));
            eq!(m, F, "oem specific", g.oem_specific, s.o32(0x16));
            if m & P != 0 {
                if let Md::Basic(x) = g.manufacture_date {
                    st!(m & P, buf, "date", x, Some(""));
                }
                if let Sn::Basic(x) = g.serial_number {
                    st!(m & P, buf, "serial", x, Some(""));
                }
                if let d::portable_battery::DeviceChemistry::SmartBatteryDataSpecification(x) = g.device_chemistry {
                    st!(m & P, buf, "chemistry", x, Some(""));
                }
            }
        }
        Structure::Other(g) => {
            eq!(m, K | F, "raw version", (g.version.major, g.version.minor), s.v);
            eq!(m, K | F | E, "raw label", g.info, t::lib_info_type(s.ty));
            eq!(m, K | F, "raw length", g.length, s.len);
            eq!(m, K | F, "raw data", g.data, &s.f[4..]);
            if m & P != 0 && !inside(buf, g.data.as_ptr(), g.data.len()) {
                return Err("raw data lies outside of the buffer".into());
            }
            // the data is that of this very structure, not an equal piece elsewhere
            if m & K != 0 && !s.f[4..].is_empty() && g.data.as_ptr() != s.f[4..].as_ptr() {
                return Err("raw data is not the formatted area of this structure".into());
            }
            if m & S_ != 0 {
                raw_strings(s, g, buf, m)?;
            }
        }
        #[allow(unreachable_patterns)]
        _ => {}
    }
    Ok(())
}

fn strings_inside<'a>(it: impl Iterator<Item = &'a str>, buf: &[u8]) -> Result<(), String> {
    for x in it.take(100_000) {
        if !inside(buf, x.as_ptr(), x.len()) {
            return Err("string lies outside of the buffer".into());
        }
    }
    Ok(())
}
pub fn raw_strings(s: &S, g: &d::RawStructure, buf: &[u8], m: u32) -> Result<(), String> {
    for n in 0..=255u8 {
        find_string(s, g.find_string(n), n, buf, m)?;
        // beyond the last string one more number is enough, and the extremes
        if n > 2 && s.raw_string(n as usize).is_none() && n < 254 {
            for n in [127, 128, 254, 255] {
                find_string(s, g.find_string(n), n, buf, m)?;
            }
            break;
        }
    }
    for o in (0..=s.f.len() + 1).chain([255, 256, 259, 260, 4096]) {
        let got = g.get_string(o);
        match if o >= 4 { s.o8(o) } else { None } {
            Some(n) => find_string(s, got, n, buf, m)?,
            None if matches!(got, Err(Mse::InvalidSlice(_))) => {}
            None => return Err(format!("string field at offset {o} behind the formatted area gives {got:?}")),
        }
    }
    Ok(())
}
pub fn find_string(s: &S, got: Result<&str, Mse>, n: u8, buf: &[u8], m: u32) -> Result<(), String> {
    let want = s.string(n);
    match (&got, want) {
        (Ok(g), Some(w)) if *g == w => {
            if m & P != 0 && !inside(buf, g.as_ptr(), g.len()) {
                return Err(format!("string {n} lies outside of the buffer"));
            }
            Ok(())
        }
        (Err(Mse::InvalidStringIndex(i, h, x)), None) if *i == t::lib_info_type(s.ty) && *h == s.handle && *x == n => Ok(()),
        _ => Err(format!("string {n} is {got:?}, the string area says {want:?}")),
    }
}
pub fn descriptor(a: u8, b: u8) -> d::system_event_log::EventLogTypeDescriptor {
    d::system_event_log::EventLogTypeDescriptor {
        log_type: t::log_record_format_event_log_type(a),
        variable_data_format_type: t::log_record_format_variable_data_format_type(b),
    }
}
pub fn pitch_text(w: u16) -> String {
    if w == 0 { "Not given or is unknown".into() } else { format!("{}.{:02} mm", w / 100, w % 100) }
}
/// contained elements have private parts: compare through the conversion from their own bytes and the displayed text
pub fn contained(g: d::enclosure::ContainedElements, data: &[u8], r: usize) -> Result<(), String> {
    let mut g = g;
    if r > 0 {
        for (i, c) in data.chunks(r).enumerate() {
            let e = g.next().ok_or_else(|| format!("contained element {i} is missing"))?;
            let b = |k: usize| c.get(k).copied().unwrap_or(0);
            let text = format!("{} ({}-{})", contained_type(b(0)), b(1), b(2));
            if e != d::enclosure::ContainedElement::from(&[b(0), b(1), b(2)][..]) || e.to_string() != text {
                return Err(format!("contained element {i} is {e:?}, the bytes say {text}"));
            }
        }
    }
    for _ in 0..3 {
        if let Some(e) = g.next() {
            return Err(format!("contained element {e:?} behind the last one"));
        }
    }
    Ok(())
}
pub fn peer(c: &[u8]) -> d::system_slots::Device {
    d::system_slots::Device {
        segment_group_number: c[0] as u16 | (c[1] as u16) << 8,
        bus_number: c[2],
        device_and_function_number: c[3].into(),
        data_bus_width: c[4],
    }
}
pub fn peers(g: d::system_slots::PeerDevices, data: &[u8]) -> Result<(), String> {
    let want: Vec<_> = data.chunks_exact(5).map(peer).collect();
    for (e, c) in g.clone().zip(data.chunks_exact(5)) {
        let back: [u8; 5] = (&e).into();
        if back != c {
            return Err(format!("peer device {e:?} converts back to {back:?}, its bytes are {c:?}"));
        }
    }
    drain("peer devices", g, &want, false)
}
pub fn info_of(ty: u8) -> InfoType {
    t::lib_info_type(ty)
}
