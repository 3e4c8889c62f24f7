//! What is executed and compared on every case.
use crate::engine::{Case, Fx, Stats};
use crate::model::{self, Er, Item, Walk, S};
use crate::render;
use crate::spaces;
use dmidecode::{EntryPoint, EntryPointV2, InvalidEntryPointError as Iee, MalformedStructureError as Mse, Structure};
use std::hash::{Hash, Hasher};

pub type R = Result<(), String>;

/// An entry point announcing the table of the case. SMBIOS 3 ones can only be had from `search`.
pub fn entry(c: &Case) -> Option<EntryPoint> {
    if c.v3 {
        let mut b = spaces::SM3;
        b[7] = c.major;
        b[8] = c.minor;
        b[12..16].copy_from_slice(&c.len.to_le_bytes());
        spaces::refit(&mut b, 0, 24, true, 0);
        // a refused sound entry point is the business of the properties about `search`
        return EntryPoint::search(&b).ok();
    }
    Some(EntryPoint::V2(EntryPointV2 {
        signature: 0x5f4d535f,
        checksum: 0,
        len: 31,
        major: c.major,
        minor: c.minor,
        struct_max: 0,
        revision: 0,
        formatted: [0; 5],
        dmi_signature: [0; 5],
        dmi_checksum: 0,
        smbios_len: c.len as u16,
        smbios_address: 0,
        smbios_count: 0,
        bcd_revision: 0,
    }))
}
pub fn announced(c: &Case) -> u32 {
    if c.v3 { c.len } else { c.len & 0xFFFF }
}
/// the entry point of the case with one of its other bytes changed: aux = offset | value << 8 | 1 << 16 (all fields ones) | 1 << 17 (pseudo random)
pub fn entry_varied(c: &Case) -> Option<EntryPoint> {
    let (o, x) = (c.aux as usize & 0xFF, (c.aux >> 8) as u8);
    let fill = |k: usize, old: u8| match c.aux >> 16 & 3 {
        0 => old,
        1 => 0xFF,
        2 => 0,
        _ => (k * 73 + 29) as u8,
    };
    if c.v3 {
        let mut b = spaces::SM3;
        for k in (9..12).chain(16..24) {
            b[k] = fill(k, b[k]);
        }
        b[o] = x;
        b[..5].copy_from_slice(b"_SM3_");
        b[6] = 24;
        b[7] = c.major;
        b[8] = c.minor;
        b[12..16].copy_from_slice(&c.len.to_le_bytes());
        spaces::refit(&mut b, 0, 24, true, 0);
        return EntryPoint::search(&b).ok();
    }
    let mut b = spaces::SM2;
    for k in (0..6).chain(8..31) {
        b[k] = fill(k, b[k]);
    }
    b[o] = x;
    let w = |k: usize| u16::from_le_bytes([b[k], b[k + 1]]);
    let d = |k: usize| u32::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]);
    Some(EntryPoint::V2(EntryPointV2 {
        signature: d(0),
        checksum: b[4],
        len: b[5],
        major: c.major,
        minor: c.minor,
        struct_max: w(8),
        revision: b[10],
        formatted: b[11..16].try_into().unwrap(),
        dmi_signature: b[16..21].try_into().unwrap(),
        dmi_checksum: b[21],
        smbios_len: c.len as u16,
        smbios_address: d(24),
        smbios_count: w(28),
        bcd_revision: b[30],
    }))
}
/// the walk does not depend on the other fields of the entry point
pub fn walk_varied(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry_varied(c) else { return Ok(()) };
    lockstep_from(&e, c, buf, model::W | model::K, st)
}
/// nor do the decoded values
pub fn same_varied(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let (Some(a), Some(b)) = (entry(c), entry_varied(c)) else { return Ok(()) };
    let mut y = b.structures(buf);
    for x in a.structures(buf) {
        st.steps += 1;
        let Some(y) = y.next() else { return Ok(()) };
        st.class(outcome(buf[0], &x));
        if !same(&x, &y) && hash_of(&x) != hash_of(&y) {
            return Err(format!("{} becomes {} when other fields of the entry point change: {b:?}", text_of(&x), text_of(&y)));
        }
    }
    Ok(())
}
pub fn outcome(ty: u8, r: &Result<Structure, Mse>) -> &'static str {
    match r {
        Ok(_) if model::typed(ty) => "decoded",
        Ok(_) => "raw",
        Err(Mse::BadSize(..)) => "framing error: size",
        Err(Mse::UnterminatedStrings(..)) => "framing error: strings",
        Err(Mse::InvalidStringIndex(..)) => "rejected: string number",
        Err(Mse::InvalidSlice(..)) => "rejected: missing field",
        Err(Mse::InvalidFormattedSectionLength(..)) => "rejected: length",
        #[allow(unreachable_patterns)]
        Err(_) => "rejected: another error",
    }
}

/// Implementation and model walk the table side by side.
pub fn lockstep(c: &Case, buf: &[u8], m: u32, st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    lockstep_from(&e, c, buf, m, st)
}
fn lockstep_from(e: &EntryPoint, c: &Case, buf: &[u8], m: u32, st: &mut Stats) -> R {
    let mut it = e.structures(buf);
    let mut w = Walk::new(buf, announced(c), (c.major, c.minor));
    let limit = buf.len() / 4 + 2;
    for _ in 0..limit {
        st.steps += 1;
        match (w.next(), it.next()) {
            (None, None) => {
                if m & model::W != 0 {
                    for _ in 0..3 {
                        if let Some(g) = it.next() {
                            return Err(format!("the finished walk yields {g:?}"));
                        }
                    }
                }
                return Ok(());
            }
            (Some(Item::St(s)), Some(g)) => {
                st.class(outcome(s.ty, &g));
                model::check(&s, &g, m, buf)?;
                if matches!(g, Err(Mse::BadSize(..)) | Err(Mse::UnterminatedStrings(..))) {
                    return Ok(());
                }
            }
            (Some(Item::BadSize(p, l)), Some(Err(ref e @ Mse::BadSize(a, b)))) => {
                st.class("framing error: size");
                if m & (model::W | model::X) != 0 {
                    if (p, l) != (a, b) {
                        return Err(format!("size error at offset {a} length {b}, the structure is at {p} with length {l}"));
                    }
                    numbers(e, &[p as u64, l as u64], m)?;
                }
            }
            (Some(Item::Unterm(p)), Some(Err(ref e @ Mse::UnterminatedStrings(a)))) => {
                st.class("framing error: strings");
                if m & (model::W | model::X) != 0 {
                    if p != a {
                        return Err(format!("unterminated strings reported at {a}, the structure is at {p}"));
                    }
                    numbers(e, &[p as u64], m)?;
                }
            }
            (w, g) => {
                if m & (model::W | model::X) != 0 {
                    return Err(format!("the walk yields {g:?}, the table has {w:?}"));
                }
                return Ok(());
            }
        }
    }
    Ok(())
}
fn numbers(e: &Mse, want: &[u64], m: u32) -> R {
    if m & model::X != 0 {
        let text = e.to_string();
        for n in want {
            if !model::has_number(&text, &n.to_string()) {
                return Err(format!("message {text:?} of {e:?} does not contain {n}"));
            }
        }
    }
    Ok(())
}

/// run on a thread with little stack: its use must not grow with the input
pub fn on_small_stack(f: impl FnOnce() -> R + Send) -> R {
    crate::engine::on_stack(512 << 10, f)
}
/// Exercise everything reachable from the walk and format everything; only panics, faults and
/// strings outside of the buffer matter.
pub fn exercise(c: &Case, buf: &[u8], pretty: bool, forms: bool, st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let mut o = Fx(1);
    let mut n = 0usize;
    for g in e.structures(buf) {
        st.steps += 1;
        n += 1;
        if n > buf.len() + 8 {
            return Err("the walk does not end".into());
        }
        st.class(match &g {
            Ok(_) => "structure",
            Err(e) => outcome(0, &Err(clone_err(e))),
        });
        render::with_forms(forms, || {
            render::item(&mut o, &g);
            render::debug(&mut o, &g, pretty);
        });
        if let Ok(Structure::Other(r)) = &g {
            accessors_smoke(r);
        }
    }
    std::hint::black_box(o.fin());
    Ok(())
}
fn clone_err(e: &Mse) -> Mse {
    match e {
        Mse::BadSize(a, b) => Mse::BadSize(*a, *b),
        Mse::UnterminatedStrings(a) => Mse::UnterminatedStrings(*a),
        Mse::InvalidStringIndex(a, b, c) => Mse::InvalidStringIndex(*a, *b, *c),
        Mse::InvalidSlice(a) => Mse::InvalidSlice(*a),
        Mse::InvalidFormattedSectionLength(a, b, c, d) => Mse::InvalidFormattedSectionLength(*a, *b, c, *d),
        #[allow(unreachable_patterns)]
        _ => Mse::UnterminatedStrings(u32::MAX),
    }
}
const EXTREME: [usize; 8] = [usize::MAX, usize::MAX - 1, usize::MAX - 3, usize::MAX - 4, usize::MAX / 2, 1 << 32, (1 << 32) + 4, 65_540];
fn accessors_smoke(r: &dmidecode::RawStructure) {
    for o in [0usize, 1, 3, 4, 5, 19, 20, 254, 255, 256].into_iter().chain(EXTREME) {
        for n in [0usize, 1, 4, 16, 255].into_iter().chain(EXTREME) {
            std::hint::black_box(r.get_slice(o, n));
        }
        std::hint::black_box((r.get::<u8>(o).is_ok(), r.get::<u128>(o).is_ok(), r.get_string(o).is_ok()));
    }
}

/// every offset, size and width on a raw structure
pub fn accessors(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let Some(Item::St(s)) = Walk::new(buf, announced(c), (c.major, c.minor)).next() else { return Ok(()) };
    let Some(Ok(Structure::Other(g))) = e.structures(buf).next() else {
        return Err("a raw structure does not arrive raw".into());
    };
    let n = s.f.len();
    let bad = |what: &str, o: usize| Err(format!("{what} at offset {o:#x} of a structure of length {n:#x} is wrong"));
    for o in (0..=300usize).chain(EXTREME) {
        let at = |k: usize| if o >= 4 && o <= n && k <= n - o { Some(&s.f[o..o + k]) } else { None };
        let num = |k: usize| at(k).map(|b| b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128));
        st.steps += 5;
        macro_rules! w {
            ($t:ty) => {
                match (g.get::<$t>(o), num(std::mem::size_of::<$t>())) {
                    (Ok(a), Some(b)) if a as u128 == b => {}
                    (Err(Mse::InvalidSlice(_)), None) => {}
                    _ => return bad(stringify!($t), o),
                }
            };
        }
        w!(u8);
        w!(u16);
        w!(u32);
        w!(u64);
        w!(u128);
        for k in (0..=40usize).chain([n.saturating_sub(o), n.saturating_sub(o) + 1, 251, 252, 255, 256]).chain(EXTREME) {
            match (g.get_slice(o, k), at(k)) {
                (Some(a), Some(b)) if a == b && (k == 0 || a.as_ptr() == b.as_ptr()) => {}
                (None, None) => {}
                _ => return bad("slice", o),
            }
        }
    }
    st.class("raw structure");
    Ok(())
}

// ---------------------------------------------------------------- termination

/// number of entries of every list obtainable from a structure, each cut off at `cap`
pub fn list_sizes(x: &Structure, cap: usize) -> Vec<(&'static str, usize)> {
    use dmidecode::bitfield::BitField;
    fn stay<T>(mut it: impl Iterator<Item = T>, cap: usize) -> usize {
        let mut n = 0;
        while n <= cap && it.next().is_some() {
            n += 1;
        }
        for _ in 0..3 {
            if it.next().is_some() {
                return usize::MAX; // did not stay finished
            }
        }
        n
    }
    // an iterator over strings may go on behind one that is not UTF-8
    fn count<T>(it: impl Iterator<Item = T>, cap: usize) -> usize {
        it.take(cap + 1).count()
    }
    macro_rules! b {
        ($v:expr) => {
            [("flags", stay($v.iter(), cap)), ("set flags", stay($v.significants(), cap)), ("reserved ranges", stay($v.reserved(), cap))]
        };
    }
    match x {
        Structure::Enclosure(x) => x.contained_elements.iter().map(|l| ("contained elements", stay(l.clone(), cap))).collect(),
        Structure::SystemSlots(x) => {
            let mut v: Vec<_> = x.peer_devices.iter().map(|l| ("peer devices", stay(l.clone(), cap))).collect();
            v.extend(b!(x.slot_characteristics_1));
            if let Some(f) = &x.slot_characteristics_2 {
                v.extend(b!(f));
            }
            v
        }
        Structure::OemStrings(x) => vec![("oem strings", count(x.strings, cap))],
        Structure::SystemConfigurationOptions(x) => vec![("options", count(x.strings, cap))],
        Structure::BiosLanguage(x) => {
            let mut v = vec![("languages", count(x.installable_languages.clone(), cap))];
            if let Some(f) = &x.flags {
                v.extend(b!(f));
            }
            v
        }
        Structure::GroupAssociations(x) => vec![("group items", stay(x.items, cap))],
        Structure::SystemEventLog(x) => {
            let mut v: Vec<_> = x.supported_event_log_type_descriptors.iter().map(|l| ("log types", stay(l.clone(), cap))).collect();
            v.extend(b!(x.log_status));
            v
        }
        Structure::Bios(x) => {
            let mut v = b!(x.bios_characteristics).to_vec();
            if let Some(f) = &x.bios_characteristics_exttension_1 {
                v.extend(b!(f));
            }
            if let Some(f) = &x.bios_characteristics_exttension_2 {
                v.extend(b!(f));
            }
            v
        }
        _ => vec![],
    }
}
pub fn terminates(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let bound = buf.len() / 6 + 1;
    let mut it = e.structures(buf);
    let mut n = 0;
    let mut last = false;
    while let Some(g) = it.next() {
        st.steps += 1;
        n += 1;
        if last {
            return Err(format!("item {g:?} after the item that ends the walk"));
        }
        if n > bound {
            return Err(format!("{n} items from {} bytes", buf.len()));
        }
        match &g {
            Err(Mse::BadSize(..)) | Err(Mse::UnterminatedStrings(..)) => last = true,
            Ok(Structure::Other(r)) if r.info == dmidecode::InfoType::End && c.major >= 3 => last = true,
            Ok(x) => {
                // the entries are made of bytes of the structure; bits are at most 64
                for (name, k) in list_sizes(x, buf.len().max(64)) {
                    if k == usize::MAX {
                        return Err(format!("{name} yield an entry after their end"));
                    }
                    if k > buf.len().max(64) {
                        return Err(format!("{name} of a structure of at most {} bytes do not end", buf.len()));
                    }
                }
            }
            _ => {}
        }
        st.class(if last { "walk ended by an item" } else { "item" });
    }
    if n == bound && n > 1 {
        st.class("walk of maximal length");
    }
    for _ in 0..4 {
        if let Some(g) = it.next() {
            return Err(format!("item {g:?} after the end"));
        }
    }
    Ok(())
}

/// A table of 4 GiB: aux = position of the last structure's header below 4 GiB | its length << 8 | its strings << 16 |
/// what is behind it << 20; c.len is the announced length
pub fn huge(c: &Case, st: &mut Stats) -> R {
    thread_local!(static HUGE: std::cell::RefCell<Option<crate::engine::Huge>> = const { std::cell::RefCell::new(None) });
    const TOP: u64 = 1 << 32;
    HUGE.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            *h = crate::engine::Huge::new(257 * 4096, TOP as usize, |b| {
                // structures of 255 bytes and an empty string area, as many as possible with little to scan
                for x in b.chunks_mut(257) {
                    x.fill(0x41);
                    x[..4].copy_from_slice(&[200, 255, 1, 2]);
                    x[255..].fill(0);
                }
            });
        }
        let Some(h) = h.as_mut() else {
            st.class("no memory for a table of 4 GiB");
            return Ok(());
        };
        let head = h.head as u64;
        let (k, len, strs, behind) = (c.aux & 0xFF, c.aux >> 8 & 0xFF, c.aux >> 16 & 15, c.aux >> 20 & 3);
        // one structure up to the last one, which starts at 4 GiB - k
        let tail = h.tail();
        tail.fill(0x42);
        let at = (TOP - k - head) as usize;
        tail[..4].copy_from_slice(&[201, 4, 3, 4]);
        tail[at - 2..at].fill(0);
        tail[at..at + 4].copy_from_slice(&[202, len as u8, 5, 6]);
        let s = at + len as usize;
        let e = s + [2, 3, 9, 300][strs as usize];
        tail[e - 2..e].fill(0);
        tail[e..e + 4].copy_from_slice(&[203, 4, 7, 8]);
        tail[e + 9..e + 11].fill(0);
        let size = match behind {
            0 => e,
            1 => e + 11,
            2 => e + 64,
            _ => (TOP - head) as usize,
        };
        let buf = h.buf(size);
        let end = (announced(c) as u64).min(buf.len() as u64);
        let Some(ep) = entry(c) else { return Ok(()) };
        let mut it = ep.structures(buf);
        let mut pos = 0u64;
        loop {
            let g = it.next();
            if pos + 4 > end {
                if let Some(g) = g {
                    return Err(format!("item {g:?} at the end of the table"));
                }
                break;
            }
            st.transitions += 1;
            let b = &buf[pos as usize..];
            let l = b[1] as u64;
            // the structures of 255 bytes are followed by their NULs
            let close = if l == 255 { Some(2) } else { b.get(l as usize..).and_then(|r| r.windows(2).position(|w| w == [0, 0])).map(|p| p + 2) };
            let ok = match &g {
                Some(Ok(Structure::Other(r))) => {
                    pos + l < end && close.is_some() && r.data.as_ptr() == b[4..].as_ptr() && r.data.len() as u64 == l - 4 && r.handle == u16::from_le_bytes([b[2], b[3]])
                }
                Some(Err(Mse::BadSize(o, n))) => pos + l >= end && *o as u64 == pos && *n == b[1],
                Some(Err(Mse::UnterminatedStrings(o))) => pos + l < end && close.is_none() && *o as u64 == pos,
                _ => false,
            };
            if !ok {
                return Err(format!("{g:?} at offset {pos} of a table of {end} bytes"));
            }
            if let Some(Err(_)) = g {
                break;
            }
            pos += l + close.unwrap() as u64;
        }
        for _ in 0..3 {
            if let Some(g) = it.next() {
                return Err(format!("item {g:?} after the end"));
            }
        }
        st.steps += 4;
        st.class("table of 4 GiB");
        Ok(())
    })
}

// ---------------------------------------------------------------- entry points

/// where the model finds the entry point, or why it is refused
pub enum Found {
    At(usize, bool),
    NotFound,
    Size(usize),
    Version(u8),
    Sum(u8),
}
pub fn find(buf: &[u8]) -> Found {
    let mut at = 0;
    while at < buf.len() {
        let b = &buf[at..buf.len().min(at + 16)];
        let v3 = b.starts_with(b"_SM3_");
        if v3 || b.starts_with(b"_SM_") {
            let r = &buf[at..];
            let (fixed, lo, vo) = if v3 { (24, 6, 7) } else { (31, 5, 6) };
            if r.len() < fixed {
                return Found::Size(r.len());
            }
            let n = r[lo] as usize;
            if n < fixed {
                return Found::Size(n);
            }
            if r[vo] < 2 {
                return Found::Version(r[vo]);
            }
            if r.len() < n {
                return Found::Size(r.len());
            }
            let mut sum = 0u32;
            for x in &r[..n] {
                sum += *x as u32;
            }
            return if sum % 256 == 0 { Found::At(at, v3) } else { Found::Sum((sum % 256) as u8) };
        }
        at += 16;
    }
    Found::NotFound
}
/// `fields`: also compare what is reported
pub fn search(buf: &[u8], fields: bool, st: &mut Stats) -> R {
    let got = EntryPoint::search(buf);
    st.steps += 1;
    let want = find(buf);
    st.class(match want {
        Found::At(_, false) => "accepted SMBIOS 2",
        Found::At(_, true) => "accepted SMBIOS 3",
        Found::NotFound => "refused: no anchor",
        Found::Size(_) => "refused: size",
        Found::Version(_) => "refused: version",
        Found::Sum(_) => "refused: checksum",
    });
    match (&got, &want) {
        (Ok(e), Found::At(at, v3)) => {
            if matches!(e, EntryPoint::V3(_)) != *v3 {
                return Err(format!("found {e:?} where the first anchor is of the other kind"));
            }
            if fields {
                return ep_fields(e, &buf[*at..]);
            }
            // it must be the one at the first aligned anchor, and not another one
            let n = if *v3 { 24 } else { 31 };
            let mut got = ep_bytes(e);
            if *v3 {
                got[11] = buf[*at + 11]; // reserved, not accessible
            }
            if got[..n] != buf[*at..*at + n] {
                return Err(format!("found {e:?}, the first anchored entry point is {:02x?}", &buf[*at..*at + n]));
            }
            Ok(())
        }
        (Ok(e), _) => Err(format!("accepted {e:?}, must be refused")),
        (Err(e), Found::At(at, _)) => Err(format!("refused ({e:?}), there is a valid entry point at {at}")),
        (Err(e), w) => {
            if !fields {
                return Ok(());
            }
            let text = e.to_string();
            let ok = match (e, w) {
                (Iee::NotFound, Found::NotFound) => return Ok(()),
                (Iee::BadSize(a), Found::Size(n)) => *a as usize == *n,
                (Iee::TooOldVersion(a), Found::Version(n)) => a == n,
                (Iee::BadChecksum(a), Found::Sum(n)) => a == n,
                _ => false,
            };
            let n = match w {
                Found::Size(n) => *n,
                Found::Version(n) | Found::Sum(n) => *n as usize,
                _ => 0,
            };
            let why = match w {
                Found::Size(n) => format!("size {n}"),
                Found::Version(n) => format!("version {n}"),
                Found::Sum(n) => format!("checksum {n}"),
                _ => "no anchor".into(),
            };
            if !ok {
                return Err(format!("refused with {e:?}, the cause is {why}"));
            }
            if !model::has_number(&text, &n.to_string()) {
                return Err(format!("message {text:?} does not contain {n}"));
            }
            Ok(())
        }
    }
}
/// the bytes an entry point was made of, from its public fields (the reserved byte of SMBIOS 3 taken as is)
pub fn ep_bytes(e: &EntryPoint) -> Vec<u8> {
    let mut o = vec![];
    match *e {
        EntryPoint::V2(p) => {
            o.extend({ p.signature }.to_le_bytes());
            o.extend([p.checksum, p.len, p.major, p.minor]);
            o.extend({ p.struct_max }.to_le_bytes());
            o.push(p.revision);
            o.extend(p.formatted);
            o.extend(p.dmi_signature);
            o.push(p.dmi_checksum);
            o.extend({ p.smbios_len }.to_le_bytes());
            o.extend({ p.smbios_address }.to_le_bytes());
            o.extend({ p.smbios_count }.to_le_bytes());
            o.push(p.bcd_revision);
        }
        EntryPoint::V3(p) => {
            o.extend(p.signature);
            o.extend([p.checksum, p.len, p.major, p.minor, p.docrev, p.revision]);
            // the checksum over the fixed part is not a way to get the private byte back when more bytes are covered
            o.push(0);
            o.extend({ p.smbios_len_max }.to_le_bytes());
            o.extend({ p.smbios_address }.to_le_bytes());
        }
        #[allow(unreachable_patterns)]
        _ => {}
    }
    o
}
fn ep_fields(e: &EntryPoint, b: &[u8]) -> R {
    let w = |o: usize, n: usize| b[o..o + n].iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let (acc, spec): ([u64; 7], [u64; 7]) = (
        [
            e.len() as u64,
            e.major() as u64,
            e.minor() as u64,
            e.revision() as u64,
            e.smbios_address(),
            e.smbios_len() as u64,
            (e.to_version().major as u64) << 8 | e.to_version().minor as u64,
        ],
        match e {
            EntryPoint::V2(_) => [w(5, 1), w(6, 1), w(7, 1), w(10, 1), w(0x18, 4), w(0x16, 2), w(6, 1) << 8 | w(7, 1)],
            EntryPoint::V3(_) => [w(6, 1), w(7, 1), w(8, 1), w(10, 1), w(0x10, 8), w(0xC, 4), w(7, 1) << 8 | w(8, 1)],
            #[allow(unreachable_patterns)]
            _ => return Err(format!("{e:?} is neither of the two kinds")),
        },
    );
    for (i, n) in ["length", "major", "minor", "revision", "table address", "table length", "version"].iter().enumerate() {
        if acc[i] != spec[i] {
            return Err(format!("{n} reported as {:#x}, the bytes say {:#x}", acc[i], spec[i]));
        }
    }
    let mut got = ep_bytes(e);
    if let EntryPoint::V3(_) = e {
        got[11] = b[11];
    }
    if got != b[..got.len()] {
        return Err(format!("public fields hold {got:02x?}, the bytes are {:02x?}", &b[..got.len()]));
    }
    Ok(())
}

// ---------------------------------------------------------------- position independence

fn text_of(r: &Result<Structure, Mse>) -> String {
    let mut s = String::new();
    render::item(&mut s, r);
    s
}
fn hash_of(r: &Result<Structure, Mse>) -> u64 {
    let mut s = Fx(7);
    render::item(&mut s, r);
    s.fin()
}
/// surroundings of a structure: bytes in front (complete structures) and behind
pub fn surroundings() -> Vec<(Vec<u8>, Vec<u8>)> {
    let m = spaces::menu();
    let pre: Vec<Vec<u8>> = vec![
        vec![],
        m[0].clone(),
        m[1].clone(),
        m[3].clone(),
        m[5].clone(),
        [&m[4][..], &m[10][..], &m[1][..]].concat(),
        [&m[12][..], &m[11][..], &m[0][..], &m[4][..]].concat(),
        vec![0x80; 1].into_iter().chain([4, 0, 0]).chain([b'k'; 250]).chain([0, 0]).collect(),
    ];
    let post: Vec<Vec<u8>> = vec![vec![], m[0].clone(), m[2].clone(), m[6].clone(), vec![0xFF; 9], vec![0; 7], b"ABC\0DEF\0\0".to_vec(), m[1].clone()];
    let mut v = vec![];
    for (i, p) in pre.iter().enumerate() {
        for (j, q) in post.iter().enumerate() {
            if i == 0 || j == 0 || (i + j) % 3 == 0 || i == j {
                v.push((p.clone(), q.clone()));
            }
        }
    }
    v
}
fn same(a: &Result<Structure, Mse>, b: &Result<Structure, Mse>) -> bool {
    matches!((a, b), (Ok(a), Ok(b)) if a == b)
}
/// The structure of the case alone, then in every surrounding, address and entry point kind.
pub fn anywhere(c: &Case, buf: &[u8], sur: &[(Vec<u8>, Vec<u8>)], scratch: &mut Vec<u8>, st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let Some(alone) = e.structures(buf).next() else { return Ok(()) };
    st.class(outcome(buf[0], &alone));
    let alone_framed = !matches!(alone, Err(Mse::BadSize(..)) | Err(Mse::UnterminatedStrings(..)));
    let want = hash_of(&alone);
    if let Some(again) = e.structures(buf).next() {
        if hash_of(&again) != want {
            return Err(format!("decoding twice gives {} and {}", text_of(&alone), text_of(&again)));
        }
    }
    for (k, (p, q)) in sur.iter().enumerate() {
        // the number of items in front does not depend on the version (no end-of-table there)
        let skip = Walk::new(p, p.len() as u32, (2, 4)).count();
        scratch.clear();
        scratch.resize(64, 0xEE);
        let off = 64 - scratch.as_ptr() as usize % 64 + k % 8;
        scratch.resize(off, 0xEE);
        scratch.extend(p);
        scratch.extend(buf);
        scratch.extend(q);
        let total = scratch.len() - off;
        let cover = p.len() + buf.len();
        let see = |v3: bool, len: usize, st: &mut Stats| -> R {
            if v3 && c.major < 2 {
                return Ok(());
            }
            let cc = Case { v3, len: len as u32, major: c.major, minor: c.minor, ..Default::default() };
            let Some(e) = entry(&cc) else { return Ok(()) };
            st.steps += 1;
            let mut it = e.structures(&scratch[off..]);
            match it.nth(skip) {
                None => Err(format!("behind {} and before {} bytes the structure is not found", p.len(), q.len())),
                // comparing is faster than rendering, which is done in a part of the surroundings
                Some(g) if !(k % 4 != 0 && same(&g, &alone)) && hash_of(&g) != want => {
                    Err(format!("alone: {}; behind {:02x?} and before {:02x?} (announced {len}, v3 {v3}): {}", text_of(&alone), p, q, text_of(&g)))
                }
                _ => Ok(()),
            }
        };
        for (v3, len) in [(false, total), (true, total), (false, cover), (true, 0xFFFF_FFFF), (false, cover + q.len() / 2)] {
            see(v3, len, st)?;
        }
        // the announced length ends anywhere behind the formatted part
        let least = p.len() + buf[1] as usize + 1;
        if alone_framed && least <= cover {
            if k == 0 {
                for len in least..total {
                    see(len % 2 == 1, len, st)?;
                }
            } else {
                see(k % 2 == 1, least, st)?;
            }
        }
    }
    Ok(())
}
/// every structure of the table decodes as it does on its own (the model cuts the table in pieces)
pub fn alone(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let mut it = e.structures(buf);
    for i in Walk::new(buf, announced(c), (c.major, c.minor)) {
        let (Item::St(s), Some(g)) = (i, it.next()) else { return Ok(()) };
        let at = s.f.as_ptr() as usize - buf.as_ptr() as usize;
        let end = at + s.f.len() + s.s.len();
        // the framing is the business of other properties
        let Some(piece) = buf.get(at..end) else { return Ok(()) };
        let cc = Case { len: piece.len() as u32, ..c.clone() };
        let Some(o) = entry(&cc) else { return Ok(()) };
        let Some(o) = o.structures(piece).next() else { return Ok(()) };
        st.steps += 1;
        if hash_of(&g) != hash_of(&o) {
            return Err(format!("at offset {at:#x}: {}; alone: {}", text_of(&g), text_of(&o)));
        }
    }
    st.class("table against its pieces");
    Ok(())
}
/// all interleavings of `next` on up to three iterators
pub fn interleave(tables: &[(&[u8], Case)], st: &mut Stats) -> R {
    let solo: Vec<Vec<u64>> = tables
        .iter()
        .map(|(b, c)| entry(c).map(|e| e.structures(b).take(64).map(|g| hash_of(&g)).collect()).unwrap_or_default())
        .collect();
    let mut its = vec![];
    for (b, c) in tables {
        let Some(e) = entry(c) else { return Ok(()) };
        its.push(e.structures(b));
    }
    fn go<'a>(its: &[dmidecode::Structures<'a>], at: &mut Vec<usize>, solo: &[Vec<u64>], st: &mut Stats) -> R {
        for k in 0..its.len() {
            if at[k] > solo[k].len() {
                continue;
            }
            let mut next = its.to_vec();
            let g = next[k].next();
            st.steps += 1;
            let h = g.as_ref().map(hash_of);
            if h != solo[k].get(at[k]).copied() {
                return Err(format!("iterator {k} at step {:?} of an interleaving yields {:?}", at, g.as_ref().map(text_of)));
            }
            at[k] += 1;
            go(&next, at, solo, st)?;
            at[k] -= 1;
        }
        if its.iter().enumerate().all(|(k, _)| at[k] > solo[k].len()) {
            st.class("interleaving");
        }
        Ok(())
    }
    let mut at = vec![0; its.len()];
    go(&its, &mut at, &solo, st)
}

// ---------------------------------------------------------------- values

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = Fx(3);
    x.hash(&mut s);
    s.finish()
}
/// clone, equality and hash of everything in one walk, also against the same bytes at another address
pub fn values(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let e2 = e;
    if e2 != e || h(&e2) != h(&e) {
        return Err("a copy of the entry point differs".into());
    }
    let mut copy = Vec::with_capacity(buf.len() + 3);
    copy.extend([1, 2, 3]);
    copy.extend(buf);
    let other = &copy[3..];
    let mut it = e.structures(buf);
    let mut jt = e2.structures(other);
    if it != jt || h(&it) != h(&jt) {
        return Err("iterators over equal tables differ".into());
    }
    let mut last = None;
    for step in 0..buf.len() / 6 + 2 {
        let mut ic = it.clone();
        if ic != it || h(&ic) != h(&it) {
            return Err(format!("the clone of an iterator differs at step {step}"));
        }
        let mut z = ic.clone();
        z.next();
        z.clone_from(&it);
        if z != it || z.clone().count() != it.clone().count() {
            return Err(format!("clone_from of an iterator differs at step {step}"));
        }
        let (a, b, k) = (it.next(), jt.next(), ic.next());
        st.steps += 1;
        if it != jt || ic != it {
            return Err(format!("iterators that yielded the same differ at step {step}"));
        }
        match (a, b, k) {
            (None, None, None) => return Ok(()),
            (Some(Err(a)), Some(Err(b)), Some(Err(k))) => {
                let (a, b, k) = (format!("{a:?}"), format!("{b:?}"), format!("{k:?}"));
                if a != b || a != k {
                    return Err(format!("errors {a}, {b}, {k} from equal bytes"));
                }
            }
            (Some(Ok(a)), Some(Ok(b)), Some(Ok(k))) => {
                st.class("value");
                let cl = a.clone();
                let mut over = last.take().unwrap_or_else(|| b.clone());
                over.clone_from(&a);
                for (what, x) in [("clone", &cl), ("value overwritten by clone_from", &over), ("value decoded at another address", &b), ("value from a cloned iterator", &k)] {
                    if *x != a || a != *x || !(*x == a && a == *x) {
                        return Err(format!("{what} {x:?} differs from {a:?}"));
                    }
                    if h(x) != h(&a) {
                        return Err(format!("{what} of {a:?} hashes differently"));
                    }
                }
                let before = text_of(&Ok(a.clone()));
                lists_cloned(&a)?;
                if text_of(&Ok(cl)) != before || text_of(&Ok(a)) != before || text_of(&Ok(b)) != before {
                    return Err("a value and its clone are not the same".into());
                }
                last = Some(over);
            }
            (a, b, k) => return Err(format!("equal bytes give {a:?}, {b:?} and {k:?}")),
        }
    }
    Ok(())
}
/// Everything an iterator offers besides `next` agrees with `next`, at the beginning, in the middle and at the end:
/// the size hint bounds what is left, and `nth`, `count`, `last`, `fold`, `skip` and `step_by` see the same entries.
/// (`key` is what identifies an entry.)
pub fn protocol<L: Iterator + Clone, K: PartialEq + std::fmt::Debug>(name: &str, l: &L, cap: usize, key: impl Fn(&L::Item) -> K) -> R {
    let mut all: Vec<K> = vec![];
    let mut it = l.clone();
    while let Some(x) = it.next() {
        all.push(key(&x));
        if all.len() > cap {
            return Ok(()); // endless lists are the business of another property
        }
    }
    let n = all.len();
    let mut at: Vec<usize> = if n <= 8 { (0..=n).collect() } else { vec![0, 1, 2, n / 2, n - 1, n] };
    at.dedup();
    let mut it = l.clone();
    let mut pos = 0;
    for k in at {
        while pos < k {
            it.next();
            pos += 1;
        }
        let rest = &all[k..];
        let r = rest.len();
        let (lo, hi) = it.size_hint();
        if lo > r || hi.is_some_and(|h| h < r) {
            return Err(format!("{name}: size hint ({lo}, {hi:?}) after {k} entries, {r} are left"));
        }
        if it.clone().count() != r {
            return Err(format!("{name}: count() after {k} entries is {}, {r} are left", it.clone().count()));
        }
        if it.clone().last().as_ref().map(&key).as_ref() != rest.last() {
            return Err(format!("{name}: last() after {k} entries is not {:?}", rest.last()));
        }
        let mut seen = 0;
        let same = it.clone().fold(true, |ok, x| {
            seen += 1;
            ok && rest.get(seen - 1) == Some(&key(&x))
        });
        if !same || seen != r {
            return Err(format!("{name}: fold() after {k} entries does not see {rest:?}"));
        }
        let mut js = vec![0, 1, 2, 3, r.saturating_sub(1), r, r + 1];
        js.sort();
        js.dedup();
        for j in js {
            let mut c = it.clone();
            let g = c.nth(j).as_ref().map(&key);
            if g.as_ref() != rest.get(j) {
                return Err(format!("{name}: nth({j}) after {k} entries is {g:?} instead of {:?}", rest.get(j)));
            }
            if j < r {
                let g = c.next().as_ref().map(&key);
                if g.as_ref() != rest.get(j + 1) {
                    return Err(format!("{name}: the entry behind nth({j}) after {k} entries is {g:?} instead of {:?}", rest.get(j + 1)));
                }
            }
        }
        for s in [2usize, 3] {
            if !it.clone().step_by(s).map(|x| Keyed(key(&x))).eq(rest.iter().step_by(s).map(|x| KeyRef(x))) {
                return Err(format!("{name}: every {s}th entry after {k} entries is wrong"));
            }
        }
    }
    Ok(())
}
struct KeyRef<'a, K>(&'a K);
impl<K: PartialEq> PartialEq<KeyRef<'_, K>> for Keyed<K> {
    fn eq(&self, o: &KeyRef<K>) -> bool {
        self.0 == *o.0
    }
}
struct Keyed<K>(K);
/// the walk itself offers a consistent iterator
pub fn walk_protocol(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    st.steps += 1;
    st.class("iterator protocol of a walk");
    protocol("walk", &e.structures(buf), buf.len() + 8, hash_of)
}
/// at every point of every list: the clone continues from there and leaves the original alone
pub fn lists_cloned(x: &Structure) -> R {
    struct Cloned;
    impl Visit for Cloned {
    fn list<T: PartialEq + std::fmt::Debug, L: Iterator<Item = T> + Clone + PartialEq + Hash>(&mut self, name: &str, l: &L) -> R {
        let all: Vec<T> = l.clone().take(100_000).collect();
        let step = (all.len() / 24).max(1);
        let mut it = l.clone();
        for k in 0..=all.len() {
            if k % step == 0 || k + 2 > all.len() {
                let c = it.clone();
                if c != it || h(&c) != h(&it) {
                    return Err(format!("{name}: the clone after {k} entries is not equal"));
                }
                let rest: Vec<T> = c.take(100_000).collect();
                if rest != all[k..] {
                    return Err(format!("{name}: the clone after {k} entries continues with {rest:?} instead of {:?}", &all[k..]));
                }
            }
            if it.next().as_ref() != all.get(k) {
                return Err(format!("{name}: entry {k} changes when a clone is consumed"));
            }
        }
        let mut other = l.clone();
        other.nth(all.len() / 2);
        let was = other.clone();
        other.clone_from(l);
        if other != *l || h(&other) != h(l) || !all.is_empty() && was == *l && was.clone().count() != all.len() {
            return Err(format!("{name}: clone_from gives another list"));
        }
        Ok(())
    }
    }
    lists(x, &mut Cloned)
}
/// a visitor of all lists of a structure
pub trait Visit {
    fn list<T: PartialEq + std::fmt::Debug, L: Iterator<Item = T> + Clone + PartialEq + Hash>(&mut self, name: &str, l: &L) -> R;
}
struct Protocol;
impl Visit for Protocol {
    fn list<T: PartialEq + std::fmt::Debug, L: Iterator<Item = T> + Clone + PartialEq + Hash>(&mut self, name: &str, l: &L) -> R {
        protocol(name, l, 100_000, |x| {
            let mut o = Fx(5);
            let _ = std::fmt::Write::write_fmt(&mut o, format_args!("{x:?}"));
            o.fin()
        })
    }
}
pub fn lists_protocol(x: &Structure) -> R {
    lists(x, &mut Protocol)
}
fn lists(x: &Structure, v: &mut impl Visit) -> R {
    match x {
        Structure::Enclosure(x) => x.contained_elements.iter().try_for_each(|l| v.list("contained elements", l)),
        Structure::SystemSlots(x) => x.peer_devices.iter().try_for_each(|l| v.list("peer devices", l)),
        Structure::OemStrings(x) => v.list("oem strings", &x.strings),
        Structure::SystemConfigurationOptions(x) => v.list("configuration options", &x.strings),
        Structure::BiosLanguage(x) => v.list("languages", &x.installable_languages),
        Structure::GroupAssociations(x) => v.list("group items", &x.items),
        Structure::SystemEventLog(x) => x.supported_event_log_type_descriptors.iter().try_for_each(|l| v.list("log types", l)),
        _ => Ok(()),
    }
}
/// two structures: the case, and the case with the byte at aux % 2^16 replaced by aux >> 16 (or that byte inserted, or one left out)
pub fn distinct(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let mut other = buf.to_vec();
    let (at, x) = (c.aux as usize & 0xFFFF, (c.aux >> 16) as u8);
    match c.aux >> 24 {
        0 => other[at] = x,
        1 => other.insert(at, x),
        _ => drop(other.remove(at)),
    }
    let mut d = c.clone();
    d.len = (c.len as i64 + other.len() as i64 - buf.len() as i64) as u32;
    let Some(f) = entry(&d) else { return Ok(()) };
    let (Some(Ok(a)), Some(Ok(b))) = (e.structures(buf).next(), f.structures(&other).next()) else { return Ok(()) };
    st.steps += 2;
    let same = hash_of(&Ok(a.clone())) == hash_of(&Ok(b.clone()));
    let eq = a == b;
    if eq != (b == a) {
        return Err("equality is not symmetric".into());
    }
    if eq && !same {
        return Err(format!("equal although they differ: {} and {}", text_of(&Ok(a)), text_of(&Ok(b))));
    }
    if eq && h(&a) != h(&b) {
        return Err(format!("equal values hash differently: {a:?}"));
    }
    if buf == &other[..] && !eq {
        return Err(format!("identical bytes give different values: {a:?} and {b:?}"));
    }
    st.class(if eq { "equal pair" } else { "unequal pair" });
    Ok(())
}
/// All 256 values of one byte (at aux): every ordered pair of the decoded structures, and of the walks.
pub fn all_pairs(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let all: Vec<Vec<u8>> = (0..=255u8)
        .map(|x| {
            let mut b = buf.to_vec();
            b[c.aux as usize] = x;
            b
        })
        .collect();
    let items: Vec<_> = all
        .iter()
        .filter_map(|b| {
            let it = e.structures(b);
            let copy = it.clone();
            let g = it.clone().next()?;
            let f = hash_of(&g);
            Some((it, copy, f, g))
        })
        .collect();
    let n = items.len() as u64;
    st.inner += n * (n + 1) / 2;
    st.steps += n * (n + 1) / 2;
    for (i, (it, _, f, g)) in items.iter().enumerate() {
        let hg = g.as_ref().ok().map(|g| h(g));
        for (j, (jt, _, k, o)) in items[..=i].iter().enumerate() {
            if (it == jt) != (jt == it) || (it != jt) == (it == jt) {
                return Err("equality of iterators is inconsistent".into());
            }
            if it == jt && (f != k || h(it) != h(jt)) {
                return Err(format!("iterators compare equal and yield {} and {}", text_of(g), text_of(o)));
            }
            let (Ok(g), Ok(o)) = (g, o) else { continue };
            let eq = g == o;
            if eq != (o == g) || eq == (g != o) {
                return Err(format!("equality is inconsistent: {g:?} and {o:?}"));
            }
            if eq && f != k {
                return Err(format!("equal although they differ: {} and {}", text_of(&Ok(g.clone())), text_of(&Ok(o.clone()))));
            }
            if i == j && !eq {
                return Err(format!("not equal to itself: {g:?}"));
            }
            if eq && hg != Some(h(o)) {
                return Err(format!("equal values hash differently: {g:?}"));
            }
        }
    }
    st.class("byte with all pairs of its values");
    Ok(())
}
/// entry points: equal bytes give equal values with equal hashes, at any address; different ones do not
pub fn entry_values(buf: &[u8], st: &mut Stats) -> R {
    st.steps += 1;
    let mut copy = vec![9u8; 5];
    copy.extend(buf);
    let (Ok(a), Ok(b)) = (EntryPoint::search(buf), EntryPoint::search(&copy[5..])) else { return Ok(()) };
    let k = a;
    for (what, x) in [("copy", k), ("entry point found at another address", b)] {
        if x != a || h(&x) != h(&a) {
            return Err(format!("{what}: {x:?} differs from {a:?}"));
        }
    }
    for s in [&spaces::SM2[..], &spaces::SM3[..]] {
        let mut f = s.to_vec();
        spaces::refit(&mut f, 0, s.len(), s.len() == 24, 0);
        if let Ok(f) = EntryPoint::search(&f) {
            if f == a && (ep_bytes(&f) != ep_bytes(&a) || h(&f) != h(&a)) || (f == a) != (a == f) {
                return Err(format!("{f:?} and {a:?} compare equal"));
            }
        }
    }
    st.class("entry point value");
    Ok(())
}
pub fn describe_verdict(s: &S) -> Vec<Er> {
    model::verdict(s).list().collect()
}

/// the table of the case at every address modulo the page size (and at the next ones)
pub fn addresses(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let Some(e) = entry(c) else { return Ok(()) };
    let want: Vec<_> = e.structures(buf).take(buf.len()).collect();
    let mut room = vec![0xEEu8; 3 * 4096 + buf.len()];
    let lo = 4096 - room.as_ptr() as usize % 4096;
    for off in 0..4096 + 64 {
        st.steps += want.len() as u64;
        let at = lo + off;
        room[at..at + buf.len()].copy_from_slice(buf);
        let mut it = e.structures(&room[at..at + buf.len()]);
        for w in &want {
            match it.next() {
                Some(g) if same(w, &g) || hash_of(w) == hash_of(&g) => st.class(outcome(buf[0], &g)),
                Some(g) => return Err(format!("{} becomes {} at an address that is {off} modulo 4096", text_of(w), text_of(&g))),
                None => return Err(format!("{} is missing at an address that is {off} modulo 4096", text_of(w))),
            }
        }
        if it.next().is_some() {
            return Err(format!("an additional item at an address that is {off} modulo 4096"));
        }
        room[at..at + buf.len()].fill(if off % 2 == 0 { 0 } else { 0xEE });
    }
    Ok(())
}
/// the search in the same bytes at every address modulo the page size
pub fn addresses_search(buf: &[u8], fields: bool, st: &mut Stats) -> R {
    let mut room = vec![0xEEu8; 3 * 4096 + buf.len()];
    let lo = 4096 - room.as_ptr() as usize % 4096;
    for off in 0..4096 + 64 {
        let at = lo + off;
        room[at..at + buf.len()].copy_from_slice(buf);
        search(&room[at..at + buf.len()], fields, st).map_err(|x| format!("at an address that is {off} modulo 4096: {x}"))?;
        room[at..at + buf.len()].fill(if off % 2 == 0 { 0 } else { 0xEE });
    }
    Ok(())
}

/// All states of all walks over the table (any announced length, both kinds of entry point, versions 2 and 3, also with a byte
/// more or less at the end), pairwise: equal ones have the same items ahead and hash alike.
pub fn walk_states(c: &Case, buf: &[u8], st: &mut Stats) -> R {
    let longer = [buf, &[0]].concat();
    let bufs = [buf, &longer, &buf[..buf.len() - 1]];
    let mut states = vec![];
    for (k, b) in bufs.into_iter().enumerate() {
        for v3 in [false, true] {
            for major in [2, 3] {
                for len in 0..=buf.len() as u32 + 2 {
                    if k > 0 && (len as usize + 3 < buf.len() || v3) {
                        continue;
                    }
                    let Some(e) = entry(&Case { v3, major, len, ..c.clone() }) else { continue };
                    let mut it = e.structures(b);
                    let mut steps = vec![it.clone()];
                    let mut items = vec![];
                    while let Some(g) = it.next() {
                        items.push(hash_of(&g));
                        steps.push(it.clone());
                        if items.len() > b.len() {
                            break;
                        }
                    }
                    for (i, s) in steps.into_iter().enumerate() {
                        let hs = h(&s);
                        states.push((s, items[i.min(items.len())..].to_vec(), hs));
                    }
                }
            }
        }
    }
    let n = states.len() as u64;
    st.inner += n * (n + 1) / 2;
    st.steps += n * (n + 1) / 2;
    for (i, (a, x, ha)) in states.iter().enumerate() {
        for (b, y, hb) in &states[..=i] {
            let eq = a == b;
            if eq != (b == a) || eq == (a != b) {
                return Err("equality of iterators is inconsistent".into());
            }
            if eq && x != y {
                return Err(format!("iterators with different items ahead are equal: {a:?} and {b:?}"));
            }
            if eq && ha != hb {
                return Err(format!("equal iterators hash differently: {a:?} and {b:?}"));
            }
        }
    }
    st.class("table with all pairs of its walks");
    Ok(())
}
