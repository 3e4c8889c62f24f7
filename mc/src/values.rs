//! Conversions, derived quantities, bit fields and displayed texts, checked directly on values.
use crate::engine::{Case, Stats};
use crate::evals::{entry, R};
use crate::model as m;
use crate::render;
use crate::spaces;
use crate::tables as t;
use dmidecode::bitfield::{BitField, Flag, FlagType, Iter, Layout, Position};
use dmidecode::{self as d, InfoType, InvalidEntryPointError as Iee, MalformedStructureError as Mse, SmbiosVersion, Structure};
use std::collections::BTreeMap;
use std::fmt::{Debug, Display, Write};

use d::system_event_log::log_record_format as lrf;
use d::system_event_log::{AccessMethod, EventLogTypeDescriptor};
use d::system_slots as ss;

// ---------------------------------------------------------------- C16: codes

/// all enumerations with a conversion from their code: name, number of codes, check of one code
type CodeCheck = fn(u32) -> R;
macro_rules! code {
    ($name:literal, $n:expr, $w:ty, $t:ty, $f:path) => {
        ($name, $n as u64, {
            fn check(c: u32) -> R {
                let got = <$t>::from(c as $w);
                let want = $f(c as $w);
                if got != want {
                    return Err(format!(concat!($name, " code {:#x} gives {:?}, specified is {:?}"), c, got, want));
                }
                if $n <= 256 {
                    // different meanings are different values and equality is by meaning
                    for o in 0..$n as u32 {
                        let other = <$t>::from(o as $w);
                        let same = format!("{:?}", $f(o as $w)) == format!("{want:?}");
                        if (got == other) != same {
                            return Err(format!(concat!($name, " codes {:#x} and {:#x}: equality is {}"), c, o, got == other));
                        }
                    }
                }
                Ok(())
            }
            check as CodeCheck
        })
    };
}
pub fn code_tables() -> Vec<(&'static str, u64, CodeCheck)> {
    vec![
        code!("structure type", 256, u8, InfoType, t::lib_info_type),
        code!("wake-up type", 256, u8, d::system::WakeupType, t::system_wakeup_type),
        code!("board type", 256, u8, d::baseboard::BoardType, t::baseboard_board_type),
        code!("enclosure type", 256, u8, d::enclosure::EnclosureType, t::enclosure_enclosure_type),
        code!("enclosure state", 256, u8, d::enclosure::State, t::enclosure_state),
        code!("security status", 256, u8, d::enclosure::SecurityStatus, t::enclosure_security_status),
        code!("contained element type", 256, u8, d::enclosure::ContainedElementType, m::contained_type),
        code!("processor type", 256, u8, d::processor::ProcessorType, t::processor_processor_type),
        code!("processor family (byte)", 256, u8, d::processor::ProcessorFamily, family8),
        code!("processor family (word)", 65536, u16, d::processor::ProcessorFamily, t::processor_processor_family),
        code!("processor upgrade", 256, u8, d::processor::ProcessorUpgrade, t::processor_processor_upgrade),
        code!("voltage", 256, u8, d::processor::Voltage, m::voltage),
        code!("cache level", 65536, u16, d::cache::CacheLevel, t::cache_cache_level),
        code!("cache location", 65536, u16, d::cache::CacheLocation, t::cache_cache_location),
        code!("cache operational mode", 65536, u16, d::cache::CacheOperationalMode, t::cache_cache_operational_mode),
        code!("cache error correction", 256, u8, d::cache::CacheErrorCorrectionType, t::cache_cache_error_correction_type),
        code!("system cache type", 256, u8, d::cache::SystemCacheType, t::cache_system_cache_type),
        code!("cache associativity", 256, u8, d::cache::CacheAssociativity, t::cache_cache_associativity),
        code!("cache size", 65536, u16, d::cache::CacheSize, m::cache_size),
        code!("connector type", 256, u8, d::port_connector::ConnectorType, t::port_connector_connector_type),
        code!("port type", 256, u8, d::port_connector::PortType, t::port_connector_port_type),
        code!("slot type", 256, u8, ss::SlotType, t::system_slots_slot_type),
        code!("slot width", 256, u8, ss::SlotWidth, t::system_slots_slot_width),
        code!("slot usage", 256, u8, ss::CurrentUsage, t::system_slots_current_usage),
        code!("slot length", 256, u8, ss::SlotLength, t::system_slots_slot_length),
        code!("memory array location", 256, u8, d::physical_memory_array::MemoryArrayLocation, t::physical_memory_array_memory_array_location),
        code!("memory array use", 256, u8, d::physical_memory_array::MemoryArrayUse, t::physical_memory_array_memory_array_use),
        code!("memory array error correction", 256, u8, d::physical_memory_array::MemoryArrayErrorCorrectionTypes, t::physical_memory_array_memory_array_error_correction_types),
        code!("memory device error granularity", 256, u8, d::memory_device::ErrorGranularity, t::memory_device_error_granularity),
        code!("memory device error operation", 256, u8, d::memory_device::ErrorOperation, t::memory_device_error_operation),
        code!("memory device error type", 256, u8, d::memory_device::ErrorType, t::memory_device_error_type),
        code!("memory device form factor", 256, u8, d::memory_device::FormFactor, t::memory_device_form_factor),
        code!("memory technology", 256, u8, d::memory_device::MemoryTechnology, t::memory_device_memory_technology),
        code!("memory device type", 256, u8, d::memory_device::Type, t::memory_device_type),
        code!("memory error type", 256, u8, d::memory_error_32::ErrorType, t::memory_error_32_error_type),
        code!("memory error granularity", 256, u8, d::memory_error_32::ErrorGranularity, t::memory_error_32_error_granularity),
        code!("memory error operation", 256, u8, d::memory_error_32::ErrorOperation, t::memory_error_32_error_operation),
        code!("pointing device type", 256, u8, d::built_in_pointing_device::Type, t::built_in_pointing_device_type),
        code!("pointing device interface", 256, u8, d::built_in_pointing_device::Interface, t::built_in_pointing_device_interface),
        code!("log header format", 256, u8, d::system_event_log::LogHeaderFormat, t::system_event_log_log_header_format),
        code!("event log type", 256, u8, lrf::EventLogType, t::log_record_format_event_log_type),
        code!("variable data format", 256, u8, lrf::VariableDataFormatType, t::log_record_format_variable_data_format_type),
    ]
}
fn family8(b: u8) -> d::processor::ProcessorFamily {
    t::processor_processor_family(b as u16)
}
/// aux = table << 32 | code
pub fn code(c: &Case, st: &mut Stats, tables: &[(&'static str, u64, CodeCheck)]) -> R {
    st.steps += 1;
    let (name, _, f) = tables[(c.aux >> 32) as usize];
    st.class(name);
    f(c.aux as u32)
}
/// values that convert back; aux = a 16-bit number
pub fn round_trip(c: &Case, st: &mut Stats) -> R {
    let w = c.aux as u16;
    let [a, b] = w.to_le_bytes();
    st.steps += 1;
    st.class("descriptor round trip");
    let e = EventLogTypeDescriptor::from([a, b]);
    if e != m::descriptor(a, b) {
        return Err(format!("log descriptor {a:#x} {b:#x} is {e:?}"));
    }
    let back: [u8; 2] = e.into();
    if back != [a, b] || u8::from(e.log_type) != a || u8::from(e.variable_data_format_type) != b {
        return Err(format!("log descriptor {a:#x} {b:#x} converts back to {back:02x?}"));
    }
    if b == 0 {
        let x: u8 = lrf::EventLogType::from(a).into();
        let y: u8 = lrf::VariableDataFormatType::from(a).into();
        let z: u8 = ss::DeviceAndFunctionNumber::from(a).into();
        if x != a || y != a || z != a {
            return Err(format!("code {a:#x} converts back to {x:#x} (event), {y:#x} (data format), {z:#x} (device/function)"));
        }
        for o in 0..=255u8 {
            if (ss::DeviceAndFunctionNumber::from(a) == ss::DeviceAndFunctionNumber::from(o)) != (a == o) {
                return Err(format!("device/function {a:#x} and {o:#x}: wrong equality"));
            }
        }
    }
    // the payload of a data format does not change its code
    use lrf::VariableDataFormatType as V;
    let s = t::system_management_type((b as u32) << 24 | a as u32);
    for (v, code) in [
        (V::Handle { handle: w }, 1u8),
        (V::MultipleEvent { counter: w as u32 * 65_537 }, 2),
        (V::MultipleEventHandle { handle: w, counter: !w as u32 }, 3),
        (V::PostResults((w as u64).into()), 4),
        (V::SystemManagementType(s), 5),
        (V::MultipleEventSystemManagementType { system_management_type: s, counter: w as u32 }, 6),
    ] {
        if u8::from(v) != code {
            return Err(format!("{v:?} converts to {:#x}, its code is {code:#x}", u8::from(v)));
        }
    }
    Ok(())
}
/// peer devices: five bytes and back
pub fn peer(_: &Case, buf: &[u8], st: &mut Stats) -> R {
    st.steps += 1;
    st.class("peer device");
    let mut full = [0u8; 5];
    for (a, b) in full.iter_mut().zip(buf) {
        *a = *b;
    }
    let e = ss::Device::from(buf);
    if e != m::peer(&full) {
        return Err(format!("peer device {buf:02x?} is {e:?}"));
    }
    let back: [u8; 5] = (&e).into();
    if back != full {
        return Err(format!("peer device {full:02x?} converts back to {back:02x?}"));
    }
    if buf.len() >= 5 {
        let l: Vec<ss::Device> = ss::PeerDevices::from(buf).collect();
        let want: Vec<ss::Device> = buf.chunks(5).map(|c| {
            let mut f = [0u8; 5];
            f[..c.len()].copy_from_slice(c);
            m::peer(&f)
        }).collect();
        if l != want {
            return Err(format!("peer devices {buf:02x?} are {l:?}"));
        }
    }
    Ok(())
}
/// 2^16 system management codes; aux = upper half
pub fn management(c: &Case, st: &mut Stats) -> R {
    st.inner += 65_536;
    st.steps += 65_536;
    for lo in 0..65_536u32 {
        let code = (c.aux as u32) << 16 | lo;
        let got = lrf::SystemManagementType::from(code);
        if got != t::system_management_type(code) {
            return Err(format!("system management type {code:#x} is {got:?}"));
        }
    }
    st.class("system management types (65536 codes each)");
    Ok(())
}

// ---------------------------------------------------------------- C19: quantities

/// aux = extended + 1 (0: none)
pub fn rom_size(c: &Case, st: &mut Stats) -> R {
    let extended = if c.aux == 0 { None } else { Some((c.aux - 1) as u16) };
    st.inner += 256;
    st.steps += 256;
    st.class("ROM size (256 basic sizes each)");
    for basic in 0..=255u8 {
        let got = u64::from(d::bios::RomSize { basic, extended });
        let want = m::rom_bytes(basic, extended);
        if got != want {
            return Err(format!("ROM size basic {basic:#x} extended {extended:x?} is {got}, specified {want}"));
        }
    }
    Ok(())
}
/// aux = 16 bit number
pub fn words(c: &Case, st: &mut Stats) -> R {
    let w = c.aux as u16;
    st.steps += 1;
    st.class("16-bit quantities");
    let s = d::cache::CacheSize::from(w);
    if s.bytes() != m::cache_bytes(w) || s != m::cache_size(w) {
        return Err(format!("cache size {w:#x} is {s:?}, {} bytes; specified {}", s.bytes(), m::cache_bytes(w)));
    }
    for s in [d::cache::CacheSize::Granularity1K(w), d::cache::CacheSize::Granularity64K(w)] {
        let k = if matches!(s, d::cache::CacheSize::Granularity1K(_)) { 1 << 10 } else { 1 << 16 };
        if s.bytes() != w as u64 * k {
            return Err(format!("{s:?} is {} bytes", s.bytes()));
        }
    }
    for multiplier in 0..=255u8 {
        let got = u64::from(d::portable_battery::DesignCapacity::Data { value: w, multiplier });
        if got != w as u64 * multiplier as u64 {
            return Err(format!("capacity {w} times {multiplier} is {got}"));
        }
    }
    if u64::from(d::portable_battery::DesignCapacity::Unknown) != 0 {
        return Err("unknown capacity is not zero".into());
    }
    let p = ss::SlotPitch::from(w).to_string();
    if p != m::pitch_text(w) {
        return Err(format!("slot pitch {w} is {p:?}, specified {:?}", m::pitch_text(w)));
    }
    m::cache_config(&d::cache::CacheConfiguration::from(w), w)?;
    if w < 256 {
        let b = w as u8;
        if d::processor::Voltage::from(b) != m::voltage(b) {
            return Err(format!("voltage {b:#x} is {:?}", d::processor::Voltage::from(b)));
        }
        let df = ss::DeviceAndFunctionNumber::from(b);
        let dev = ss::Device { segment_group_number: 0xABC, bus_number: 0x1F, device_and_function_number: df, data_bus_width: 16 };
        let want = format!("0abc:1f:{:02x}.{:x} (Width 16)", b / 8, b % 8);
        if u8::from(df) != b || dev.to_string() != want {
            return Err(format!("device/function {b:#x} is {df:?}, {dev}; specified {want}"));
        }
    }
    Ok(())
}
/// 2^16 sizes; aux = upper half
pub fn size2(c: &Case, st: &mut Stats) -> R {
    st.inner += 65_536;
    st.steps += 65_536;
    for lo in 0..65_536u32 {
        let w = (c.aux as u32) << 16 | lo;
        let s = d::cache::CacheSize2::from(w);
        if s.bytes() != m::cache_bytes2(w) || s != m::cache_size2(w) {
            return Err(format!("cache size {w:#x} is {s:?}, {} bytes; specified {}", s.bytes(), m::cache_bytes2(w)));
        }
    }
    st.class("32-bit cache sizes (65536 each)");
    for s in [d::cache::CacheSize2::Granularity1K(c.aux as u32 * 65_537), d::cache::CacheSize2::Granularity64K(c.aux as u32 * 65_537)] {
        let k = if matches!(s, d::cache::CacheSize2::Granularity1K(_)) { 1 << 10 } else { 1 << 16 };
        if s.bytes() != (c.aux * 65_537) * k {
            return Err(format!("{s:?} is {} bytes", s.bytes()));
        }
    }
    Ok(())
}
fn method_ok(method: u8, a: u32) -> R {
    let got = AccessMethod::new(method, a);
    let (want, addr) = m::access_method(method, a);
    if got != want || got.address() != addr {
        return Err(format!("access method {method:#x} with {a:#x} is {got:?} at {:#x}; specified {want:?} at {addr:#x}", got.address()));
    }
    Ok(())
}
/// every method with addresses that differ in at most two bytes from 0, all ones and a marker; aux = method << 16 | two lanes' value
pub fn access(c: &Case, st: &mut Stats) -> R {
    let method = (c.aux >> 16) as u8;
    let (x, y) = (c.aux as u8 as u32, (c.aux >> 8) as u8 as u32);
    for base in [0u32, u32::MAX, 0x1234_5678] {
        for i in 0..4 {
            for j in 0..i {
                let mask = 0xFFu32 << (8 * i) | 0xFF << (8 * j);
                method_ok(method, base & !mask | x << (8 * i) | y << (8 * j))?;
                st.steps += 1;
            }
        }
    }
    st.class("access addresses");
    Ok(())
}
/// all 2^16 lower halves; aux = method << 16 | upper half
pub fn access_all(c: &Case, st: &mut Stats) -> R {
    st.inner += 65_536;
    st.steps += 65_536;
    for lo in 0..65_536u32 {
        method_ok((c.aux >> 16) as u8, (c.aux as u32 & 0xFFFF) << 16 | lo)?;
    }
    st.class("access addresses (65536 each)");
    Ok(())
}
/// a version against all others; aux = version
pub fn order(c: &Case, st: &mut Stats) -> R {
    let (am, an) = ((c.aux >> 8) as u8, c.aux as u8);
    let a = SmbiosVersion::from((am as usize, an as usize));
    if (a.major, a.minor) != (am, an) {
        return Err(format!("({am}, {an}) converts to {a:?}"));
    }
    st.inner += 65_536;
    st.steps += 65_536;
    for w in 0..65_536u32 {
        let (bm, bn) = ((w >> 8) as u8, w as u8);
        let b = SmbiosVersion::from((bm as usize, bn as usize));
        let want = (am, an).cmp(&(bm, bn));
        if a.cmp(&b) != want || a.partial_cmp(&b) != Some(want) || (a == b) != want.is_eq() || (a < b) != want.is_lt()
            || (a >= b) != want.is_ge()
            || (a > b) != want.is_gt()
            || (a <= b) != want.is_le()
            || (a != b) != want.is_ne()
            || a.max(b) != if want.is_gt() { a } else { b }
            || a.min(b) != if want.is_gt() { b } else { a }
        {
            return Err(format!("{a:?} and {b:?} compare {:?}", a.cmp(&b)));
        }
    }
    st.class("version against 65536 versions");
    Ok(())
}

// ---------------------------------------------------------------- C17: bit fields

/// A bit field with a layout chosen at run time.
struct G<'a, T>(T, Layout<'a>);
macro_rules! g {
    ($($t:ty),*) => { $( impl<'a> BitField<'a> for G<'a, $t> {
        type Size = $t;
        fn value(&self) -> $t { self.0 }
        fn iter(&self) -> Iter<'a, $t> { Iter { value: self.0, index: 0, layout: self.1 } }
    } )* };
}
g!(u8, u16, u32, u64, u128);
pub fn field<'a, T: BitField<'a>>(name: &str, b: &T, value: u128, layout: &[FlagType]) -> Result<(), String> {
    let width = std::mem::size_of::<T::Size>() * 8;
    if b.value().into() != value {
        return Err(format!("{name}: value {:#x}, the field is {value:#x}", b.value().into()));
    }
    let kind = |i: usize| layout.get(i).copied().unwrap_or(FlagType::Unknown);
    let bad = |what: &str, i: usize, f: &dyn Debug| Err(format!("{name} {value:#x}: {what} {i} is {f:?} (meaning {:?})", kind(i)));
    let mut it = b.iter();
    for i in 0..width {
        let f = it.next();
        match f {
            Some(f) if *f.position == i && f.is_set == (value >> i & 1 == 1) && f.type_ == kind(i) => {}
            _ => return bad("flag", i, &f),
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return bad("flag", width, &"not the end");
    }
    let mut it = b.significants();
    for i in (0..width).filter(|i| value >> i & 1 == 1 && !matches!(kind(*i), FlagType::Reserved(_))) {
        let f = it.next();
        match f {
            Some(f) if *f.position == i && f.is_set && f.type_ == kind(i) => {}
            _ => return bad("significant flag", i, &f),
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return bad("significant flag", width, &"not the end");
    }
    let mut it = b.reserved();
    let mut i = 0;
    while i < width {
        let FlagType::Reserved(what) = kind(i) else {
            i += 1;
            continue;
        };
        let mut e = i;
        while e + 1 < width && kind(e + 1) == FlagType::Reserved(what) {
            e += 1;
        }
        match it.next() {
            Some(r) if r.description == what && r.range == (i..=e) => {}
            r => return bad("reserved range at", i, &r),
        }
        i = e + 1;
    }
    if it.next().is_some() || it.next().is_some() {
        return bad("reserved range", width, &"not the end");
    }
    Ok(())
}
/// the iterators of a bit field are consistent in everything they offer
fn protocols<'a, T: BitField<'a>>(name: &str, b: &T) -> R
where
    T::Size: Debug,
{
    use crate::evals::protocol;
    let key = |f: &Flag| (*f.position, f.is_set, format!("{f:?}"));
    protocol(&format!("flags of {name}"), &b.iter(), 300, key)?;
    protocol(&format!("significant flags of {name}"), &b.significants(), 300, key)?;
    protocol(&format!("reserved ranges of {name}"), &b.reserved(), 300, |r| format!("{r:?}"))
}
fn collect_back<'a, T: BitField<'a>>(name: &str, b: &T, value: u128, layout: &[FlagType]) -> R {
    let mut keep = value;
    for (i, k) in layout.iter().enumerate().take(128) {
        if matches!(k, FlagType::Reserved(_)) {
            keep &= !(1 << i);
        }
    }
    let once: Vec<Position> = b.significants().map(|f| f.position).collect();
    // in any order and however often
    let often: Vec<Position> = once.iter().rev().chain(&once).chain(once.iter().take(1)).copied().collect();
    let width = std::mem::size_of::<T::Size>() * 8;
    let mut got: Vec<(u128, u128)> = vec![];
    for ps in [once, often] {
        macro_rules! w {
            ($($t:ty),*) => { $( if width <= <$t>::BITS as usize {
                got.push((ps.iter().copied().collect::<$t>() as u128, ps.iter().collect::<$t>() as u128));
            } )* };
        }
        w!(u8, u16, u32, u64, usize, u128);
    }
    for (a, b) in got {
        if a != keep || b != keep {
            return Err(format!("{name} {value:#x}: the positions of the significant flags collect to {a:#x} and {b:#x}, the non-reserved part is {keep:#x}"));
        }
    }
    Ok(())
}
const ALPHA: [FlagType<'static>; 4] = [FlagType::Unknown, FlagType::Significant("s", "S"), FlagType::Reserved("a"), FlagType::Reserved("b")];
/// all layouts of up to 8 entries; aux = layout number | entries << 16
pub fn layouts8(c: &Case, st: &mut Stats) -> R {
    let n = (c.aux >> 16) as usize;
    // equal texts at different addresses
    let texts: [String; 8] = std::array::from_fn(|i| if c.aux as usize >> (2 * i) & 1 == 0 { "a" } else { "b" }.to_string());
    let l: Vec<FlagType> = (0..n)
        .map(|i| match ALPHA[c.aux as usize >> (2 * i) & 3] {
            FlagType::Reserved(_) if i % 2 == 1 => FlagType::Reserved(&texts[i]),
            k => k,
        })
        .collect();
    st.inner += 256;
    st.steps += 256;
    for v in 0..=255u8 {
        field("layout", &G(v, &l), v as u128, &l)?;
    }
    collect_back("layout", &G(0xFFu8, &l), 0xFF, &l)?;
    collect_back("layout", &G(0x96u8, &l), 0x96, &l)?;
    st.class("8-bit layout (256 values each)");
    Ok(())
}
/// wider fields: an 8-entry pattern at every position, the rest of one kind; aux = pattern(16) | position << 16 | rest << 24 | width << 28
pub fn layouts_wide(c: &Case, st: &mut Stats) -> R {
    let (pat, pos, rest, w) = (c.aux as usize & 0xFFFF, (c.aux >> 16) as usize & 0xFF, (c.aux >> 24) as usize & 3, (c.aux >> 28) as usize & 3);
    let width = 16usize << w;
    let mut l = vec![ALPHA[rest]; width];
    for i in 0..4 {
        if pos + i < width {
            l[pos + i] = ALPHA[pat >> (2 * i) & 3];
        }
    }
    if pat >> 8 & 1 == 1 {
        l.truncate(pos + 4);
    }
    let full = if width == 128 { u128::MAX } else { (1u128 << width) - 1 };
    for v in [0, full, 1, 1 << (width - 1), full / 3, full / 3 * 2, 0x9u128 << pos & full] {
        st.steps += 1;
        macro_rules! g {
            ($t:ty) => {{
                let g = G(v as $t, &l);
                field("layout", &g, v, &l)?;
                collect_back("layout", &g, v, &l)?;
            }};
        }
        match w {
            0 => g!(u16),
            1 => g!(u32),
            2 => g!(u64),
            _ => g!(u128),
        }
    }
    st.class("wide layout");
    Ok(())
}

pub const LAYOUTS: &str = include_str!("../golden/layouts.tsv");
pub const TEXTS: &str = include_str!("../golden/texts.tsv");
/// specified meaning of every bit of every bit field
pub fn layouts() -> BTreeMap<&'static str, Vec<FlagType<'static>>> {
    let mut o: BTreeMap<&str, Vec<FlagType>> = BTreeMap::new();
    for l in LAYOUTS.lines() {
        // texts keep their line breaks escaped
        let f: Vec<&'static str> = l.split('\t').map(|t| if t.contains("\\n") { &*Box::leak(t.replace("\\n", "\n").into_boxed_str()) } else { t }).collect();
        let v = o.entry(f[0]).or_default();
        assert!(v.len() == f[1].parse::<usize>().unwrap());
        v.push(match f[2] {
            "S" => FlagType::Significant(f[3], f[4]),
            "R" => FlagType::Reserved(f[3]),
            _ => FlagType::Unknown,
        });
    }
    o
}
type Lay = BTreeMap<&'static str, Vec<FlagType<'static>>>;
pub const FIELDS8: [(&str, u8, usize, usize); 6] = [
    ("bios characteristics extension 1", 0, 0x12, 0x14),
    ("bios characteristics extension 2", 0, 0x13, 0x14),
    ("slot characteristics 1", 9, 0xB, 0x18),
    ("slot characteristics 2", 9, 0xC, 0x18),
    ("language flags", 13, 5, 0x16),
    ("log status", 15, 0xB, 0x17),
];
pub fn field_bytes(buf: &mut Vec<u8>, which: usize, v: u64) {
    let (_, ty, off, len) = if which == 6 { ("", 0, 0xA, 0x18) } else { FIELDS8[which] };
    let len = if ty == 0 { 0x18 } else { len };
    spaces::base(buf, ty, len, 1, 1);
    if which == 6 {
        buf[0xA..0x12].copy_from_slice(&v.to_le_bytes());
    } else {
        buf[off] = v as u8;
    }
    spaces::strings(buf, &[b"en"]);
}
/// a real bit field; aux = which << 32 | value for bytes, buf = the structure; which 6 = characteristics, 7 = POST results in buf
/// `text`: only compare the displayed texts
pub fn real_field(c: &Case, buf: &[u8], st: &mut Stats, lay: &Lay, text: bool) -> R {
    st.steps += 1;
    let which = c.aux as usize;
    macro_rules! f {
        ($name:expr, $b:expr, $v:expr) => {
            {
                st.class($name);
                let l = &lay[$name];
                if text {
                    $b.iter().take(l.len()).try_for_each(|f| flag_text($name, &f, l))
                } else {
                    field($name, $b, $v as u128, l).and_then(|_| collect_back($name, $b, $v as u128, l)).and_then(|_| protocols($name, $b))
                }
            }
        };
    }
    if which == 7 {
        let v = u64::from_le_bytes(buf.try_into().unwrap());
        let b = lrf::PostResults::from(v);
        return f!("post results", &b, v);
    }
    let Some(e) = entry(c) else { return Ok(()) };
    match e.structures(buf).next() {
        Some(Ok(Structure::Bios(x))) => {
            let v = u64::from_le_bytes(buf[0xA..0x12].try_into().unwrap());
            f!("bios characteristics", &x.bios_characteristics, v)?;
            let (Some(a), Some(b)) = (&x.bios_characteristics_exttension_1, &x.bios_characteristics_exttension_2) else { return Ok(()) };
            f!("bios characteristics extension 1", a, buf[0x12])?;
            f!("bios characteristics extension 2", b, buf[0x13])
        }
        Some(Ok(Structure::SystemSlots(x))) => {
            f!("slot characteristics 1", &x.slot_characteristics_1, buf[0xB])?;
            let Some(b) = &x.slot_characteristics_2 else { return Ok(()) };
            f!("slot characteristics 2", b, buf[0xC])
        }
        Some(Ok(Structure::BiosLanguage(x))) => {
            let Some(b) = &x.flags else { return Ok(()) };
            f!("language flags", b, buf[5])
        }
        Some(Ok(Structure::SystemEventLog(x))) => f!("log status", &x.log_status, buf[0xB]),
        // whether it is accepted is the business of other properties
        _ => Ok(()),
    }
}
/// text of a flag against the layout
pub fn flag_text(name: &str, f: &Flag, l: &[FlagType<'static>]) -> R {
    // the meaning is C17's business, here the text displayed for the meaning and position
    let (a, b) = match l.get(*f.position).copied().unwrap_or(FlagType::Unknown) {
        FlagType::Significant(a, b) => (a, b),
        FlagType::Reserved(a) => (a, a),
        FlagType::Unknown => ("Unknown", "Unknown"),
        #[allow(unreachable_patterns)]
        _ => return Err(format!("{name} bit {}: a type of flag that the model does not know", *f.position)),
    };
    show(f, a, b).map_err(|e| format!("{name} bit {} {e}", *f.position))
}

// ---------------------------------------------------------------- C21: texts

/// compare both forms without allocating
struct Cmp<'a>(&'a str, bool);
impl Write for Cmp<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.0.strip_prefix(s) {
            Some(r) => self.0 = r,
            None => self.1 = false,
        }
        Ok(())
    }
}
pub fn show(v: &dyn Display, plain: &str, alt: &str) -> R {
    let mut c = Cmp(plain, true);
    let r = write!(c, "{v}");
    if r.is_err() || !c.1 || !c.0.is_empty() {
        return Err(format!("displays as {:?}, specified {plain:?}", v.to_string()));
    }
    let mut c = Cmp(alt, true);
    let r = write!(c, "{v:#}");
    if r.is_err() || !c.1 || !c.0.is_empty() {
        return Err(format!("displays (alternate) as {:?}, specified {alt:?}", format!("{v:#}")));
    }
    Ok(())
}
type Show = fn(u32, &mut dyn FnMut(&dyn Display));
macro_rules! texts {
    ($($name:literal, $n:expr, $w:ty, $f:path;)*) => { vec![$( ($name, $n as u64, { fn f(c: u32, o: &mut dyn FnMut(&dyn Display)) { o(&$f(c as $w)) } f as Show }) ),*] };
}
pub fn enums() -> Vec<(&'static str, u64, Show)> {
    texts! {
        "structure type", 256, u8, t::lib_info_type;
        "board type", 256, u8, t::baseboard_board_type;
        "enclosure type", 256, u8, t::enclosure_enclosure_type;
        "enclosure state", 256, u8, t::enclosure_state;
        "security status", 256, u8, t::enclosure_security_status;
        "contained element type", 256, u8, m::contained_type;
        "processor family", 65536, u16, t::processor_processor_family;
        "processor upgrade", 256, u8, t::processor_processor_upgrade;
        "cache level", 9, u16, t::cache_cache_level;
        "cache location", 5, u16, t::cache_cache_location;
        "cache operational mode", 5, u16, t::cache_cache_operational_mode;
        "cache error correction", 256, u8, t::cache_cache_error_correction_type;
        "system cache type", 256, u8, t::cache_system_cache_type;
        "cache associativity", 256, u8, t::cache_cache_associativity;
        "connector type", 256, u8, t::port_connector_connector_type;
        "port type", 256, u8, t::port_connector_port_type;
        "slot type", 256, u8, t::system_slots_slot_type;
        "slot width", 256, u8, t::system_slots_slot_width;
        "slot usage", 256, u8, t::system_slots_current_usage;
        "slot length", 256, u8, t::system_slots_slot_length;
        "memory array location", 256, u8, t::physical_memory_array_memory_array_location;
        "memory array use", 256, u8, t::physical_memory_array_memory_array_use;
        "memory array error correction", 256, u8, t::physical_memory_array_memory_array_error_correction_types;
        "memory error type", 256, u8, t::memory_error_32_error_type;
        "memory error granularity", 256, u8, t::memory_error_32_error_granularity;
        "memory error operation", 256, u8, t::memory_error_32_error_operation;
        "pointing device type", 256, u8, t::built_in_pointing_device_type;
        "pointing device interface", 256, u8, t::built_in_pointing_device_interface;
        "log header format", 256, u8, t::system_event_log_log_header_format;
        "event log type", 256, u8, t::log_record_format_event_log_type;
        "variable data format", 256, u8, t::log_record_format_variable_data_format_type;
        "battery chemistry", 256, u8, chem;
        "system management type", 65536, u32, t::system_management_type;
    }
}
fn chem(c: u8) -> d::portable_battery::DeviceChemistry<'static> {
    m::chemistry(c, None)
}
/// the text table: name -> (first, last, plain, alternate), `{}` stands for the code, `{x}` for the code in hexadecimal
pub type Texts = BTreeMap<&'static str, Vec<(u32, u32, &'static str, &'static str)>>;
pub fn texts() -> Texts {
    let mut o: Texts = BTreeMap::new();
    for l in TEXTS.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let (a, b) = f[1].split_once('-').unwrap_or((f[1], f[1]));
        o.entry(f[0]).or_default().push((a.parse().unwrap(), b.parse().unwrap(), f[2], f[3]));
    }
    o
}
fn fill(s: &str, code: u32) -> String {
    s.replace("{}", &code.to_string()).replace("{x}", &format!("0x{code:X}"))
}
/// every text of the tables; aux = table << 32 | code
pub fn enum_text(c: &Case, st: &mut Stats, es: &[(&'static str, u64, Show)], tx: &Texts) -> R {
    st.steps += 2;
    let (name, _, f) = es[(c.aux >> 32) as usize];
    let code = c.aux as u32;
    st.class(name);
    let v = &tx[name];
    let i = v.partition_point(|x| x.1 < code);
    let (a, b, p, q) = v[i];
    assert!(a <= code && code <= b);
    let mut r = Ok(());
    f(code, &mut |x| {
        r = if p.contains('{') || q.contains('{') { show(x, &fill(p, code), &fill(q, code)) } else { show(x, p, q) };
    });
    r.map_err(|e| format!("{name} {code:#x} {e}"))
}
/// write the tables from the current tree (to be reviewed by hand)
pub fn dump_texts() -> String {
    let mut o = String::new();
    for (name, n, f) in enums() {
        let mut last: Option<(u32, u32, String, String)> = None;
        for code in 0..n as u32 {
            let (mut p, mut q) = (String::new(), String::new());
            f(code, &mut |x| {
                p = x.to_string();
                q = format!("{x:#}");
            });
            let n = code.to_string();
            let x = format!("0x{code:X}");
            let tpl = |s: &str| match (s.strip_suffix(&n), s.strip_suffix(&x)) {
                (Some(h), _) if h.ends_with(' ') => format!("{h}{{}}"),
                (_, Some(h)) => format!("{h}{{x}}"),
                _ => s.to_string(),
            };
            let (p, q) = (tpl(&p), tpl(&q));
            match &mut last {
                Some(l) if l.2 == p && l.3 == q => l.1 = code,
                _ => {
                    if let Some(l) = last.take() {
                        put(&mut o, name, &l);
                    }
                    last = Some((code, code, p, q));
                }
            }
        }
        put(&mut o, name, &last.unwrap());
    }
    fn put(o: &mut String, name: &str, l: &(u32, u32, String, String)) {
        let r = if l.0 == l.1 { l.0.to_string() } else { format!("{}-{}", l.0, l.1) };
        let _ = writeln!(o, "{name}\t{r}\t{}\t{}", l.2, l.3);
    }
    o
}
pub fn dump_layouts() -> String {
    let mut o = String::new();
    fn put<'a, T: BitField<'a>>(o: &mut String, name: &str, b: &T) {
        let e = |s: &str| s.replace('\n', "\\n");
        for f in b.iter() {
            let _ = match f.type_ {
                FlagType::Significant(a, b) => writeln!(o, "{name}\t{}\tS\t{}\t{}", *f.position, e(a), e(b)),
                FlagType::Reserved(a) => writeln!(o, "{name}\t{}\tR\t{}\t", *f.position, e(a)),
                FlagType::Unknown => writeln!(o, "{name}\t{}\tU\t\t", *f.position),
                #[allow(unreachable_patterns)]
                _ => writeln!(o, "{name}\t{}\t?\t\t", *f.position),
            };
        }
    }
    for which in [6usize, 0, 1, 2, 3, 4, 5] {
        let mut b = vec![];
        field_bytes(&mut b, which, 0);
        let c = Case { major: 3, minor: 5, len: b.len() as u32, ..Default::default() };
        match entry(&c).unwrap().structures(&b).next() {
            Some(Ok(Structure::Bios(x))) => match which {
                6 => put(&mut o, "bios characteristics", &x.bios_characteristics),
                0 => put(&mut o, "bios characteristics extension 1", &x.bios_characteristics_exttension_1.unwrap()),
                _ => put(&mut o, "bios characteristics extension 2", &x.bios_characteristics_exttension_2.unwrap()),
            },
            Some(Ok(Structure::SystemSlots(x))) if which == 2 => put(&mut o, "slot characteristics 1", &x.slot_characteristics_1),
            Some(Ok(Structure::SystemSlots(x))) => put(&mut o, "slot characteristics 2", &x.slot_characteristics_2.unwrap()),
            Some(Ok(Structure::BiosLanguage(x))) => put(&mut o, "language flags", &x.flags.unwrap()),
            Some(Ok(Structure::SystemEventLog(x))) => put(&mut o, "log status", &x.log_status),
            x => panic!("{which} {x:?}"),
        }
    }
    put(&mut o, "post results", &lrf::PostResults::from(0));
    o
}

/// texts with a formula; aux = 16 bit number
pub const VOLTAGE_FINDING: &str = "Voltage::Legacy with the 5.0 V bit displays \"5.5V\" instead of \"5.0V\"";
/// texts of all double words: system management types and offsets of errors; aux = upper half
pub fn all_wide_texts(c: &Case, st: &mut Stats) -> R {
    use std::fmt::Write;
    st.class("texts of double words");
    let (mut got, mut want) = (String::new(), String::new());
    for low in 0..=0xFFFFu32 {
        st.steps += 1;
        let a = (c.aux as u32) << 16 | low;
        for what in 0..3 {
            got.clear();
            want.clear();
            let r = match what {
                0 => write!(got, "{}", t::system_management_type(a)),
                1 => write!(got, "{}", Mse::UnterminatedStrings(a)),
                _ => write!(got, "{:#}", AccessMethod::MemoryMappedPhysicaAddress { physical_address: a }),
            };
            let _ = match (what, a) {
                (0, 0x1_0000..=0x1_FFFF) => write!(want, "A system-management probe or cooling device with handle 0x{low:04X} is out of range"),
                (0, 0x2_0000..=0x7FFF_FFFF) => write!(want, "Reserved: {a}"),
                (0, 0x8000_0000..) => write!(want, "OEM assigned: {a}"),
                (0, _) => continue,
                (1, _) => write!(want, "Structure at offset {a} with unterminated strings"),
                _ => write!(want, "Memory-mapped physical 32-bit address: 0x{a:08X}"),
            };
            if r.is_err() || got != want {
                return Err(format!("{a:#x} displays as {got:?}, specified is {want:?}"));
            }
        }
    }
    Ok(())
}
/// texts of values wider than 16 bits and of strings; aux = one half of a double word
pub fn wide_text(c: &Case, st: &mut Stats) -> R {
    const HALVES: [u16; 24] = [
        0, 1, 2, 3, 4, 0xF, 0x10, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x0FFF, 0x1000, 0x1234, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xAAAA, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF,
    ];
    let w = c.aux as u16;
    st.class("wide texts");
    macro_rules! s {
        ($v:expr, $p:expr, $q:expr) => {
            show(&$v, &$p, &$q).map_err(|e| format!("{:?} {e}", $v))?
        };
    }
    use lrf::VariableDataFormatType as V;
    for h in HALVES {
        for a in [(h as u32) << 16 | w as u32, (w as u32) << 16 | h as u32] {
            st.steps += 1;
            let sm = t::system_management_type(a);
            match a {
                0x1_0000..=0x1_FFFF => {
                    let p = format!("A system-management probe or cooling device with handle 0x{:04X} is out of range", a as u16);
                    s!(sm, p, p);
                }
                0x2_0000..=0x7FFF_FFFF => {
                    let p = format!("Reserved: {a}");
                    s!(sm, p, p);
                }
                0x8000_0000.. => {
                    let p = format!("OEM assigned: {a}");
                    s!(sm, p, p);
                }
                _ => {}
            }
            s!(V::MultipleEvent { counter: a }, "Multiple-event".to_string(), format!("Multiple-event counter value: {a}"));
            s!(V::MultipleEventHandle { handle: h, counter: a }, "Multiple-event handle".to_string(), format!("Multiple-event: Handle 0x{h:04X}, Count {a}"));
            s!(
                V::MultipleEventSystemManagementType { system_management_type: sm, counter: a.rotate_left(7) },
                "Multiple-event system management".to_string(),
                format!("Multiple-event system management: Type {sm}, Count {}", a.rotate_left(7))
            );
            for b in [(a as u64) << 32 | h as u64, (h as u64) << 48 | a as u64] {
                s!(V::PostResults(b.into()), "POST results bitmap".to_string(), format!("POST result: 0x{b:X}"));
            }
            let p = "Memory-mapped physical 32-bit address";
            s!(AccessMethod::MemoryMappedPhysicaAddress { physical_address: a }, p, format!("{p}: 0x{a:08X}"));
            let p = format!("Structure at offset {a} with unterminated strings");
            s!(Mse::UnterminatedStrings(a), p, p);
            let p = format!("Structure at offset {a} with length {} extends beyond SMBIOS", h as u8);
            s!(Mse::BadSize(a, h as u8), p, p);
            let [x, y, z, u] = a.to_le_bytes();
            let dev = ss::Device { segment_group_number: h, bus_number: x, device_and_function_number: y.into(), data_bus_width: z };
            let p = format!("{h:04x}:{x:02x}:{:02x}.{:x} (Width {z})", y / 8, y % 8);
            s!(dev, p, p);
            let p = format!("{} ({}-{})", m::contained_type(x), y, u);
            s!(d::enclosure::ContainedElement::from(&[x, y, u][..]), p, p);
        }
    }
    // strings that are shown as they are
    use d::portable_battery::{DeviceChemistry as C, ManufactureDate as M, SerialNumber as N};
    let words = &crate::dict::dict().words;
    let text = match w {
        0..=1099 => "Ab9 ".chars().cycle().take(w as usize).collect(),
        1100..=1499 => "\u{e9}".repeat(w as usize - 1100),
        _ => match words.get(w as usize - 1500).and_then(|t| std::str::from_utf8(t).ok()) {
            Some(t) => t.to_string(),
            None => return Ok(()),
        },
    };
    s!(M::Basic(&text), text, text);
    s!(N::Basic(&text), text, text);
    s!(C::SmartBatteryDataSpecification(&text), text, text);
    Ok(())
}
pub fn formula_text(c: &Case, st: &mut Stats, known: &dyn Fn()) -> R {
    let w = c.aux as u16;
    let [lo, hi] = w.to_le_bytes();
    st.steps += 1;
    st.class("formula texts");
    macro_rules! s {
        ($v:expr, $p:expr) => {{
            let p = $p;
            show(&$v, &p, &p).map_err(|e| format!("{:?} {e}", $v))?
        }};
        ($v:expr, $p:expr, $q:expr) => {
            show(&$v, &$p, &$q).map_err(|e| format!("{:?} {e}", $v))?
        };
    }
    let na = |a: u8, b: u8| if a == 255 && b == 255 { "N/A".to_string() } else { format!("{a}.{b}") };
    s!(d::bios::BiosRevision { major: hi, minor: lo }, na(hi, lo));
    s!(d::bios::FirmwareRevision { major: hi, minor: lo }, na(hi, lo));
    s!(ss::SlotPitch::from(w), m::pitch_text(w));
    use d::portable_battery::{DeviceChemistry as C, ManufactureDate as M, SerialNumber as N};
    s!(M::None, String::new());
    s!(N::None, String::new());
    s!(M::SmartBatteryDataSpecification { year: 1980 + (w >> 9), month: (w >> 5 & 15) as u8, date: (w & 31) as u8 }, format!("{:04}-{:02}-{:02}", 1980 + w / 512, w / 32 % 16, w % 32));
    s!(M::SmartBatteryDataSpecification { year: w, month: lo, date: hi }, format!("{w:04}-{lo:02}-{hi:02}"));
    s!(N::SmartBatteryDataSpecification(w), format!("0x{w:02X}"));
    for text in ["", "x", "01/02/2003", "\u{e9}\u{20ac} {}"] {
        s!(M::Basic(text), text);
        s!(N::Basic(text), text);
        s!(C::SmartBatteryDataSpecification(text), text);
    }
    let v = m::voltage(lo);
    let want = if lo >= 0x80 {
        format!("Current voltage: {}.{} V", (lo - 0x80) / 10, (lo - 0x80) % 10)
    } else if lo >= 8 {
        format!("Undefined 0b{lo:b}")
    } else if lo == 0 {
        "Voltage capability unknown".into()
    } else {
        format!("Processor socket accept: {}{}{}", if lo & 1 != 0 { "5.0V " } else { "" }, if lo & 2 != 0 { "3.3V " } else { "" }, if lo & 4 != 0 { "2.9V " } else { "" })
    };
    if lo < 8 && lo & 1 == 1 && show(&v, &want.replace("5.0V", "5.5V"), &want.replace("5.0V", "5.5V")).is_ok() {
        known();
    } else {
        s!(v, want.clone());
    }
    for (seg, bus, width) in [(w, lo, hi), (0, hi, lo), (0xFFFF, lo ^ hi, 0xFF)] {
        let dev = ss::Device { segment_group_number: seg, bus_number: bus, device_and_function_number: hi.into(), data_bus_width: width };
        s!(dev, format!("{seg:04x}:{bus:02x}:{:02x}.{:x} (Width {width})", hi / 8, hi % 8));
    }
    let e = d::enclosure::ContainedElement::from(&[lo, hi, lo ^ hi][..]);
    s!(e, format!("{} ({}-{})", m::contained_type(lo), hi, lo ^ hi));
    use lrf::VariableDataFormatType as V;
    s!(V::Handle { handle: w }, "Handle".to_string(), format!("SMBIOS structure associated handle: {w}"));
    for counter in [w as u32, w as u32 * 65_537] {
        s!(V::MultipleEvent { counter }, "Multiple-event".to_string(), format!("Multiple-event counter value: {counter}"));
        s!(V::MultipleEventHandle { handle: w, counter }, "Multiple-event handle".to_string(), format!("Multiple-event: Handle 0x{w:04X}, Count {counter}"));
        let sm = t::system_management_type(counter);
        s!(V::SystemManagementType(sm), "System management".to_string(), format!("System management: {sm}"));
        s!(
            V::MultipleEventSystemManagementType { system_management_type: sm, counter },
            "Multiple-event system management".to_string(),
            format!("Multiple-event system management: Type {sm}, Count {counter}")
        );
        s!(V::PostResults((counter as u64 * 0x1_0000_0001).into()), "POST results bitmap".to_string(), format!("POST result: 0x{:X}", counter as u64 * 0x1_0000_0001));
        let smt = t::system_management_type(counter | 0x8000_0000);
        s!(smt, format!("OEM assigned: {}", counter | 0x8000_0000));
        let smt = t::system_management_type(w as u32 | 0x1_0000);
        s!(smt, format!("A system-management probe or cooling device with handle 0x{w:04X} is out of range"));
        let smt = t::system_management_type(counter & 0x7FFF_FFFF | 0x0002_0000);
        s!(smt, format!("Reserved: {}", counter & 0x7FFF_FFFF | 0x0002_0000));
    }
    // access methods
    for (a, method) in [(w as u32, lo), (!(w as u32), hi), (w as u32 * 65_537, lo)] {
        let v = m::access_method(method, a).0;
        let [b0, b1, b2, _] = a.to_le_bytes();
        let (p, q) = match method {
            0 => ("Indexed I/O, one 8-bit index port, one 8-bit data port".to_string(), format!(": Index 0x{b0:02X}, Data 0x{b2:02X}")),
            1 => ("Indexed I/O, two 8-bit index ports, one 8-bit data port".into(), format!(": Index [{b0:X}, {b1:X}], Data 0x{b2:02X}")),
            2 => ("Indexed I/O, one 16-bit index port, one 8-bit data port".into(), format!(": Index 0x{b1:02X}{b0:02X}, Data 0x{b2:02X}")),
            3 => ("Memory-mapped physical 32-bit address".into(), format!(": 0x{a:08X}")),
            4 => ("General-purpose non-volatile data functions".into(), String::new()),
            5..=0x7F => (format!("Available: {method}"), String::new()),
            _ => (format!("OEM-specific: {method}"), String::new()),
        };
        let q = match method {
            4 => format!("General-Purpose NonVolatile Data functions, handle 0x{:04X}", a as u16),
            5..=0x7F => format!("Available: Method {method}, Address 0x{a:08X}"),
            0x80.. => format!("BIOS Vendor/OEM-specific: Method {method}, Address 0x{a:08X}"),
            _ => format!("{p}{q}"),
        };
        if method != 1 {
            s!(v, p, q);
        } else {
            // the two index ports of the alternate form are a debug list
            let alt = format!("{v:#}");
            if v.to_string() != p || !(alt == q || alt.replace("\n    ", "").replace(",\n]", "]").replace(",", ", ").replace(",  ", ", ") == q) {
                return Err(format!("{v:?} displays as {v} and {alt:?}, specified {p:?} and {q:?}"));
            }
        }
    }
    // errors
    for n in [lo, hi] {
        s!(Iee::TooOldVersion(n), format!("Input version number was below 2.0: {n}"));
        s!(Iee::BadSize(n), format!("Input contained an invalid-sized SMBIOS entry: {n}"));
        s!(Iee::BadChecksum(n), format!("SMBIOS entry point has an invalid checksum: {n}"));
    }
    s!(Iee::NotFound, "Input did not contain a valid SMBIOS entry point".to_string());
    for off in [w as u32, w as u32 * 65_537] {
        s!(Mse::BadSize(off, lo), format!("Structure at offset {off} with length {lo} extends beyond SMBIOS"));
        s!(Mse::UnterminatedStrings(off), format!("Structure at offset {off} with unterminated strings"));
    }
    let it = t::lib_info_type(lo);
    s!(Mse::InvalidStringIndex(it, w, hi), format!("Structure {it:?} with handle {w} has invalid string index {hi}"));
    for spec in ["", "minimum of ", "2.1+ "] {
        s!(
            Mse::InvalidFormattedSectionLength(it, w, spec, hi),
            format!("Formatted section length of structure {it:?} with handle {w} should be {spec}{hi} bytes")
        );
    }
    let Err(cause) = <[u8; 4]>::try_from(&[0u8; 3][..(lo % 4) as usize % 3]) else { return Ok(()) };
    s!(Mse::InvalidSlice(cause), cause.to_string());
    Ok(())
}
/// same value displayed twice and through clones depends on nothing else: different specified texts never display alike
pub fn distinct_texts(c: &Case, st: &mut Stats, es: &[(&'static str, u64, Show)], tx: &Texts) -> R {
    let (name, n, f) = es[c.aux as usize];
    st.class("pairwise distinct texts");
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let v = &tx[name];
    for code in 0..n.min(65_536) as u32 {
        st.steps += 1;
        let mut s = String::new();
        f(code, &mut |x| s = format!("{x:#}"));
        let spec = |code: u32| {
            let x = &v[v.partition_point(|x| x.1 < code)];
            fill(x.3, code)
        };
        if let Some(o) = seen.insert(s.clone(), code) {
            if spec(o) != spec(code) {
                return Err(format!("{name} {o:#x} and {code:#x} both display as {s:?}"));
            }
        }
    }
    Ok(())
}

/// C02: conversions and bit field iteration from any state, formatted in every form
pub fn smoke(c: &Case, st: &mut Stats) -> R {
    st.steps += 1;
    st.class("conversions");
    let mut o = crate::engine::Fx(5);
    conversions(c.aux as u16, &mut o);
    std::hint::black_box(o.fin());
    Ok(())
}
pub fn conversions(w: u16, o: &mut dyn Write) {
    macro_rules! p {
        ($($t:ty),*) => { $( { let v = <$t>::from(w as u8); let _ = write!(o, "{v:?}{v:#?}{v}{v:#}{v:>5}{v:08}"); render::forms(o, &v); render::debug_forms(o, &v); } )* };
    }
    macro_rules! q {
        ($($t:ty),*) => { $( { let v = <$t>::from(w as u8); let _ = write!(o, "{v:?}{v:#?}"); render::debug_forms(o, &v); } )* };
    }
    macro_rules! p16 {
        ($($t:ty),*) => { $( { let v = <$t>::from(w); let _ = write!(o, "{v:?}{v}{v:#}"); render::forms(o, &v); } )* };
    }
    if w < 256 {
        p!(
            InfoType, d::baseboard::BoardType, d::enclosure::EnclosureType, d::enclosure::State, d::enclosure::SecurityStatus, d::enclosure::ContainedElementType,
            d::processor::ProcessorFamily, d::processor::ProcessorUpgrade, d::processor::Voltage, d::cache::CacheErrorCorrectionType, d::cache::SystemCacheType,
            d::cache::CacheAssociativity, d::port_connector::ConnectorType, d::port_connector::PortType, ss::SlotType, ss::SlotWidth, ss::CurrentUsage, ss::SlotLength,
            d::physical_memory_array::MemoryArrayLocation, d::physical_memory_array::MemoryArrayUse, d::physical_memory_array::MemoryArrayErrorCorrectionTypes,
            d::memory_error_32::ErrorType, d::memory_error_32::ErrorGranularity, d::memory_error_32::ErrorOperation, d::built_in_pointing_device::Type,
            d::built_in_pointing_device::Interface, d::system_event_log::LogHeaderFormat, lrf::EventLogType, lrf::VariableDataFormatType
        );
        q!(
            d::system::WakeupType, d::processor::ProcessorType, d::memory_device::ErrorGranularity, d::memory_device::ErrorOperation, d::memory_device::ErrorType,
            d::memory_device::FormFactor, d::memory_device::MemoryTechnology, d::memory_device::Type, ss::SlotCharacteristics1, ss::SlotCharacteristics2,
            ss::DeviceAndFunctionNumber, d::system_event_log::LogStatus
        );
    }
    p16!(d::processor::ProcessorFamily, d::cache::CacheLevel, d::cache::CacheLocation, d::cache::CacheOperationalMode, ss::SlotPitch);
    let _ = write!(o, "{:?}{:?}", d::cache::CacheConfiguration::from(w), d::cache::CacheSize::from(w));
    let _ = write!(o, "{:?}", SmbiosVersion::from((w as usize, usize::MAX - w as usize)));
    for k in 0..=12usize {
        let b: Vec<u8> = (0..k).map(|i| (w >> (8 * (i & 1))) as u8).collect();
        let e = ss::Device::from(&b[..]);
        let _ = write!(o, "{e:?}{e}{:?}", <[u8; 5]>::from(&e));
        render::forms(o, &e);
        let e = d::enclosure::ContainedElement::from(&b[..]);
        let _ = write!(o, "{e:?}{e}");
        render::forms(o, &e);
        for e in ss::PeerDevices::from(&b[..]) {
            let _ = write!(o, "{e}");
        }
    }
    for v in [w as u32, w as u32 * 65_537, !(w as u32)] {
        let s = lrf::SystemManagementType::from(v);
        let z = d::cache::CacheSize2::from(v);
        let _ = write!(o, "{s:?}{s}{s:#}{z:?}{}", z.bytes());
        render::forms(o, &s);
        let a = AccessMethod::new(w as u8, v);
        let _ = write!(o, "{a:?}{a}{a:#}{}", a.address());
        render::forms(o, &a);
    }
    for z in [d::cache::CacheSize2::Granularity1K(u32::MAX - w as u32), d::cache::CacheSize2::Granularity64K(u32::MAX - w as u32)] {
        let _ = write!(o, "{}", z.bytes());
    }
    for z in [d::cache::CacheSize::Granularity1K(w), d::cache::CacheSize::Granularity64K(w)] {
        let _ = write!(o, "{}", z.bytes());
    }
    for b in [0, 1, w as u8, 0xFF] {
        let v: u64 = d::bios::RomSize { basic: b, extended: Some(w) }.into();
        let u: u64 = d::bios::RomSize { basic: b, extended: None }.into();
        let x: u64 = d::portable_battery::DesignCapacity::Data { value: w, multiplier: b }.into();
        let _ = write!(o, "{v}{u}{x}");
    }
    // iterators over every width with layouts shorter and longer than the field
    let n = w as usize % 140;
    let l: Vec<FlagType> = (0..n).map(|i| ALPHA[(i / (1 + w as usize % 7)) % 4]).collect();
    macro_rules! it {
        ($($t:ty),*) => { $( { let g = G(w as $t, &l);
            for f in g.iter() { let _ = write!(o, "{f}{f:#}{f:?}"); }
            for f in g.significants() { let _ = write!(o, "{f}"); }
            for r in g.reserved() { let _ = write!(o, "{r:?}"); }
            let back: u128 = g.iter().map(|f| f.position).collect();
            let _ = write!(o, "{back}");
        } )* };
    }
    it!(u8, u16, u32, u64, u128);
}
/// C03: bit field iterators over layouts of any length, from any position; aux = layout length | pattern << 8
pub fn finite(c: &Case, st: &mut Stats) -> R {
    let (n, p) = (c.aux as usize & 0xFF, (c.aux >> 8) as usize);
    let l: Vec<FlagType> = (0..n).map(|i| ALPHA[(i / (1 + p % 9) + p / 9) % 4]).collect();
    fn done<T>(mut it: impl Iterator<Item = T>, most: usize) -> bool {
        let mut n = 0;
        while it.next().is_some() {
            n += 1;
            if n > most {
                return false;
            }
        }
        (0..3).all(|_| it.next().is_none())
    }
    st.class("bit field iterators");
    macro_rules! it {
        ($($t:ty),*) => { $(
            for v in [0 as $t, <$t>::MAX, <$t>::MAX / 3] {
                st.steps += 1;
                let (g, most) = (G(v, &l), <$t>::BITS as usize);
                if !done(g.iter(), most) || !done(g.significants(), most) || !done(g.reserved(), most) {
                    return Err(format!("an iterator over a field of {most} bits with a layout of {n} entries does not end or does not stay finished"));
                }
                for index in [1, most / 2, most - 1, most] {
                    if !done(Iter { value: v, index, layout: &l }, most) {
                        return Err(format!("an iterator at position {index} of a field of {most} bits does not end"));
                    }
                }
            }
        )* };
    }
    it!(u8, u16, u32, u64, u128);
    Ok(())
}

/// the conversions of a slice to a number: exactly the slices of its size, little endian; aux = length | varied byte << 8 | its value << 16
pub fn slices(_: &Case, buf: &[u8], st: &mut Stats) -> Result<(), String> {
    use dmidecode::TryFromBytes;
    st.steps += 5;
    let n = buf.len();
    macro_rules! one {
        ($t:ty) => {
            let want = (n == std::mem::size_of::<$t>()).then(|| buf.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128));
            let got = <$t>::try_from_bytes(buf).ok().map(|v| v as u128);
            if got != want {
                return Err(format!("{} from {buf:x?}: {got:x?}, expected {want:x?}", stringify!($t)));
            }
        };
    }
    one!(u8);
    one!(u16);
    one!(u32);
    one!(u64);
    one!(u128);
    Ok(())
}

// ---------------------------------------------------------------- C22: values outside of structures

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// every ordered pair: equal values have equal keys (and the other way round where `exact`), equal values hash alike
fn laws<T: Clone + Eq + std::hash::Hash>(what: &str, all: &[(T, String)], exact: bool, st: &mut Stats) -> R {
    let hs: Vec<u64> = all.iter().map(|x| hash(&x.0)).collect();
    st.inner += (all.len() * all.len()) as u64;
    for (i, (a, ka)) in all.iter().enumerate() {
        let mut over = all[all.len() - 1 - i].0.clone();
        over.clone_from(a);
        for c in [a.clone(), over] {
            if c != *a || *a != c || hash(&c) != hs[i] {
                return Err(format!("{what}: a clone of {ka} differs"));
            }
        }
        for (j, (b, kb)) in all.iter().enumerate() {
            let eq = a == b;
            if eq != (b == a) || eq == (a != b) {
                return Err(format!("{what}: equality of {ka} and {kb} is inconsistent"));
            }
            if eq && ka != kb || !eq && (i == j || exact && ka == kb) {
                return Err(format!("{what}: {ka} and {kb} are {}", if eq { "equal" } else { "not equal" }));
            }
            if eq && hs[i] != hs[j] {
                return Err(format!("{what}: {ka} and {kb} are equal and hash differently"));
            }
        }
    }
    st.steps += all.len() as u64;
    Ok(())
}
pub const LEAVES: u64 = 21;
/// aux = group of values
pub fn leaves(c: &Case, st: &mut Stats) -> R {
    use lrf::{SystemManagementType as S, VariableDataFormatType as V};
    st.class("group of values, all pairs");
    let words: Vec<u32> = (0..32).flat_map(|k| [1u32 << k, (1u32 << k) - 1, !(1u32 << k)]).chain([0, 0xFFFF, 0x1234_5678, 0x7856_3412]).collect();
    let dedup = |mut v: Vec<u64>| {
        v.sort();
        v.dedup();
        v
    };
    let kinds: Vec<FlagType> = vec![
        FlagType::Unknown,
        FlagType::Significant("s", "S"),
        FlagType::Significant("s", "s"),
        FlagType::Significant("S", "S"),
        FlagType::Significant("", ""),
        FlagType::Reserved("s"),
        FlagType::Reserved("S"),
        FlagType::Reserved(""),
    ];
    let items = |l: &dyn Fn(&mut Vec<String>)| {
        let mut v = vec![];
        l(&mut v);
        v.join(" ")
    };
    macro_rules! iters {
        ($pick:expr, $values:expr, $t:ty) => {{
            let layouts: [&[FlagType]; 5] = [&kinds, &kinds[..3], &kinds[5..], &[], &[kinds[5], kinds[5], kinds[6], kinds[1], kinds[6], kinds[6], kinds[0], kinds[5], kinds[7]]];
            let mut all = vec![];
            let mut sig = vec![];
            let mut res = vec![];
            let text = |f: Flag| format!("{}{}{:?}", *f.position, f.is_set, f.type_);
            for l in layouts {
                for v in $values {
                    let v = v as $t;
                    for index in (0..=<$t>::BITS as usize).step_by(<$t>::BITS as usize / 8) {
                        let it = Iter { value: v, index, layout: l };
                        all.push((it, items(&|o| o.extend(it.map(text)))));
                    }
                    let g = G(v, l);
                    let (mut s, mut r) = (g.significants(), g.reserved());
                    for _ in 0..4 {
                        sig.push((s, items(&|o| o.extend(s.map(text)))));
                        res.push((r, items(&|o| o.extend(r.map(|r| format!("{r:?}"))))));
                        s.next();
                        r.next();
                    }
                }
            }
            match $pick {
                0 => laws("iterators of flags", &all, false, st),
                1 => laws("iterators of significant flags", &sig, false, st),
                _ => laws("iterators of reserved ranges", &res, false, st),
            }
        }};
    }
    let small = [0u8, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF, 0x55, 0xAA, 0x0F, 0xF0, 0x96];
    match c.aux {
        0 => {
            let f = |p: usize, is_set, k: &FlagType<'static>| (Flag { position: Position(p), is_set, type_: *k }, format!("{p} {is_set} {k:?}"));
            let all: Vec<_> = [0usize, 1, 2, 7, 8, 63, 127].iter().flat_map(|p| [false, true].map(|b| kinds.iter().map(move |k| f(*p, b, k)))).flatten().collect();
            laws("flags", &all, true, st)
        }
        1 => laws("positions", &(0..300).chain([usize::MAX]).map(|p| (Position(p), p.to_string())).collect::<Vec<_>>(), true, st),
        2 => {
            let r = |s: usize, e: usize, d: &'static str| (d::bitfield::ReservedRange { description: d, range: s..=e }, format!("{s}..={e} {d}"));
            let all: Vec<_> = (0..9).flat_map(|s| (s..9).flat_map(move |e| ["a", "b", ""].map(move |d| r(s, e, d)))).collect();
            laws("reserved ranges", &all, true, st)
        }
        3 => laws("kinds of flags", &kinds.iter().map(|k| (*k, format!("{k:?}"))).collect::<Vec<_>>(), true, st),
        4..=6 => iters!(c.aux - 4, small, u8),
        7..=9 => iters!(c.aux - 7, small.map(|x| (x as u64) << 28 | x as u64), u64),
        10 => {
            let v: Vec<_> = (0..=255u8).flat_map(|a| [0u8, 1, 2, 9, 10, 255].map(|b| (a, b))).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
            laws("versions", &v.iter().map(|(a, b)| (SmbiosVersion { major: *a, minor: *b }, format!("{a}.{b}"))).collect::<Vec<_>>(), true, st)
        }
        11 => laws("structure types", &(0..=255u8).map(|x| (InfoType::from(x), x.to_string())).collect::<Vec<_>>(), true, st),
        12 => {
            let w = dedup(words.iter().map(|w| *w as u64).chain(0..0x800).chain((0..0x400).map(|x| x << 16 | 0x8_0000)).chain((0..=255).map(|x| x << 24)).collect());
            laws("system management types", &w.iter().map(|w| (S::from(*w as u32), format!("{:?}", t::system_management_type(*w as u32)))).collect::<Vec<_>>(), true, st)
        }
        13 => {
            let w = dedup(words.iter().flat_map(|w| [*w as u64, (*w as u64) << 32, !(*w as u64)]).collect());
            laws("post results", &w.iter().map(|w| (lrf::PostResults::from(*w), w.to_string())).collect::<Vec<_>>(), true, st)
        }
        14 => {
            let mut all = vec![];
            let w = dedup(words.iter().map(|w| *w as u64).collect());
            for c in &w {
                let c = *c as u32;
                for v in [V::MultipleEvent { counter: c }, V::PostResults((c as u64).into()), V::SystemManagementType(S::from(c))] {
                    all.push(v);
                }
                if c <= 0xFFFF {
                    all.push(V::Handle { handle: c as u16 });
                }
                if c <= 0xFF {
                    all.extend([V::Unused(c as u8), V::OemAssigned(c as u8)]);
                }
                for o in [0, 1, 0x0100, 0xFFFF] {
                    all.push(V::MultipleEventHandle { handle: o, counter: c });
                    all.push(V::MultipleEventSystemManagementType { system_management_type: S::from(o as u32), counter: c });
                }
            }
            all.push(V::None);
            // the keys: management types by the model's conversion, by their payload
            let mut seen: Vec<(V, String)> = vec![];
            for v in all {
                let k = format!("{v:?}");
                if !seen.iter().any(|s| s.1 == k) {
                    seen.push((v, k));
                }
            }
            laws("data formats", &seen, true, st)
        }
        16 => {
            // batteries: texts that read like the packed forms
            use d::portable_battery::{DesignCapacity, DeviceChemistry as C, ManufactureDate as M, SerialNumber as N};
            let days: Vec<(u16, u8, u8)> =
                [1980u16, 1981, 1999, 2000, 2004, 2107].iter().flat_map(|y| [0u8, 1, 5, 12, 15].map(|m| [0u8, 1, 6, 9, 28, 31].map(|d| (*y, m, d)))).flatten().collect();
            let texts: Vec<String> = days
                .iter()
                .flat_map(|(y, m, d)| [format!("{y:04}-{m:02}-{d:02}"), format!("{m:02}/{d:02}/{y:04}"), format!("{y}{m:02}{d:02}"), format!("{y}-{m}-{d}"), format!("{d}.{m}.{y}")])
                .chain(["".to_string(), "None".into(), "0".into()])
                .collect();
            let mut all = vec![(M::None, "none".to_string())];
            all.extend(days.iter().map(|(y, m, d)| (M::SmartBatteryDataSpecification { year: *y, month: *m, date: *d }, format!("packed {y} {m} {d}"))));
            all.extend(texts.iter().map(|t| (M::Basic(t), format!("text {t:?}"))));
            laws("dates", &all, true, st)?;
            let nums = dedup(words.iter().map(|w| *w as u64 & 0xFFFF).collect());
            let texts: Vec<String> = nums.iter().flat_map(|n| [format!("0x{n:02X}"), format!("0x{n:04X}"), format!("{n:04X}"), format!("{n:04x}"), format!("{n}x"), format!("0x{n:x}h")]).chain(["".to_string(), "None".into()]).collect();
            let mut texts: Vec<&String> = texts.iter().collect();
            texts.sort();
            texts.dedup();
            let mut all = vec![(N::None, "none".to_string())];
            all.extend(nums.iter().map(|n| (N::SmartBatteryDataSpecification(*n as u16), format!("number {n}"))));
            all.extend(texts.iter().map(|t| (N::Basic(t), format!("text {t:?}"))));
            laws("serial numbers", &all, true, st)?;
            let named = [C::Other, C::Unknown, C::LeadAcid, C::NickelCadmium, C::NickelMetalHydride, C::LithiumIon, C::ZincAir, C::LithiumPolymer];
            let names: Vec<String> = named.iter().flat_map(|c| [format!("{c}"), format!("{c:?}"), format!("{c}").to_lowercase()]).chain(["", "PbAc", "pbac", "NiCd", "NiMH", "LION", "Li-I", "ZnAr", "LiP", "Undefined: 9"].map(String::from)).collect();
            let mut names: Vec<&String> = names.iter().collect();
            names.sort();
            names.dedup();
            let mut all: Vec<_> = named.iter().enumerate().map(|(i, c)| (*c, format!("code {i}"))).collect();
            all.extend((0..=255u8).map(|v| (C::Undefined(v), format!("undefined {v}"))));
            all.extend(names.iter().map(|t| (C::SmartBatteryDataSpecification(t), format!("text {t:?}"))));
            laws("chemistries", &all, true, st)?;
            let mut all = vec![(DesignCapacity::Unknown, "unknown".to_string())];
            for value in nums {
                all.extend([0u8, 1, 2, 4, 10, 16, 255].map(|multiplier| (DesignCapacity::Data { value: value as u16, multiplier }, format!("{value} x {multiplier}"))));
            }
            laws("capacities", &all, true, st)
        }
        17 => {
            // sizes that are the same number of bytes in different units
            use d::cache::{CacheSize, CacheSize2};
            let nums = dedup(words.iter().map(|w| *w as u64 & 0xFFFF).chain(0..200).chain((0..64).map(|x| x * 64)).collect());
            let all: Vec<_> = nums.iter().flat_map(|n| [(CacheSize::Granularity1K(*n as u16), format!("{n} KiB")), (CacheSize::Granularity64K(*n as u16), format!("{n} x 64 KiB"))]).collect();
            laws("cache sizes", &all, true, st)?;
            let nums = dedup(words.iter().map(|w| *w as u64).chain(0..200).chain((0..64).map(|x| x * 64)).collect());
            let all: Vec<_> = nums.iter().flat_map(|n| [(CacheSize2::Granularity1K(*n as u32), format!("{n} KiB")), (CacheSize2::Granularity64K(*n as u32), format!("{n} x 64 KiB"))]).collect();
            laws("cache sizes 2", &all, true, st)?;
            let mut all = vec![];
            for basic in (0..=255u8).step_by(5).chain([0xFE]) {
                all.extend([None, Some(0), Some(1), Some(16), Some(0x3FFF), Some(0x4001), Some(0x8000), Some(0xFFFF)].map(|extended| (d::bios::RomSize { basic, extended }, format!("{basic} {extended:?}"))));
            }
            laws("rom sizes", &all, true, st)
        }
        18 => {
            let mut all = vec![];
            for method in [0u8, 1, 2, 3, 4, 5, 6, 0x7F, 0x80, 0x81, 0xFF] {
                let mut seen = vec![];
                for w in &words {
                    let k = format!("{:?}", m::access_method(method, *w).0);
                    if !seen.contains(&k) {
                        all.push((AccessMethod::new(method, *w), format!("{method} {k}")));
                        seen.push(k);
                    }
                }
            }
            laws("access methods", &all, true, st)?;
            let pitches = dedup(words.iter().map(|w| *w as u64 & 0xFFFF).chain(0..300).collect());
            laws("slot pitches", &pitches.iter().map(|p| (ss::SlotPitch::from(*p as u16), p.to_string())).collect::<Vec<_>>(), true, st)?;
            laws("device and function numbers", &(0..=255u8).map(|x| (ss::DeviceAndFunctionNumber::from(x), x.to_string())).collect::<Vec<_>>(), true, st)?;
            laws("voltages", &(0..=255u8).map(|x| (d::processor::Voltage::from(x), x.to_string())).collect::<Vec<_>>(), true, st)
        }
        19 => {
            const B: [u8; 6] = [0, 1, 8, 0x7F, 0x80, 0xFF];
            let mut peers = vec![];
            let mut elements = vec![];
            for a in B {
                for b in B {
                    for e in B {
                        elements.push((d::enclosure::ContainedElement::from(&[a, b, e][..]), format!("{a} {b} {e}")));
                        for f in B {
                            let bytes = [a, b, b ^ 1, e, f];
                            peers.push((ss::Device::from(&bytes[..]), format!("{bytes:?}")));
                        }
                    }
                }
            }
            laws("peer devices", &peers, true, st)?;
            laws("contained elements", &elements, true, st)?;
            let mut all = vec![];
            let mut other = vec![];
            for major in 0..=255u8 {
                for minor in [0u8, 1, 10, 0x7F, 0x80, 0xFE, 0xFF] {
                    all.push((d::bios::BiosRevision { major, minor }, format!("{major} {minor}")));
                    other.push((d::bios::FirmwareRevision { major, minor }, format!("{major} {minor}")));
                }
            }
            laws("bios revisions", &all, true, st)?;
            laws("firmware revisions", &other, true, st)
        }
        20 => {
            laws("slot characteristics 1", &(0..=255u8).map(|x| (ss::SlotCharacteristics1::from(x), x.to_string())).collect::<Vec<_>>(), true, st)?;
            laws("slot characteristics 2", &(0..=255u8).map(|x| (ss::SlotCharacteristics2::from(x), x.to_string())).collect::<Vec<_>>(), true, st)?;
            laws("log states", &(0..=255u8).map(|x| (d::system_event_log::LogStatus::from(x), x.to_string())).collect::<Vec<_>>(), true, st)?;
            laws("sram types", &(0..128u16).map(|x| (d::cache::CacheSramType::from_bits_truncate(x), x.to_string())).collect::<Vec<_>>(), true, st)
        }
        _ => {
            let v: Vec<_> = (0..=255u8).flat_map(|a| [0u8, 1, 2, 0x80, 255].map(|b| (a, b))).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
            laws("event log type descriptors", &v.iter().map(|(a, b)| (EventLogTypeDescriptor::from([*a, *b]), format!("{a} {b}"))).collect::<Vec<_>>(), true, st)?;
            let v: Vec<_> = v.iter().map(|(a, b)| (lrf::MultipleEvent { time_window: *a, count_increment: *b }, format!("{a} {b}"))).collect();
            laws("multiple events", &v, true, st)
        }
    }
}
