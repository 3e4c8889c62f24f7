//! A canonical text of everything observable about a decoded item through the public interface:
//! fields, lists (expanded), flags and displayed forms. Two items with the same text are
//! indistinguishable to a user (except for addresses).
use dmidecode::bitfield::BitField;
use dmidecode::{EntryPoint, InvalidEntryPointError, MalformedStructureError as Mse, Structure};
use std::fmt::{Debug, Display, Write};

/// more entries than this in a list of one structure means that it does not end
const CAP: usize = 200_000;

macro_rules! fl {
    ($o:expr, $s:expr, $($f:ident),* $(,)?) => { $( let _ = write!($o, "{}={:?};", stringify!($f), $s.$f); )* };
}
thread_local!(
    /// also use widths, precisions and writers that fail
    static FORMS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }
);
pub fn with_forms<R>(on: bool, f: impl FnOnce() -> R) -> R {
    let old = FORMS.replace(on);
    let r = f();
    FORMS.set(old);
    r
}
/// a writer with room for a few bytes
struct Short(usize);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}
/// other ways to format a value: widths, fills, precisions, signs, and buffers that are too small.
/// What they print is not judged (it must be the same in all builds).
pub fn forms<T: Display + ?Sized>(o: &mut dyn Write, d: &T) {
    let _ = write!(o, "{d:1}{d:>60}{d:*<3}{d:^#20.4}{d:.0}{d:#.1}{d:+}{d:#010}{d:300}");
    for n in [0, 1, 2, 5, 12] {
        let _ = write!(Short(n), "{d}");
        let _ = write!(Short(n), "{d:#}");
        let _ = write!(Short(n), "{d:>9}");
    }
}
pub fn debug_forms<T: Debug + ?Sized>(o: &mut dyn Write, d: &T) {
    let _ = write!(o, "{d:1?}{d:>60?}{d:.0?}{d:x?}{d:#X?}{d:+?}{d:#010?}");
    for n in [0, 1, 2, 5, 12, 40] {
        let _ = write!(Short(n), "{d:?}");
        let _ = write!(Short(n), "{d:#?}");
    }
}
fn ds(o: &mut dyn Write, d: &dyn Display) {
    let _ = write!(o, "<{d}|{d:#}>");
    if FORMS.get() {
        forms(o, d);
    }
}
fn ods<T: Display>(o: &mut dyn Write, d: &Option<T>) {
    if let Some(d) = d {
        ds(o, d)
    }
}
fn list<T: Debug>(o: &mut dyn Write, it: impl Iterator<Item = T>) {
    let mut n = 0;
    for x in it {
        let _ = write!(o, "[{x:?}]");
        n += 1;
        if n > CAP {
            panic!("PROPERTY: an iterator of one structure yields more than {CAP} entries");
        }
    }
    let _ = write!(o, "n={n};");
}
fn bf<'a, T: BitField<'a>>(o: &mut dyn Write, b: &T)
where
    T::Size: Debug,
{
    let _ = write!(o, "bits {:?}:", b.value());
    for f in b.iter().take(300) {
        let _ = write!(o, "{}{}<{f}|{f:#}>{f:?};", *f.position, f.is_set);
        if FORMS.get() {
            forms(o, &f);
            debug_forms(o, &f);
        }
    }
    for f in b.significants().take(300) {
        let _ = write!(o, "{},", *f.position);
    }
    for r in b.reserved().take(300) {
        let _ = write!(o, "{r:?},");
    }
}

pub fn error(o: &mut dyn Write, e: &Mse) {
    let _ = write!(o, "Err {e:?}");
    ds(o, e);
}
pub fn item(o: &mut dyn Write, r: &Result<Structure, Mse>) {
    match r {
        Err(e) => error(o, e),
        Ok(x) => structure(o, x),
    }
}
pub fn structure(o: &mut dyn Write, x: &Structure) {
    let _ = write!(o, "{:?}:{:#x}:", crate::model::kind_of(x), crate::model::handle_of(x));
    match x {
        Structure::Bios(x) => {
            fl!(o, x, vendor, bios_version, bios_starting_address_segment, bios_release_date, rom_size, bios_revision, firmware_revision);
            ods(o, &x.bios_revision);
            ods(o, &x.firmware_revision);
            let _ = write!(o, "{}", u64::from(x.rom_size));
            bf(o, &x.bios_characteristics);
            x.bios_characteristics_exttension_1.iter().for_each(|b| bf(o, b));
            x.bios_characteristics_exttension_2.iter().for_each(|b| bf(o, b));
        }
        Structure::System(x) => {
            fl!(o, x, manufacturer, product, version, serial, wakeup, sku, family);
            let _ = write!(o, "{:?}", x.uuid.map(|u| *u.as_bytes()));
        }
        Structure::BaseBoard(x) => {
            fl!(o, x, manufacturer, product, version, serial, asset, feature_flags, location_in_chassis, chassis_handle, board_type);
            ods(o, &x.board_type);
        }
        Structure::Enclosure(x) => {
            fl!(
                o, x, manufacturer, chassis_lock, enclosure_type, version, serial_number, asset_tag_number, boot_up_state, power_supply_state, thermal_state,
                security_status, oem_defined, height, power_cords_number, sku_number
            );
            ds(o, &x.enclosure_type);
            ods(o, &x.boot_up_state);
            ods(o, &x.power_supply_state);
            ods(o, &x.thermal_state);
            ods(o, &x.security_status);
            if let Some(c) = &x.contained_elements {
                let _ = write!(o, "contained {}:", c.count());
                list(o, c.clone().map(|e| {
                    ds(&mut std::string::String::new(), &e);
                    format!("{e:?}{e}{e:#}")
                }));
            }
        }
        Structure::Processor(x) => {
            fl!(
                o, x, socket_designation, processor_type, processor_family, processor_manufacturer, processor_id, processor_version, voltage, external_clock,
                max_speed, current_speed, status, processor_upgrade, l1_cache_handle, l2_cache_handle, l3_cache_handle, serial_number, asset_tag, part_number,
                core_count, core_enabled, thread_count, processor_characteristics
            );
            ds(o, &x.processor_family);
            ds(o, &x.voltage);
            ds(o, &x.processor_upgrade);
        }
        Structure::Cache(x) => {
            fl!(
                o, x, socket_designation, cache_configuration, maximum_cache_size, installed_size, supported_sram_type, current_sram_type, cache_speed,
                error_correction_type, system_cache_type, associativity, maximum_cache_size_2, installed_size_2
            );
            ods(o, &x.error_correction_type);
            ods(o, &x.system_cache_type);
            ods(o, &x.associativity);
            let _ = write!(
                o,
                "{} {} {:?} {:?}",
                x.maximum_cache_size.bytes(),
                x.installed_size.bytes(),
                x.maximum_cache_size_2.map(|c| c.bytes()),
                x.installed_size_2.map(|c| c.bytes())
            );
        }
        Structure::PortConnector(x) => {
            fl!(o, x, internal_reference_designator, internal_connector_type, external_reference_designator, external_connector_type, port_type);
            ds(o, &x.internal_connector_type);
            ds(o, &x.external_connector_type);
            ds(o, &x.port_type);
        }
        Structure::SystemSlots(x) => {
            fl!(
                o, x, slot_designation, slot_type, slot_data_bus_width, current_usage, slot_length, slot_id, segment_group_number, bus_number, data_bus_width,
                slot_information, slot_physical_width, slot_pitch
            );
            ds(o, &x.slot_type);
            ds(o, &x.slot_data_bus_width);
            ds(o, &x.current_usage);
            ds(o, &x.slot_length);
            ods(o, &x.slot_physical_width);
            ods(o, &x.slot_pitch);
            let _ = write!(o, "{:?}", x.device_and_function_number.map(u8::from));
            bf(o, &x.slot_characteristics_1);
            x.slot_characteristics_2.iter().for_each(|b| bf(o, b));
            if let Some(p) = &x.peer_devices {
                list(o, p.clone().map(|e| {
                    ds(&mut std::string::String::new(), &e);
                    format!("{:?}{e}{e:#}", <[u8; 5]>::from(&e))
                }));
            }
        }
        Structure::OemStrings(x) => list(o, x.strings),
        Structure::SystemConfigurationOptions(x) => list(o, x.strings),
        Structure::BiosLanguage(x) => {
            fl!(o, x, current_language);
            x.flags.iter().for_each(|b| bf(o, b));
            list(o, x.installable_languages.clone());
        }
        Structure::GroupAssociations(x) => {
            fl!(o, x, group_name);
            list(o, x.items.map(|i| (i.type_, i.handle)));
        }
        Structure::SystemEventLog(x) => {
            fl!(o, x, log_area_length, log_header_start_offset, log_data_start_offset, access_method, log_change_token, log_header_format);
            ds(o, &x.access_method);
            ods(o, &x.log_header_format);
            let _ = write!(o, "{:#x}", x.access_method.address());
            bf(o, &x.log_status);
            if let Some(l) = &x.supported_event_log_type_descriptors {
                list(o, l.clone().map(|e| format!("{e:?}{}{:#}{}{:#}", e.log_type, e.log_type, e.variable_data_format_type, e.variable_data_format_type)));
            }
        }
        Structure::PhysicalMemoryArray(x) => {
            let _ = write!(o, "{x:?}");
            ds(o, &x.location);
            ds(o, &x.r#use);
            ds(o, &x.memory_error_correction);
        }
        Structure::MemoryDevice(x) => {
            let _ = write!(o, "{x:?}");
        }
        Structure::MemoryError32(x) => {
            let _ = write!(o, "{x:?}");
            ds(o, &x.error_type);
            ds(o, &x.error_granularity);
            ds(o, &x.error_operation);
        }
        Structure::MemoryArrayMappedAddress(x) => {
            let _ = write!(o, "{x:?}");
        }
        Structure::MemoryDeviceMappedAddress(x) => {
            let _ = write!(o, "{x:?}");
        }
        Structure::BuiltInPointingDevice(x) => {
            let _ = write!(o, "{x:?}");
            ds(o, &x.type_);
            ds(o, &x.interface);
        }
        Structure::PortableBattery(x) => {
            let _ = write!(o, "{x:?}");
            ds(o, &x.manufacture_date);
            ds(o, &x.serial_number);
            ds(o, &x.device_chemistry);
            let _ = write!(o, "{}", u64::from(x.design_capacity));
        }
        Structure::Other(x) => {
            fl!(o, x, version, info, length, data);
            ds(o, &x.info);
            for n in [0u8, 1, 2, 3, 4, 5, 6, 127, 128, 254, 255] {
                match x.find_string(n) {
                    Ok(s) => {
                        let _ = write!(o, "{s:?},");
                    }
                    Err(e) => error(o, &e),
                }
            }
            for off in [0usize, 3, 4, 5, 8, 16, 255, usize::MAX] {
                let _ = write!(o, "{:?}{:?}", x.get::<u8>(off).ok(), x.get::<u32>(off).ok());
                match x.get_string(off) {
                    Ok(s) => {
                        let _ = write!(o, "{s:?},");
                    }
                    Err(e) => error(o, &e),
                }
            }
        }
        #[allow(unreachable_patterns)]
        _ => {}
    }
}
/// what the derived Debug of the whole value prints must at least be printable
pub fn debug(o: &mut dyn Write, r: &Result<Structure, Mse>, pretty: bool) {
    let _ = write!(o, "{r:?}");
    if pretty {
        let _ = write!(o, "{r:#?}");
    }
    if FORMS.get() {
        debug_forms(o, r);
    }
}
pub fn entry(o: &mut dyn Write, r: &Result<EntryPoint, InvalidEntryPointError>) {
    match r {
        Err(e) => {
            let _ = write!(o, "{e:?}");
            ds(o, e);
            debug_forms(o, e);
        }
        Ok(e) => {
            let _ = write!(o, "{e:?}{:?}{} {} {} {} {} {}", e.to_version(), e.len(), e.major(), e.minor(), e.revision(), e.smbios_address(), e.smbios_len());
        }
    }
}
