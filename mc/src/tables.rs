//! Code tables of the reference model: what every code of the SMBIOS specification decodes to.
//! Reviewed against DSP0134; deliberately written out instead of derived from the implementation's conversions.
#![allow(clippy::all)]
use dmidecode as d;

pub fn lib_info_type(kind: u8) -> d::InfoType {
    match kind {
        0 => d::InfoType::Bios,
        1 => d::InfoType::System,
        2 => d::InfoType::BaseBoard,
        3 => d::InfoType::Enclosure,
        4 => d::InfoType::Processor,
        7 => d::InfoType::Cache,
        8 => d::InfoType::PortConnector,
        9 => d::InfoType::SystemSlots,
        11 => d::InfoType::OemStrings,
        12 => d::InfoType::SystemConfigurationOptions,
        13 => d::InfoType::BiosLanguage,
        14 => d::InfoType::GroupAssociations,
        15 => d::InfoType::SystemEventLog,
        16 => d::InfoType::PhysicalMemoryArray,
        17 => d::InfoType::MemoryDevice,
        18 => d::InfoType::MemoryError32,
        19 => d::InfoType::MemoryArrayMappedAddress,
        20 => d::InfoType::MemoryDeviceMappedAddress,
        21 => d::InfoType::BuiltInPointingDevice,
        22 => d::InfoType::PortableBattery,
        32 => d::InfoType::SystemBoot,
        127 => d::InfoType::End,
        t => d::InfoType::Oem(t),
    }
}

pub fn system_wakeup_type(_type: u8) -> d::system::WakeupType {
    match _type {
        0 => d::system::WakeupType::Reserved,
        1 => d::system::WakeupType::Other,
        2 => d::system::WakeupType::Unknown,
        3 => d::system::WakeupType::APM_Timer,
        4 => d::system::WakeupType::Modem_Ring,
        5 => d::system::WakeupType::LAN_Remote,
        6 => d::system::WakeupType::Power_Switch,
        7 => d::system::WakeupType::PCI_PME,
        8 => d::system::WakeupType::AC_Power_Restored,
        t => d::system::WakeupType::Undefined(t),
    }
}

pub fn baseboard_board_type(_type: u8) -> d::baseboard::BoardType {
    match _type {
        1 => d::baseboard::BoardType::Unknown,
        2 => d::baseboard::BoardType::Other,
        3 => d::baseboard::BoardType::ServerBlade,
        4 => d::baseboard::BoardType::ConnectivitySwitch,
        5 => d::baseboard::BoardType::SystemManagementModule,
        6 => d::baseboard::BoardType::ProcessorModule,
        7 => d::baseboard::BoardType::IoModule,
        8 => d::baseboard::BoardType::MemoryModule,
        9 => d::baseboard::BoardType::DaughterBoard,
        10 => d::baseboard::BoardType::MotherBoard,
        11 => d::baseboard::BoardType::ProcessorMemoryModule,
        12 => d::baseboard::BoardType::ProcessorIoModule,
        13 => d::baseboard::BoardType::InterconnectBoard,
        t => d::baseboard::BoardType::Undefined(t),
    }
}

pub fn enclosure_enclosure_type(byte: u8) -> d::enclosure::EnclosureType {
    match byte {
        0x01 => d::enclosure::EnclosureType::Other,
        0x02 => d::enclosure::EnclosureType::Unknown,
        0x03 => d::enclosure::EnclosureType::Desktop,
        0x04 => d::enclosure::EnclosureType::LowProfileDesktop,
        0x05 => d::enclosure::EnclosureType::PizzaBox,
        0x06 => d::enclosure::EnclosureType::MiniTower,
        0x07 => d::enclosure::EnclosureType::Tower,
        0x08 => d::enclosure::EnclosureType::Portable,
        0x09 => d::enclosure::EnclosureType::Laptop,
        0x0A => d::enclosure::EnclosureType::Notebook,
        0x0B => d::enclosure::EnclosureType::HandHeld,
        0x0C => d::enclosure::EnclosureType::DockingStation,
        0x0D => d::enclosure::EnclosureType::AllInOne,
        0x0E => d::enclosure::EnclosureType::SubNotebook,
        0x0F => d::enclosure::EnclosureType::SpaceSaving,
        0x10 => d::enclosure::EnclosureType::LunchBox,
        0x11 => d::enclosure::EnclosureType::MainServerChassis,
        0x12 => d::enclosure::EnclosureType::ExpansionChassis,
        0x13 => d::enclosure::EnclosureType::SubChassis,
        0x14 => d::enclosure::EnclosureType::BusExpansionChassis,
        0x15 => d::enclosure::EnclosureType::PeripheralChassis,
        0x16 => d::enclosure::EnclosureType::RaidChassis,
        0x17 => d::enclosure::EnclosureType::RackMountChassis,
        0x18 => d::enclosure::EnclosureType::SealedCasePc,
        0x19 => d::enclosure::EnclosureType::MultiSystemChassis,
        0x1A => d::enclosure::EnclosureType::CompactPci,
        0x1B => d::enclosure::EnclosureType::AdvancedTca,
        0x1C => d::enclosure::EnclosureType::Blade,
        0x1D => d::enclosure::EnclosureType::BladeEnclosure,
        0x1E => d::enclosure::EnclosureType::Tablet,
        0x1F => d::enclosure::EnclosureType::Convertible,
        0x20 => d::enclosure::EnclosureType::Detachable,
        0x21 => d::enclosure::EnclosureType::IotGateway,
        0x22 => d::enclosure::EnclosureType::EmbeddedPc,
        0x23 => d::enclosure::EnclosureType::MiniPc,
        0x24 => d::enclosure::EnclosureType::StickPc,
        v => d::enclosure::EnclosureType::Undefined(v),
    }
}

pub fn enclosure_state(byte: u8) -> d::enclosure::State {
    match byte {
        0x01 => d::enclosure::State::Other,
        0x02 => d::enclosure::State::Unknown,
        0x03 => d::enclosure::State::Safe,
        0x04 => d::enclosure::State::Warning,
        0x05 => d::enclosure::State::Critical,
        0x06 => d::enclosure::State::NonRecoverable,
        v => d::enclosure::State::Undefined(v),
    }
}

pub fn enclosure_security_status(byte: u8) -> d::enclosure::SecurityStatus {
    match byte {
        0x01 => d::enclosure::SecurityStatus::Other,
        0x02 => d::enclosure::SecurityStatus::Unknown,
        0x03 => d::enclosure::SecurityStatus::None,
        0x04 => d::enclosure::SecurityStatus::ExternalInterfaceLockedOut,
        0x05 => d::enclosure::SecurityStatus::ExternalInterfaceEnabled,
        v => d::enclosure::SecurityStatus::Undefined(v),
    }
}

pub fn processor_processor_type(_type: u8) -> d::processor::ProcessorType {
    match _type {
        1 => d::processor::ProcessorType::Other,
        2 => d::processor::ProcessorType::Unknown,
        3 => d::processor::ProcessorType::CentralProcessor,
        4 => d::processor::ProcessorType::MathProcessor,
        5 => d::processor::ProcessorType::DspProcessor,
        6 => d::processor::ProcessorType::VideoProcessor,
        t => d::processor::ProcessorType::Undefined(t),
    }
}

pub fn processor_processor_family(word: u16) -> d::processor::ProcessorFamily {
    match word {
        0x00 => d::processor::ProcessorFamily::OutOfSpec,
        0x01 => d::processor::ProcessorFamily::Other,
        0x02 => d::processor::ProcessorFamily::Unknown,
        0x03 => d::processor::ProcessorFamily::Intel8086,
        0x04 => d::processor::ProcessorFamily::Intel80286,
        0x05 => d::processor::ProcessorFamily::Intel386Processor,
        0x06 => d::processor::ProcessorFamily::Intel486Processor,
        0x07 => d::processor::ProcessorFamily::Intel8087,
        0x08 => d::processor::ProcessorFamily::Intel80287,
        0x09 => d::processor::ProcessorFamily::Intel80387,
        0x0A => d::processor::ProcessorFamily::Intel80487,
        0x0B => d::processor::ProcessorFamily::IntelPentiumProcessor,
        0x0C => d::processor::ProcessorFamily::PentiumProProcessor,
        0x0D => d::processor::ProcessorFamily::PentiumIIProcessor,
        0x0E => d::processor::ProcessorFamily::PentiumProcessorWithMMXTechnology,
        0x0F => d::processor::ProcessorFamily::IntelCeleronProcessor,
        0x10 => d::processor::ProcessorFamily::PentiumIIXeonProcessor,
        0x11 => d::processor::ProcessorFamily::PentiumIIIProcessor,
        0x12 => d::processor::ProcessorFamily::M1Family,
        0x13 => d::processor::ProcessorFamily::M2Family,
        0x14 => d::processor::ProcessorFamily::IntelCeleronMProcessor,
        0x15 => d::processor::ProcessorFamily::IntelPentium4HTProcessor,
        n @ 0x16..=0x17 => d::processor::ProcessorFamily::Available(n),
        0x18 => d::processor::ProcessorFamily::AMDDuronProcessorFamily,
        0x19 => d::processor::ProcessorFamily::K5Family,
        0x1A => d::processor::ProcessorFamily::K6Family,
        0x1B => d::processor::ProcessorFamily::K62,
        0x1C => d::processor::ProcessorFamily::K63,
        0x1D => d::processor::ProcessorFamily::AMDAthlonProcessorFamily,
        0x1E => d::processor::ProcessorFamily::AMD29000Family,
        0x1F => d::processor::ProcessorFamily::K62Plus,
        0x20 => d::processor::ProcessorFamily::PowerPCFamily,
        0x21 => d::processor::ProcessorFamily::PowerPC601,
        0x22 => d::processor::ProcessorFamily::PowerPC603,
        0x23 => d::processor::ProcessorFamily::PowerPC603Plus,
        0x24 => d::processor::ProcessorFamily::PowerPC604,
        0x25 => d::processor::ProcessorFamily::PowerPC620,
        0x26 => d::processor::ProcessorFamily::PowerPCX704,
        0x27 => d::processor::ProcessorFamily::PowerPC750,
        0x28 => d::processor::ProcessorFamily::IntelCoreDuoProcessor,
        0x29 => d::processor::ProcessorFamily::IntelCoreDuoMobileProcessor,
        0x2A => d::processor::ProcessorFamily::IntelCoreSoloMobileProcessor,
        0x2B => d::processor::ProcessorFamily::IntelAtomProcessor,
        0x2C => d::processor::ProcessorFamily::IntelCoreMProcessor,
        0x2D => d::processor::ProcessorFamily::IntelCoreM3Processor,
        0x2E => d::processor::ProcessorFamily::IntelCoreM5Processor,
        0x2F => d::processor::ProcessorFamily::IntelCoreM7Processor,
        0x30 => d::processor::ProcessorFamily::AlphaFamily,
        0x31 => d::processor::ProcessorFamily::Alpha21064,
        0x32 => d::processor::ProcessorFamily::Alpha21066,
        0x33 => d::processor::ProcessorFamily::Alpha21164,
        0x34 => d::processor::ProcessorFamily::Alpha21164PC,
        0x35 => d::processor::ProcessorFamily::Alpha21164a,
        0x36 => d::processor::ProcessorFamily::Alpha21264,
        0x37 => d::processor::ProcessorFamily::Alpha21364,
        0x38 => d::processor::ProcessorFamily::AMDTurionIIUltraDualCoreMobileMProcessorFamily,
        0x39 => d::processor::ProcessorFamily::AMDTurionIIDualCoreMobileMProcessorFamily,
        0x3A => d::processor::ProcessorFamily::AMDAthlonIIDualCoreMProcessorFamily,
        0x3B => d::processor::ProcessorFamily::AMDOpteron6100SeriesProcessor,
        0x3C => d::processor::ProcessorFamily::AMDOpteron4100SeriesProcessor,
        0x3D => d::processor::ProcessorFamily::AMDOpteron6200SeriesProcessor,
        0x3E => d::processor::ProcessorFamily::AMDOpteron4200SeriesProcessor,
        0x3F => d::processor::ProcessorFamily::AMDFXSeriesProcessor,
        0x40 => d::processor::ProcessorFamily::MIPSFamily,
        0x41 => d::processor::ProcessorFamily::MIPSR4000,
        0x42 => d::processor::ProcessorFamily::MIPSR4200,
        0x43 => d::processor::ProcessorFamily::MIPSR4400,
        0x44 => d::processor::ProcessorFamily::MIPSR4600,
        0x45 => d::processor::ProcessorFamily::MIPSR10000,
        0x46 => d::processor::ProcessorFamily::AMDCSeriesProcessor,
        0x47 => d::processor::ProcessorFamily::AMDESeriesProcessor,
        0x48 => d::processor::ProcessorFamily::AMDASeriesProcessor,
        0x49 => d::processor::ProcessorFamily::AMDGSeriesProcessor,
        0x4A => d::processor::ProcessorFamily::AMDZSeriesProcessor,
        0x4B => d::processor::ProcessorFamily::AMDRSeriesProcessor,
        0x4C => d::processor::ProcessorFamily::AMDOpteron4300SeriesProcessor,
        0x4D => d::processor::ProcessorFamily::AMDOpteron6300SeriesProcessor,
        0x4E => d::processor::ProcessorFamily::AMDOpteron3300SeriesProcessor,
        0x4F => d::processor::ProcessorFamily::AMDFireProSeriesProcessor,
        0x50 => d::processor::ProcessorFamily::SPARCFamily,
        0x51 => d::processor::ProcessorFamily::SuperSPARC,
        0x52 => d::processor::ProcessorFamily::MicroSPARCII,
        0x53 => d::processor::ProcessorFamily::MicroSPARCIIep,
        0x54 => d::processor::ProcessorFamily::UltraSPARC,
        0x55 => d::processor::ProcessorFamily::UltraSPARCII,
        0x56 => d::processor::ProcessorFamily::UltraSPARCIii,
        0x57 => d::processor::ProcessorFamily::UltraSPARCIII,
        0x58 => d::processor::ProcessorFamily::UltraSPARCIIIi,
        n @ 0x59..=0x5F => d::processor::ProcessorFamily::Available(n),
        0x60 => d::processor::ProcessorFamily::Motorola68040Family,
        0x61 => d::processor::ProcessorFamily::Motorola68xxx,
        0x62 => d::processor::ProcessorFamily::Motorola68000,
        0x63 => d::processor::ProcessorFamily::Motorola68010,
        0x64 => d::processor::ProcessorFamily::Motorola68020,
        0x65 => d::processor::ProcessorFamily::Motorola68030,
        0x66 => d::processor::ProcessorFamily::AMDAthlonX4QuadCoreProcessorFamily,
        0x67 => d::processor::ProcessorFamily::AMDOpteronX1000SeriesProcessor,
        0x68 => d::processor::ProcessorFamily::AMDOpteronX2000SeriesAPU,
        0x69 => d::processor::ProcessorFamily::AMDOpteronASeriesProcessor,
        0x6A => d::processor::ProcessorFamily::AMDOpteronX3000SeriesAPU,
        0x6B => d::processor::ProcessorFamily::AMDZenProcessorFamily,
        n @ 0x6C..=0x6F => d::processor::ProcessorFamily::Available(n),
        0x70 => d::processor::ProcessorFamily::HobbitFamily,
        n @ 0x71..=0x77 => d::processor::ProcessorFamily::Available(n),
        0x78 => d::processor::ProcessorFamily::CrusoeTM5000Family,
        0x79 => d::processor::ProcessorFamily::CrusoeTM3000Family,
        0x7A => d::processor::ProcessorFamily::EfficeonTM8000Family,
        n @ 0x7B..=0x7F => d::processor::ProcessorFamily::Available(n),
        0x80 => d::processor::ProcessorFamily::Weitek,
        n @ 0x81 => d::processor::ProcessorFamily::Available(n),
        0x82 => d::processor::ProcessorFamily::ItaniumProcessor,
        0x83 => d::processor::ProcessorFamily::AMDAthlon64ProcessorFamily,
        0x84 => d::processor::ProcessorFamily::AMDOpteronProcessorFamily,
        0x85 => d::processor::ProcessorFamily::AMDSempronProcessorFamily,
        0x86 => d::processor::ProcessorFamily::AMDTurion64MobileTechnology,
        0x87 => d::processor::ProcessorFamily::DualCoreAMDOpteronProcessorFamily,
        0x88 => d::processor::ProcessorFamily::AMDAthlon64X2DualCoreProcessorFamily,
        0x89 => d::processor::ProcessorFamily::AMDTurion64X2MobileTechnology,
        0x8A => d::processor::ProcessorFamily::QuadCoreAMDOpteronProcessorFamily,
        0x8B => d::processor::ProcessorFamily::ThirdGenerationAMDOpteronProcessorFamily,
        0x8C => d::processor::ProcessorFamily::AMDPhenomFXQuadCoreProcessorFamily,
        0x8D => d::processor::ProcessorFamily::AMDPhenomX4QuadCoreProcessorFamily,
        0x8E => d::processor::ProcessorFamily::AMDPhenomX2DualCoreProcessorFamily,
        0x8F => d::processor::ProcessorFamily::AMDAthlonX2DualCoreProcessorFamily,
        0x90 => d::processor::ProcessorFamily::PARISCFamily,
        0x91 => d::processor::ProcessorFamily::PARISC8500,
        0x92 => d::processor::ProcessorFamily::PARISC8000,
        0x93 => d::processor::ProcessorFamily::PARISC7300LC,
        0x94 => d::processor::ProcessorFamily::PARISC7200,
        0x95 => d::processor::ProcessorFamily::PARISC7100LC,
        0x96 => d::processor::ProcessorFamily::PARISC7100,
        n @ 0x97..=0x9F => d::processor::ProcessorFamily::Available(n),
        0xA0 => d::processor::ProcessorFamily::V30Family,
        0xA1 => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor3200Series,
        0xA2 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor3000Series,
        0xA3 => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor5300Series,
        0xA4 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor5100Series,
        0xA5 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor5000Series,
        0xA6 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessorLV,
        0xA7 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessorULV,
        0xA8 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor7100Series,
        0xA9 => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor5400Series,
        0xAA => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor,
        0xAB => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor5200Series,
        0xAC => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor7200Series,
        0xAD => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor7300Series,
        0xAE => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor7400Series,
        0xAF => d::processor::ProcessorFamily::MultiCoreIntelXeonProcessor7400Series,
        0xB0 => d::processor::ProcessorFamily::PentiumIIIXeonProcessor,
        0xB1 => d::processor::ProcessorFamily::PentiumIIIProcessorWithIntelSpeedStepTechnology,
        0xB2 => d::processor::ProcessorFamily::Pentium4Processor,
        0xB3 => d::processor::ProcessorFamily::IntelXeonProcessor,
        0xB4 => d::processor::ProcessorFamily::AS400Family,
        0xB5 => d::processor::ProcessorFamily::IntelXeonProcessorMP,
        0xB6 => d::processor::ProcessorFamily::AMDAthlonXPProcessorFamily,
        0xB7 => d::processor::ProcessorFamily::AMDAthlonMPProcessorFamily,
        0xB8 => d::processor::ProcessorFamily::IntelItanium2Processor,
        0xB9 => d::processor::ProcessorFamily::IntelPentiumMProcessor,
        0xBA => d::processor::ProcessorFamily::IntelCeleronDProcessor,
        0xBB => d::processor::ProcessorFamily::IntelPentiumDProcessor,
        0xBC => d::processor::ProcessorFamily::IntelPentiumProcessorExtremeEdition,
        0xBD => d::processor::ProcessorFamily::IntelCoreSoloProcessor,
        0xBE => d::processor::ProcessorFamily::Ambiguous,
        0xBF => d::processor::ProcessorFamily::IntelCore2DuoProcessor,
        0xC0 => d::processor::ProcessorFamily::IntelCore2SoloProcessor,
        0xC1 => d::processor::ProcessorFamily::IntelCore2ExtremeProcessor,
        0xC2 => d::processor::ProcessorFamily::IntelCore2QuadProcessor,
        0xC3 => d::processor::ProcessorFamily::IntelCore2ExtremeMobileProcessor,
        0xC4 => d::processor::ProcessorFamily::IntelCore2DuoMobileProcessor,
        0xC5 => d::processor::ProcessorFamily::IntelCore2SoloMobileProcessor,
        0xC6 => d::processor::ProcessorFamily::IntelCoreI7Processor,
        0xC7 => d::processor::ProcessorFamily::DualCoreIntelCeleronProcessor,
        0xC8 => d::processor::ProcessorFamily::IBM390Family,
        0xC9 => d::processor::ProcessorFamily::G4,
        0xCA => d::processor::ProcessorFamily::G5,
        0xCB => d::processor::ProcessorFamily::ESA390G6,
        0xCC => d::processor::ProcessorFamily::ZArchitectureBase,
        0xCD => d::processor::ProcessorFamily::IntelCoreI5Processor,
        0xCE => d::processor::ProcessorFamily::IntelCoreI3Processor,
        0xCF => d::processor::ProcessorFamily::IntelCoreI9Processor,
        n @ 0xD0..=0xD1 => d::processor::ProcessorFamily::Available(n),
        0xD2 => d::processor::ProcessorFamily::VIAC7MProcessorFamily,
        0xD3 => d::processor::ProcessorFamily::VIAC7DProcessorFamily,
        0xD4 => d::processor::ProcessorFamily::VIAC7ProcessorFamily,
        0xD5 => d::processor::ProcessorFamily::VIAEdenProcessorFamily,
        0xD6 => d::processor::ProcessorFamily::MultiCoreIntelXeonProcessor,
        0xD7 => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor3xxxSeries,
        0xD8 => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor3xxxSeries,
        0xD9 => d::processor::ProcessorFamily::VIANanoProcessorFamily,
        0xDA => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor5xxxSeries,
        0xDB => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor5xxxSeries,
        n @ 0xDC => d::processor::ProcessorFamily::Available(n),
        0xDD => d::processor::ProcessorFamily::DualCoreIntelXeonProcessor7xxxSeries,
        0xDE => d::processor::ProcessorFamily::QuadCoreIntelXeonProcessor7xxxSeries,
        0xDF => d::processor::ProcessorFamily::MultiCoreIntelXeonProcessor7xxxSeries,
        0xE0 => d::processor::ProcessorFamily::MultiCoreIntelXeonProcessor3400Series,
        n @ 0xE1..=0xE3 => d::processor::ProcessorFamily::Available(n),
        0xE4 => d::processor::ProcessorFamily::AMDOpteron3000SeriesProcessor,
        0xE5 => d::processor::ProcessorFamily::AMDSempronIIProcessor,
        0xE6 => d::processor::ProcessorFamily::EmbeddedAMDOpteronQuadCoreProcessorFamily,
        0xE7 => d::processor::ProcessorFamily::AMDPhenomTripleCoreProcessorFamily,
        0xE8 => d::processor::ProcessorFamily::AMDTurionUltraDualCoreMobileProcessorFamily,
        0xE9 => d::processor::ProcessorFamily::AMDTurionDualCoreMobileProcessorFamily,
        0xEA => d::processor::ProcessorFamily::AMDAthlonDualCoreProcessorFamily,
        0xEB => d::processor::ProcessorFamily::AMDSempronSIProcessorFamily,
        0xEC => d::processor::ProcessorFamily::AMDPhenomIIProcessorFamily,
        0xED => d::processor::ProcessorFamily::AMDAthlonIIProcessorFamily,
        0xEE => d::processor::ProcessorFamily::SixCoreAMDOpteronProcessorFamily,
        0xEF => d::processor::ProcessorFamily::AMDSempronMProcessorFamily,
        n @ 0xF0..=0xF9 => d::processor::ProcessorFamily::Available(n),
        0xFA => d::processor::ProcessorFamily::I860,
        0xFB => d::processor::ProcessorFamily::I960,
        n @ 0xFC..=0xFD => d::processor::ProcessorFamily::Available(n),
        0xFE => d::processor::ProcessorFamily::ProcessorFamily2,
        n @ 0xFF => d::processor::ProcessorFamily::NotUsed(n),
        0x100 => d::processor::ProcessorFamily::ARMv7,
        0x101 => d::processor::ProcessorFamily::ARMv8,
        0x102 => d::processor::ProcessorFamily::ARMv9,
        0x103 => d::processor::ProcessorFamily::Available(0x103),
        0x104 => d::processor::ProcessorFamily::SH3,
        0x105 => d::processor::ProcessorFamily::SH4,
        n @ 0x106..=0x117 => d::processor::ProcessorFamily::Available(n),
        0x118 => d::processor::ProcessorFamily::ARM,
        0x119 => d::processor::ProcessorFamily::StrongARM,
        n @ 0x11A..=0x12B => d::processor::ProcessorFamily::Available(n),
        0x12C => d::processor::ProcessorFamily::Cyrix6x86,
        0x12D => d::processor::ProcessorFamily::MediaGX,
        0x12E => d::processor::ProcessorFamily::MII,
        n @ 0x12F..=0x13F => d::processor::ProcessorFamily::Available(n),
        0x140 => d::processor::ProcessorFamily::WinChip,
        n @ 0x141..=0x15D => d::processor::ProcessorFamily::Available(n),
        0x15E => d::processor::ProcessorFamily::DSP,
        n @ 0x15F..=0x1F3 => d::processor::ProcessorFamily::Available(n),
        0x1F4 => d::processor::ProcessorFamily::VideoProcessor,
        n @ 0x1F5..=0x1FF => d::processor::ProcessorFamily::Available(n),
        0x200 => d::processor::ProcessorFamily::RISCVRV32,
        0x201 => d::processor::ProcessorFamily::RISCVRV64,
        0x202 => d::processor::ProcessorFamily::RISCVRV128,
        n @ 0x203..=0xFFFD => d::processor::ProcessorFamily::Available(n),
        0xFFFE => d::processor::ProcessorFamily::ForFutureUse,
        n @ 0xFFFF => d::processor::ProcessorFamily::NotUsed(n),
    }
}

pub fn processor_processor_upgrade(byte: u8) -> d::processor::ProcessorUpgrade {
    match byte {
        0x01 => d::processor::ProcessorUpgrade::Other,
        0x02 => d::processor::ProcessorUpgrade::Unknown,
        0x03 => d::processor::ProcessorUpgrade::DaughterBoard,
        0x04 => d::processor::ProcessorUpgrade::ZIFSocket,
        0x05 => d::processor::ProcessorUpgrade::ReplaceablePiggyBack,
        0x06 => d::processor::ProcessorUpgrade::None,
        0x07 => d::processor::ProcessorUpgrade::LIFSocket,
        0x08 => d::processor::ProcessorUpgrade::Slot1,
        0x09 => d::processor::ProcessorUpgrade::Slot2,
        0x0a => d::processor::ProcessorUpgrade::Socket370,
        0x0b => d::processor::ProcessorUpgrade::SlotA,
        0x0c => d::processor::ProcessorUpgrade::SlotM,
        0x0d => d::processor::ProcessorUpgrade::Socket423,
        0x0e => d::processor::ProcessorUpgrade::SocketA,
        0x0f => d::processor::ProcessorUpgrade::Socket478,
        0x10 => d::processor::ProcessorUpgrade::Socket754,
        0x11 => d::processor::ProcessorUpgrade::Socket940,
        0x12 => d::processor::ProcessorUpgrade::Socket939,
        0x13 => d::processor::ProcessorUpgrade::SocketmPGA604,
        0x14 => d::processor::ProcessorUpgrade::SocketLGA771,
        0x15 => d::processor::ProcessorUpgrade::SocketLGA775,
        0x16 => d::processor::ProcessorUpgrade::SocketS1,
        0x17 => d::processor::ProcessorUpgrade::SocketAM2,
        0x18 => d::processor::ProcessorUpgrade::SocketF,
        0x19 => d::processor::ProcessorUpgrade::SocketLGA1366,
        0x1a => d::processor::ProcessorUpgrade::SocketG34,
        0x1b => d::processor::ProcessorUpgrade::SocketAM3,
        0x1c => d::processor::ProcessorUpgrade::SocketC32,
        0x1d => d::processor::ProcessorUpgrade::SocketLGA1156,
        0x1e => d::processor::ProcessorUpgrade::SocketLGA1567,
        0x1f => d::processor::ProcessorUpgrade::SocketPGA988A,
        0x20 => d::processor::ProcessorUpgrade::SocketBGA1288,
        0x21 => d::processor::ProcessorUpgrade::SocketrPGA988B,
        0x22 => d::processor::ProcessorUpgrade::SocketBGA1023,
        0x23 => d::processor::ProcessorUpgrade::SocketBGA1224,
        0x24 => d::processor::ProcessorUpgrade::SocketLGA1155,
        0x25 => d::processor::ProcessorUpgrade::SocketLGA1356,
        0x26 => d::processor::ProcessorUpgrade::SocketLGA2011,
        0x27 => d::processor::ProcessorUpgrade::SocketFS1,
        0x28 => d::processor::ProcessorUpgrade::SocketFS2,
        0x29 => d::processor::ProcessorUpgrade::SocketFM1,
        0x2a => d::processor::ProcessorUpgrade::SocketFM2,
        0x2b => d::processor::ProcessorUpgrade::SocketLGA2011Three,
        0x2c => d::processor::ProcessorUpgrade::SocketLGA1356Three,
        0x2d => d::processor::ProcessorUpgrade::SocketLGA1150,
        0x2e => d::processor::ProcessorUpgrade::SocketBGA1168,
        0x2f => d::processor::ProcessorUpgrade::SocketBGA1234,
        0x30 => d::processor::ProcessorUpgrade::SocketBGA1364,
        0x31 => d::processor::ProcessorUpgrade::SocketAM4,
        0x32 => d::processor::ProcessorUpgrade::SocketLGA1151,
        0x33 => d::processor::ProcessorUpgrade::SocketBGA1356,
        0x34 => d::processor::ProcessorUpgrade::SocketBGA1440,
        0x35 => d::processor::ProcessorUpgrade::SocketBGA1515,
        0x36 => d::processor::ProcessorUpgrade::SocketLGA3647,
        0x37 => d::processor::ProcessorUpgrade::SocketSP3,
        0x38 => d::processor::ProcessorUpgrade::SocketSP3r2,
        0x39 => d::processor::ProcessorUpgrade::SocketLGA2066,
        0x3a => d::processor::ProcessorUpgrade::SocketBGA1392,
        0x3b => d::processor::ProcessorUpgrade::SocketBGA1510,
        0x3c => d::processor::ProcessorUpgrade::SocketBGA1528,
        0x3d => d::processor::ProcessorUpgrade::SocketLGA4189,
        0x3e => d::processor::ProcessorUpgrade::SocketLGA1200,
        n => d::processor::ProcessorUpgrade::Undefined(n),
    }
}

pub fn cache_cache_level(word: u16) -> d::cache::CacheLevel {
    match word & 0b111 {
        0 => d::cache::CacheLevel::L1,
        1 => d::cache::CacheLevel::L2,
        2 => d::cache::CacheLevel::L3,
        3 => d::cache::CacheLevel::L4,
        4 => d::cache::CacheLevel::L5,
        5 => d::cache::CacheLevel::L6,
        6 => d::cache::CacheLevel::L7,
        _ => d::cache::CacheLevel::L8,
    }
}

pub fn cache_cache_location(word: u16) -> d::cache::CacheLocation {
    match word & 0b11 {
        0 => d::cache::CacheLocation::Internal,
        1 => d::cache::CacheLocation::External,
        2 => d::cache::CacheLocation::Reserved,
        _ => d::cache::CacheLocation::Unknown,
    }
}

pub fn cache_cache_operational_mode(word: u16) -> d::cache::CacheOperationalMode {
    match word & 0b11 {
        0 => d::cache::CacheOperationalMode::WriteThrough,
        1 => d::cache::CacheOperationalMode::WriteBack,
        2 => d::cache::CacheOperationalMode::ValuesWithMemoryAddress,
        _ => d::cache::CacheOperationalMode::Unknown,
    }
}

pub fn cache_cache_error_correction_type(byte: u8) -> d::cache::CacheErrorCorrectionType {
    match byte {
        0x01 => d::cache::CacheErrorCorrectionType::Other,
        0x02 => d::cache::CacheErrorCorrectionType::Unknown,
        0x03 => d::cache::CacheErrorCorrectionType::None,
        0x04 => d::cache::CacheErrorCorrectionType::Parity,
        0x05 => d::cache::CacheErrorCorrectionType::SingleBitEcc,
        0x06 => d::cache::CacheErrorCorrectionType::MultiBitEcc,
        t => d::cache::CacheErrorCorrectionType::Undefined(t),
    }
}

pub fn cache_system_cache_type(byte: u8) -> d::cache::SystemCacheType {
    match byte {
        0x01 => d::cache::SystemCacheType::Other,
        0x02 => d::cache::SystemCacheType::Unknown,
        0x03 => d::cache::SystemCacheType::Instruction,
        0x04 => d::cache::SystemCacheType::Data,
        0x05 => d::cache::SystemCacheType::Unified,
        t => d::cache::SystemCacheType::Undefined(t),
    }
}

pub fn cache_cache_associativity(byte: u8) -> d::cache::CacheAssociativity {
    match byte {
        0x01 => d::cache::CacheAssociativity::Other,
        0x02 => d::cache::CacheAssociativity::Unknown,
        0x03 => d::cache::CacheAssociativity::DirectMapped,
        0x04 => d::cache::CacheAssociativity::TwowaySetAssociative,
        0x05 => d::cache::CacheAssociativity::FourWaySetAssociative,
        0x06 => d::cache::CacheAssociativity::FullyAssociative,
        0x07 => d::cache::CacheAssociativity::EightWaySetAssociative,
        0x08 => d::cache::CacheAssociativity::SixteenWaySetAssociative,
        0x09 => d::cache::CacheAssociativity::TwelveWaySetAssociative,
        0x0A => d::cache::CacheAssociativity::TwentyFourWaySetAssociative,
        0x0B => d::cache::CacheAssociativity::ThirtyTwoWaySetAssociative,
        0x0C => d::cache::CacheAssociativity::FourtyEightWaySetAssociative,
        0x0D => d::cache::CacheAssociativity::SixtyFourWaySetAssociative,
        0x0E => d::cache::CacheAssociativity::TwentyWaySetAssociative,
        t => d::cache::CacheAssociativity::Undefined(t),
    }
}

pub fn port_connector_connector_type(byte: u8) -> d::port_connector::ConnectorType {
    match byte {
        0x00 => d::port_connector::ConnectorType::None,
        0x01 => d::port_connector::ConnectorType::Centronics,
        0x02 => d::port_connector::ConnectorType::MiniCentronics,
        0x03 => d::port_connector::ConnectorType::Proprietary,
        0x04 => d::port_connector::ConnectorType::Db25PinMale,
        0x05 => d::port_connector::ConnectorType::Db25PinFemale,
        0x06 => d::port_connector::ConnectorType::Db15PinMale,
        0x07 => d::port_connector::ConnectorType::Db15PinFemale,
        0x08 => d::port_connector::ConnectorType::Db9PinMale,
        0x09 => d::port_connector::ConnectorType::Db9PinFemale,
        0x0A => d::port_connector::ConnectorType::Rj11,
        0x0B => d::port_connector::ConnectorType::Rj45,
        0x0C => d::port_connector::ConnectorType::MiniScsi,
        0x0D => d::port_connector::ConnectorType::MiniDin,
        0x0E => d::port_connector::ConnectorType::MicroDin,
        0x0F => d::port_connector::ConnectorType::Ps2,
        0x10 => d::port_connector::ConnectorType::Infrared,
        0x11 => d::port_connector::ConnectorType::HpHil,
        0x12 => d::port_connector::ConnectorType::AccessBus,
        0x13 => d::port_connector::ConnectorType::SsaScsi,
        0x14 => d::port_connector::ConnectorType::CircularDin8Male,
        0x15 => d::port_connector::ConnectorType::CircularDin8Female,
        0x16 => d::port_connector::ConnectorType::OnBoardIde,
        0x17 => d::port_connector::ConnectorType::OnBoardFloppy,
        0x18 => d::port_connector::ConnectorType::DualInline9,
        0x19 => d::port_connector::ConnectorType::DualInline25,
        0x1A => d::port_connector::ConnectorType::DualInline50,
        0x1B => d::port_connector::ConnectorType::DualInline68,
        0x1C => d::port_connector::ConnectorType::OnBoardSoundInputFromCdRom,
        0x1D => d::port_connector::ConnectorType::MiniCentronicsType14,
        0x1E => d::port_connector::ConnectorType::MiniCentronicsType26,
        0x1F => d::port_connector::ConnectorType::MiniJack,
        0x20 => d::port_connector::ConnectorType::Bnc,
        0x21 => d::port_connector::ConnectorType::Ieee1394,
        0x22 => d::port_connector::ConnectorType::SasSataPlugReceptacle,
        0x23 => d::port_connector::ConnectorType::UsbTypeCReceptacle,
        0xA0 => d::port_connector::ConnectorType::Pc98,
        0xA1 => d::port_connector::ConnectorType::Pc98Hireso,
        0xA2 => d::port_connector::ConnectorType::PcH98,
        0xA3 => d::port_connector::ConnectorType::Pc98Note,
        0xA4 => d::port_connector::ConnectorType::Pc98Full,
        0xFF => d::port_connector::ConnectorType::Other,
        v => d::port_connector::ConnectorType::Undefined(v),
    }
}

pub fn port_connector_port_type(byte: u8) -> d::port_connector::PortType {
    match byte {
        0x00 => d::port_connector::PortType::None,
        0x01 => d::port_connector::PortType::ParallelPortXtAtCompatible,
        0x02 => d::port_connector::PortType::ParallelPortPs2,
        0x03 => d::port_connector::PortType::ParallelPortEcp,
        0x04 => d::port_connector::PortType::ParallelPortEpp,
        0x05 => d::port_connector::PortType::ParallelPortEcpEpp,
        0x06 => d::port_connector::PortType::SerialPortXtAtCompatible,
        0x07 => d::port_connector::PortType::SerialPort16450Compatible,
        0x08 => d::port_connector::PortType::SerialPort16550Compatible,
        0x09 => d::port_connector::PortType::SerialPort16550ACompatible,
        0x0A => d::port_connector::PortType::ScsiPort,
        0x0B => d::port_connector::PortType::MidiPort,
        0x0C => d::port_connector::PortType::JoyStickPort,
        0x0D => d::port_connector::PortType::KeyboardPort,
        0x0E => d::port_connector::PortType::MousePort,
        0x0F => d::port_connector::PortType::SsaScsi,
        0x10 => d::port_connector::PortType::Usb,
        0x11 => d::port_connector::PortType::FireWire,
        0x12 => d::port_connector::PortType::PcmciaType1,
        0x13 => d::port_connector::PortType::PcmciaType2,
        0x14 => d::port_connector::PortType::PcmciaType3,
        0x15 => d::port_connector::PortType::Cardbus,
        0x16 => d::port_connector::PortType::AccessBusPort,
        0x17 => d::port_connector::PortType::Scsi2,
        0x18 => d::port_connector::PortType::ScsiWide,
        0x19 => d::port_connector::PortType::Pc98,
        0x1A => d::port_connector::PortType::Pc98Hireso,
        0x1B => d::port_connector::PortType::PcH98,
        0x1C => d::port_connector::PortType::VideoPort,
        0x1D => d::port_connector::PortType::AudioPort,
        0x1E => d::port_connector::PortType::ModemPort,
        0x1F => d::port_connector::PortType::NetworkPort,
        0x20 => d::port_connector::PortType::Sata,
        0x21 => d::port_connector::PortType::Sas,
        0x22 => d::port_connector::PortType::MultiFunctionDisplayPort,
        0x23 => d::port_connector::PortType::Thunderbolt,
        0xA0 => d::port_connector::PortType::Intel8251Compatible,
        0xA1 => d::port_connector::PortType::Intel8251FifoCompatible,
        0xFF => d::port_connector::PortType::Other,
        v => d::port_connector::PortType::Undefined(v),
    }
}

pub fn system_slots_slot_type(byte: u8) -> d::system_slots::SlotType {
    match byte {
        0x01 => d::system_slots::SlotType::Other,
        0x02 => d::system_slots::SlotType::Unknown,
        0x03 => d::system_slots::SlotType::Isa,
        0x04 => d::system_slots::SlotType::Mca,
        0x05 => d::system_slots::SlotType::Eisa,
        0x06 => d::system_slots::SlotType::Pci,
        0x07 => d::system_slots::SlotType::PcCard,
        0x08 => d::system_slots::SlotType::VlVesa,
        0x09 => d::system_slots::SlotType::Proprietary,
        0x0A => d::system_slots::SlotType::ProcessorCardSlot,
        0x0B => d::system_slots::SlotType::ProprietaryMemoryCardSlot,
        0x0C => d::system_slots::SlotType::IoRiserCardSlot,
        0x0D => d::system_slots::SlotType::Nubus,
        0x0E => d::system_slots::SlotType::Pci66Mhz,
        0x0F => d::system_slots::SlotType::Agp,
        0x10 => d::system_slots::SlotType::Agp2x,
        0x11 => d::system_slots::SlotType::Agp4x,
        0x12 => d::system_slots::SlotType::PciX,
        0x13 => d::system_slots::SlotType::Agp8x,
        0x14 => d::system_slots::SlotType::M2Socket1DP,
        0x15 => d::system_slots::SlotType::M2Socket1SD,
        0x16 => d::system_slots::SlotType::M2Socket2,
        0x17 => d::system_slots::SlotType::M2Socket3,
        0x18 => d::system_slots::SlotType::MxmType1,
        0x19 => d::system_slots::SlotType::MxmType2,
        0x1A => d::system_slots::SlotType::MxmType3,
        0x1B => d::system_slots::SlotType::MxmType3He,
        0x1C => d::system_slots::SlotType::MxmType4,
        0x1D => d::system_slots::SlotType::Mxm3TypeA,
        0x1E => d::system_slots::SlotType::Mxm3TypeB,
        0x1F => d::system_slots::SlotType::U2PciExpressGen2,
        0x20 => d::system_slots::SlotType::U2PciExpressGen3,
        0x21 => d::system_slots::SlotType::PciExpressMini52pin1,
        0x22 => d::system_slots::SlotType::PciExpressMini52pin2,
        0x23 => d::system_slots::SlotType::PciExpressMini76pin,
        0x24 => d::system_slots::SlotType::U2PciExpressGen4,
        0x25 => d::system_slots::SlotType::U2PciExpressGen5,
        0x26 => d::system_slots::SlotType::OcpNic3Small,
        0x27 => d::system_slots::SlotType::OcpNic3Large,
        0x28 => d::system_slots::SlotType::OcpNicPriorTo3,
        0x30 => d::system_slots::SlotType::CxlFlexbus1,
        0xA0 => d::system_slots::SlotType::Pc98C20,
        0xA1 => d::system_slots::SlotType::Pc98C24,
        0xA2 => d::system_slots::SlotType::Pc98E,
        0xA3 => d::system_slots::SlotType::Pc98LocalBus,
        0xA4 => d::system_slots::SlotType::Pc98Card,
        0xA5 => d::system_slots::SlotType::PciExpress,
        0xA6 => d::system_slots::SlotType::PciExpressX1,
        0xA7 => d::system_slots::SlotType::PciExpressX2,
        0xA8 => d::system_slots::SlotType::PciExpressX4,
        0xA9 => d::system_slots::SlotType::PciExpressX8,
        0xAA => d::system_slots::SlotType::PciExpressX16,
        0xAB => d::system_slots::SlotType::PciExpressGen2,
        0xAC => d::system_slots::SlotType::PciExpressGen2x1,
        0xAD => d::system_slots::SlotType::PciExpressGen2x2,
        0xAE => d::system_slots::SlotType::PciExpressGen2x4,
        0xAF => d::system_slots::SlotType::PciExpressGen2x8,
        0xB0 => d::system_slots::SlotType::PciExpressGen2x16,
        0xB1 => d::system_slots::SlotType::PciExpressGen3,
        0xB2 => d::system_slots::SlotType::PciExpressGen3x1,
        0xB3 => d::system_slots::SlotType::PciExpressGen3x2,
        0xB4 => d::system_slots::SlotType::PciExpressGen3x4,
        0xB5 => d::system_slots::SlotType::PciExpressGen3x8,
        0xB6 => d::system_slots::SlotType::PciExpressGen3x16,
        0xB8 => d::system_slots::SlotType::PciExpressGen4,
        0xB9 => d::system_slots::SlotType::PciExpressGen4x1,
        0xBA => d::system_slots::SlotType::PciExpressGen4x2,
        0xBB => d::system_slots::SlotType::PciExpressGen4x4,
        0xBC => d::system_slots::SlotType::PciExpressGen4x8,
        0xBD => d::system_slots::SlotType::PciExpressGen4x16,
        0xBE => d::system_slots::SlotType::PciExpressGen5,
        0xBF => d::system_slots::SlotType::PciExpressGen5x1,
        0xC0 => d::system_slots::SlotType::PciExpressGen5x2,
        0xC1 => d::system_slots::SlotType::PciExpressGen5x4,
        0xC2 => d::system_slots::SlotType::PciExpressGen5x8,
        0xC3 => d::system_slots::SlotType::PciExpressGen5x16,
        0xC4 => d::system_slots::SlotType::PciExpressGen6,
        0xC5 => d::system_slots::SlotType::E1FormFactorSlot,
        0xC6 => d::system_slots::SlotType::E3FormFactorSlot,
        v => d::system_slots::SlotType::Undefined(v),
    }
}

pub fn system_slots_slot_width(byte: u8) -> d::system_slots::SlotWidth {
    match byte {
        0x01 => d::system_slots::SlotWidth::Other,
        0x02 => d::system_slots::SlotWidth::Unknown,
        0x03 => d::system_slots::SlotWidth::Byte,
        0x04 => d::system_slots::SlotWidth::Word,
        0x05 => d::system_slots::SlotWidth::Dword,
        0x06 => d::system_slots::SlotWidth::Qword,
        0x07 => d::system_slots::SlotWidth::Dqword,
        0x08 => d::system_slots::SlotWidth::X1,
        0x09 => d::system_slots::SlotWidth::X2,
        0x0A => d::system_slots::SlotWidth::X4,
        0x0B => d::system_slots::SlotWidth::X8,
        0x0C => d::system_slots::SlotWidth::X12,
        0x0D => d::system_slots::SlotWidth::X16,
        0x0E => d::system_slots::SlotWidth::X32,
        v => d::system_slots::SlotWidth::Undefined(v),
    }
}

pub fn system_slots_current_usage(byte: u8) -> d::system_slots::CurrentUsage {
    match byte {
        0x01 => d::system_slots::CurrentUsage::Other,
        0x02 => d::system_slots::CurrentUsage::Unknown,
        0x03 => d::system_slots::CurrentUsage::Available,
        0x04 => d::system_slots::CurrentUsage::InUse,
        0x05 => d::system_slots::CurrentUsage::Unavailable,
        v => d::system_slots::CurrentUsage::Undefined(v),
    }
}

pub fn system_slots_slot_length(byte: u8) -> d::system_slots::SlotLength {
    match byte {
        0x01 => d::system_slots::SlotLength::Other,
        0x02 => d::system_slots::SlotLength::Unknown,
        0x03 => d::system_slots::SlotLength::ShortLength,
        0x04 => d::system_slots::SlotLength::LongLength,
        0x05 => d::system_slots::SlotLength::DriveFormFactor2_5,
        0x06 => d::system_slots::SlotLength::DriveFormFactor3_5,
        v => d::system_slots::SlotLength::Undefined(v),
    }
}

pub fn physical_memory_array_memory_array_location(_type: u8) -> d::physical_memory_array::MemoryArrayLocation {
    match _type {
        1 => d::physical_memory_array::MemoryArrayLocation::Other,
        2 => d::physical_memory_array::MemoryArrayLocation::Unknown,
        3 => d::physical_memory_array::MemoryArrayLocation::SystemBoardOrMotherboard,
        4 => d::physical_memory_array::MemoryArrayLocation::IsaAddOnCard,
        5 => d::physical_memory_array::MemoryArrayLocation::EisaAddOnCard,
        6 => d::physical_memory_array::MemoryArrayLocation::PciAddOnCard,
        7 => d::physical_memory_array::MemoryArrayLocation::McaAddOnCard,
        8 => d::physical_memory_array::MemoryArrayLocation::PcmciaAddOnCard,
        9 => d::physical_memory_array::MemoryArrayLocation::ProprietaryAddOnCard,
        10 => d::physical_memory_array::MemoryArrayLocation::NuBus,
        11 => d::physical_memory_array::MemoryArrayLocation::Pc98c20AddOnCard,
        12 => d::physical_memory_array::MemoryArrayLocation::Pc98c24AddOnCard,
        13 => d::physical_memory_array::MemoryArrayLocation::Pc98eAddOnCard,
        14 => d::physical_memory_array::MemoryArrayLocation::Pc98LocalBusAddOnCard,
        15 => d::physical_memory_array::MemoryArrayLocation::CxlAddOnCard,
        t => d::physical_memory_array::MemoryArrayLocation::Undefined(t),
    }
}

pub fn physical_memory_array_memory_array_use(_type: u8) -> d::physical_memory_array::MemoryArrayUse {
    match _type {
        1 => d::physical_memory_array::MemoryArrayUse::Other,
        2 => d::physical_memory_array::MemoryArrayUse::Unknown,
        3 => d::physical_memory_array::MemoryArrayUse::SystemMemory,
        4 => d::physical_memory_array::MemoryArrayUse::VideoMemory,
        5 => d::physical_memory_array::MemoryArrayUse::FlashMemory,
        6 => d::physical_memory_array::MemoryArrayUse::NonVolatileRam,
        7 => d::physical_memory_array::MemoryArrayUse::CacheMemory,
        t => d::physical_memory_array::MemoryArrayUse::Undefined(t),
    }
}

pub fn physical_memory_array_memory_array_error_correction_types(_type: u8) -> d::physical_memory_array::MemoryArrayErrorCorrectionTypes {
    match _type {
        1 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::Other,
        2 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::Unknown,
        3 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::None,
        4 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::Parity,
        5 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::SingleBitEcc,
        6 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::MultiBitEcc,
        7 => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::CRC,
        t => d::physical_memory_array::MemoryArrayErrorCorrectionTypes::Undefined(t),
    }
}

pub fn memory_device_error_granularity(_type: u8) -> d::memory_device::ErrorGranularity {
    match _type {
        1 => d::memory_device::ErrorGranularity::Other,
        2 => d::memory_device::ErrorGranularity::Unknown,
        3 => d::memory_device::ErrorGranularity::DeviceLevel,
        4 => d::memory_device::ErrorGranularity::MemoryLevel,
        t => d::memory_device::ErrorGranularity::Undefined(t),
    }
}

pub fn memory_device_error_operation(_type: u8) -> d::memory_device::ErrorOperation {
    match _type {
        1 => d::memory_device::ErrorOperation::Other,
        2 => d::memory_device::ErrorOperation::Unknown,
        3 => d::memory_device::ErrorOperation::Read,
        4 => d::memory_device::ErrorOperation::Write,
        5 => d::memory_device::ErrorOperation::PartialWrite,
        t => d::memory_device::ErrorOperation::Undefined(t),
    }
}

pub fn memory_device_error_type(_type: u8) -> d::memory_device::ErrorType {
    match _type {
        1 => d::memory_device::ErrorType::Other,
        2 => d::memory_device::ErrorType::Unknown,
        3 => d::memory_device::ErrorType::Ok,
        4 => d::memory_device::ErrorType::BadRead,
        5 => d::memory_device::ErrorType::Parity,
        6 => d::memory_device::ErrorType::SingleBit,
        7 => d::memory_device::ErrorType::DoubleBit,
        8 => d::memory_device::ErrorType::MultiBit,
        9 => d::memory_device::ErrorType::Nibble,
        10 => d::memory_device::ErrorType::Checksum,
        11 => d::memory_device::ErrorType::Crc,
        12 => d::memory_device::ErrorType::CorrectedSingleBit,
        13 => d::memory_device::ErrorType::Corrected,
        14 => d::memory_device::ErrorType::Uncorrectable,
        t => d::memory_device::ErrorType::Undefined(t),
    }
}

pub fn memory_device_form_factor(_type: u8) -> d::memory_device::FormFactor {
    match _type {
        1 => d::memory_device::FormFactor::Other,
        2 => d::memory_device::FormFactor::Unknown,
        3 => d::memory_device::FormFactor::Simm,
        4 => d::memory_device::FormFactor::Sip,
        5 => d::memory_device::FormFactor::Chip,
        6 => d::memory_device::FormFactor::Dip,
        7 => d::memory_device::FormFactor::Zip,
        8 => d::memory_device::FormFactor::ProprietaryCard,
        9 => d::memory_device::FormFactor::Dimm,
        10 => d::memory_device::FormFactor::Tsop,
        11 => d::memory_device::FormFactor::RowOfChips,
        12 => d::memory_device::FormFactor::Rimm,
        13 => d::memory_device::FormFactor::SoDimm,
        14 => d::memory_device::FormFactor::Srimm,
        15 => d::memory_device::FormFactor::FbDimm,
        t => d::memory_device::FormFactor::Undefined(t),
    }
}

pub fn memory_device_memory_technology(_type: u8) -> d::memory_device::MemoryTechnology {
    match _type {
        1 => d::memory_device::MemoryTechnology::Other,
        2 => d::memory_device::MemoryTechnology::Unknown,
        3 => d::memory_device::MemoryTechnology::Dram,
        4 => d::memory_device::MemoryTechnology::NvDimmN,
        5 => d::memory_device::MemoryTechnology::NvDimmF,
        6 => d::memory_device::MemoryTechnology::NvDimmP,
        7 => d::memory_device::MemoryTechnology::IntelOptane,
        t => d::memory_device::MemoryTechnology::Undefined(t),
    }
}

pub fn memory_device_type(_type: u8) -> d::memory_device::Type {
    match _type {
        1 => d::memory_device::Type::Other,
        2 => d::memory_device::Type::Unknown,
        3 => d::memory_device::Type::Dram,
        4 => d::memory_device::Type::Edram,
        5 => d::memory_device::Type::Vram,
        6 => d::memory_device::Type::Sram,
        7 => d::memory_device::Type::Ram,
        8 => d::memory_device::Type::Rom,
        9 => d::memory_device::Type::Flash,
        10 => d::memory_device::Type::Eeprom,
        11 => d::memory_device::Type::Feprom,
        12 => d::memory_device::Type::Eprom,
        13 => d::memory_device::Type::Cdram,
        14 => d::memory_device::Type::ThreeDram,
        15 => d::memory_device::Type::Sdram,
        16 => d::memory_device::Type::Sgram,
        17 => d::memory_device::Type::Rdram,
        18 => d::memory_device::Type::Ddr,
        19 => d::memory_device::Type::Ddr2,
        20 => d::memory_device::Type::Ddr2FbDimm,
        21 => d::memory_device::Type::Reserved,
        22 => d::memory_device::Type::Reserved,
        23 => d::memory_device::Type::Reserved,
        24 => d::memory_device::Type::Ddr3,
        25 => d::memory_device::Type::Fbd2,
        26 => d::memory_device::Type::Ddr4,
        27 => d::memory_device::Type::LpDdr,
        28 => d::memory_device::Type::LpDdr2,
        29 => d::memory_device::Type::LpDdr3,
        30 => d::memory_device::Type::LpDdr4,
        31 => d::memory_device::Type::LogicalNonVolatileDevice,
        32 => d::memory_device::Type::Hbm,
        33 => d::memory_device::Type::Hbm2,
        34 => d::memory_device::Type::Ddr5,
        35 => d::memory_device::Type::LpDdr5,
        t => d::memory_device::Type::Undefined(t),
    }
}

pub fn memory_error_32_error_type(byte: u8) -> d::memory_error_32::ErrorType {
    match byte {
        0x01 => d::memory_error_32::ErrorType::Other,
        0x02 => d::memory_error_32::ErrorType::Unknown,
        0x03 => d::memory_error_32::ErrorType::Ok,
        0x04 => d::memory_error_32::ErrorType::BadRead,
        0x05 => d::memory_error_32::ErrorType::ParityError,
        0x06 => d::memory_error_32::ErrorType::SingleBitError,
        0x07 => d::memory_error_32::ErrorType::DoubleBitError,
        0x08 => d::memory_error_32::ErrorType::MultiBitError,
        0x09 => d::memory_error_32::ErrorType::NibbleError,
        0x0a => d::memory_error_32::ErrorType::ChecksumError,
        0x0b => d::memory_error_32::ErrorType::CrcError,
        0x0c => d::memory_error_32::ErrorType::CorrectedSingleBitError,
        0x0d => d::memory_error_32::ErrorType::CorrectedError,
        0x0e => d::memory_error_32::ErrorType::UncorrectableError,
        v => d::memory_error_32::ErrorType::Undefined(v),
    }
}

pub fn memory_error_32_error_granularity(byte: u8) -> d::memory_error_32::ErrorGranularity {
    match byte {
        0x01 => d::memory_error_32::ErrorGranularity::Other,
        0x02 => d::memory_error_32::ErrorGranularity::Unknown,
        0x03 => d::memory_error_32::ErrorGranularity::DeviceLevel,
        0x04 => d::memory_error_32::ErrorGranularity::MemoryPartitionLevel,
        v => d::memory_error_32::ErrorGranularity::Undefined(v),
    }
}

pub fn memory_error_32_error_operation(byte: u8) -> d::memory_error_32::ErrorOperation {
    match byte {
        0x01 => d::memory_error_32::ErrorOperation::Other,
        0x02 => d::memory_error_32::ErrorOperation::Unknown,
        0x03 => d::memory_error_32::ErrorOperation::Read,
        0x04 => d::memory_error_32::ErrorOperation::Write,
        0x05 => d::memory_error_32::ErrorOperation::PartialWrite,
        v => d::memory_error_32::ErrorOperation::Undefined(v),
    }
}

pub fn built_in_pointing_device_type(byte: u8) -> d::built_in_pointing_device::Type {
    match byte {
        0x01 => d::built_in_pointing_device::Type::Other,
        0x02 => d::built_in_pointing_device::Type::Unknown,
        0x03 => d::built_in_pointing_device::Type::Mouse,
        0x04 => d::built_in_pointing_device::Type::TrackBall,
        0x05 => d::built_in_pointing_device::Type::TrackPoint,
        0x06 => d::built_in_pointing_device::Type::GlidePoint,
        0x07 => d::built_in_pointing_device::Type::TouchPad,
        0x08 => d::built_in_pointing_device::Type::TouchScreen,
        0x09 => d::built_in_pointing_device::Type::OpticalSensor,
        v => d::built_in_pointing_device::Type::Undefined(v),
    }
}

pub fn built_in_pointing_device_interface(byte: u8) -> d::built_in_pointing_device::Interface {
    match byte {
        0x01 => d::built_in_pointing_device::Interface::Other,
        0x02 => d::built_in_pointing_device::Interface::Unknown,
        0x03 => d::built_in_pointing_device::Interface::Serial,
        0x04 => d::built_in_pointing_device::Interface::Ps2,
        0x05 => d::built_in_pointing_device::Interface::Infrared,
        0x06 => d::built_in_pointing_device::Interface::HpHil,
        0x07 => d::built_in_pointing_device::Interface::BusMouse,
        0x08 => d::built_in_pointing_device::Interface::Adb,
        0xA0 => d::built_in_pointing_device::Interface::BusMouseDb9,
        0xA1 => d::built_in_pointing_device::Interface::BusMouseMicroDin,
        0xA2 => d::built_in_pointing_device::Interface::Usb,
        v => d::built_in_pointing_device::Interface::Undefined(v),
    }
}

pub fn system_event_log_log_header_format(byte: u8) -> d::system_event_log::LogHeaderFormat {
    match byte {
        0x00 => d::system_event_log::LogHeaderFormat::NoHeader,
        0x01 => d::system_event_log::LogHeaderFormat::LogHeaderType1,
        v @ 0x80..=0xFF => d::system_event_log::LogHeaderFormat::OemSpecific(v),
        v => d::system_event_log::LogHeaderFormat::Available(v),
    }
}

pub fn log_record_format_event_log_type(byte: u8) -> d::system_event_log::log_record_format::EventLogType {
    match byte {
        0x00 | 0x0F => d::system_event_log::log_record_format::EventLogType::Reserved(byte),
        0x01 => d::system_event_log::log_record_format::EventLogType::SingleBitEccMemoryError,
        0x02 => d::system_event_log::log_record_format::EventLogType::MultiBitEccMemoryError,
        0x03 => d::system_event_log::log_record_format::EventLogType::ParityMemoryError,
        0x04 => d::system_event_log::log_record_format::EventLogType::BusTimeOut,
        0x05 => d::system_event_log::log_record_format::EventLogType::IoChannelCheck,
        0x06 => d::system_event_log::log_record_format::EventLogType::SoftwareNmi,
        0x07 => d::system_event_log::log_record_format::EventLogType::PostMemoryResize,
        0x08 => d::system_event_log::log_record_format::EventLogType::PostError,
        0x09 => d::system_event_log::log_record_format::EventLogType::PciParityError,
        0x0A => d::system_event_log::log_record_format::EventLogType::PciSystemError,
        0x0B => d::system_event_log::log_record_format::EventLogType::CpuFailure,
        0x0C => d::system_event_log::log_record_format::EventLogType::EisaFailSafeTimerTimeOut,
        0x0D => d::system_event_log::log_record_format::EventLogType::CorrectableMemoryLogDisabled,
        0x0E => d::system_event_log::log_record_format::EventLogType::LoggingDisabledForSpecificEventType,
        0x10 => d::system_event_log::log_record_format::EventLogType::SystemLimitExceeded,
        0x11 => d::system_event_log::log_record_format::EventLogType::AsynchronousHardwareTimerExpired,
        0x12 => d::system_event_log::log_record_format::EventLogType::SystemConfigurationInformation,
        0x13 => d::system_event_log::log_record_format::EventLogType::HardDiskInformation,
        0x14 => d::system_event_log::log_record_format::EventLogType::SystemReconfigured,
        0x15 => d::system_event_log::log_record_format::EventLogType::UncorrectableCpuComplexError,
        0x16 => d::system_event_log::log_record_format::EventLogType::LogAreaReset,
        0x17 => d::system_event_log::log_record_format::EventLogType::SystemBoot,
        v @ 0x18..=0x7F => d::system_event_log::log_record_format::EventLogType::Unused(v),
        v @ 0x80..=0xFE => d::system_event_log::log_record_format::EventLogType::Available(v),
        0xFF => d::system_event_log::log_record_format::EventLogType::EndOfLog,
    }
}

pub fn log_record_format_variable_data_format_type(byte: u8) -> d::system_event_log::log_record_format::VariableDataFormatType {
    match byte {
        0x00 => d::system_event_log::log_record_format::VariableDataFormatType::None,
        0x01 => d::system_event_log::log_record_format::VariableDataFormatType::Handle { handle: 0 },
        0x02 => d::system_event_log::log_record_format::VariableDataFormatType::MultipleEvent { counter: 0 },
        0x03 => d::system_event_log::log_record_format::VariableDataFormatType::MultipleEventHandle { handle: 0, counter: 0 },
        0x04 => d::system_event_log::log_record_format::VariableDataFormatType::PostResults((0).into()),
        0x05 => d::system_event_log::log_record_format::VariableDataFormatType::SystemManagementType(system_management_type(0xFFFF)),
        0x06 => d::system_event_log::log_record_format::VariableDataFormatType::MultipleEventSystemManagementType {
            system_management_type: system_management_type(0xFFFF),
            counter: 0,
        },
        v @ 0x07..=0x7F => d::system_event_log::log_record_format::VariableDataFormatType::Unused(v),
        v @ 0x80..=0xFF => d::system_event_log::log_record_format::VariableDataFormatType::OemAssigned(v),
    }
}

pub fn system_management_type(byte: u32) -> d::system_event_log::log_record_format::SystemManagementType {
    match byte {
        0x00000000 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltagePlus2_5Num1,
        0x00000001 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltagePlus2_5Num2,
        0x00000002 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltagePlus3_3,
        0x00000003 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltagePlus5,
        0x00000004 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltageMinus5,
        0x00000005 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltagePlus12,
        0x00000006 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltageMinus12,
        v @ 0x00000007..=0x0000000F => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeVoltageReserved(v as u8),
        0x00000010 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeTemperatureSystemBoard,
        0x00000011 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeTemperatureProcessor1,
        0x00000012 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeTemperatureProcessor2,
        0x00000013 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeTemperatureProcessor3,
        0x00000014 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeTemperatureProcessor4,
        v @ 0x00000015..=0x1F => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeTemperatureReserved(v as u8),
        v @ 0x00000020..=0x27 => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeFan((v & 0b111) as u8),
        0x00000030 => d::system_event_log::log_record_format::SystemManagementType::ChassisSecureSwitchActivated,
        v @ 0x00010000..=0x0001FFFF => d::system_event_log::log_record_format::SystemManagementType::OutOfRangeSystemManagementProbe(v as u16),
        v @ 0x80000000..=0xFFFFFFFF => d::system_event_log::log_record_format::SystemManagementType::OemAssigned(v),
        v => d::system_event_log::log_record_format::SystemManagementType::Reserved(v),
    }
}
