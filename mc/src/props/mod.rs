//! The families of every property: what is enumerated, and which oracle judges it.

pub mod common;
pub mod console;
pub mod der;
pub mod more;
pub mod print;
pub mod program;
pub mod robust;
pub mod state;
pub mod errors;
pub mod faults;
pub mod format;
pub mod values;
pub mod work;
pub mod x509;

use crate::engine::Family;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub fn families(id: &str, tier: Tier) -> Option<Vec<Family>> {
    let mut list = match id {
        "D01" => robust::d01(tier),
        "D02" => der::d02(tier),
        "D03" => der::d03(tier),
        "D04" => der::d04(tier),
        "D05" => der::d05(tier),
        "D06" => der::d06(tier),
        "D07" => der::d07(tier),
        "D08" => der::d08(tier),
        "D09" => der::d09(tier),
        "D10" => der::d10(tier),
        "D11" => der::d11(tier),
        "D12" => values::d12(tier),
        "X01" => x509::x01(tier),
        "X02" => x509::x02(tier),
        "X03" => x509::x03(tier),
        "X04" => x509::x04(tier),
        "X05" => x509::x05(tier),
        "X06" => x509::x06(tier),
        "X07" => x509::x07(tier),
        "X08" => x509::x08(tier),
        "X09" => x509::x09(tier),
        "X10" => x509::x10(tier),
        "X11" => x509::x11(tier),
        "X12" => x509::x12(tier),
        "X13" => x509::x13(tier),
        "X14" => x509::x14(tier),
        "P01" => print::p01(tier),
        "P02" => print::p02(tier),
        "P04" => console::p04(tier),
        "P05" => faults::p05(tier),
        "P03" => program::p03(tier),
        "P06" => format::p06(tier),
        "S01" => state::s01(tier),
        "S04" => work::s04(tier),
        "S02" => errors::s02(tier),
        "S03" => values::s03(tier),
        _ => return None,
    };
    // names identify families in replays
    let mut seen = std::collections::HashMap::new();
    for f in list.iter_mut() {
        let n = seen.entry(f.name.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            f.name = format!("{}-{}", f.name, n);
        }
    }
    Some(list)
}

pub const IDS: &[&str] = &[
    "D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11", "D12", "X01", "X02", "X03", "X04", "X05",
    "X06", "X07", "X08", "X09", "X10", "X11", "X12", "X13", "X14", "P01", "P02", "P03", "P04", "P05", "P06", "S01", "S02", "S03", "S04",
];
