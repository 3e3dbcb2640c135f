//! Which function builds the exploration of which property.

use crate::codec_props as c;
use crate::cert_props as ce;
use crate::conn_props as co;
use crate::e2e as e;
use crate::extra_props as x;
use crate::key_props as k;
use crate::noise_props as n;
use crate::rule_props as r;
use crate::secret_props as s;
use crate::engine::{Property, Tier};

/// Only the single-threaded part; used where the library cannot be compiled for mc-conc.
fn c25(tier: Tier) -> Property {
    Property {
        families: crate::queue::sequential(tier, |f| f()),
        assumptions: vec!["the library could not be compiled against the controlled standard library: no interleavings were explored in this run".into()],
    }
}

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32",
];

pub fn property(id: &str, tier: Tier) -> Option<Property> {
    Some(match id {
        "C01" => c::c01(tier),
        "C02" => c::c02(tier),
        "C03" => c::c03(tier),
        "C04" => c::c04(tier),
        "C05" => c::c05(tier),
        "C06" => c::c06(tier),
        "C07" => c::c07(tier),
        "C08" => r::c08(tier),
        "C09" => r::c09(tier),
        "C10" => c::c10(tier),
        "C11" => c::c11(tier),
        "C12" => n::c12(tier),
        "C13" => n::c13(tier),
        "C14" => n::c14(tier),
        "C15" => n::c15(tier),
        "C16" => n::c16(tier),
        "C17" => n::c17(tier),
        "C18" => n::c18(tier),
        "C19" => n::c19(tier),
        "C20" => n::c20(tier),
        "C21" => k::c21(tier),
        "C22" => ce::c22(tier),
        "C23" => ce::c23(tier),
        "C24" => co::c24(tier),
        "C25" => c25(tier),
        "C26" => co::c26(tier),
        "C27" => k::c27(tier),
        "C28" => e::c28(tier),
        "C29" => x::c29(tier),
        "C30" => x::c30(tier),
        "C31" => x::c31(tier),
        "C32" => s::c32(tier),
        _ => return None,
    })
}
