use crate::engine::{Property, Tier};

pub const IDS: &[&str] = &["C25"];

pub fn property(id: &str, tier: Tier) -> Option<Property> {
    match id {
        "C25" => Some(crate::threads::c25(tier)),
        _ => None,
    }
}
