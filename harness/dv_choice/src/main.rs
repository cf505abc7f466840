//! The `choice` family of derived types; see gen.py.
#![allow(dead_code, unreachable_patterns, non_camel_case_types, non_snake_case)]

use dv::*;
use static_xml_derive::{Deserialize, Serialize};

include!("gen_types.rs");

fn registry(prop: &str, tier: engine::Tier) -> Vec<engine::Model> {
    dv::registry("choice", ENTRIES, prop, tier)
}

fn main() {
    engine::main(registry)
}
