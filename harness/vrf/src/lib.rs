//! The off-chain VRF crate (over stand-ins for its group, HKDF and SDK crates) next to the on-chain verifier.
#![allow(invalid_reference_casting)]
#![allow(dead_code)]
#[path = "../../prog/src/sym.rs"]
mod sym;
#[path = "../../prog/src/world.rs"]
mod world;
#[path = "../../models/glue.rs"]
mod glue;
mod entries;
