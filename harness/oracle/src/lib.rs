//! The oracle service's real code over a stand-in runtime and RPC node, next to the real program.
#![allow(invalid_reference_casting)]
#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../../prog/src/sym.rs"]
mod sym;
#[path = "../../prog/src/world.rs"]
mod world;
#[path = "../../prog/src/qmodel.rs"]
mod qmodel;
#[path = "../../models/glue.rs"]
mod glue;
mod env;
mod entries;
