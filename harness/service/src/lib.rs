//! The oracle service's real main function over a stand-in runtime, node and HTTP server, next to the real program.
#![allow(invalid_reference_casting)]
#![allow(dead_code)]
macro_rules! eprintln { ($($t:tt)*) => { { let _ = || ::std::format!($($t)*); } } }
macro_rules! println { ($($t:tt)*) => { { let _ = || ::std::format!($($t)*); } } }
include!(concat!(env!("OUT_DIR"), "/main.rs"));
#[path = "../../prog/src/sym.rs"]
mod sym;
#[path = "../../prog/src/world.rs"]
mod world;
#[path = "../../prog/src/qmodel.rs"]
mod qmodel;
#[path = "../../models/glue.rs"]
mod glue;
#[path = "../../oracle/src/env.rs"]
mod env;
mod entries;
