//! The command-line tool's real code over a stand-in node holding the real program.
#![allow(invalid_reference_casting)]
#![allow(dead_code)]
#[path = "../../prog/src/sym.rs"]
mod sym;
#[path = "../../prog/src/world.rs"]
mod world;
#[path = "../../prog/src/qmodel.rs"]
mod qmodel;
#[path = "../../models/glue.rs"]
mod glue;
mod entries;
macro_rules! println { ($($t:tt)*) => { ::model_macros::say!($($t)*) } }
macro_rules! print { ($($t:tt)*) => { ::model_macros::say!($($t)*) } }
macro_rules! eprintln { ($($t:tt)*) => { { let _ = || ::std::format!($($t)*); } } }
#[path = "/repo/vrf-cli/src/main.rs"]
mod cli;
