#![allow(invalid_reference_casting, unexpected_cfgs)]
#![allow(dead_code)]
#[path = "../../prog/src/sym.rs"]
mod sym;
#[path = "../../prog/src/world.rs"]
mod world;
#[path = "../../prog/src/qmodel.rs"]
mod qmodel;
#[path = "../../anchor/src/entries.rs"]
mod entries;
pub use entries::ID;
use anchor_lang::prelude::{AccountInfo, Pubkey};
type A = AccountInfo<'static>;
type K = &'static Pubkey;
fn make_info(key: K, owner: K, l: &'static mut u64, d: &'static mut [u8], f: (bool, bool, bool)) -> A {
    AccountInfo::new(key, f.0, f.1, l, d, owner, f.2, 0)
}
