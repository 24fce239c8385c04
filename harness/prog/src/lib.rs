#![allow(invalid_reference_casting)]
#![allow(dead_code)]
mod sym;
mod world;
mod qmodel;
mod queue;
mod req;
mod prov;
mod life;
mod adm;
mod client;
