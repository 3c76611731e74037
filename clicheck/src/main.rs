#[macro_use]
extern crate rhcheck;
extern crate ringhopper;
extern crate ringhopper_engines;
extern crate libc;
include!(concat!(env!("OUT_DIR"), "/invader.rs"));
mod args;
mod batch;
mod report;
mod transfer;

static ALL: &[&rhcheck::engine::Check] = &[&args::C34, &batch::C35, &report::C38, &transfer::C39];
fn main() { rhcheck::run(ALL) }
