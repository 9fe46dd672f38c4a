#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;

mod checks;
mod checks2;
mod checks3;
mod engine;
mod ide;
mod ifc;
mod progs;
mod interp;
mod oracle;
mod run;
mod session;
mod sigs;

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  std::process::exit(run::main(&args));
}
