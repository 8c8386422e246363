#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[path = "../../codec/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../codec/src/ck.rs"]
#[allow(dead_code)]
mod ck;
#[path = "../../codec/src/cli.rs"]
mod cli;
#[path = "../../codec/src/corpus.rs"]
#[allow(dead_code)]
mod corpus;
#[path = "../../codec/src/format.rs"]
#[allow(dead_code)]
mod format;
mod conc;
mod d01;
mod d02;
mod crash;
mod d03;
mod d04;
mod d05;
mod d06;
mod d07;
mod d09;
mod d11;
mod d12;
mod model;
mod sys;
mod world;

use ck::Ck;
use std::process::ExitCode;

pub const RULE: &str = "states: distinct executions (by the choices taken in them) of distinct programs; transitions: scheduler steps of the real daemon; traces: executions of the real daemon run to their end and compared with the reference. Every section enumerates every execution within its bounds, unless marked as not complete.";

pub fn run_property(ck: &Ck) -> bool {
    match ck.id.as_str() {
        "D01" => d01::run(ck),
        "D02" => d02::run(ck),
        "D03" => d03::run(ck),
        "D04" => d04::run(ck),
        "D05" => d05::run(ck),
        "D06" => d06::run(ck),
        "D07" => d07::run(ck),
        "D09" => d09::run(ck),
        "D11" => d11::run(ck),
        "D12" => d12::run(ck),
        _ => return false,
    }
    true
}
pub fn assumptions(_: &str) -> Vec<&'static str> {
    vec![
        "the daemon's own code is the real one; tokio's scheduling, clock, signals and file access, moka's cache, axum's network side and the system calls behind std::fs are substituted by controlled ones",
        "tasks switch at awaits that have to wait, lock acquisitions, cache accesses and system calls, not between other instructions",
        "requests enter at the router: HTTP parsing and the network are covered by the end-to-end check of D08 only",
    ]
}

fn main() -> ExitCode {
    if std::env::args().nth(1).as_deref() != Some("worker") {
        return cli::main();
    }
    sys::allow_exits();
    let code = format!("{:?}", cli::main());
    //there has been the one exit that std allows for
    unsafe { libc::_exit(if code == format!("{:?}", ExitCode::SUCCESS) { 0 } else { 3 }) }
}
