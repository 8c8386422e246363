#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[path = "../../codec/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../codec/src/ck.rs"]
#[allow(dead_code)]
mod ck;
#[path = "../../codec/src/cli.rs"]
mod cli;
#[path = "../../codec/src/corpus.rs"]
#[allow(dead_code)]
mod corpus;
mod clients;
mod d08;
mod d10;
mod mouse;
#[path = "../../daemon/src/model.rs"]
#[allow(dead_code)]
mod model;
mod world;

use ck::Ck;
use std::process::ExitCode;

pub const RULE: &str = "states: distinct sequences of operations, answers of a made-up server, or commands with the answers to their questions; transitions: calls of the real clients, questions answered, and requests to the real daemon; traces: sequences run against the real daemon process over a real network connection and compared with the reference.";

pub fn run_property(ck: &Ck) -> bool {
    //the clients print to it
    let out = unsafe { libc::dup(1) };
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
    }
    let known = match ck.id.as_str() {
        "D08" => {
            d08::run(ck);
            true
        }
        "D10" => {
            d10::run(ck);
            true
        }
        _ => false,
    };
    unsafe {
        libc::dup2(out, 1);
        libc::close(out);
    }
    world::clean_up();
    known
}
pub fn assumptions(id: &str) -> Vec<&'static str> {
    vec![
        "the daemon and the clients are the real ones, over the loopback network and a real file system; only the port is given away by the system (by a library loaded into the daemon)",
        if id == "D10" { "one command at a time; questions are asked through a stand-in for the dialoguer crate, except where a terminal is named" } else { "one request at a time" },
    ]
}

fn main() -> ExitCode {
    for v in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    let r = cli::main();
    world::clean_up();
    r
}
