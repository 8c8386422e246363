mod alloc;
mod ck;
mod cli;
mod corpus;
mod format;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;

use ck::Ck;
use std::process::ExitCode;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub const RULE: &str = "states: distinct non-trivial cases (by hash, measured); transitions: calls into the real code; traces: cases run to completion on the real code and compared with the reference at every step. Every section enumerates its whole index space.";

pub fn run_property(ck: &Ck) -> bool {
    match ck.id.as_str() {
        "C01" => c01::run(ck),
        "C02" => c02::run(ck),
        "C03" => c03::run(ck),
        "C04" => c04::run(ck),
        "C05" => c05::run(ck),
        "C06" => c06::run(ck),
        "C07" => c07::run(ck),
        "C08" => c08::run(ck),
        "C09" => c09::run(ck),
        "C10" => c10::run(ck),
        "C11" => c11::run(ck),
        "C12" => c12::run(ck),
        "C13" => c13::run(ck),
        "C14" => c14::run(ck),
        "C15" => c15::run(ck),
        "C16" => c16::run(ck),
        "C17" => c17::run(ck),
        _ => return false,
    }
    true
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the bounds named per section; values outside the enumerated alphabets are not covered",
        "sourisdb built with features std and serde, opt-level 2, overflow checks and debug assertions on",
    ];
    if matches!(id, "C01" | "C02" | "C06" | "C10") {
        v.push("map iteration order is controlled by substituting the hasher crate behind hashbrown");
    }
    if id == "C04" {
        v.push("memory is judged by the bytes each thread has allocated at once; single allocations above 256 MiB are refused as if memory had run out");
    }
    v
}

fn main() -> ExitCode {
    cli::main()
}
