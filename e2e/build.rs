//The library that is loaded into the real daemon: where it listens, and what happens to its files.
use std::process::Command;
fn main() {
    let out = format!("{}/libpre.so", std::env::var("OUT_DIR").unwrap());
    let ok = Command::new("gcc").args(["-O1", "-fPIC", "-shared", "-o", &out, "pre.c", "-ldl", "-lpthread"]).status().expect("gcc").success();
    assert!(ok, "building pre.c failed");
    println!("cargo:rustc-env=PRELOAD={out}");
    println!("cargo:rerun-if-changed=pre.c");
    println!("cargo:rerun-if-changed=build.rs");
}
