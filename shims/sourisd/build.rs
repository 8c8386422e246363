fn main() {
    println!("cargo:rustc-cfg=souris_verif");
    println!("cargo:rerun-if-changed=/repo/crates/sourisd/src");
}
