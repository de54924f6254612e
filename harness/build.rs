// Compiles the native (replay) side of the harness interface outside LTO, so that the
// optimiser sees only declarations of the vf_* functions.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/vf_native.o", out);
    let ok = Command::new("gcc").args(["-O1", "-c", "-fPIC", "native.c", "-o", &obj]).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-arg={}", obj);
    println!("cargo:rerun-if-changed=native.c");
}
