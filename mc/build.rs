//! Compiles the library that P05 preloads into the decoder program.
use std::path::Path;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=faults.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let st = Command::new("gcc")
        .args(["-O1", "-shared", "-fPIC", "-o"])
        .arg(Path::new(&out).join("faults.so"))
        .arg("faults.c")
        .status()
        .expect("gcc");
    assert!(st.success());
}
