use std::{env, process::Command};

/// Compiles the native stand-ins of the engine's primitives. They live in a C
/// object so that link-time optimisation cannot look through them.
fn main() {
    println!("cargo:rerun-if-changed=native.c");
    let out = env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/native.o");
    let lib = format!("{out}/librsym_native.a");
    assert!(Command::new("cc").args(["-O1", "-c", "native.c", "-o", &obj]).status().unwrap().success());
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=rsym_native");
}
