//! Compiles shim.c against the public header of the working tree
use std::process::Command;

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed=/repo/include");
    let m32 = std::env::var("CARGO_CFG_TARGET_ARCH").unwrap() == "x86";
    let flags: &[&str] = if m32 { &["-m32", "-fno-stack-protector", "-Im32", "-idirafter", "/usr/include/x86_64-linux-gnu"] } else { &[] };
    let obj = format!("{out}/shim.o");
    let ok = Command::new("gcc")
        .args(flags)
        .args(["-O1", "-fPIC", "-I/repo/include", "-c", "shim.c", "-o", &obj])
        .status()
        .unwrap()
        .success();
    assert!(ok, "shim.c does not compile against the public header");
    let lib = format!("{out}/libdcpvshim.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["rcs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=dcpvshim");
}
