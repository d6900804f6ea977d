use std::process::Command;
// Locate the LLVM shared library that belongs to the pinned rustc (so that the engine
// parses exactly the bitcode that rustc emits) and a libz3.
fn main() {
    let rustc = std::env::var("RUSTC").unwrap();
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", sysroot.trim());
    let mut so = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.starts_with("libLLVM.so.") {
            so = Some(p);
        }
    }
    let so = so.expect("libLLVM of the rust toolchain not found");
    println!("cargo:rustc-env=MVDSYM_LLVM={}", so.display());
    let z3dir = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(&format!("{z3dir}/libz3.so")).exists() {
        println!("cargo:rustc-link-arg={z3dir}/libz3.so");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{z3dir}");
    } else {
        println!("cargo:rustc-link-lib=z3");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
