use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-w", "-fno-omit-frame-pointer", "-c", "rt/rt.c", "-o"])
        .arg(format!("{out}/rt.o"))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let ok = Command::new("ar").args(["crs"]).arg(format!("{out}/libmhrt.a")).arg(format!("{out}/rt.o")).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=mhrt");
}
