use std::{env, path::PathBuf, process::Command};
fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("rt.o");
    let lib = out.join("libgsimrt.a");
    let ok = Command::new("gcc")
        .args(["-O2", "-g1", "-fno-stack-protector", "-fPIC", "-c", "rt/rt.c", "-o"])
        .arg(&obj)
        .status()
        .expect("gcc")
        .success();
    assert!(ok);
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=gsimrt");
    // the program pairs the compiler accepts (bin/accept.py)
    let root = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
    let list = root.join("target/accepted");
    let names = std::fs::read_to_string(&list).unwrap_or_default();
    let mut text = String::new();
    for n in names.lines() {
        text += &format!("#[path = {:?}]\nmod {};\n", root.join("probe/pairs").join(format!("{}.rs", n)), n);
    }
    text += "pub static PROGRAMS: &[(&str, fn(&Cx))] = &[\n";
    for n in names.lines() {
        text += &format!("    ({:?}, {}::run),\n", n, n);
    }
    text += "];\n";
    let f = out.join("programs.rs");
    if std::fs::read_to_string(&f).ok().as_deref() != Some(&text) {
        std::fs::write(&f, text).unwrap();
    }
    println!("cargo:rerun-if-changed={}", list.display());
    println!("cargo:rerun-if-changed=probe/pairs");
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
