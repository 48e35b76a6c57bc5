use std::process::Command;

fn main() {
    for f in ["src/redirect.c", "src/standin.c"] { println!("cargo:rerun-if-changed={}", f) }
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().unwrap().success());
    run(Command::new("gcc").args(["-O1", "-fPIC", "-shared", "-Wno-nonnull-compare", "-fno-builtin", "-fno-delete-null-pointer-checks", "-U_FORTIFY_SOURCE", "-o"]).arg(format!("{}/redirect.so", out)).args(["src/redirect.c", "-ldl"]));
    run(Command::new("gcc").args(["-O1", "-static", "-Wall", "-o"]).arg(format!("{}/standin", out)).arg("src/standin.c"));
}
