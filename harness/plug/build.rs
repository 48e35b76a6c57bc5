use std::process::Command;

// Rust can't define variadic functions, so sudo's printf is written in C.
fn main() {
    println!("cargo:rerun-if-changed=src/printf.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().unwrap().success());
    run(Command::new("gcc").args(["-O1", "-Wall", "-fPIC", "-c", "src/printf.c", "-o"]).arg(format!("{}/printf.o", out)));
    run(Command::new("ar").args(["rcs", &format!("{}/libvpprintf.a", out), &format!("{}/printf.o", out)]));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=vpprintf");
}
