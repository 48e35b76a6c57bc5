use std::process::Command;

// The C host, compiled against two copies of sudo's header: the one of this
// harness and the one of the repository. And sudo's printf, which is variadic.
fn main() {
    for f in ["src/host.c", "src/pinned_sudo_plugin.h", "../plug/src/printf.c", "/repo/sudo_plugin-sys/include/sudo_plugin.h", "/repo/sudo_plugin-sys/src/bindings"] { println!("cargo:rerun-if-changed={}", f) }
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().unwrap().success());
    for (p, h) in [("pin_", "src/pinned_sudo_plugin.h"), ("rep_", "/repo/sudo_plugin-sys/include/sudo_plugin.h")] {
        run(Command::new("gcc").args(["-std=gnu11", "-O1", "-Wall", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-fPIC", "-c", "src/host.c"]).arg(format!("-DPFX={}", p)).args(["-include", h]).args(["-o", &format!("{}/{}host.o", out, p)]));
    }
    run(Command::new("gcc").args(["-O1", "-Wall", "-fPIC", "-c", "../plug/src/printf.c", "-o"]).arg(format!("{}/printf.o", out)));
    run(Command::new("ar").args(["rcs", &format!("{}/libvabi_c.a", out), &format!("{}/printf.o", out), &format!("{}/pin_host.o", out), &format!("{}/rep_host.o", out)]));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=vabi_c");
}
