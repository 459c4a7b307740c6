use std::process::Command;

fn main() {
  let out = std::env::var("OUT_DIR").unwrap();
  let asan = std::env::var("CARGO_ENCODED_RUSTFLAGS").unwrap_or_default().contains("sanitizer=address");
  for c in ["walk", "client"] {
    let mut cmd = Command::new("clang-18");
    cmd.args(["-g", "-O1", "-Wall", "-Werror", "-I/repo/libkoopa/include", "-c", &format!("c/{c}.c"), "-o", &format!("{out}/{c}.o")]);
    if asan {
      cmd.args(["-fsanitize=address,undefined", "-fsanitize-trap=undefined"]);
    }
    assert!(cmd.status().expect("clang").success());
    println!("cargo:rustc-link-arg={out}/{c}.o");
    println!("cargo:rerun-if-changed=c/{c}.c");
  }
  println!("cargo:rerun-if-changed=/repo/libkoopa/include/koopa.h");
}
