//! Checks on memory: the library under Miri, and under AddressSanitizer with
//! an allocator that counts what is not given back.
#![allow(dead_code)]

#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../harness/src/broken.rs"]
mod broken;
#[path = "../../harness/src/emit.rs"]
mod emit;
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gen.rs"]
mod gen;
mod memory;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/refront.rs"]
mod refront;
#[path = "../../harness/src/rng.rs"]
mod rng;
mod session;
#[path = "../../harness/src/text.rs"]
mod text;
#[path = "../../harness/src/verify.rs"]
mod verify;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let find = |id: &str| -> &'static fw::Check {
    memory::CHECKS.iter().find(|c| c.id == id).copied().unwrap_or_else(|| {
      eprintln!("no check {id}");
      std::process::exit(2)
    })
  };
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("mini") => return memory::mini(&a[2..]),
    Some("worker") => fw::worker(find(&a[2]), &a[3..]),
    Some("check") => fw::supervise(find(&a[2])),
    Some("case") => fw::one(find(&a[2]), a[3].parse().unwrap()),
    _ => {
      eprintln!("usage: mmon check ID | case ID N");
      2
    }
  };
  std::process::exit(code);
}
