//! Checks on the C interface (libkoopa), run under AddressSanitizer.
#![allow(dead_code)]

#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../harness/src/broken.rs"]
mod broken;
mod client;
#[path = "../../harness/src/emit.rs"]
mod emit;
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
mod raw;
#[path = "../../harness/src/refront.rs"]
mod refront;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/text.rs"]
mod text;
#[path = "../../harness/src/verify.rs"]
mod verify;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let all: Vec<&'static fw::Check> = raw::CHECKS.iter().chain(client::CHECKS).copied().collect();
  let find = |id: &str| -> &'static fw::Check {
    all.iter().find(|c| c.id == id).copied().unwrap_or_else(|| {
      eprintln!("no check {id}");
      std::process::exit(2)
    })
  };
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("client") => client::client(&a[2..]),
    Some("worker") => fw::worker(find(&a[2]), &a[3..]),
    Some("check") => fw::supervise(find(&a[2])),
    Some("case") => fw::one(find(&a[2]), a[3].parse().unwrap()),
    _ => {
      eprintln!("usage: lkmon check ID | case ID N");
      2
    }
  };
  std::process::exit(code);
}
