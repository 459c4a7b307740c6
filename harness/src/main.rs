mod api;
mod broken;
mod conc;
mod diag;
mod emit;
mod fw;
mod gen;
mod io;
mod llvm;
mod misc;
mod model;
mod names;
mod ops;
mod refront;
mod rng;
mod text;
mod tree;
mod verify;

fn checks() -> Vec<&'static fw::Check> {
  let mut v = vec![];
  v.extend(text::CHECKS);
  v.extend(broken::CHECKS);
  v.extend(diag::CHECKS);
  v.extend(ops::CHECKS);
  v.extend(llvm::CHECKS);
  v.extend(misc::CHECKS);
  v.extend(io::CHECKS);
  v.extend(conc::CHECKS);
  v.extend(tree::CHECKS);
  v.extend(names::CHECKS);
  v
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let find = |id: &str| -> &'static fw::Check {
    checks().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
      eprintln!("no check {id}");
      std::process::exit(2)
    })
  };
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("worker") => fw::worker(find(&a[2]), &a[3..]),
    Some("check") => fw::supervise(find(&a[2])),
    Some("case") => fw::one(find(&a[2]), a[3].parse().unwrap()),
    Some("deep") => diag::deep(a[2].parse().unwrap()),
    Some("serve") => diag::serve(),
    Some("dumps") => misc::dumps(&a[2..]),
    _ => {
      eprintln!("usage: kmon check ID | case ID N");
      2
    }
  };
  std::process::exit(code);
}
