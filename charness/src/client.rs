//! C14: a C client follows scripts of calls in a process of its own.

use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::raw::{self, code_name};
use crate::rng::{fnv, Rng};
use crate::text::{llvm_skeleton, lossy};
use crate::{api, broken, emit, gen};
use std::ffi::{c_char, c_int, CString};
use std::fs;
use std::process::Command;
use std::time::{Duration, Instant};

extern "C" {
  fn lk_client(script: *const c_char, out: *const c_char) -> c_int;
}

/// `lkmon client SCRIPT OUT`
pub fn client(a: &[String]) -> i32 {
  let c = |s: &str| CString::new(s).unwrap();
  unsafe { lk_client(c(&a[0]).as_ptr(), c(&a[1]).as_ptr()) }
}

/// What a program slot holds.
#[derive(Clone)]
struct Held {
  m: Prog,
  /// The exact texts, where they are known.
  koopa: Option<Vec<u8>>,
  llvm: Option<String>,
}

impl Held {
  fn empty(&self, llvm: bool) -> bool {
    let known = if llvm { self.llvm.as_ref().map(|s| s.is_empty()) } else { self.koopa.as_ref().map(|s| s.is_empty()) };
    known.unwrap_or(self.m.globals.is_empty() && self.m.funcs.is_empty())
  }
}

/// What a call has to report.
enum Want {
  /// Result code of something that returns a program.
  Prog(&'static str),
  /// A result code and the file that was written, if it matters.
  File(&'static str, Option<(String, bool, Held)>),
  Str { size: Option<i64>, out: String, llvm: bool, held: Held },
  Stdout { llvm: bool, held: Held },
  Lay(&'static str),
  Counts(usize, usize),
  Walk(String, Prog),
  Set,
  Nothing,
}

struct S<'a> {
  dir: String,
  lines: Vec<String>,
  want: Vec<Want>,
  progs: Vec<Option<Held>>,
  raws: Vec<Option<(usize, Prog)>>,
  builders: Vec<bool>,
  files: usize,
  full: bool,
  stdin: Option<Vec<u8>>,
  r: &'a mut Rng,
}

impl S<'_> {
  fn put(&mut self, l: String, w: Want) {
    self.lines.push(l);
    self.want.push(w);
  }
  fn file(&mut self, body: &[u8]) -> String {
    let p = self.fresh();
    fs::write(&p, body).unwrap();
    p
  }
  fn fresh(&mut self) -> String {
    self.files += 1;
    format!("{}/f{}", self.dir, self.files)
  }
}

/// A text and what the library makes of it.
fn text(r: &mut Rng) -> (Vec<u8>, Option<Held>) {
  let s = match r.below(10) {
    0 => Vec::new(),
    1 | 2 => broken::mutant(r, 1).1,
    _ => {
      let mut cfg = Cfg::text(r);
      cfg.max_funcs = cfg.max_funcs.min(4);
      if r.chance(1, 8) {
        // larger than any buffer on the way
        cfg.max_blocks = 40;
        cfg.max_insts = 40;
      }
      let m = gen::gen(r, &cfg);
      emit::text(&m, r, &emit::Style { wild: false, shuffle: true, dead: false }).into_bytes()
    }
  };
  let held = api::parse(&s).ok().and_then(|p| {
    Some(Held { m: api::extract(&p).ok()?, koopa: Some(api::dump_koopa(&p).ok()?), llvm: Some(llvm_skeleton(&api::dump_llvm(&p).ok()?)) })
  });
  (s, held)
}

/// Does a parse attempt end up in `slot`?
fn parse(s: &mut S, slot: usize) {
  let (t, held) = text(s.r);
  let ok = if held.is_some() { "success" } else { "invalid program" };
  let c_text = !t.contains(&0);
  let utf8 = std::str::from_utf8(&t).is_ok();
  let mut held = held;
  let code = match s.r.below(12) {
    0 => {
      // paths that lead nowhere
      let (p, c): (Vec<u8>, _) = match s.r.below(4) {
        0 => (format!("{}/none", s.dir).into_bytes(), "invalid file"),
        1 => (b"".to_vec(), "invalid file"),
        2 => (format!("{}/\u{e9}", s.dir).replace('\u{e9}', "?").into_bytes().iter().map(|b| if *b == b'?' { 0xff } else { *b }).collect(), "invalid utf-8"),
        // a directory can be opened, but not read
        _ => (s.dir.clone().into_bytes(), "invalid program"),
      };
      held = None;
      let f = s.file(&p);
      s.put(format!("parse_file {slot} {f}"), Want::Prog(c));
      return set(s, slot, c, held);
    }
    1..=3 => {
      let f = s.file(&t);
      let f = s.file(f.as_bytes());
      s.lines.push(format!("parse_file {slot} {f}"));
      ok
    }
    4..=6 if c_text => {
      let f = s.file(&t);
      s.lines.push(format!("parse_string {slot} {f}"));
      if utf8 {
        ok
      } else {
        "invalid utf-8"
      }
    }
    7 => {
      // not UTF-8
      let mut t: Vec<u8> = t.into_iter().filter(|c| *c != 0).collect();
      let at = s.r.below(t.len() + 1);
      t.insert(at, *s.r.pick(&[0x80, 0xff, 0xc3, 0xf8]));
      if std::str::from_utf8(&t).is_ok() {
        return;
      }
      held = None;
      let f = s.file(&t);
      s.lines.push(format!("parse_string {slot} {f}"));
      "invalid utf-8"
    }
    8 if s.stdin.is_none() && held.is_some() => {
      s.stdin = Some(t);
      s.lines.push(format!("parse_stdin {slot}"));
      ok
    }
    9 if c_text && held.is_some() => {
      let f = s.file(&t);
      let step = *s.r.pick(&[1usize, 7, 100, 4096, 100000]);
      s.lines.push(format!("parse_pipe {slot} {f} {}", step.max(t.len() / 200 + 1)));
      ok
    }
    10 => {
      // a descriptor that can not be read
      held = None;
      let f = s.file(&t);
      if s.r.chance(1, 2) {
        let fd = *s.r.pick(&[-1, -2, -1000, i32::MIN]);
        s.lines.push(format!("parse_raw {slot} {f} {fd}"));
        "invalid file"
      } else {
        s.lines.push(format!("parse_raw {slot} {f} 1"));
        "invalid program"
      }
    }
    _ => {
      let f = s.file(&t);
      s.lines.push(format!("parse_raw {slot} {f} 0"));
      ok
    }
  };
  s.want.push(Want::Prog(code));
  set(s, slot, code, held);
}

fn set(s: &mut S, slot: usize, code: &str, held: Option<Held>) {
  s.progs[slot] = if code == "success" { held } else { None };
}

fn dump(s: &mut S, slot: usize) {
  let held = s.progs[slot].clone().unwrap();
  let llvm = s.r.chance(1, 3);
  let pre = if llvm { "llvm_" } else { "" };
  // nothing to write means nothing can go wrong
  let empty = held.empty(llvm);
  match s.r.below(8) {
    0 | 1 => {
      let size = match s.r.below(8) {
        0 => None,
        1 => Some(-1),
        2 => Some(0),
        3 => Some(1),
        4 => Some(-1_000_000_000),
        5 => Some(-(s.r.range(2, 30) as i64)),
        6 => Some(s.r.range(2, 5000) as i64),
        _ => Some(0),
      };
      let out = s.fresh();
      let how = size.map_or("null".to_string(), |d| d.to_string());
      s.put(format!("{pre}string {slot} {how} {out}"), Want::Str { size, out, llvm, held });
    }
    2 => s.put(format!("{pre}stdout {slot}"), Want::Stdout { llvm, held }),
    3 => {
      let out = s.fresh();
      if s.r.chance(1, 4) {
        let (flag, path, c) = match s.r.below(3) {
          0 => (-1 - s.r.below(5) as i32, "-".to_string(), "invalid file"),
          _ if empty => (0, s.fresh(), "success"),
          1 => (0, "/dev/full".into(), "io error"),
          _ => (1, s.file(b""), "io error"),
        };
        s.put(format!("{pre}raw {slot} {path} {flag}"), Want::File(c, None));
      } else {
        s.put(format!("{pre}raw {slot} {out} 0"), Want::File("success", Some((out, llvm, held))));
      }
    }
    4 => {
      let (p, c): (Vec<u8>, _) = match s.r.below(4) {
        0 => (s.dir.clone().into_bytes(), "invalid file"),
        1 => (format!("{}/no/where", s.dir).into_bytes(), "invalid file"),
        2 => ([s.dir.as_bytes(), b"/\xff"].concat(), "invalid utf-8"),
        _ => (b"/dev/full".to_vec(), if empty { "success" } else { "io error" }),
      };
      let f = s.file(&p);
      s.put(format!("{pre}file {slot} {f}"), Want::File(c, None));
    }
    _ => {
      let out = if s.r.chance(1, 3) {
        // an older and longer text is replaced
        let n = s.r.range(1, 100000);
        s.file(&vec![b'#'; n])
      } else {
        s.fresh()
      };
      let f = s.file(out.as_bytes());
      s.put(format!("{pre}file {slot} {f}"), Want::File("success", Some((out, llvm, held))));
    }
  }
}

fn script(s: &mut S, steps: usize) {
  for _ in 0..steps {
    let slot = s.r.below(s.progs.len());
    let has = s.progs[slot].is_some();
    match s.r.below(12) {
      0..=3 if !has => parse(s, slot),
      0..=4 if has => dump(s, slot),
      5 if has => {
        s.progs[slot] = None;
        s.put(format!("delete {slot}"), Want::Nothing);
      }
      6 => {
        let b = s.r.below(s.builders.len());
        if s.builders[b] {
          // what it made goes with it
          s.raws.iter_mut().for_each(|r| {
            if r.as_ref().is_some_and(|r| r.0 == b) {
              *r = None;
            }
          });
          s.put(format!("unbuilder {b}"), Want::Nothing);
        } else {
          s.put(format!("builder {b}"), Want::Set);
        }
        s.builders[b] = !s.builders[b];
      }
      7 | 8 if has => {
        let Some(b) = (0..s.builders.len()).find(|b| s.builders[*b]) else { continue };
        let k = s.r.below(s.raws.len());
        let m = s.progs[slot].clone().unwrap().m;
        s.put(format!("build {k} {b} {slot}"), Want::Counts(m.globals.len(), m.funcs.len()));
        s.raws[k] = Some((b, m));
        if s.r.chance(1, 3) {
          // the raw form does not need the program
          s.progs[slot] = None;
          s.put(format!("delete {slot}"), Want::Nothing);
        }
      }
      _ => {
        let k = s.r.below(s.raws.len());
        let Some((_, m)) = s.raws[k].clone() else { continue };
        match s.r.below(4) {
          0 => {
            let f = s.fresh();
            s.put(format!("walk {k} {f}"), Want::Walk(f, m));
          }
          1 | 2 if !has => {
            // the order of functions stays
            let held = Held { m, koopa: None, llvm: None };
            if s.r.chance(1, 2) {
              s.put(format!("generate {slot} {k}"), Want::Prog("success"));
            } else {
              let flags = s.r.below(8) | s.r.below(2) * 16;
              let seed = s.r.below(1 << 30);
              s.put(format!("lay {slot} {k} {flags} 0 0 {seed}"), Want::Prog("success"));
            }
            s.progs[slot] = Some(held);
          }
          _ if !has => {
            let kinds = ["slice kind mismatch", "null pointer", "type mismatch", "parameter count mismatch", "invalid utf-8", "null pointer", "type mismatch"];
            let brk = s.r.range(1, 7);
            let (flags, at, seed) = (s.r.below(32), s.r.below(100000), s.r.below(1 << 30));
            s.put(format!("lay {slot} {k} {flags} {brk} {at} {seed}"), Want::Lay(kinds[brk - 1]));
            // deleted at once if there was nothing to break
            s.put(format!("delete_if {slot}"), Want::Nothing);
          }
          _ => {}
        }
      }
    }
  }
  // everything is given back
  let mut ends: Vec<String> = vec![];
  for i in 0..s.progs.len() {
    if s.progs[i].take().is_some() {
      ends.push(format!("delete {i}"));
    }
  }
  for i in 0..s.builders.len() {
    if s.builders[i] {
      ends.push(format!("unbuilder {i}"));
    }
  }
  s.r.shuffle(&mut ends);
  for e in ends {
    s.put(e, Want::Nothing);
  }
}

fn same_text(got: &[u8], llvm: bool, held: &Held) -> Result<(), String> {
  if llvm {
    match &held.llvm {
      Some(w) if llvm_skeleton(got) != *w => Err(format!("LLVM text differs from the library's own:\n{}", lossy(got))),
      _ => Ok(()),
    }
  } else if let Some(w) = &held.koopa {
    if got != w {
      return Err(format!("text differs from the library's own ({} and {} bytes):\n{}\n--- wanted\n{}", got.len(), w.len(), lossy(got), lossy(w)));
    }
    Ok(())
  } else {
    // functions may have changed places, then the text can not be read back
    let Ok(p) = api::parse(got) else { return Ok(()) };
    let m = raw::sorted(api::extract(&p)?.canon().erase_decl_names());
    match diff(&raw::sorted(held.m.clone().canon().erase_decl_names()), &m) {
      Some(d) => Err(format!("text of a converted program: {d}\n{}", lossy(got))),
      None => Ok(()),
    }
  }
}

fn headers(cx: &mut Cx) {
  let dir = cx.scratch.clone();
  for (exe, lang, std) in [("clang-18", "c", "c11"), ("gcc", "c", "c99"), ("clang-18", "c++", "c++11"), ("g++", "c++", "c++17")] {
    let f = format!("{dir}/h.txt");
    fs::write(&f, "#include \"koopa.h\"\n#include \"koopa.h\"\nint main() { return (int)KOOPA_EC_SUCCESS; }\n").unwrap();
    let o = Command::new(exe)
      .args(["-x", lang, &format!("-std={std}"), "-Wall", "-Wno-deprecated", "-fsyntax-only", "-I/repo/libkoopa/include", &f])
      .output();
    match o {
      Ok(o) => {
        cx.count("header compiled");
        if !o.status.success() {
          cx.fail(format!("header does not compile as {std}"), lossy(&o.stderr));
        }
      }
      Err(_) => cx.count("compiler missing"),
    }
  }
}

fn c14(cx: &mut Cx, idx: u64) {
  if idx == 0 {
    headers(cx);
  }
  let mut r = cx.rng("C14", idx);
  let dir = format!("{}/c{idx}", cx.scratch);
  fs::create_dir_all(&dir).unwrap();
  let steps = if r.chance(1, 10) { 120 } else { r.range(6, 30) };
  let rounds = if r.chance(1, 3) { 6 } else { 1 };
  let mut s = S {
    dir: dir.clone(),
    lines: vec![],
    want: vec![],
    progs: vec![None; 4],
    raws: vec![None; 3],
    builders: vec![false; 2],
    files: 0,
    full: r.chance(1, 12),
    stdin: None,
    r: &mut r,
  };
  script(&mut s, steps);
  let S { lines, want, full, stdin, .. } = s;
  let body = format!("{rounds}\n{}\n", lines.join("\n"));
  cx.what = format!("{rounds} rounds{} of\n{}", if full { ", standard output is full," } else { "" }, lines.join("\n"));
  cx.shape(fnv(lines.iter().map(|l| l.split(' ').next().unwrap()).collect::<Vec<_>>().join(" ").as_bytes()));
  if idx < 3 {
    let w = cx.what.clone();
    cx.sample(|| w);
  }
  fs::write(format!("{dir}/script"), body).unwrap();
  fs::write(format!("{dir}/in"), stdin.unwrap_or_default()).unwrap();
  let outf = if full { "/dev/full".to_string() } else { format!("{dir}/stdout") };
  let open = |p: &str| fs::OpenOptions::new().create(true).write(true).open(p).unwrap();
  let child = Command::new(std::env::current_exe().unwrap())
    .args(["client", &format!("{dir}/script"), &format!("{dir}/out")])
    .stdin(fs::File::open(format!("{dir}/in")).unwrap())
    .stdout(open(&outf))
    .stderr(open(&format!("{dir}/err")))
    .env("KMON_LOUD", "1")
    .spawn();
  let mut child = match child {
    Ok(c) => c,
    Err(e) => panic!("can not start the client: {e}"),
  };
  let t0 = Instant::now();
  let st = loop {
    if let Some(s) = child.try_wait().unwrap() {
      break s;
    }
    if t0.elapsed() > Duration::from_secs(50) {
      let _ = child.kill();
      let _ = child.wait();
      return cx.fail("client hangs", cx.what.clone());
    }
    std::thread::sleep(Duration::from_millis(2));
  };
  cx.count("client processes");
  let log = fs::read_to_string(format!("{dir}/out")).unwrap_or_default();
  if !st.success() || !log.ends_with("end\n") {
    let err = lossy(&fs::read(format!("{dir}/err")).unwrap_or_default());
    let from = err.find("==").or_else(|| err.find("panic: ")).unwrap_or(err.len().saturating_sub(2000));
    let err: String = err[from..].chars().take(5000).collect();
    use std::os::unix::process::ExitStatusExt;
    if st.signal() == Some(9) {
      panic!("the client was killed");
    }
    let last = log.lines().last().and_then(|l| l.split(' ').nth(1)).and_then(|n| n.parse::<usize>().ok());
    let at = last.and_then(|n| lines.get(n + 1).or(lines.get(n))).cloned().unwrap_or_else(|| "the first call".into());
    return cx.fail("client crashed", format!("{st} at or after: {at}\n{err}\n{}", cx.what));
  }
  let mut heaps: Vec<(u64, u64)> = vec![];
  let stdout = if full { vec![] } else { fs::read(&outf).unwrap_or_default() };
  for l in log.lines() {
    let w: Vec<&str> = l.split(' ').collect();
    if w.len() < 2 {
      continue;
    }
    let round: usize = w[0].parse().unwrap();
    if w[1] == "heap" {
      heaps.push((w[2].parse().unwrap(), w[3].parse().unwrap()));
      continue;
    }
    let i: usize = w[1].parse().unwrap();
    let x = &w[2..];
    let code = |k: usize| x.get(k).and_then(|c| c.parse::<i32>().ok()).map_or("nothing", code_name);
    cx.count(&format!("call {}", lines[i].split(' ').next().unwrap()));
    let mut bad = |m: String| cx.fail(m.clone(), format!("round {round}, call {i} ({}): {m}; it said {x:?}\n{}", lines[i], cx.what));
    match &want[i] {
      Want::Prog(c) => {
        if code(0) != *c {
          bad(format!("{} where {c} is due", code(0)));
        } else if (x[1] == "set") != (*c == "success") || x[1] == "null" {
          bad(format!("program pointer is {} on {c}", x[1]));
        }
      }
      Want::Lay(c) => {
        let c = if x[2] == "0" { "success" } else { *c };
        if code(0) != c {
          bad(format!("{} where {c} is due", code(0)));
        } else if (x[1] == "set") != (c == "success") || x[1] == "null" {
          bad(format!("program pointer is {} on {c}", x[1]));
        }
      }
      Want::File(c, f) => {
        if code(0) != *c {
          bad(format!("{} where {c} is due", code(0)));
        } else if let (Some((p, llvm, held)), 0) = (f, round) {
          match fs::read(p) {
            Ok(t) => {
              if let Err(e) = same_text(&t, *llvm, held) {
                bad(e);
              }
            }
            Err(e) => bad(format!("file was not written: {e}")),
          }
        }
      }
      Want::Stdout { llvm, held } => {
        let (a, b): (usize, usize) = (x[1].parse().unwrap_or(0), x[2].parse().unwrap_or(0));
        if full {
          if !held.empty(*llvm) && code(0) != "io error" {
            bad(format!("{} where standard output is full", code(0)));
          }
        } else if code(0) != "success" {
          bad(format!("{} for standard output", code(0)));
        } else if b < a || b > stdout.len() {
          bad("standard output was not written".into());
        } else if let Err(e) = same_text(&stdout[a..b], *llvm, held) {
          bad(format!("standard output: {e}"));
        }
      }
      Want::Str { size, out, llvm, held } => {
        let n: usize = x[1].parse().unwrap();
        let exact = if *llvm { None } else { held.koopa.as_ref().map(|t| t.len()) };
        if code(0) != "success" {
          bad(format!("{} for the length", code(0)));
        } else if exact.is_some_and(|e| e != n) {
          bad(format!("length is {n}, the text has {exact:?}"));
        } else if size.is_some() {
          let (sz, len): (usize, usize) = (x[3].parse().unwrap(), x[4].parse().unwrap());
          if sz < n + 1 {
            if code(2) != "insufficient buffer" {
              bad(format!("{} for a buffer of {sz} bytes, {} are needed", code(2), n + 1));
            } else if len != sz {
              bad("length is written along with an error".into());
            }
          } else if code(2) != "success" {
            bad(format!("{} for a buffer of {sz} bytes, {} are needed", code(2), n + 1));
          } else if x[5] != n.to_string() || x[6] != "clean" {
            bad(format!("text in the buffer has {} bytes and is {}, {n} were announced", x[5], x[6]));
          } else if round == 0 {
            if let Err(e) = same_text(&fs::read(out).unwrap_or_default(), *llvm, held) {
              bad(e);
            }
          }
        }
      }
      Want::Counts(g, f) => {
        if x != [g.to_string(), f.to_string()] {
          bad(format!("raw program has {x:?} globals and functions, the program {g} and {f}"));
        }
      }
      Want::Walk(f, m) => {
        if round == 0 {
          let t = fs::read_to_string(f).unwrap_or_default();
          match raw::read(&t).and_then(|g| g.users().and_then(|_| g.model())) {
            Ok(g) => {
              if let Some(d) = diff(&m.clone().erase_decl_names(), &g.erase_decl_names()) {
                bad(format!("raw program differs: {d}"));
              }
            }
            Err(e) => bad(format!("raw program is broken: {e}")),
          }
        }
      }
      Want::Set => {
        if x != ["set"] {
          bad("no builder".into());
        }
      }
      Want::Nothing => {}
    }
    if cx.failed() {
      return;
    }
  }
  // rounds after the first must leave nothing behind
  if heaps.len() > 3 {
    cx.count("scripts repeated and watched for leaks");
    let grow = |f: &dyn Fn(&(u64, u64)) -> u64| heaps[1..].windows(2).all(|w| f(&w[1]) > f(&w[0]));
    if grow(&|h| h.0) {
      return cx.fail("memory grows with every round", format!("{heaps:?}\n{}", cx.what));
    }
    if grow(&|h| h.1) {
      return cx.fail("open files grow with every round", format!("{heaps:?}\n{}", cx.what));
    }
  }
  let _ = fs::remove_dir_all(&dir);
}

pub static CHECKS: &[&Check] = &[&Check {
  id: "C14",
  rule: "random scripts of calls followed by a C client built against the published header, in a process of its own under AddressSanitizer: return codes, output pointers, texts, buffer bounds and guard bytes of every call are compared with what is due, and repeated scripts watched for growing memory or open files; distinct call sequences",
  cases: (3000, 60000),
  limit: (250, 1500),
  case: c14,
  workers: 0,
  assumptions: &["whether descriptors handed over are closed by the library is left open", "standard output is not closed"],
}];
