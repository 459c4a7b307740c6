//! C23: no undefined behaviour, and everything is given back.

use crate::fw::{self, *};
use crate::rng::Rng;
use crate::session::{self, session};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// Counts what is allocated and not given back.
pub struct Counting;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

mod counting {
  use super::*;
  use std::alloc::{GlobalAlloc, Layout, System};

  unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
      BLOCKS.fetch_add(1, Relaxed);
      BYTES.fetch_add(l.size() as i64, Relaxed);
      TOTAL.fetch_add(1, Relaxed);
      unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
      BLOCKS.fetch_sub(1, Relaxed);
      BYTES.fetch_sub(l.size() as i64, Relaxed);
      unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
      BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
      unsafe { System.realloc(p, l, n) }
    }
  }
}

/// What one case does; the same natively and under Miri.
/// Functional verdicts belong to other properties and are not looked at.
fn body(cx: &mut Cx, r: &mut Rng, tiny: bool) -> &'static str {
  let z = if tiny { session::MIRI } else { session::FULL };
  let kind = match tiny {
    true => *r.pick(&[0, 0, 0, 0, 0, 0, 0, 3, 3, 3, 4, 5]),
    false => r.below(8),
  };
  let of = |cx: &mut Cx, cs: &[&'static Check], id: &str, n: u64| {
    let c = cs.iter().find(|c| c.id == id).unwrap();
    let _ = guarded(|| (c.case)(cx, n));
    cx.viol = None;
  };
  let n = 1000 + r.below(1 << 30) as u64;
  match kind {
    0..=2 => {
      session(cx, r, z);
      "sessions of a client"
    }
    3 => {
      // several at once
      let n = 2 + r.below(2);
      let ts: Vec<_> = (0..n)
        .map(|i| {
          let mut r = r.fork();
          let mut c = fw::new_cx(CHECKS[0], cx.seed, cx.thorough, format!("{}/t{i}", cx.scratch));
          let _ = std::fs::create_dir_all(&c.scratch);
          let z = session::Size { steps: if tiny { 3 } else { z.steps / 2 }, ..z };
          std::thread::spawn(move || {
            session(&mut c, &mut r, z);
            c
          })
        })
        .collect();
      for t in ts {
        let c = t.join().expect("thread panicked");
        if cx.viol.is_none() {
          cx.viol = c.viol;
        }
        for (k, v) in c.stats {
          cx.add(&k, v);
        }
        cx.shapes.extend(c.shapes);
      }
      "sessions on several threads"
    }
    4 => {
      of(cx, crate::ops::CHECKS, ["C07", "C08"][r.below(2)], n);
      "histories of edits"
    }
    5 => {
      of(cx, crate::ops::CHECKS, ["C09", "C22"][r.below(2)], n);
      "histories with misuse"
    }
    6 => {
      of(cx, crate::broken::CHECKS, "C03", n);
      "broken texts"
    }
    _ => {
      of(cx, crate::text::CHECKS, ["C01", "C02"][r.below(2)], n);
      "round trips"
    }
  }
}

/// Under Miri: `mini SEED BATCH SECONDS SCRATCH [ONLY]`.
pub fn mini(a: &[String]) {
  let seed: u64 = a[0].parse().unwrap();
  let batch: u64 = a[1].parse().unwrap();
  let limit = Duration::from_secs(a[2].parse().unwrap());
  let only: Option<u64> = a.get(4).and_then(|s| s.parse().ok());
  quiet_panics();
  let t0 = Instant::now();
  let mut cx = fw::new_cx(CHECKS[0], seed, false, a[3].clone());
  let mut i = only.unwrap_or(0);
  let mut out = std::io::stdout();
  while t0.elapsed() < limit {
    let mut r = Rng::case(seed, "C23 miri", batch << 32 | i);
    println!("BEGIN {i}");
    let what = body(&mut cx, &mut r, true);
    println!("END {what}");
    out.flush().unwrap();
    if let Some((s, d)) = cx.viol.take() {
      println!("VIOL {} {}", esc(&s), esc(&d));
      return;
    }
    if only.is_some() {
      break;
    }
    i += 1;
  }
  for (k, v) in &cx.stats {
    println!("STAT {v} {k}");
  }
  for s in &cx.shapes {
    println!("SHAPE {s}");
  }
  // freed, so that what is left belongs to the library
  drop(cx);
  println!("DONE");
}

const BATCHES: u64 = 8;

/// Three of four go without the validation of values at every typed copy,
/// which doubles what they get done.
fn cargo_miri(seed: u64) -> Command {
  let root = root();
  let mut c = Command::new("cargo");
  c.args(["miri", "run", "--release", "--offline", "--quiet", "--manifest-path"])
    .arg(format!("{root}/mharness/Cargo.toml"))
    .arg("--")
    .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
    .env("CARGO_TARGET_DIR", format!("{root}/target/miri"))
    .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-seed={seed}{}", if seed % 4 == 0 { "" } else { " -Zmiri-disable-validation" }))
    .env_remove("RUSTFLAGS")
    .env_remove("ASAN_OPTIONS");
  c
}

fn miri(cx: &mut Cx, batch: u64, only: Option<u64>) {
  let secs = if cx.thorough { 650 } else { 80 };
  let mut c = cargo_miri(batch);
  c.args(["mini", &cx.seed.to_string(), &batch.to_string(), &secs.to_string(), &cx.scratch]);
  if let Some(i) = only {
    c.arg(i.to_string());
  }
  let errs = format!("{}/miri-err", cx.scratch);
  let mut p = c
    .stdout(Stdio::piped())
    .stderr(std::fs::File::create(&errs).map_or(Stdio::null(), Stdio::from))
    .spawn()
    .expect("can not start Miri");
  let mut done = false;
  let mut last = String::new();
  let mut begun = false;
  for l in BufReader::new(p.stdout.take().unwrap()).lines() {
    fw::beat();
    let Ok(l) = l else { break };
    let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
    match k {
      "BEGIN" => {
        last = rest.to_string();
        begun = true;
      }
      "END" => {
        cx.count(&format!("under Miri: {rest}"));
        begun = false;
      }
      "STAT" => {
        let (v, k) = rest.split_once(' ').unwrap();
        cx.add(&format!("under Miri: {k}"), v.parse().unwrap());
      }
      "SHAPE" => cx.shape(rest.parse().unwrap()),
      "VIOL" => cx.fail("seen under Miri", rest.to_string()),
      "DONE" => done = true,
      _ => {}
    }
  }
  let st = p.wait().unwrap();
  let mut err = String::new();
  let _ = std::fs::File::open(&errs).and_then(|mut f| f.read_to_string(&mut err));
  let where_ = || format!("batch {batch}, mini-case {last}{}\n{}", if begun { "" } else { " (after it)" }, err.chars().take(5000).collect::<String>());
  if err.contains("unsupported operation") || err.contains("could not compile") {
    eprintln!("{err}");
    panic!("Miri can not run this: {}", where_());
  }
  if let Some(l) = err.lines().find(|l| l.contains("Undefined Behavior") || l.contains("memory leaked") || l.contains("Data race") || l.contains("deadlock")) {
    cx.fail(l.trim().to_string(), where_());
  } else if !st.success() || !done {
    cx.fail("abnormal end under Miri", where_());
  }
  cx.add("Miri batches", 1);
}

fn c23(cx: &mut Cx, idx: u64) {
  if idx < BATCHES {
    return miri(cx, idx, None);
  }
  let r = cx.rng("C23", idx);
  static WARM: std::sync::Once = std::sync::Once::new();
  WARM.call_once(|| {
    OUT.lock().unwrap().reserve_exact(ROOM);
    for n in 1..40 {
      alone(cx, &r, n);
    }
  });
  let live = || (BLOCKS.load(Relaxed), BYTES.load(Relaxed));
  let total = TOTAL.load(Relaxed);
  let before = live();
  let ok = alone(cx, &r, 0);
  let after = live();
  cx.add("allocations watched", TOTAL.load(Relaxed) - total);
  let out = OUT.lock().unwrap().clone();
  let mut text = String::new();
  for l in String::from_utf8_lossy(&out).lines() {
    let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
    match k {
      "STAT" => {
        let (v, k) = rest.split_once(' ').unwrap();
        cx.add(k, v.parse().unwrap());
      }
      "SHAPE" => cx.shape(rest.parse().unwrap()),
      "WHAT" => text = unesc(rest),
      "VIOL" => cx.fail(unesc(rest), text.clone()),
      _ => {}
    }
  }
  if idx < BATCHES + 4 {
    cx.sample(|| text.clone());
  }
  if !ok {
    return cx.fail("panic in a session", format!("{}\n{text}", last_panic()));
  }
  if before != after {
    // once more, in case something global was set up for the first time
    let b = live();
    alone(cx, &r, 0);
    let a = live();
    if a != b {
      cx.fail("memory is not given back", format!("{} blocks, {} bytes\n{text}", a.0 - b.0, a.1 - b.1));
    }
  }
}

const ROOM: usize = 1 << 20;
/// What a session has to report, in memory that was there before.
static OUT: Mutex<Vec<u8>> = Mutex::new(vec![]);

/// One body on a thread of its own, which takes its type pool along when it
/// ends. Leaves nothing behind but the report.
fn alone(cx: &Cx, r: &Rng, skip: u64) -> bool {
  let mut c = fw::new_cx(CHECKS[0], cx.seed, cx.thorough, cx.scratch.clone());
  let mut r = r.clone();
  (0..skip).for_each(|_| {
    r.next();
  });
  let done = std::thread::spawn(move || {
    let what = body(&mut c, &mut r, false);
    let mut s = format!("WHAT {}\nSTAT 1 {what}\n", esc(&c.what));
    if let Some((sig, _)) = &c.viol {
      s += &format!("VIOL {}\n", esc(sig));
    }
    for (k, v) in &c.stats {
      s += &format!("STAT {v} {k}\n");
    }
    for h in &c.shapes {
      s += &format!("SHAPE {h}\n");
    }
    let mut out = OUT.lock().unwrap();
    out.clear();
    out.extend(s.as_bytes().iter().take(ROOM));
    fw::forget_panic();
  })
  .join();
  done.is_ok()
}

pub static CHECKS: &[&Check] = &[&Check {
  id: "C23",
  rule: "random sessions of a C client (several programs, builders and raw forms, read as long as promised, given back in any order, on one or several threads), edit histories, round trips and broken texts: eight batches under Miri (Tree Borrows, data races, leaks), the others, larger, under AddressSanitizer with an allocator that counts what is not given back; distinct programs and texts",
  cases: (12000, 400000),
  limit: (170, 1200),
  case: c23,
  workers: 0,
  assumptions: &[
    "aliasing is judged by Miri's Tree Borrows model",
    "file descriptors, strings and raw forms given to the library are valid or broken in one of the ways that have an error code",
  ],
}];
