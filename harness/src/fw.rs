//! Check framework: a supervisor process spreads cases over worker processes,
//! collects what the monitors saw, confirms crashes, and writes the evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Check {
  pub id: &'static str,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
  /// Number of cases in the quick and the thorough tier.
  pub cases: (u64, u64),
  /// Time limits in seconds (stop early, keep what was seen).
  pub limit: (u64, u64),
  pub case: fn(&mut Cx, u64),
  /// Workers; 0 means one per core.
  pub workers: usize,
  pub assumptions: &'static [&'static str],
}

/// What one case may use and report to.
pub struct Cx {
  pub seed: u64,
  pub thorough: bool,
  pub stats: BTreeMap<String, u64>,
  pub shapes: HashSet<u64>,
  pub samples: Vec<String>,
  pub viol: Option<(String, String)>,
  pub known: Vec<String>,
  pub verbose: bool,
  /// Text describing the case at hand, kept for the report.
  pub what: String,
  /// A scratch directory of this worker.
  pub scratch: String,
  pub sub: u64,
  pub known_list: Vec<String>,
  pub id: &'static str,
}

impl Cx {
  pub fn rng(&self, tag: &str, idx: u64) -> crate::rng::Rng {
    crate::rng::Rng::case(self.seed, tag, idx)
  }
  pub fn count(&mut self, k: &str) {
    self.add(k, 1);
  }
  pub fn add(&mut self, k: &str, n: u64) {
    *self.stats.entry(k.to_string()).or_insert(0) += n;
  }
  pub fn shape(&mut self, h: u64) {
    self.shapes.insert(h);
  }
  pub fn sample(&mut self, s: impl FnOnce() -> String) {
    if self.samples.len() < 2 {
      self.samples.push(s());
    }
  }
  /// Reports a violation. `sig` names what failed in a stable way.
  pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
    let (sig, detail) = (sig.into(), detail.into());
    if self.known_list.iter().any(|k| *k == sig) {
      self.known.push(sig);
      return;
    }
    if self.viol.is_none() {
      self.viol = Some((sig, detail));
    }
  }
  pub fn failed(&self) -> bool {
    self.viol.is_some()
  }
}

pub fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn unesc(s: &str) -> String {
  let mut o = String::new();
  let mut it = s.trim_matches('"').chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      o.push(c);
      continue;
    }
    match it.next() {
      Some('n') => o.push('\n'),
      Some('r') => o.push('\r'),
      Some('t') => o.push('\t'),
      Some('u') => {
        let h: String = it.by_ref().take(4).collect();
        o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
      }
      Some(c) => o.push(c),
      None => {}
    }
  }
  o
}

pub fn root() -> String {
  std::env::var("KMON_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn known_list(id: &str) -> Vec<String> {
  let s = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
  s.lines()
    .filter_map(|l| l.strip_prefix("known: property="))
    .filter_map(|l| l.split_once(' '))
    .filter(|(i, _)| *i == id)
    .map(|(_, s)| s.trim().to_string())
    .collect()
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|i| {
    let msg = i
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| i.payload().downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "panic".into());
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if std::env::var("KMON_LOUD").is_ok() {
      eprintln!("panic: {msg} (at {loc})");
    }
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} (at {loc})");
  }));
}

pub fn last_panic() -> String {
  PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Keeps nothing of what the last panic said.
pub fn forget_panic() {
  *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = String::new();
}

static STATE: Mutex<(String, u64)> = Mutex::new((String::new(), 0));

/// Tells the supervisor that a long case makes progress.
pub fn beat() {
  let mut s = STATE.lock().unwrap_or_else(|e| e.into_inner());
  s.1 += 1;
  if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&s.0) {
    let _ = f.seek(SeekFrom::Start(20));
    let _ = f.write_all(format!(" {:020}", s.1).as_bytes());
  }
}

/// Runs `f`; `Err` holds the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn new_cx(ck: &Check, seed: u64, thorough: bool, scratch: String) -> Cx {
  Cx {
    seed,
    thorough,
    stats: BTreeMap::new(),
    shapes: HashSet::new(),
    samples: vec![],
    viol: None,
    known: vec![],
    verbose: false,
    what: String::new(),
    scratch,
    sub: 0,
    known_list: known_list(ck.id),
    id: ck.id,
  }
}

/// Makes allocations fail (which aborts) rather than letting endless growth eat the machine.
/// Builds with AddressSanitizer have their own limit in ASAN_OPTIONS.
fn limit_memory() {
  unsafe extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
  }
  if std::env::var_os("ASAN_OPTIONS").is_none() {
    unsafe { setrlimit(9, &[3 << 30, 3 << 30]) };
  }
}

/// `worker ID tier seed from step count limit state scratch`
pub fn worker(ck: &Check, a: &[String]) -> i32 {
  quiet_panics();
  limit_memory();
  let thorough = a[0] == "thorough";
  let seed: u64 = a[1].parse().unwrap();
  let (from, step, count): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
  let limit = Duration::from_secs(a[5].parse().unwrap());
  let mut state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[6]).unwrap();
  STATE.lock().unwrap_or_else(|e| e.into_inner()).0 = a[6].clone();
  let mut cx = new_cx(ck, seed, thorough, a[7].clone());
  cx.verbose = std::env::var("KMON_VERBOSE").is_ok();
  let t0 = Instant::now();
  let mut n = 0u64;
  let mut i = from;
  let mut timed_out = false;
  while i < count {
    if t0.elapsed() > limit {
      timed_out = true;
      break;
    }
    state.seek(SeekFrom::Start(0)).unwrap();
    state.write_all(format!("{i:020}").as_bytes()).unwrap();
    cx.what.clear();
    let tc = Instant::now();
    if let Err(m) = guarded(|| (ck.case)(&mut cx, i)) {
      let w = cx.what.clone();
      cx.fail(format!("panic: {m}"), format!("{w}\npanic: {m}"));
    }
    if cx.verbose && tc.elapsed() > Duration::from_secs(1) {
      eprintln!("SLOW case {i}: {:?}", tc.elapsed());
    }
    n += 1;
    if let Some((sig, d)) = cx.viol.take() {
      println!("VIOL {i} {} {}", esc(&sig), esc(&d));
      break;
    }
    i += step;
  }
  for k in &cx.known {
    println!("KNOWN {}", esc(k));
  }
  for (k, v) in &cx.stats {
    println!("STAT {v} {k}");
  }
  for s in &cx.samples {
    println!("SAMPLE {}", esc(s));
  }
  println!("EVALS {n} {}", timed_out as u8);
  let mut hs: Vec<u8> = vec![];
  for h in &cx.shapes {
    hs.extend(h.to_le_bytes());
  }
  std::fs::write(format!("{}.shapes", a[6]), hs).unwrap();
  println!("DONE");
  0
}

enum End {
  Done,
  Signal(i32),
  Code(i32),
  Hang,
}

fn wait_case(mut c: Child, limit: Duration) -> End {
  let t0 = Instant::now();
  loop {
    if let Some(s) = c.try_wait().unwrap() {
      use std::os::unix::process::ExitStatusExt;
      return match (s.signal(), s.code()) {
        (Some(s), _) => End::Signal(s),
        (_, Some(0)) => End::Done,
        (_, c) => End::Code(c.unwrap_or(-1)),
      };
    }
    if t0.elapsed() > limit {
      let _ = c.kill();
      let _ = c.wait();
      return End::Hang;
    }
    std::thread::sleep(Duration::from_millis(20));
  }
}

/// Runs a check in full. Returns the exit code.
pub fn supervise(ck: &'static Check) -> i32 {
  let t0 = Instant::now();
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let thorough = tier == "thorough";
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let mut count = if thorough { ck.cases.1 } else { ck.cases.0 };
  if let Some(n) = std::env::var("KMON_CASES").ok().and_then(|s| s.parse().ok()) {
    count = n;
  }
  // for trying many changes: KMON_CASES, KMON_LIMIT, and KMON_FAST to stop at the first violation
  let fast = std::env::var("KMON_FAST").is_ok();
  let stuck = Duration::from_secs(if fast { 10 } else { 60 });
  let alone = Duration::from_secs(if fast { 20 } else { 120 });
  let limit = if thorough { ck.limit.1 } else { ck.limit.0 };
  let limit = std::env::var("KMON_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(limit);
  static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
  let nw = if ck.workers > 0 { ck.workers } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) };
  let nw = nw.min(count as usize).max(1);
  let scratch = format!("{}/scratch/{}-{}", root(), ck.id, std::process::id());
  std::fs::create_dir_all(&scratch).unwrap();
  let exe = std::env::current_exe().unwrap();
  let spawn = |w: usize, from: u64, step: u64, count: u64, limit: u64| -> Child {
    let ws = format!("{scratch}/w{w}");
    std::fs::create_dir_all(&ws).unwrap();
    Command::new(&exe)
      .args([
        "worker",
        ck.id,
        &tier,
        &seed.to_string(),
        &from.to_string(),
        &step.to_string(),
        &count.to_string(),
        &limit.to_string(),
        &format!("{scratch}/state{w}"),
        &ws,
      ])
      .env("NO_COLOR", "1")
      .env_remove("CLICOLOR_FORCE")
      .env_remove("RUST_BACKTRACE")
      .stdin(Stdio::null())
      .stdout(Stdio::piped())
      .stderr(match w >= 100 {
        true => std::fs::File::create(format!("{scratch}/err")).map_or(Stdio::null(), Stdio::from),
        _ if std::env::var("KMON_VERBOSE").is_ok() => Stdio::inherit(),
        _ => Stdio::null(),
      })
      .envs((w >= 100).then_some(("KMON_LOUD", "1")))
      .spawn()
      .expect("can not start worker")
  };
  let mut evals = 0u64;
  let mut stats: BTreeMap<String, u64> = BTreeMap::new();
  let mut shapes: HashSet<u64> = HashSet::new();
  let mut samples: Vec<String> = vec![];
  let mut viols: Vec<(u64, String, String)> = vec![];
  let mut known: BTreeMap<String, u64> = BTreeMap::new();
  let mut trouble: Vec<String> = vec![];
  let mut cut = 0;
  let handles: Vec<_> = (0..nw)
    .map(|w| {
      let mut c = spawn(w, w as u64, nw as u64, count, limit);
      let out = c.stdout.take().unwrap();
      let st = format!("{scratch}/state{w}");
      std::thread::spawn(move || {
        let rd = std::thread::spawn(move || {
          let mut lines = vec![];
          for l in BufReader::new(out).lines() {
            match l {
              Ok(l) => {
                if fast && l.starts_with("VIOL ") {
                  STOP.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                lines.push(l)
              }
              Err(_) => break,
            }
          }
          lines
        });
        // watch for progress
        let mut last = (String::new(), Instant::now());
        let end = loop {
          if let Some(s) = c.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            break match (s.signal(), s.code()) {
              (Some(s), _) => End::Signal(s),
              (_, Some(0)) => End::Done,
              (_, x) => End::Code(x.unwrap_or(-1)),
            };
          }
          if STOP.load(std::sync::atomic::Ordering::Relaxed) {
            let _ = c.kill();
          }
          let cur = std::fs::read_to_string(&st).unwrap_or_default();
          if cur != last.0 {
            last = (cur, Instant::now());
          } else if last.1.elapsed() > stuck {
            let _ = c.kill();
            let _ = c.wait();
            break End::Hang;
          }
          std::thread::sleep(Duration::from_millis(25));
        };
        let idx = std::fs::read_to_string(&st).ok().and_then(|s| s.split_whitespace().next()?.parse::<u64>().ok());
        (rd.join().unwrap(), end, idx)
      })
    })
    .collect();
  for (w, h) in handles.into_iter().enumerate() {
    let (lines, end, idx) = h.join().unwrap();
    let mut done = false;
    for l in &lines {
      let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
      match k {
        "VIOL" => {
          let (i, rest) = rest.split_once(' ').unwrap();
          let q = rest.find("\" \"").unwrap();
          viols.push((i.parse().unwrap(), unesc(&rest[..q + 1]), unesc(&rest[q + 2..])));
        }
        "KNOWN" => *known.entry(unesc(rest)).or_insert(0) += 1,
        "STAT" => {
          let (v, k) = rest.split_once(' ').unwrap();
          *stats.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap();
        }
        "SAMPLE" => samples.push(unesc(rest)),
        "EVALS" => {
          let (n, c) = rest.split_once(' ').unwrap();
          evals += n.parse::<u64>().unwrap();
          cut += (c == "1") as u32;
        }
        "DONE" => done = true,
        _ => {}
      }
    }
    if let Ok(b) = std::fs::read(format!("{scratch}/state{w}.shapes")) {
      for c in b.chunks_exact(8) {
        shapes.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
    let crashed = matches!(end, End::Signal(4 | 6 | 7 | 8 | 11));
    let what = match end {
      End::Done if done => continue,
      End::Signal(9) if STOP.load(std::sync::atomic::Ordering::Relaxed) => continue,
      End::Done => "ended early".to_string(),
      End::Signal(s) => format!("killed by signal {s}"),
      End::Code(c) => format!("exited with code {c}"),
      End::Hang => "made no progress for 60 s".to_string(),
    };
    if !viols.is_empty() {
      continue; // one is enough, confirming takes time
    }
    let Some(i) = idx else {
      trouble.push(format!("worker {w} {what} before its first case"));
      continue;
    };
    evals += i / nw as u64;
    // confirm on the single case, alone
    // a hang is tried again with cases before it, in which case it may also have been the machine
    let hung = matches!(end, End::Hang);
    let from = if hung { i.saturating_sub(20 * nw as u64).max(i % nw as u64) } else { i };
    let mut c = spawn(100 + w, from, if hung { nw as u64 } else { 1 }, i + 1, 1000);
    let mut out = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
      let mut s = String::new();
      let _ = out.read_to_string(&mut s);
      s
    });
    let end = wait_case(c, if hung { alone * 2 } else { alone });
    let _ = rd.join();
    let err = std::fs::read(format!("{scratch}/err")).unwrap_or_default();
    let err = String::from_utf8_lossy(&err[..err.len().min(6000)]).into_owned();
    match end {
      End::Signal(9) | End::Signal(15) => trouble.push(format!("case {i}: worker was ended from outside")),
      End::Signal(s) => viols.push((i, format!("crash: signal {s}"), format!("the process running case {i} {what}; alone it is killed by signal {s} again\n{err}"))),
      End::Hang => viols.push((i, "hang".into(), format!("case {i} {what}; with the cases before it, it does not end within 240 s either"))),
      _ if crashed => viols.push((i, "crash, not reproduced alone".into(), format!("the process running case {i} was {what}"))),
      End::Done if hung => *stats.entry("cases that were slow once".into()).or_insert(0) += 1,
      End::Done | End::Code(_) => trouble.push(format!("case {i}: worker {what}, not reproduced alone")),
    }
  }
  let _ = std::fs::remove_dir_all(&scratch);
  viols.sort();
  for (k, n) in &known {
    println!("KNOWN-FINDING: property={} {k} ({n} cases)", ck.id);
  }
  let wall = t0.elapsed().as_secs_f64();
  let mut ev = String::new();
  ev.push_str(&format!(
    "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{",
    esc(ck.id), esc(&tier), shapes.len(), esc(ck.rule)
  ));
  for (n, (k, v)) in stats.iter().enumerate() {
    ev.push_str(&format!("{}\n   {}: {v}", if n > 0 { "," } else { "" }, esc(k)));
  }
  ev.push_str("\n  },\n  \"samples\": [");
  for (n, s) in samples.iter().take(6).enumerate() {
    let s: String = s.chars().take(4000).collect();
    ev.push_str(&format!("{}\n   {}", if n > 0 { "," } else { "" }, esc(&s)));
  }
  ev.push_str(&format!("\n  ],\n  \"planned_cases\": {count}, \"workers\": {nw}, \"workers_stopped_by_time_limit\": {cut}\n }},\n \"assumptions\": ["));
  for (n, s) in ck.assumptions.iter().enumerate() {
    ev.push_str(&format!("{}\n  {}", if n > 0 { "," } else { "" }, esc(s)));
  }
  ev.push_str(&format!("\n ],\n \"wall_s\": {wall:.2}, \"violations\": {}\n}}\n", viols.len()));
  let evdir = format!("{}/evidence", root());
  std::fs::create_dir_all(&evdir).unwrap();
  std::fs::write(format!("{evdir}/{}.json", ck.id), ev).unwrap();
  println!("{}: {evals} cases, {} distinct, {wall:.1} s", ck.id, shapes.len());
  if let Some((i, sig, d)) = viols.first() {
    let dir = format!("{}/replays", root());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{}-{seed}-{i}.txt", ck.id);
    let body = format!(
      "property {}\ncase {i} of seed {seed}, tier {tier}\nre-run: VERIF_SEED={seed} VERIF_TIER={tier} /verif/check.sh {} case {i}\n\n{sig}\n\n{d}\n",
      ck.id, ck.id
    );
    std::fs::write(&path, body).unwrap();
    println!("{sig}");
    for l in d.lines().take(40) {
      println!("  {l}");
    }
    println!("VIOLATION property={} replay={path}", ck.id);
    return 1;
  }
  if !trouble.is_empty() {
    for t in &trouble {
      eprintln!("INCONCLUSIVE: {t}");
    }
    return 3;
  }
  if evals == 0 || shapes.is_empty() {
    eprintln!("INCONCLUSIVE: nothing was observed");
    return 3;
  }
  0
}

/// Runs one case in this process.
pub fn one(ck: &Check, idx: u64) -> i32 {
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let scratch = format!("{}/scratch/{}-one-{}", root(), ck.id, std::process::id());
  std::fs::create_dir_all(&scratch).unwrap();
  quiet_panics();
  let mut cx = new_cx(ck, seed, tier == "thorough", scratch.clone());
  cx.verbose = true;
  if let Err(m) = guarded(|| (ck.case)(&mut cx, idx)) {
    let w = cx.what.clone();
    cx.fail(format!("panic: {m}"), format!("{w}\npanic: {m}"));
  }
  let _ = std::fs::remove_dir_all(&scratch);
  println!("{:?}", cx.stats);
  match cx.viol {
    Some((s, d)) => {
      println!("{s}\n{d}");
      1
    }
    None => 0,
  }
}
