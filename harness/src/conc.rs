//! C16: threads, drivers and programs next to each other.

use crate::diag::capture;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{fnv, Rng};
use crate::text::{gen_text, llvm_skeleton, lossy};
use crate::{api, broken, emit, gen, verify};
use koopa::front::span::{FileType, Span};
use koopa::front::Driver;
use koopa::ir::builder::{GlobalInstBuilder, LocalInstBuilder, ValueBuilder};
use koopa::ir::{BasicBlock, BinaryOp, Function, FunctionData, Program, Type, Value};
use std::collections::HashSet;
use std::io::Cursor;
use std::sync::{Arc, Barrier, Mutex};

#[derive(Default)]
struct Handles {
  values: Vec<Value>,
  bbs: Vec<BasicBlock>,
  funcs: Vec<Function>,
}

impl Handles {
  fn of(&mut self, p: &Program) {
    self.values.extend(p.borrow_values().keys());
    for (f, d) in p.funcs() {
      self.funcs.push(*f);
      self.values.extend(d.dfg().values().keys());
      self.bbs.extend(d.dfg().bbs().keys());
    }
  }
}

#[derive(Clone, Copy, Debug)]
struct Job {
  kind: usize,
  seed: u64,
}

fn dumps_of(p: &Program) -> String {
  let mut s = lossy(&api::dump_koopa(p).unwrap_or_else(|e| e.into()));
  s += &llvm_skeleton(&api::dump_llvm(p).unwrap_or_else(|e| e.into()));
  s
}

/// Does something with the library; what comes out depends on the job only.
/// The handles of the programs it kept are added to `h`.
fn work(j: Job, h: &mut Handles) -> String {
  let mut r = Rng::case(j.seed, "job", j.kind as u64);
  match j.kind {
    0 => {
      // a text that may be ill-formed
      let n = r.range(1, 3);
      let s = if r.chance(1, 3) { gen_text(&mut r).1.into_bytes() } else { broken::mutant(&mut r, n).1 };
      let d = Driver::new(FileType::Buffer, &s[..]);
      if r.chance(1, 2) {
        std::thread::yield_now();
      }
      let res = d.generate_program();
      let mut o = format!("{} errors, {} warnings\n", Span::error_num(), Span::warning_num());
      match res {
        Ok(p) => {
          o += &dumps_of(&p);
          if let Err(e) = verify::verify(&p) {
            o += &format!("ill-formed: {e}");
          }
          h.of(&p);
        }
        Err(_) => o += "rejected",
      }
      o
    }
    1 => {
      // a program built by hand
      let mut cfg = Cfg::text(&mut r);
      if r.chance(1, 3) {
        cfg.names = Names::Clash;
      }
      let m = gen::gen(&mut r, &cfg);
      let (p, _) = api::build(&m, &mut r);
      let mut o = dumps_of(&p);
      if let Err(e) = verify::verify(&p) {
        o += &format!("ill-formed: {e}");
      }
      match api::extract(&p) {
        Ok(g) => {
          if let Some(d) = diff(&m, &g) {
            o += &format!("differs: {d}");
          }
        }
        Err(e) => o += &e,
      }
      h.of(&p);
      o
    }
    2 => {
      // types
      let mut v = vec![Type::get_i32(), Type::get_unit()];
      for _ in 0..r.range(5, 60) {
        let a = r.pick(&v[..]).clone();
        let t = match r.below(3) {
          0 => Type::get_pointer(a),
          1 => {
            let b = r.pick(&v[..]).clone();
            Type::get_function(vec![a], b)
          }
          // the sizes of nested arrays stay small
          _ => {
            if a.is_unit() || a.to_string().matches('[').count() > 4 {
              continue;
            }
            Type::get_array(a, r.range(1, 4))
          }
        };
        v.push(t);
      }
      let mut o = String::new();
      for (i, a) in v.iter().enumerate() {
        o += &format!("{a} ");
        for (k, b) in v.iter().enumerate() {
          if a == b {
            o += &format!("{i}={k} ");
          }
        }
      }
      o
    }
    _ => {
      // two programs edited in turns
      let mut ps: Vec<(Program, Vec<Function>)> = (0..2).map(|_| (Program::new(), vec![])).collect();
      for step in 0..r.range(5, 40) {
        let k = r.below(2);
        let (p, fs) = &mut ps[k];
        match r.below(5) {
          0 => {
            let init = p.new_value().integer(step as i32);
            p.new_value().global_alloc(init);
          }
          1 => fs.push(p.new_func_def(format!("@f{step}"), vec![Type::get_i32()], Type::get_i32())),
          2 if !fs.is_empty() => {
            let f = fs.remove(r.below(fs.len()));
            h.funcs.push(f);
            if let Some(d) = p.remove_func(f) {
              h.values.extend(d.dfg().values().keys());
              h.bbs.extend(d.dfg().bbs().keys());
            }
          }
          _ if !fs.is_empty() => {
            let f = p.func_mut(*r.pick(fs));
            block(f, step as i32);
          }
          _ => {}
        }
      }
      let o = ps.iter().map(|(p, _)| dumps_of(p)).collect();
      ps.iter().for_each(|(p, _)| h.of(p));
      o
    }
  }
}

fn block(f: &mut FunctionData, n: i32) {
  let b = f.dfg_mut().new_bb().basic_block(None);
  f.layout_mut().bbs_mut().extend([b]);
  let x = f.params()[0];
  let c = f.dfg_mut().new_value().integer(n);
  let v = f.dfg_mut().new_value().binary(BinaryOp::Add, x, c);
  let t = f.dfg_mut().new_value().ret(Some(v));
  f.layout_mut().bb_mut(b).insts_mut().extend([v, t]);
}
use koopa::ir::builder::BasicBlockBuilder;

/// Creates many handles in a tight loop.
fn mint(n: usize, h: &mut Handles) {
  let mut p = Program::new();
  let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
  for i in 0..n {
    h.values.push(p.new_value().integer(i as i32));
    let d = p.func_mut(f);
    h.values.push(d.dfg_mut().new_value().integer(i as i32));
    if i % 2 == 0 {
      h.bbs.push(d.dfg_mut().new_bb().basic_block(None));
    }
    if i % 8 == 0 {
      h.funcs.push(p.new_func_decl("@g".into(), vec![], Type::get_unit()));
    }
  }
  h.funcs.push(f);
}

#[derive(Default)]
struct Issued {
  values: HashSet<Value>,
  bbs: HashSet<BasicBlock>,
  funcs: HashSet<Function>,
}

/// Handles of this process so far.
static ISSUED: Mutex<Option<Issued>> = Mutex::new(None);

fn unique(cx: &mut Cx, hs: &[Handles]) -> bool {
  let mut g = ISSUED.lock().unwrap();
  let s = g.get_or_insert_with(Issued::default);
  let mut twice = None;
  for (i, h) in hs.iter().enumerate() {
    for v in &h.values {
      if !s.values.insert(*v) {
        twice = Some(format!("{v:?} (last seen on thread {i})"));
      }
    }
    for v in &h.bbs {
      if !s.bbs.insert(*v) {
        twice = Some(format!("{v:?} (last seen on thread {i})"));
      }
    }
    for v in &h.funcs {
      if !s.funcs.insert(*v) {
        twice = Some(format!("{v:?} (last seen on thread {i})"));
      }
    }
    cx.add("handles compared", (h.values.len() + h.bbs.len() + h.funcs.len()) as u64);
  }
  if s.values.len() > 6_000_000 {
    *g = None;
  }
  if let Some(t) = twice {
    cx.fail("handle given out twice", t);
    return false;
  }
  true
}

fn threads(cx: &mut Cx, r: &mut Rng) {
  let nt = *r.pick(&[2, 3, 4, 8]);
  let jobs: Vec<Job> = (0..r.range(2, 6)).map(|_| Job { kind: r.below(4), seed: r.fork().below(1 << 30) as u64 }).collect();
  cx.what = format!("{nt} threads, {jobs:?}");
  // alone, each on a thread of its own
  let mut hs = vec![];
  let mut alone = vec![];
  for j in &jobs {
    let j = *j;
    let t = std::thread::spawn(move || {
      let mut h = Handles::default();
      (work(j, &mut h), h)
    });
    match t.join() {
      Ok((s, h)) => {
        alone.push(s);
        hs.push(h);
      }
      Err(_) => return cx.fail("panic on a thread", format!("{j:?}\n{}", last_panic())),
    }
  }
  // together, in different orders, each job on several threads
  let tight = r.chance(1, 2);
  let bar = Arc::new(Barrier::new(nt));
  let ts: Vec<_> = (0..nt)
    .map(|_| {
      let mut order: Vec<usize> = (0..jobs.len()).collect();
      r.shuffle(&mut order);
      let (jobs, bar, spin) = (jobs.clone(), bar.clone(), r.below(2000));
      std::thread::spawn(move || {
        let mut h = Handles::default();
        let mut out = vec![];
        bar.wait();
        for _ in 0..spin {
          std::hint::spin_loop();
        }
        if tight {
          mint(1500, &mut h);
        }
        for i in order {
          out.push((i, work(jobs[i], &mut h)));
        }
        if tight {
          mint(500, &mut h);
        }
        (out, h)
      })
    })
    .collect();
  cx.count("concurrent runs");
  cx.add("threads", nt as u64);
  for t in ts {
    match t.join() {
      Ok((out, h)) => {
        hs.push(h);
        for (i, s) in out {
          cx.count("results compared with serial ones");
          if s != alone[i] {
            return cx.fail("another result next to other threads", format!("{:?}\n--- alone\n{}\n--- together\n{s}", jobs[i], alone[i]));
          }
        }
      }
      Err(_) => return cx.fail("panic on a thread", last_panic()),
    }
  }
  if unique(cx, &hs) {
    // a global handle is global on every thread, a local one local
    let odd = hs.iter().flat_map(|h| &h.values).filter(|v| v.is_global()).count();
    cx.add("global handles", odd as u64);
  }
}

/// What a driver says and returns.
#[derive(PartialEq, Debug)]
struct Said {
  result: Option<String>,
  counts: (usize, usize),
  text: String,
}

fn start(path: &Option<String>, s: &[u8]) -> Driver<Box<dyn std::io::Read>> {
  match path {
    Some(p) => Driver::new(FileType::File(p.into()), Box::new(Cursor::new(s.to_vec()))),
    None => Driver::new(FileType::Buffer, Box::new(Cursor::new(s.to_vec()))),
  }
}

fn drivers(cx: &mut Cx, r: &mut Rng) {
  let n = r.range(2, 5);
  let mut inputs = vec![];
  for i in 0..n {
    let k = r.range(1, 3);
    let s = match r.below(4) {
      0 => gen_text(r).1.into_bytes(),
      // a text whose first token is already wrong
      1 => {
        let mut s = r.pick(&[b"@1 ".as_slice(), b"/x", b"99999999999999999999 ", b"%", b"fun"]).to_vec();
        s.extend(gen_text(r).1.bytes());
        s
      }
      _ => broken::mutant(r, k).1,
    };
    let path = r.chance(1, 2).then(|| format!("{}/in{i}", cx.scratch));
    if let Some(p) = &path {
      std::fs::write(p, &s).unwrap();
    }
    inputs.push((path, s));
  }
  cx.what = inputs.iter().map(|(p, s)| format!("--- {p:?}\n{}\n", lossy(s))).collect();
  cx.shape(fnv(cx.what.as_bytes()));
  let say = |res: Result<Program, _>| -> Option<String> {
    res.ok().map(|p: Program| lossy(&api::dump_koopa(&p).unwrap_or_default()))
  };
  // alone
  let mut alone = vec![];
  for (p, s) in &inputs {
    let (d, t1) = capture(cx, || start(p, s));
    let (res, t2) = capture(cx, || d.generate_program());
    let counts = (Span::error_num(), Span::warning_num());
    alone.push((lossy(&t1), Said { result: say(res), counts, text: lossy(&t2) }));
  }
  // interleaved: drivers are made and run in some order
  let mut live: Vec<Option<Driver<Box<dyn std::io::Read>>>> = (0..n).map(|_| None).collect();
  let mut kept: Vec<(usize, Program)> = vec![];
  let mut todo: Vec<usize> = (0..n).flat_map(|i| [i, i]).collect();
  r.shuffle(&mut todo);
  for i in todo {
    if live[i].is_none() {
      let (d, t) = capture(cx, || start(&inputs[i].0, &inputs[i].1));
      if lossy(&t) != alone[i].0 {
        return cx.fail("driver says something else when made next to others", format!("input {i}\n--- alone\n{}\n--- together\n{}\n{}", alone[i].0, lossy(&t), cx.what));
      }
      live[i] = Some(d);
      continue;
    }
    let d = live[i].take().unwrap();
    if r.chance(1, 6) {
      // dropped, not run
      drop(d);
      cx.count("drivers dropped");
      continue;
    }
    let (res, t) = capture(cx, || d.generate_program());
    let counts = (Span::error_num(), Span::warning_num());
    cx.count("drivers run");
    let got = Said { result: None, counts, text: lossy(&t) };
    let want = &alone[i].1;
    // the order of warnings may differ between two runs
    let key = |s: &str| {
      let mut v: Vec<String> = s.lines().map(|l| l.to_string()).collect();
      v.sort();
      v
    };
    if got.counts != want.counts || key(&got.text) != key(&want.text) || res.is_ok() != want.result.is_some() {
      return cx.fail("driver reports something else next to others", format!("input {i}\n--- alone\n{want:?}\n--- together\n{:?} {}\n{}", got, res.is_ok(), cx.what));
    }
    if let Ok(p) = res {
      kept.push((i, p));
    }
  }
  let mut h = Handles::default();
  for (i, p) in &kept {
    cx.count("programs kept");
    if let Err(e) = verify::verify(p) {
      return cx.fail("program is ill-formed next to others", e);
    }
    if Some(lossy(&api::dump_koopa(p).unwrap_or_default())) != alone[*i].1.result {
      return cx.fail("another program next to others", format!("input {i}\n{}", cx.what));
    }
    h.of(p);
  }
  unique(cx, &[h]);
}

/// Programs built side by side on one thread, one entity at a time: their
/// own entities only.
fn programs(cx: &mut Cx, r: &mut Rng) {
  let ms: Vec<Prog> = (0..r.range(2, 4))
    .map(|_| {
      let cfg = Cfg::text(r);
      gen::gen(r, &cfg)
    })
    .collect();
  let mut built: Vec<Option<Program>> = ms.iter().map(|_| None).collect();
  let mut order: Vec<usize> = (0..ms.len()).collect();
  r.shuffle(&mut order);
  let mut h = Handles::default();
  for i in order {
    built[i] = Some(if r.chance(1, 2) {
      api::build(&ms[i], r).0
    } else {
      let s = emit::text(&ms[i], r, &emit::Style { wild: false, shuffle: false, dead: false });
      match api::parse(s.as_bytes()) {
        Ok(p) => p,
        Err(_) => return cx.fail("well-formed text rejected", s),
      }
    });
    if r.chance(1, 4) {
      // dropping a program does not disturb the others
      built[i] = None;
    }
  }
  for (m, p) in ms.iter().zip(&built) {
    let Some(p) = p else { continue };
    cx.count("programs side by side");
    match api::extract(p) {
      Err(e) => return cx.fail("program is broken next to others", e),
      Ok(g) => {
        if let Some(d) = diff(&m.clone().canon().erase_decl_names(), &g.canon().erase_decl_names()) {
          return cx.fail("program changed next to others", format!("{d}\n{}", show(m)));
        }
      }
    }
    if let Err(e) = verify::verify(p) {
      return cx.fail("program is ill-formed next to others", e);
    }
    h.of(p);
  }
  unique(cx, &[h]);
}

fn c16(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C16", idx);
  match idx % 8 {
    0..=2 => {
      threads(cx, &mut r);
      let w = cx.what.clone();
      cx.shape(fnv(w.as_bytes()));
    }
    3..=6 => drivers(cx, &mut r),
    _ => programs(cx, &mut r),
  }
  if idx < 4 {
    let s = cx.what.clone();
    cx.sample(|| s);
  }
}

pub static CHECKS: &[&Check] = &[&Check {
  id: "C16",
  rule: "sets of jobs (parse, build, edit, types) run alone and then on two to eight threads at once in random orders; sets of drivers made, run and dropped in random order on one thread; programs built side by side; results, diagnostics, counts and all handles are compared; distinct job sets and inputs",
  cases: (18000, 100000),
  limit: (150, 1500),
  case: c16,
  workers: 0,
  assumptions: &["interleavings are those the scheduler produced after a common start and random delays", "a driver is not run from inside the reader of another driver"],
}];
