//! C25: generators, visitors and the name manager. C26: parts of values.

use crate::api;
use crate::fw::*;
use crate::gen::{self, Cfg, Names};
use crate::model::show;
use crate::rng::{fnv, Rng};
use koopa::back::{Generator, KoopaGenerator, NameManager, Prefix, Visitor};
use koopa::ir::entities::{FunctionData, ValueData};
use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Value, ValueKind};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};
use std::num::NonZeroUsize;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Key {
  Fun(Function),
  Val(Value),
  Bb(BasicBlock),
  Temp(usize),
}

/// What the visitor saw.
#[derive(Default)]
struct Log {
  calls: usize,
  program: usize,
  text: Vec<u8>,
  bad: Option<(String, String)>,
  trace: Vec<String>,
  stats: BTreeMap<&'static str, u64>,
  want: Option<Result<u64, io::ErrorKind>>,
}

struct Asker {
  r: Rng,
  log: Rc<RefCell<Log>>,
}

/// Names in force.
struct Book {
  prefix: Option<(String, String, Option<usize>)>,
  global: HashMap<Key, String>,
  local: HashMap<Key, String>,
}

impl Book {
  fn expected(&self, given: &str) -> Option<String> {
    match &self.prefix {
      None => {
        let number = given.starts_with('%') && given[1..].bytes().all(|c| c.is_ascii_digit());
        (!number).then(|| given.to_string())
      }
      Some((n, t, max)) => {
        let s = format!("{}{}", if given.starts_with('@') { n } else { t }, &given[1..]);
        max.is_none_or(|m| s.len() <= m).then_some(s)
      }
    }
  }

  fn got(&mut self, key: Key, local: bool, given: Option<&str>, name: &str) -> Result<&'static str, String> {
    let is_bb = |k: &Key| matches!(k, Key::Bb(_));
    if let Some(old) = self.global.get(&key).or(self.local.get(&key)) {
      return match old == name {
        true => Ok("asked again"),
        false => Err(format!("name changes: `{old}`, then `{name}`")),
      };
    }
    let apart = self.prefix.is_none();
    let mut taken = vec![];
    for (k, n) in self.global.iter().chain(&self.local) {
      if !apart || is_bb(k) == is_bb(&key) {
        taken.push(n.as_str());
        if n == name {
          return Err(format!("`{name}` is the name of {k:?} and of {key:?}"));
        }
      }
    }
    let mut what = "names made up";
    match given {
      Some(g) => match self.expected(g) {
        Some(e) if !taken.contains(&e.as_str()) => {
          if e != name {
            return Err(format!("given name `{g}` is free, but written `{name}`"));
          }
          what = "given names kept";
        }
        _ => what = "given names changed",
      },
      None => {
        let ok = match &self.prefix {
          None => name.len() > 1 && name.starts_with('%') && name[1..].bytes().all(|c| c.is_ascii_digit()),
          Some((_, t, _)) => name.starts_with(t.as_str()),
        };
        if !ok {
          return Err(format!("`{name}` is no temporary name"));
        }
      }
    }
    if let Some((_, _, Some(m))) = &self.prefix {
      // a suffix may come after what is left
      let given = given.map_or(0, |g| g.len());
      if given > 0 && name.len() > m + 8 {
        return Err(format!("`{name}` is longer than {m}"));
      }
    }
    if local { &mut self.local } else { &mut self.global }.insert(key, name.to_string());
    Ok(what)
  }
}

impl<W: Write> Visitor<W> for Asker {
  type Output = u64;

  fn visit(&mut self, w: &mut W, nm: &mut NameManager, program: &Program) -> io::Result<u64> {
    let log = self.log.clone();
    let mut log = log.borrow_mut();
    let r = &mut self.r;
    log.calls += 1;
    log.program = program as *const _ as usize;
    let mut b = Book { prefix: None, global: HashMap::new(), local: HashMap::new() };
    if r.chance(1, 2) {
      let (named, temp) = *r.pick(&[("@", "%"), ("g_", "t"), ("", ""), ("v", "v"), ("%", "%v"), ("x", "x_")]);
      let max = r.chance(1, 2).then(|| *r.pick(&[2, 4, 6, 12, 60]));
      log.trace.push(format!("prefix {named:?} {temp:?} {max:?}"));
      nm.set_prefix(Prefix::Custom { named: named.into(), temp: temp.into(), max_len: max.and_then(NonZeroUsize::new) });
      b.prefix = Some((named.into(), temp.into(), max));
    }
    let funcs = program.func_layout();
    let mut globals = program.inst_layout().to_vec();
    let mut scope: Option<(Vec<BasicBlock>, Vec<Value>, &FunctionData)> = None;
    let mut temps = 0;
    let steps = r.range(3, 70);
    for _ in 0..steps {
      let (key, local, given, name) = match (r.below(8), &scope) {
        (0, _) if !funcs.is_empty() => {
          let f = *r.pick(funcs);
          let d = program.func(f);
          (Key::Fun(f), false, Some(d.name().to_string()), nm.func_name(d))
        }
        (1, _) if !globals.is_empty() => {
          r.shuffle(&mut globals);
          let d = program.borrow_value(globals[0]);
          (Key::Val(globals[0]), false, d.name().clone(), nm.value_name(&d))
        }
        (2, s) => {
          temps += 1;
          (Key::Temp(temps), s.is_some(), None, nm.temp_value_name())
        }
        (3 | 4, None) if !funcs.is_empty() => {
          let d = program.func(*r.pick(funcs));
          let mut vs = if d.layout().bbs().is_empty() { vec![] } else { d.params().to_vec() };
          let mut bbs = vec![];
          for (bb, n) in d.layout().bbs() {
            bbs.push(*bb);
            vs.extend(d.dfg().bb(*bb).params());
            vs.extend(n.insts().keys());
          }
          nm.enter_func_scope();
          b.local.clear();
          *log.stats.entry("scopes entered").or_insert(0) += 1;
          log.trace.push(format!("enter {}", d.name()));
          scope = Some((bbs, vs, d));
          continue;
        }
        (3, Some(_)) => {
          nm.exit_func_scope();
          scope = None;
          b.local.clear();
          log.trace.push("exit".into());
          continue;
        }
        (4 | 5, Some((bbs, _, d))) if !bbs.is_empty() => {
          let bb = *r.pick(bbs);
          let d = d.dfg().bb(bb);
          (Key::Bb(bb), true, d.name().clone(), nm.bb_name(d))
        }
        (6 | 7, Some((_, vs, d))) if !vs.is_empty() => {
          let v = *r.pick(vs);
          let d = d.dfg().value(v);
          (Key::Val(v), true, d.name().clone(), nm.value_name(d))
        }
        _ => {
          let s = format!("[{}]", r.below(1000));
          w.write_all(s.as_bytes())?;
          log.text.extend(s.as_bytes());
          continue;
        }
      };
      log.trace.push(format!("{key:?} {given:?} -> {name}"));
      writeln!(w, "{name}")?;
      log.text.extend(format!("{name}\n").as_bytes());
      match b.got(key, local, given.as_deref(), &name) {
        Ok(k) => *log.stats.entry(k).or_insert(0) += 1,
        Err(e) => {
          let t = log.trace.join("\n");
          log.bad.get_or_insert((e.split(['`', ':']).next().unwrap_or("").trim().to_string(), format!("{e}\n{t}")));
          break;
        }
      }
    }
    // misuse
    if r.chance(1, 4) {
      let refused = match (&scope, r.below(2)) {
        (Some(_), 0) => guarded(|| nm.enter_func_scope()).is_err(),
        (Some((_, _, d)), _) => match d.dfg().values().values().find(|v| v.kind().is_const()) {
          Some(v) => guarded(|| nm.value_name(v)).is_err(),
          None => true,
        },
        (None, _) => guarded(|| nm.exit_func_scope()).is_err(),
      };
      *log.stats.entry("misuses").or_insert(0) += 1;
      if !refused {
        log.bad.get_or_insert(("misuse is not refused".into(), "scope entered twice, left twice, or a constant named".into()));
      }
    }
    let want = match r.below(4) {
      0 => Err(*r.pick(&[io::ErrorKind::Other, io::ErrorKind::WriteZero, io::ErrorKind::NotFound])),
      _ => Ok(r.next()),
    };
    log.want = Some(want);
    want.map_err(|k| k.into())
  }
}

fn c25(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C25", idx);
  let mut cfg = Cfg::text(&mut r);
  cfg.ordered = false;
  if r.chance(4, 5) {
    cfg.names = Names::Clash;
  }
  let ps: Vec<_> = (0..r.range(1, 2))
    .map(|_| {
      let m = gen::gen(&mut r, &cfg);
      let mut p = api::build(&m, &mut r).0;
      // names given twice
      if r.chance(1, 3) {
        let fs = p.func_layout().to_vec();
        for _ in 0..r.range(1, 3) {
          if let (Some(f), Some(g)) = (fs.first().and(Some(*r.pick(&fs))), fs.first().and(Some(*r.pick(&fs)))) {
            let name = p.func(f).name().to_string();
            p.func_mut(g).set_name(name);
          }
        }
      }
      (p, show(&m))
    })
    .collect();
  cx.what = ps[0].1.clone();
  let log = Rc::new(RefCell::new(Log::default()));
  let mut g = Generator::with_visitor(Vec::new(), Asker { r: r.fork(), log: log.clone() });
  for n in 1..=r.range(1, 4) {
    let (p, text) = r.pick(&ps);
    let got = g.generate_on(p).map_err(|e| e.kind());
    let mut l = log.borrow_mut();
    if let Some((s, d)) = l.bad.take() {
      return cx.fail(s, format!("run {n}: {d}\n{text}"));
    }
    if l.calls != n || l.program != p as *const _ as usize {
      return cx.fail("visitor is not called once with the program", format!("{} calls in {n} runs", l.calls));
    }
    let want = l.want.take();
    if want != Some(got) {
      return cx.fail("result of the visitor is not returned", format!("{want:?}, {got:?}"));
    }
    l.trace.push("-- next run".into());
    cx.count("runs");
  }
  let l = log.borrow();
  cx.shape(fnv(&l.text));
  if g.writer() != l.text {
    return cx.fail("what the visitor wrote is not in the writer", "");
  }
  for (k, v) in &l.stats {
    cx.add(k, *v);
  }
  if idx < 2 {
    cx.sample(|| l.trace.join("\n"));
  }
  // the ways to make a generator
  if idx % 8 == 0 {
    let (p, _) = &ps[0];
    let a = api::dump_koopa(p);
    let mut g = KoopaGenerator::with_visitor(Vec::new(), Default::default());
    let b = g.generate_on(p).map(|_| g.writer()).map_err(|e| e.to_string());
    if a != b {
      return cx.fail("text depends on how the generator was made", format!("{a:?}\n{b:?}"));
    }
    let path = format!("{}/out.koopa", cx.scratch);
    let _ = std::fs::write(&path, vec![b'x'; r.below(3000)]);
    match KoopaGenerator::from_path(&path) {
      Ok(mut g) => {
        let _ = g.generate_on(p);
        drop(g);
        if std::fs::read(&path).ok() != a.ok() {
          return cx.fail("the file does not hold the text", "");
        }
        cx.count("files written");
      }
      Err(e) => return cx.fail("file not made", e.to_string()),
    }
    if KoopaGenerator::from_path(format!("{}/none/out", cx.scratch)).is_ok() {
      return cx.fail("a file that can not be made is not reported", "");
    }
  }
}

/// One component of a value.
#[derive(Clone, PartialEq, Debug)]
enum Part {
  Int(i32),
  Index(usize),
  V(Value),
  B(BasicBlock),
  F(Function),
  Op(BinaryOp),
  Vs(Vec<Value>),
  Opt(Option<Value>),
}
use Part::*;

fn parts(k: &ValueKind) -> Vec<Part> {
  match k {
    ValueKind::Integer(x) => vec![Int(x.value())],
    ValueKind::ZeroInit(_) | ValueKind::Undef(_) | ValueKind::Alloc(_) => vec![],
    ValueKind::Aggregate(x) => vec![Vs(x.elems().to_vec())],
    ValueKind::FuncArgRef(x) => vec![Index(x.index())],
    ValueKind::BlockArgRef(x) => vec![Index(x.index())],
    ValueKind::GlobalAlloc(x) => vec![V(x.init())],
    ValueKind::Load(x) => vec![V(x.src())],
    ValueKind::Store(x) => vec![V(x.value()), V(x.dest())],
    ValueKind::GetPtr(x) => vec![V(x.src()), V(x.index())],
    ValueKind::GetElemPtr(x) => vec![V(x.src()), V(x.index())],
    ValueKind::Binary(x) => vec![Op(x.op()), V(x.lhs()), V(x.rhs())],
    ValueKind::Branch(x) => {
      vec![V(x.cond()), B(x.true_bb()), B(x.false_bb()), Vs(x.true_args().to_vec()), Vs(x.false_args().to_vec())]
    }
    ValueKind::Jump(x) => vec![B(x.target()), Vs(x.args().to_vec())],
    ValueKind::Call(x) => vec![F(x.callee()), Vs(x.args().to_vec())],
    ValueKind::Return(x) => vec![Opt(x.value())],
  }
}

/// Where a component is written.
enum Slot<'a> {
  Int(&'a mut i32),
  Index(&'a mut usize),
  V(&'a mut Value),
  B(&'a mut BasicBlock),
  F(&'a mut Function),
  Op(&'a mut BinaryOp),
  Vs(&'a mut Vec<Value>),
  Opt(&'a mut Option<Value>),
}

fn slot(k: &mut ValueKind, i: usize) -> Slot<'_> {
  match k {
    ValueKind::Integer(x) => Slot::Int(x.value_mut()),
    ValueKind::ZeroInit(_) | ValueKind::Undef(_) | ValueKind::Alloc(_) => unreachable!(),
    ValueKind::Aggregate(x) => Slot::Vs(x.elems_mut()),
    ValueKind::FuncArgRef(x) => Slot::Index(x.index_mut()),
    ValueKind::BlockArgRef(x) => Slot::Index(x.index_mut()),
    ValueKind::GlobalAlloc(x) => Slot::V(x.init_mut()),
    ValueKind::Load(x) => Slot::V(x.src_mut()),
    ValueKind::Store(x) => Slot::V(if i == 0 { x.value_mut() } else { x.dest_mut() }),
    ValueKind::GetPtr(x) => Slot::V(if i == 0 { x.src_mut() } else { x.index_mut() }),
    ValueKind::GetElemPtr(x) => Slot::V(if i == 0 { x.src_mut() } else { x.index_mut() }),
    ValueKind::Binary(x) => match i {
      0 => Slot::Op(x.op_mut()),
      1 => Slot::V(x.lhs_mut()),
      _ => Slot::V(x.rhs_mut()),
    },
    ValueKind::Branch(x) => match i {
      0 => Slot::V(x.cond_mut()),
      1 => Slot::B(x.true_bb_mut()),
      2 => Slot::B(x.false_bb_mut()),
      3 => Slot::Vs(x.true_args_mut()),
      _ => Slot::Vs(x.false_args_mut()),
    },
    ValueKind::Jump(x) => match i {
      0 => Slot::B(x.target_mut()),
      _ => Slot::Vs(x.args_mut()),
    },
    ValueKind::Call(x) => match i {
      0 => Slot::F(x.callee_mut()),
      _ => Slot::Vs(x.args_mut()),
    },
    ValueKind::Return(x) => Slot::Opt(x.value_mut()),
  }
}

/// What there is to put into components.
struct Stock {
  vals: Vec<Value>,
  bbs: Vec<BasicBlock>,
  funcs: Vec<Function>,
}

fn judge_parts(cx: &mut Cx, d: &ValueData, s: &Stock, r: &mut Rng) -> Result<(), String> {
  let k = d.kind();
  let ps = parts(k);
  let name = format!("{k:?}");
  let name = name.split(['(', ' ']).next().unwrap().to_string();
  // what it uses
  let (mut vs, mut bs) = (vec![], vec![]);
  for p in &ps {
    match p {
      V(v) => vs.push(*v),
      Vs(l) => vs.extend(l),
      Opt(v) => vs.extend(v),
      B(b) => bs.push(*b),
      _ => {}
    }
  }
  let count = |l: &[Value]| l.iter().fold(HashMap::new(), |mut m: HashMap<Value, usize>, v| {
    *m.entry(*v).or_insert(0) += 1;
    m
  });
  let limit = vs.len() + 10;
  let got: Vec<Value> = k.value_uses().take(limit).collect();
  if count(&got) != count(&vs) {
    return Err(format!("{name}: uses {vs:?}, listed {got:?}"));
  }
  let got: Vec<BasicBlock> = k.bb_uses().take(limit).collect();
  let order = |v: &[BasicBlock]| {
    let mut v: Vec<String> = v.iter().map(|b| format!("{b:?}")).collect();
    v.sort();
    v
  };
  if order(&got) != order(&bs) {
    return Err(format!("{name}: uses {bs:?}, listed {got:?}"));
  }
  cx.add("uses listed", (vs.len() + bs.len()) as u64);
  // what it is
  let is = (
    matches!(name.as_str(), "Integer" | "ZeroInit" | "Undef" | "Aggregate"),
    name == "GlobalAlloc",
    !matches!(name.as_str(), "Integer" | "ZeroInit" | "Undef" | "Aggregate" | "GlobalAlloc" | "FuncArgRef" | "BlockArgRef"),
  );
  let got = (k.is_const(), k.is_global_alloc(), k.is_local_inst());
  if is != got {
    return Err(format!("{name}: constant, global, local instruction: {is:?}, told {got:?}"));
  }
  // copies
  let c = d.clone();
  if parts(c.kind()) != ps || c.ty() != d.ty() || c.name() != d.name() || !c.used_by().is_empty() {
    return Err(format!("{name}: the copy differs"));
  }
  cx.count(&format!("kind {name}"));
  // every component by itself
  for i in 0..ps.len() {
    let mut k = k.clone();
    let new = match slot(&mut k, i) {
      Slot::Int(x) => {
        *x = r.int();
        Int(*x)
      }
      Slot::Index(x) => {
        *x = r.below(1 << 40);
        Index(*x)
      }
      Slot::V(x) => {
        *x = *r.pick(&s.vals);
        V(*x)
      }
      Slot::B(x) => {
        *x = *r.pick(&s.bbs);
        B(*x)
      }
      Slot::F(x) => {
        *x = *r.pick(&s.funcs);
        F(*x)
      }
      Slot::Op(x) => {
        *x = api::bop(r.pick(&crate::model::BOPS).0);
        Op(*x)
      }
      Slot::Vs(x) => {
        match r.below(3) {
          0 => x.push(*r.pick(&s.vals)),
          1 => x.clear(),
          _ => *x = (0..r.below(4)).map(|_| *r.pick(&s.vals)).collect(),
        }
        Vs(x.clone())
      }
      Slot::Opt(x) => {
        *x = r.chance(2, 3).then(|| *r.pick(&s.vals));
        Opt(*x)
      }
    };
    let mut want = ps.clone();
    want[i] = new;
    let got = parts(&k);
    if got != want {
      return Err(format!("{name}: after writing component {i}: {want:?}, read {got:?}"));
    }
    cx.count("components written");
  }
  Ok(())
}

fn c26(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C26", idx);
  let mut cfg = Cfg::text(&mut r);
  cfg.ordered = false;
  cfg.rich_consts = r.chance(1, 2);
  let m = gen::gen(&mut r, &cfg);
  cx.what = show(&m);
  if m.n_insts() > 3 {
    cx.shape(m.shape());
  }
  let p = api::build(&m, &mut r).0;
  let gs = p.borrow_values();
  for f in p.func_layout() {
    let d = p.func(*f);
    let mut s = Stock { vals: d.dfg().values().keys().chain(gs.keys()).copied().collect(), bbs: d.dfg().bbs().keys().copied().collect(), funcs: p.func_layout().to_vec() };
    s.vals.sort_by_key(|v| format!("{v:?}"));
    s.bbs.sort_by_key(|v| format!("{v:?}"));
    let mut all: Vec<_> = d.dfg().values().iter().map(|(v, d)| (false, v, d)).chain(gs.iter().map(|(v, d)| (true, v, d))).collect();
    all.sort_by_key(|(_, v, _)| format!("{v:?}"));
    for (global, v, d) in all {
      if v.is_global() != global {
        return cx.fail("global values are mistaken for local ones", format!("{v:?}\n{}", cx.what));
      }
      if let Err(e) = judge_parts(cx, d, &s, &mut r) {
        let sig = e.split(':').next().unwrap().to_string();
        return cx.fail(format!("wrong parts of {sig}"), format!("{e}\n{}", cx.what));
      }
    }
  }
}

pub static CHECKS: &[&Check] = &[
  &Check {
    id: "C25",
    rule: "a visitor that asks for names of functions, globals, blocks, values and temporaries in random order, under the default and under custom prefixes with length limits, entering and leaving functions, on one or two programs with clashing names, run up to four times by one generator; every answer is judged against the names in force; distinct texts written",
    cases: (150000, 4000000),
    limit: (60, 1200),
    case: c25,
    workers: 0,
    assumptions: &["names are ASCII", "the prefix is set before the first name is asked for"],
  },
  &Check {
    id: "C26",
    rule: "every value of generated programs: listed uses against components read one by one, classification against the kind, copies, and every component written by itself and all read back; non-trivial: more than 3 instructions, distinct by shape",
    cases: (60000, 2000000),
    limit: (60, 1200),
    case: c26,
    workers: 0,
    assumptions: &[],
  },
];
