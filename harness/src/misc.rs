//! Types (C10), names in the output (C11), passes (C17), repeatability (C18),
//! equality of values (C21).

use crate::fw::*;
use crate::gen::{self, Cfg, Names};
use crate::llvm;
use crate::model::*;
use crate::rng::{fnv, Rng};
use crate::text::{lossy, observe};
use crate::{api, emit};
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;
use koopa::opt::{FunctionPass, ModulePass, Pass, PassManager};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// --- C10

fn rty(r: &mut Rng, pool: &[T], d: usize) -> T {
  if !pool.is_empty() && r.chance(1, 4) {
    // near relatives of earlier types
    let t = r.pick(pool).clone();
    return vary(r, &t);
  }
  match r.below(if d == 0 { 2 } else { 8 }) {
    0 => T::I32,
    1 => T::Unit,
    2 | 3 => T::ptr(rty(r, pool, d - 1)),
    4 | 5 => T::arr(rty(r, pool, d - 1), *r.pick(&[1, 2, 3, 4, 10, 16, 255, 65536, 1 << 20, (1 << 31) - 1, 1 << 32, (1 << 32) + 2])),
    _ => {
      let n = r.below(4);
      T::fun((0..n).map(|_| rty(r, pool, d - 1)).collect(), rty(r, pool, d - 1))
    }
  }
}

/// The type itself or one differing in one place.
fn vary(r: &mut Rng, t: &T) -> T {
  match (r.below(4), t) {
    (0, _) => t.clone(),
    (1, T::Ptr(x)) => T::ptr(vary(r, x)),
    (1, T::Arr(x, n)) => T::arr(vary(r, x), *n),
    (2, T::Arr(x, n)) => T::arr((**x).clone(), n + 1),
    (2, T::Ptr(x)) => T::arr((**x).clone(), 1),
    (1, T::Fun(ps, x)) => T::fun(ps.clone(), vary(r, x)),
    (2, T::Fun(ps, x)) => {
      let mut ps = ps.clone();
      match r.below(4) {
        0 => ps.push(T::I32),
        1 => {
          ps.pop();
        }
        2 if ps.len() > 1 => ps.swap(0, 1),
        _ if !ps.is_empty() => {
          let i = r.below(ps.len());
          ps[i] = vary(r, &ps[i].clone());
        }
        _ => {}
      }
      T::fun(ps, (**x).clone())
    }
    (3, T::Fun(ps, x)) if r.chance(1, 2) => {
      // () : T against T as parameter and so on
      let mut ps = ps.clone();
      ps.insert(0, (**x).clone());
      T::fun(ps, T::Unit)
    }
    _ => T::ptr(t.clone()),
  }
}

fn hash(t: &Type) -> u64 {
  let mut h = DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

/// Builds the type bottom up, sometimes through `Type::get`.
fn build_ty(r: &mut Rng, t: &T) -> Type {
  let raw = r.chance(1, 2);
  match t {
    T::I32 if raw => Type::get(TypeKind::Int32),
    T::I32 => Type::get_i32(),
    T::Unit if raw => Type::get(TypeKind::Unit),
    T::Unit => Type::get_unit(),
    T::Ptr(x) => {
      let x = build_ty(r, x);
      if raw {
        Type::get(TypeKind::Pointer(x))
      } else {
        Type::get_pointer(x)
      }
    }
    T::Arr(x, n) => {
      let x = build_ty(r, x);
      if raw {
        Type::get(TypeKind::Array(x, *n))
      } else {
        Type::get_array(x, *n)
      }
    }
    T::Fun(ps, x) => {
      let (x, ps) = if r.chance(1, 2) {
        let x = build_ty(r, x);
        (x, ps.iter().map(|p| build_ty(r, p)).collect())
      } else {
        let ps = ps.iter().map(|p| build_ty(r, p)).collect();
        (build_ty(r, x), ps)
      };
      if raw {
        Type::get(TypeKind::Function(ps, x))
      } else {
        Type::get_function(ps, x)
      }
    }
  }
}

fn size_fits(t: &T) -> bool {
  fn sz(t: &T) -> u128 {
    match t {
      T::Arr(x, n) => sz(x).saturating_mul(*n as u128),
      T::Unit => 0,
      T::I32 => 4,
      _ => 32,
    }
  }
  sz(t) < 1 << 60
}

/// Whether the text form has a spelling for it (there is none for unit).
fn spelled(t: &T) -> bool {
  match t {
    T::I32 => true,
    T::Unit => false,
    T::Ptr(x) => spelled(x),
    T::Arr(x, _) => spelled(x),
    T::Fun(ps, x) => ps.iter().all(spelled) && (**x == T::Unit || spelled(x)),
  }
}

#[derive(Default)]
struct TyLog {
  pairs: u64,
  equal: u64,
  parsed: u64,
  err: Option<(String, String)>,
}

fn ty_round(mut r: Rng, ps: usize, models: &[T], parse: bool) -> TyLog {
  let mut log = TyLog::default();
  let mut live: Vec<(T, Type)> = vec![];
  let mut bad = |s: &str, d: String| {
    if log.err.is_none() {
      log.err = Some((s.to_string(), d));
    }
  };
  for round in 0..2 {
    let mut order: Vec<usize> = (0..models.len()).collect();
    r.shuffle(&mut order);
    for i in order {
      let m = &models[i];
      let t = build_ty(&mut r, m);
      if api::from_ty(&t) != *m {
        bad("type has another structure", format!("wanted {m}, got {t}"));
      }
      if t.to_string() != m.to_string() || format!("{t:?}") != m.to_string() || t.kind().to_string() != m.to_string() {
        bad("type prints wrongly", format!("wanted `{m}`, printed `{t}`"));
      }
      if t.is_i32() != (*m == T::I32) || t.is_unit() != (*m == T::Unit) {
        bad("kind test is wrong", m.to_string());
      }
      if size_fits(m) && t.size() != m.size(ps) {
        bad("size is wrong", format!("{m}: wanted {}, got {}", m.size(ps), t.size()));
      }
      live.push((m.clone(), t));
      if round == 1 && r.chance(1, 3) {
        let k = r.below(live.len());
        live.swap_remove(k);
      }
    }
    for i in 0..live.len() {
      for j in 0..live.len() {
        let ((a, x), (b, y)) = (&live[i], &live[j]);
        log.pairs += 1;
        let e = a == b;
        log.equal += e as u64;
        if (x == y) != e || (x != y) == e {
          bad(if e { "equal types compare different" } else { "different types compare equal" }, format!("{a} and {b}"));
        }
        if e && hash(x) != hash(y) {
          bad("equal types hash differently", a.to_string());
        }
        if (x.kind() == y.kind()) != e {
          bad("kinds compare wrongly", format!("{a} and {b}"));
        }
      }
    }
    let set: HashSet<Type> = live.iter().map(|x| x.1.clone()).collect();
    let want: HashSet<T> = live.iter().map(|x| x.0.clone()).collect();
    if set.len() != want.len() {
      bad("types as keys", format!("{} keys for {} types", set.len(), want.len()));
    }
  }
  if parse {
    let ts: Vec<&(T, Type)> = live.iter().filter(|x| spelled(&x.0)).take(20).collect();
    let src: String = ts.iter().enumerate().map(|(i, (_, t))| format!("decl @f{i}({t}, i32): {t}\n")).collect();
    match api::parse(src.as_bytes()) {
      Err(_) => bad("printed types are rejected", src),
      Ok(p) => {
        for ((m, t), f) in ts.iter().zip(p.func_layout()) {
          log.parsed += 1;
          let want = Type::get_function(vec![t.clone(), Type::get_i32()], t.clone());
          if *p.func(*f).ty() != want {
            bad("printed type parses to another", format!("{m} as {}", p.func(*f).ty()));
          }
        }
      }
    }
  }
  log
}

fn c10(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C10", idx);
  let mut models = vec![];
  let n = r.range(4, 22);
  for _ in 0..n {
    let d = r.range(0, 5);
    let t = rty(&mut r, &models, d);
    if t.depth() < 12 {
      models.push(t);
    }
  }
  cx.what = models.iter().map(|t| format!("{t}\n")).collect();
  cx.shape(fnv(cx.what.as_bytes()));
  if idx < 2 {
    let s = cx.what.clone();
    cx.sample(|| s);
  }
  let ps = if r.chance(1, 2) {
    std::mem::size_of::<*const ()>()
  } else {
    *r.pick(&[1, 2, 4, 8, 16, 0])
  };
  Type::set_ptr_size(ps);
  let nt = *r.pick(&[1, 1, 2, 4]);
  let mut logs = vec![];
  if nt == 1 {
    let rr = r.fork();
    logs.push(ty_round(rr, ps, &models, true));
  } else {
    cx.add("threads", nt);
    let hs: Vec<_> = (0..nt)
      .map(|_| {
        let (rr, ms) = (r.fork(), models.iter().map(|t| t.to_string()).collect::<Vec<_>>());
        // models are made anew on the thread: they do not cross threads
        std::thread::spawn(move || {
          let ms: Vec<T> = ms.iter().map(|s| read_ty(s)).collect();
          ty_round(rr, ps, &ms, true)
        })
      })
      .collect();
    for h in hs {
      match h.join() {
        Ok(l) => logs.push(l),
        Err(_) => cx.fail("panic on a thread", last_panic()),
      }
    }
  }
  // sizes of types that are alive follow the pointer size, wherever it is set
  let alive: Vec<Type> = models.iter().map(|m| build_ty(&mut r, m)).collect();
  for _ in 0..3 {
    let ps = *r.pick(&[1, 2, 4, 8, 16]);
    let elsewhere = r.chance(1, 2);
    if elsewhere {
      let _ = std::thread::spawn(move || Type::set_ptr_size(ps)).join();
    } else {
      Type::set_ptr_size(ps);
    }
    for (m, t) in models.iter().zip(&alive) {
      if size_fits(m) {
        cx.count("sizes after a change of pointer size");
        if t.size() != m.size(ps) {
          let d = format!("{m}: wanted {}, got {}, set on {} thread", m.size(ps), t.size(), if elsewhere { "another" } else { "this" });
          return cx.fail("size is wrong after a change of pointer size", d);
        }
      }
    }
  }
  Type::set_ptr_size(std::mem::size_of::<*const ()>());
  if Type::get_pointer(Type::get_i32()).size() != std::mem::size_of::<*const ()>() {
    cx.fail("pointer size not restored", "");
  }
  cx.add("types built", 2 * models.len() as u64 * nt);
  for l in logs {
    cx.add("pairs compared", l.pairs);
    cx.add("equal pairs", l.equal);
    cx.add("types parsed back", l.parsed);
    if let Some((s, d)) = l.err {
      let w = cx.what.clone();
      cx.fail(s, format!("{d}\npointer size {ps}, {nt} threads\n{w}"));
    }
  }
  if idx == 0 {
    // lengths of arrays are positive
    cx.count("refused requests");
    if guarded(|| Type::get_array(Type::get_i32(), 0)).is_ok() {
      cx.fail("array of length zero", "");
    }
  }
}

/// Reads a type in the spelling of the model (with `unit`).
fn read_ty(s: &str) -> T {
  fn go(b: &[u8], i: &mut usize) -> T {
    let ws = |i: &mut usize| {
      while b.get(*i) == Some(&b' ') {
        *i += 1;
      }
    };
    ws(i);
    match b[*i] {
      b'*' => {
        *i += 1;
        T::ptr(go(b, i))
      }
      b'[' => {
        *i += 1;
        let t = go(b, i);
        *i += 1;
        ws(i);
        let mut n = 0;
        while b[*i].is_ascii_digit() {
          n = n * 10 + (b[*i] - b'0') as usize;
          *i += 1;
        }
        *i += 1;
        T::arr(t, n)
      }
      b'(' => {
        *i += 1;
        let mut ps = vec![];
        while b[*i] != b')' {
          ps.push(go(b, i));
          if b[*i] == b',' {
            *i += 1;
          }
        }
        *i += 1;
        if b.get(*i) == Some(&b':') {
          *i += 1;
          let r = go(b, i);
          return T::fun(ps, r);
        }
        T::fun(ps, T::Unit)
      }
      b'i' => {
        *i += 3;
        T::I32
      }
      _ => {
        *i += 4;
        T::Unit
      }
    }
  }
  go(s.as_bytes(), &mut 0)
}

// --- C11

/// An entity of a program: kind, function, block, index.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum E {
  Glob(usize),
  Fun(usize),
  Par(usize, usize),
  Bb(usize, usize),
  BPar(usize, usize, usize),
  Val(usize, usize, usize),
}

/// Entities in the order the Koopa text mentions them.
fn mentions(p: &Prog) -> Vec<E> {
  let mut v = vec![];
  for g in 0..p.globals.len() {
    v.push(E::Glob(g));
  }
  for (fi, f) in p.funcs.iter().enumerate() {
    v.push(E::Fun(fi));
    if f.is_decl() {
      continue;
    }
    v.extend((0..f.params.len()).map(|i| E::Par(fi, i)));
    for (bi, b) in f.blocks.iter().enumerate() {
      v.push(E::Bb(fi, bi));
      v.extend((0..b.params.len()).map(|i| E::BPar(fi, bi, i)));
      for (k, i) in b.insts.iter().enumerate() {
        if i.ty != T::Unit {
          v.push(E::Val(fi, bi, k));
        }
        let mut op = |o: &Op| match o {
          Op::C(_) => {}
          Op::G(g) => v.push(E::Glob(*g)),
          Op::P(i) => v.push(E::Par(fi, *i)),
          Op::B(b, i) => v.push(E::BPar(fi, *b, *i)),
          Op::V(b, i) => v.push(E::Val(fi, *b, *i)),
        };
        match &i.k {
          K::Br(c, t, ta, e, ea) => {
            op(c);
            v.push(E::Bb(fi, *t));
            ta.iter().for_each(|o| push_op(o, fi, &mut v));
            v.push(E::Bb(fi, *e));
            ea.iter().for_each(|o| push_op(o, fi, &mut v));
          }
          K::Jump(t, a) => {
            v.push(E::Bb(fi, *t));
            a.iter().for_each(|o| push_op(o, fi, &mut v));
          }
          K::Call(c, a) => {
            v.push(E::Fun(*c));
            a.iter().for_each(|o| push_op(o, fi, &mut v));
          }
          k => k.ops().into_iter().for_each(op),
        }
      }
    }
  }
  v
}

fn push_op(o: &Op, fi: usize, v: &mut Vec<E>) {
  match o {
    Op::C(_) => {}
    Op::G(g) => v.push(E::Glob(*g)),
    Op::P(i) => v.push(E::Par(fi, *i)),
    Op::B(b, i) => v.push(E::BPar(fi, *b, *i)),
    Op::V(b, i) => v.push(E::Val(fi, *b, *i)),
  }
}

fn given(p: &Prog, e: E) -> Option<&str> {
  match e {
    E::Glob(g) => p.globals[g].name.as_deref(),
    E::Fun(f) => Some(&p.funcs[f].name),
    E::Par(f, i) => p.funcs[f].params[i].0.as_deref(),
    E::Bb(f, b) => p.funcs[f].blocks[b].name.as_deref(),
    E::BPar(f, b, i) => p.funcs[f].blocks[b].params[i].0.as_deref(),
    E::Val(f, b, i) => p.funcs[f].blocks[b].insts[i].name.as_deref(),
  }
}

fn names_in(s: &str) -> Vec<&str> {
  let b = s.as_bytes();
  let mut v = vec![];
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'@' || b[i] == b'%' {
      let st = i;
      i += 1;
      while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
        i += 1;
      }
      v.push(&s[st..i]);
    } else {
      i += 1;
    }
  }
  v
}

fn func_of(e: E) -> Option<usize> {
  match e {
    E::Glob(_) | E::Fun(_) => None,
    E::Par(f, _) | E::Bb(f, _) | E::BPar(f, ..) | E::Val(f, ..) => Some(f),
  }
}

/// Checks an assignment of names. `scopes(a, b)`: both are in one scope, where
/// names have to differ. `target(name)`: what a given name should become.
fn judge_names(
  p: &Prog,
  names: &BTreeMap<E, String>,
  same: &dyn Fn(E, E) -> bool,
  target: &dyn Fn(E, &str) -> Option<String>,
) -> Result<(u64, u64), (String, String)> {
  let (mut kept, mut changed) = (0, 0);
  let mut by_name: HashMap<&str, Vec<E>> = HashMap::new();
  let mut by_given: HashMap<String, Vec<E>> = HashMap::new();
  for (e, n) in names {
    by_name.entry(n).or_default().push(*e);
    if let Some(t) = given(p, *e).and_then(|g| target(*e, g)) {
      by_given.entry(t).or_default().push(*e);
    }
  }
  for (n, es) in &by_name {
    for (i, a) in es.iter().enumerate() {
      if let Some(b) = es[i + 1..].iter().find(|b| same(*a, **b)) {
        return Err(("two entities have one name".into(), format!("{a:?} and {b:?} are both `{n}`")));
      }
    }
  }
  for (e, n) in names {
    let Some(t) = given(p, *e).and_then(|g| target(*e, g)) else { continue };
    if *n == t {
      kept += 1;
      continue;
    }
    changed += 1;
    let rival = by_given[&t].iter().chain(by_name.get(t.as_str()).into_iter().flatten()).any(|x| x != e && same(*e, *x));
    if !rival {
      return Err(("given name is not kept".into(), format!("{e:?} is `{n}` instead of `{t}`, which nothing else in its scope is called")));
    }
  }
  Ok((kept, changed))
}

fn c11(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C11", idx);
  let mut cfg = Cfg::text(&mut r);
  cfg.ordered = r.chance(1, 2);
  if r.chance(5, 6) {
    cfg.names = Names::Clash;
  }
  let mut m = gen::gen(&mut r, &cfg);
  if r.chance(1, 4) && m.funcs.len() > 1 {
    // functions of the same name, or of that of a global
    for _ in 0..r.range(1, 3) {
      let name = match m.globals.is_empty() || r.chance(2, 3) {
        true => Some(r.pick(&m.funcs).name.clone()),
        false => r.pick(&m.globals).name.clone(),
      };
      let f = r.below(m.funcs.len());
      if let Some(n) = name {
        m.funcs[f].name = n;
      }
    }
    cx.count("function names given twice");
  }
  cx.what = show(&m);
  let mut all: Vec<E> = mentions(&m);
  cx.shape(fnv(all.iter().map(|e| format!("{:?}", given(&m, *e))).collect::<String>().as_bytes()));
  let p = api::build(&m, &mut r).0;
  let t = match api::dump_koopa(&p) {
    Ok(t) => lossy(&t),
    Err(e) => return cx.fail("dump failed", e),
  };
  if idx < 2 {
    cx.sample(|| t.clone());
  }
  let ns = names_in(&t);
  if ns.len() != all.len() {
    return cx.fail("mentions of names differ", format!("{} in the text, {} in the program\n{t}", ns.len(), all.len()));
  }
  let mut names: BTreeMap<E, String> = BTreeMap::new();
  for (e, n) in all.iter().zip(&ns) {
    if n.len() < 2 || (n[1..].as_bytes()[0].is_ascii_digit() && (n.starts_with('@') || !n[1..].bytes().all(|c| c.is_ascii_digit()))) {
      return cx.fail("name is not an identifier of the language", format!("{e:?}: `{n}`\n{t}"));
    }
    let old = names.entry(*e).or_insert_with(|| n.to_string());
    if old != n {
      return cx.fail("name changes between mentions", format!("{e:?}: `{old}` and `{n}`\n{t}"));
    }
  }
  cx.add("mentions matched", ns.len() as u64);
  let is_bb = |e: E| matches!(e, E::Bb(..));
  let same = |a: E, b: E| -> bool {
    if is_bb(a) != is_bb(b) {
      return false;
    }
    match (func_of(a), func_of(b)) {
      (None, None) => true,
      (Some(f), Some(g)) => f == g,
      // a local and a global entity
      _ => !matches!((a, b), (E::Fun(_), _) | (_, E::Fun(_))),
    }
  };
  // what may rob a global entity of its name are global entities only; what
  // may rob a local value of it includes functions
  let rival = |e: E, x: E| -> bool {
    match (func_of(e), func_of(x)) {
      // a function called before it is defined comes after the locals of the caller
      (None, Some(_)) => matches!(e, E::Fun(_)) && !is_bb(x),
      (Some(_), None) => !is_bb(e),
      _ => same(e, x),
    }
  };
  // numbers are names the library may choose itself
  let number = |s: &str| s.starts_with('%') && s[1..].bytes().all(|c| c.is_ascii_digit());
  let target = |_: E, g: &str| (!number(g)).then(|| g.to_string());
  if let Err((s, d)) = judge_names(&m, &names, &same, &target) {
    if s != "given name is not kept" {
      return cx.fail(format!("Koopa: {s}"), format!("{d}\n{t}"));
    }
  }
  match judge_names(&m, &names, &rival, &target) {
    Ok((k, c)) => {
      cx.add("Koopa names kept", k);
      cx.add("Koopa names changed", c);
    }
    Err((s, d)) if s == "given name is not kept" => return cx.fail(format!("Koopa: {s}"), format!("{d}\n{t}")),
    // a local may be called like a function
    Err(_) => cx.count("locals called like a function"),
  }
  // LLVM
  let t = match api::dump_llvm(&p) {
    Ok(t) => lossy(&t),
    Err(e) => return cx.fail("generation failed", e),
  };
  let lm = match llvm::parse(&t) {
    Ok(m) => m,
    Err(_) => return cx.count("modules not understood"),
  };
  match llvm::verify(&lm) {
    Ok(n) => cx.add("LLVM uses resolved", n),
    Err(e) => return cx.fail("LLVM: ill-formed", format!("{e}\n{t}")),
  }
  let mut names: BTreeMap<E, String> = BTreeMap::new();
  if lm.globals.len() != m.globals.len() || lm.funcs.len() != m.funcs.len() {
    return cx.fail("LLVM: entities missing", t);
  }
  for (i, g) in lm.globals.iter().enumerate() {
    names.insert(E::Glob(i), g.0.clone());
  }
  for (fi, (lf, f)) in lm.funcs.iter().zip(&m.funcs).enumerate() {
    names.insert(E::Fun(fi), lf.name.clone());
    if f.is_decl() {
      continue;
    }
    for (i, p) in lf.params.iter().enumerate() {
      names.insert(E::Par(fi, i), p.1.clone().unwrap());
    }
    if lf.blocks.len() != f.blocks.len() {
      cx.count("functions with other blocks");
      continue;
    }
    for (bi, (lb, b)) in lf.blocks.iter().zip(&f.blocks).enumerate() {
      names.insert(E::Bb(fi, bi), lb.name.clone());
      // one instruction or several for each
      let defs: Vec<&(Option<String>, llvm::I)> = lb.insts.iter().collect();
      let want: usize = b.params.len()
        + b.insts.iter().map(|i| match &i.k {
          K::Bin(Bop::Ne | Bop::Eq | Bop::Gt | Bop::Lt | Bop::Ge | Bop::Le, ..) | K::Br(..) => 2,
          _ => 1,
        }).sum::<usize>();
      if defs.len() != want {
        cx.count("blocks of another shape");
        continue;
      }
      let mut at = 0;
      for i in 0..b.params.len() {
        names.insert(E::BPar(fi, bi, i), defs[at].0.clone().unwrap());
        at += 1;
      }
      for (k, i) in b.insts.iter().enumerate() {
        if matches!(&i.k, K::Bin(Bop::Ne | Bop::Eq | Bop::Gt | Bop::Lt | Bop::Ge | Bop::Le, ..) | K::Br(..)) {
          at += 1;
        }
        if i.ty != T::Unit {
          names.insert(E::Val(fi, bi, k), defs[at].0.clone().unwrap());
        }
        at += 1;
      }
    }
  }
  let same = |a: E, b: E| -> bool { func_of(a) == func_of(b) };
  let target = |_: E, g: &str| {
    let t = match g.strip_prefix('@') {
      Some(x) => x.to_string(),
      None => format!("${}", &g[1..]),
    };
    (t.len() <= 510 && !g[1..].bytes().all(|c| c.is_ascii_digit())).then_some(t)
  };
  match judge_names(&m, &names, &same, &target) {
    Ok((k, c)) => {
      cx.add("LLVM names kept", k);
      cx.add("LLVM names changed", c);
    }
    Err((s, d)) => return cx.fail(format!("LLVM: {s}"), format!("{d}\n{t}")),
  }
  all.clear();
}

// --- C17

#[derive(Clone, Debug)]
enum PassOp {
  // module passes
  AddFn(String),
  RemoveNth(usize),
  Look,
  // function passes
  Rename(String),
  AddValue(i32),
  NewBlock,
  PlaceBlock,
  Unplace,
  Finish,
  Watch,
}

/// What is seen of a function: its name, and the numbers of values, blocks, placed blocks and placed values.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Seen(String, usize, usize, usize, usize);

fn seen(d: &FunctionData) -> Seen {
  let l = d.layout();
  Seen(d.name().into(), d.dfg().values().len(), d.dfg().bbs().len(), l.bbs().len(), l.bbs().iter().map(|b| b.1.insts().len()).sum())
}

/// What a function pass does to a function.
fn apply(o: &PassOp, d: &mut FunctionData) {
  match o {
    PassOp::Rename(x) => {
      let n = format!("{}{x}", d.name());
      d.set_name(n);
    }
    PassOp::AddValue(i) => {
      d.dfg_mut().new_value().integer(*i);
    }
    PassOp::NewBlock => {
      d.dfg_mut().new_bb().basic_block(None);
    }
    PassOp::PlaceBlock => {
      let b = d.dfg_mut().new_bb().basic_block(Some("%b".into()));
      d.layout_mut().bbs_mut().push_key_back(b).unwrap();
    }
    PassOp::Unplace => {
      let b = d.layout().bbs().front_key().copied();
      if let Some(b) = b {
        d.layout_mut().bbs_mut().remove(&b);
      }
    }
    PassOp::Finish => {
      let b = d.layout().bbs().back_key().copied();
      if let Some(b) = b {
        let v = d.dfg_mut().new_value().ret(None);
        d.layout_mut().bb_mut(b).insts_mut().push_key_back(v).unwrap();
      }
    }
    _ => {}
  }
}

/// The same on the model: (what is seen, placed values per placed block).
fn apply_model(o: &PassOp, m: &mut (Seen, Vec<usize>)) {
  match o {
    PassOp::Rename(x) => m.0.0.push_str(x),
    PassOp::AddValue(_) => m.0.1 += 1,
    PassOp::NewBlock => m.0.2 += 1,
    PassOp::PlaceBlock => {
      m.0.2 += 1;
      m.1.push(0);
    }
    PassOp::Unplace if !m.1.is_empty() => {
      m.1.remove(0);
    }
    PassOp::Finish => {
      if let Some(l) = m.1.last_mut() {
        *l += 1;
        m.0.1 += 1;
      }
    }
    _ => {}
  }
  m.0.3 = m.1.len();
  m.0.4 = m.1.iter().sum();
}

type Log = Rc<RefCell<Vec<String>>>;

struct Mp(usize, PassOp, Log);
struct Fp(usize, PassOp, Log);

fn look(p: &Program) -> String {
  let mut s = String::new();
  for f in p.func_layout() {
    s.push_str(&format!("{f:?} {:?} ", seen(p.func(*f))));
  }
  s
}

impl ModulePass for Mp {
  fn run_on(&mut self, p: &mut Program) {
    self.2.borrow_mut().push(format!("M{} {}", self.0, look(p)));
    match &self.1 {
      PassOp::AddFn(n) => {
        let f = p.new_func_def(n.clone(), vec![], Type::get_unit());
        self.2.borrow_mut().push(format!("A{} {f:?}", self.0));
      }
      PassOp::RemoveNth(k) => {
        let n = p.func_layout().len();
        if n > 0 {
          let f = p.func_layout()[k % n];
          p.remove_func(f);
        }
      }
      _ => {}
    }
  }
}

impl FunctionPass for Fp {
  fn run_on(&mut self, f: Function, d: &mut FunctionData) {
    self.2.borrow_mut().push(format!("F{} {f:?} {:?}", self.0, seen(d)));
    apply(&self.1, d);
  }
}

fn c17(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C17", idx);
  let mut p = Program::new();
  let mut model: Vec<(Seen, Vec<usize>)> = vec![];
  let mut hs = vec![];
  let large = r.chance(1, 40);
  for i in 0..r.below(if large { 400 } else { 9 }) {
    let n = format!("@f{i}");
    let np = r.below(3);
    let decl = r.chance(1, 3);
    let f = if decl {
      p.new_func_decl(n.clone(), vec![Type::get_i32(); np], Type::get_unit())
    } else {
      p.new_func_def(n.clone(), vec![Type::get_i32(); np], Type::get_unit())
    };
    let mut m = (Seen(n, if decl { 0 } else { np }, 0, 0, 0), vec![]);
    // functions in every state of construction
    for _ in 0..r.below(if decl { 2 } else { 6 }) {
      let o = match r.below(6) {
        0 => PassOp::AddValue(i as i32),
        1 => PassOp::NewBlock,
        2 | 3 => PassOp::PlaceBlock,
        4 => PassOp::Finish,
        _ => PassOp::Unplace,
      };
      apply(&o, p.func_mut(f));
      apply_model(&o, &mut m);
    }
    cx.count(match (m.0.2, m.0.3, m.0.4) {
      (0, ..) => "functions without blocks",
      (_, 0, _) => "functions with unplaced blocks only",
      (_, _, 0) => "functions with empty blocks",
      _ => "functions with instructions",
    });
    model.push(m);
    hs.push(f);
    if r.chance(1, 5) {
      let k = r.below(model.len());
      model.remove(k);
      p.remove_func(hs.remove(k));
    }
  }
  let mut hs: Vec<String> = hs.iter().map(|h| format!("{h:?}")).collect();
  let log: Log = Default::default();
  let np = if r.chance(1, 40) { r.below(120) } else { r.below(7) };
  let ops: Vec<PassOp> = (0..np)
    .map(|i| match r.below(12) {
      0 => PassOp::AddFn(format!("@new{i}")),
      1 => PassOp::RemoveNth(r.below(10)),
      2 => PassOp::Look,
      3 | 4 => PassOp::Rename(format!("_{i}")),
      5 | 6 => PassOp::AddValue(i as i32),
      7 => PassOp::NewBlock,
      8 => PassOp::PlaceBlock,
      9 => PassOp::Unplace,
      10 => PassOp::Finish,
      _ => PassOp::Watch,
    })
    .collect();
  let is_mod = |o: &PassOp| matches!(o, PassOp::AddFn(_) | PassOp::RemoveNth(_) | PassOp::Look);
  let mk = |i: usize, o: &PassOp| -> Pass {
    if is_mod(o) {
      Pass::Module(Box::new(Mp(i, o.clone(), log.clone())))
    } else {
      Pass::Function(Box::new(Fp(i, o.clone(), log.clone())))
    }
  };
  cx.what = format!("{model:?}\n{ops:?}");
  cx.shape(fnv(format!("{ops:?}{}", model.len()).as_bytes()));
  if idx < 2 {
    let s = cx.what.clone();
    cx.sample(|| s);
  }
  let from = if r.chance(1, 3) { r.below(np + 1) } else { 0 };
  let mut pm: PassManager = if from > 0 {
    ops[..from].iter().enumerate().map(|(i, o)| mk(i, o)).collect::<Vec<_>>().into()
  } else {
    PassManager::new()
  };
  for (i, o) in ops.iter().enumerate().skip(from) {
    pm.register(mk(i, o));
  }
  let runs = r.range(1, 3);
  let mut late = 0;
  for run in 0..runs {
    if run > 0 && r.chance(1, 3) {
      // another pass joins for the next run
      late += 1;
      pm.register(mk(np, &PassOp::Watch));
    }
    let mut all = ops.clone();
    all.extend((0..late).map(|_| PassOp::Watch));
    pm.run_passes(&mut p);
    let got = std::mem::take(&mut *log.borrow_mut());
    let mut at = 0;
    for (i, o) in all.iter().enumerate() {
      let i = i.min(np);
      if is_mod(o) {
        let want = format!("M{i} {}", model.iter().zip(&hs).map(|(m, h)| format!("{h} {:?} ", m.0)).collect::<String>());
        if got.get(at) != Some(&want) {
          return cx.fail("module pass", format!("wanted `{want}`, saw {:?}\n{got:#?}\n{}", got.get(at), cx.what));
        }
        at += 1;
        cx.count("module pass applications");
        match o {
          PassOp::AddFn(n) => {
            // the new function is last
            model.push((Seen(n.clone(), 0, 0, 0, 0), vec![]));
            let Some(h) = got.get(at).and_then(|g| g.strip_prefix(&format!("A{i} "))) else {
              return cx.fail("module pass", format!("no new function\n{got:#?}\n{}", cx.what));
            };
            hs.push(h.to_string());
            at += 1;
          }
          PassOp::RemoveNth(k) if !model.is_empty() => {
            let k = k % model.len();
            model.remove(k);
            hs.remove(k);
          }
          _ => {}
        }
      } else {
        let mut want: Vec<String> = model.iter().zip(&hs).map(|(m, h)| format!("F{i} {h} {:?}", m.0)).collect();
        let end = (at + want.len()).min(got.len());
        let mut saw = got[at..end].to_vec();
        want.sort();
        saw.sort();
        if want != saw {
          return cx.fail("function pass targets", format!("pass {i}: wanted {want:#?}, saw {saw:#?}\n{got:#?}\n{}", cx.what));
        }
        at = end;
        cx.add("function pass applications", want.len() as u64);
        model.iter_mut().for_each(|m| apply_model(o, m));
      }
    }
    if at != got.len() {
      return cx.fail("passes applied too often", format!("{:?}\n{}", &got[at..], cx.what));
    }
    let want: Vec<Seen> = model.iter().map(|m| m.0.clone()).collect();
    let have: Vec<Seen> = p.func_layout().iter().map(|f| seen(p.func(*f))).collect();
    if want != have {
      return cx.fail("effects of passes", format!("wanted {want:?}, have {have:?}\n{}", cx.what));
    }
    cx.count("runs");
  }
}

// --- C18

fn dump_with(g: &mut KoopaGenerator<Vec<u8>>, p: &Program) -> Result<(), String> {
  g.generate_on(p).map_err(|e| e.to_string())
}

/// What `case` of this check prints (also used by another process).
fn c18_text(seed: u64, idx: u64, api_built: bool) -> Vec<u8> {
  let mut r = Rng::case(seed, "C18", idx);
  let (m, _) = c18_model(&mut r);
  if api_built {
    let mut r2 = Rng::case(seed, "C18b", idx);
    api::dump_koopa(&api::build(&m, &mut r2).0).unwrap_or_default()
  } else {
    let mut r2 = Rng::case(seed, "C18c", idx);
    let s = emit::text(&m, &mut r2, &emit::Style { wild: false, shuffle: true, dead: false });
    api::parse(s.as_bytes()).map(|p| api::dump_koopa(&p).unwrap_or_default()).unwrap_or_default()
  }
}

fn c18_model(r: &mut Rng) -> (Prog, bool) {
  let mut cfg = Cfg::text(r);
  let clash = r.chance(1, 3);
  if clash {
    cfg.names = Names::Clash;
    cfg.ordered = r.chance(1, 2);
  }
  (gen::gen(r, &cfg), clash)
}

/// `dumps SEED IDX...`: prints the dumps of some cases of C18.
pub fn dumps(a: &[String]) -> i32 {
  use std::io::Write;
  let seed: u64 = a[0].parse().unwrap();
  let o = std::io::stdout();
  for x in &a[1..] {
    let (i, b) = x.split_once(':').unwrap();
    let t = c18_text(seed, i.parse().unwrap(), b == "1");
    let mut o = o.lock();
    writeln!(o, "{} {:016x}", t.len(), fnv(&t)).unwrap();
  }
  0
}

fn c18(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C18", idx);
  let (m, clash) = c18_model(&mut r);
  cx.what = show(&m);
  observe(cx, &m);
  if m.n_insts() > 3 {
    cx.shape(m.shape());
  }
  let api_built = clash || r.chance(1, 2);
  let seed = cx.seed;
  let make = || -> Option<Program> {
    if api_built {
      let mut r2 = Rng::case(seed, "C18b", idx);
      Some(api::build(&m, &mut r2).0)
    } else {
      let mut r2 = Rng::case(seed, "C18c", idx);
      let s = emit::text(&m, &mut r2, &emit::Style { wild: false, shuffle: true, dead: false });
      api::parse(s.as_bytes()).ok()
    }
  };
  let Some(p) = make() else { return cx.fail("well-formed text rejected", "") };
  let first = match api::dump_koopa(&p) {
    Ok(t) => t,
    Err(e) => return cx.fail("dump failed", e),
  };
  if idx < 2 {
    cx.sample(|| lossy(&first));
  }
  let differ = |how: &str, t: &[u8]| -> (String, String) {
    let (a, b) = (lossy(&first), lossy(t));
    let k = a.lines().zip(b.lines()).position(|(x, y)| x != y);
    (format!("another text {how}"), format!("first difference in line {k:?}\n--- first\n{a}\n--- {how}\n{b}"))
  };
  macro_rules! check {
    ($how:expr, $t:expr) => {{
      let t = $t;
      cx.count("dumps compared");
      if t != first {
        let (s, d) = differ($how, &t);
        return cx.fail(s, d);
      }
    }};
  }
  check!("from the same program", api::dump_koopa(&p).unwrap_or_default());
  // a generator used before, on this and on another program
  let mut g = KoopaGenerator::new(Vec::new());
  for _ in 0..2 {
    if let Err(e) = dump_with(&mut g, &p) {
      return cx.fail("dump failed", e);
    }
  }
  let w = g.writer();
  if w.len() != 2 * first.len() {
    let (s, d) = differ("from a generator used twice", &w);
    return cx.fail(s, d);
  }
  check!("from a generator used before", w[first.len()..].to_vec());
  let mut cfg = Cfg::text(&mut r);
  cfg.names = Names::Clash;
  cfg.max_funcs = 2;
  let other = gen::gen(&mut r, &cfg);
  let po = api::build(&other, &mut r).0;
  let mut g = KoopaGenerator::new(Vec::new());
  let _ = dump_with(&mut g, &po);
  let n = api::dump_koopa(&po).unwrap_or_default().len();
  let _ = dump_with(&mut g, &p);
  let w = g.writer();
  check!("from a generator used on another program", w.get(n..).unwrap_or(&[]).to_vec());
  // dumping to LLVM or to the raw form in between does not matter
  let mut g = LlvmGenerator::new(Vec::new());
  let _ = g.generate_on(&p);
  check!("after other output", api::dump_koopa(&p).unwrap_or_default());
  let Some(p2) = make() else { return cx.fail("well-formed text rejected the second time", "") };
  check!("from the same construction again", api::dump_koopa(&p2).unwrap_or_default());
  drop(p);
  let h = std::thread::spawn(move || c18_text(seed, idx, api_built));
  match h.join() {
    Ok(t) => check!("on another thread", t),
    Err(_) => return cx.fail("panic on another thread", last_panic()),
  }
  if idx % 16 < 8 {
    // other processes: other hash seeds, other handles
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe)
      .args(["dumps", &seed.to_string(), &format!("{}:0", idx + 1), &format!("{idx}:{}", api_built as u8)])
      .stderr(std::process::Stdio::null())
      .output();
    match o {
      Ok(o) if o.status.success() => {
        let s = lossy(&o.stdout);
        let l = s.lines().nth(1).unwrap_or("");
        let want = format!("{} {:016x}", first.len(), fnv(&first));
        cx.count("dumps in other processes compared");
        if l != want {
          return cx.fail("another text in another process", format!("{l} against {want}\n{}", lossy(&first)));
        }
      }
      o => return cx.fail("other process failed", format!("{o:?}")),
    }
  }
  // order of creation
  let t = lossy(&first);
  let heads: Vec<&str> = t.lines().filter(|l| l.starts_with("fun ") || l.starts_with("decl ")).collect();
  if heads.len() != m.funcs.len() {
    return cx.fail("functions missing", t.clone());
  }
  for (h, f) in heads.iter().zip(&m.funcs) {
    if h.starts_with("decl ") != f.is_decl() || (!clash && !h.contains(&format!(" {}(", f.name))) {
      return cx.fail("functions in another order", t.clone());
    }
  }
  let gs: Vec<&str> = t.lines().filter(|l| l.starts_with("global ")).collect();
  if gs.len() != m.globals.len() {
    return cx.fail("globals missing", t.clone());
  }
  for (l, g) in gs.iter().zip(&m.globals) {
    if let (false, Some(n)) = (clash, &g.name) {
      if !l.starts_with(&format!("global {n} =")) {
        return cx.fail("globals in another order", t.clone());
      }
    }
  }
}

// --- C21

struct Ev {
  v: Value,
  class: usize,
  size: u64,
}

/// Key of a class: everything equality may look at.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Key {
  t: T,
  tag: String,
  ops: Vec<usize>,
}

fn c21(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C21", idx);
  let mut p = Program::new();
  let i32_ = Type::get_i32();
  let mut classes: HashMap<Key, usize> = HashMap::new();
  let mut keys: Vec<Key> = vec![];
  fn class_in(classes: &mut HashMap<Key, usize>, keys: &mut Vec<Key>, k: Key) -> usize {
    let n = classes.len();
    let c = *classes.entry(k.clone()).or_insert(n);
    if c == keys.len() {
      keys.push(k);
    }
    c
  }
  macro_rules! class {
    ($k:expr) => {
      class_in(&mut classes, &mut keys, $k)
    };
  }
  let key = |t: &T, tag: String, ops: Vec<usize>| Key { t: t.clone(), tag, ops };
  let mut es: Vec<Ev> = vec![];
  // globals: some alike
  let mut gconst = vec![];
  for _ in 0..r.range(0, 4) {
    let k = r.below(3) as i32;
    let n = r.range(1, 3);
    let c = if r.chance(1, 2) { C::Int(k) } else { C::Agg((0..n).map(|_| C::Int(r.below(2) as i32)).collect()) };
    gconst.push(c);
  }
  fn cclass(c: &C, class: &mut impl FnMut(Key) -> usize) -> usize {
    let (tag, ops) = match c {
      C::Int(i) => (format!("int {i}"), vec![]),
      C::Zero(_) => ("zero".into(), vec![]),
      C::Undef(_) => ("undef".into(), vec![]),
      C::Agg(e) => ("agg".into(), e.iter().map(|x| cclass(x, class)).collect()),
    };
    class(Key { t: c.ty(), tag, ops })
  }
  for c in &gconst {
    let init = api::const_global(&mut p, c);
    let g = p.new_value().global_alloc(init);
    if r.chance(1, 2) {
      p.set_value_name(g, Some(format!("@g{}", es.len())));
    }
    let ic = cclass(c, &mut |k| class_in(&mut classes, &mut keys, k));
    let t = T::ptr(c.ty());
    es.push(Ev { v: g, class: class!(key(&t, "global".into(), vec![ic])), size: 20 });
  }
  let callee: Vec<Function> = vec![
    p.new_func_decl("@c0".into(), vec![i32_.clone(), i32_.clone()], i32_.clone()),
    p.new_func_decl("@c1".into(), vec![i32_.clone(), i32_.clone()], i32_.clone()),
    p.new_func_decl("@c2".into(), vec![i32_.clone()], Type::get_unit()),
    p.new_func_decl("@c3".into(), vec![], i32_.clone()),
  ];
  let csig: [(usize, bool); 4] = [(2, true), (2, true), (1, false), (0, true)];
  let ptys = [T::I32, T::I32, T::ptr(T::I32), T::ptr(T::arr(T::I32, 2)), T::ptr(T::I32)];
  let f = p.new_func_def("@f".into(), ptys.iter().map(api::ty).collect(), Type::get_unit());
  let fd = p.func_mut(f);
  for (i, v) in fd.params().to_vec().into_iter().enumerate() {
    es.push(Ev { v, class: class!(key(&ptys[i], format!("param {i}"), vec![])), size: 1 });
  }
  // parameters of different blocks have different types at each position
  let bts: [Vec<T>; 4] = [vec![T::I32, T::I32], vec![T::ptr(T::I32), T::arr(T::I32, 2)], vec![], vec![]];
  let mut bbs = vec![];
  for (b, ts) in bts.iter().enumerate() {
    let bb = fd.dfg_mut().new_bb().basic_block_with_params(None, ts.iter().map(api::ty).collect());
    for (i, v) in fd.dfg().bb(bb).params().to_vec().into_iter().enumerate() {
      es.push(Ev { v, class: class!(key(&ts[i], format!("bparam {b} {i}"), vec![])), size: 1 });
    }
    bbs.push(bb);
  }
  let first_inst = es.len();
  let n = r.range(15, if cx.thorough { 90 } else { 60 });
  let mut hist: Vec<String> = vec![];
  for _ in 0..n {
    // a value of some type, preferring few classes; or a twin of one chosen before
    let tys: Vec<T> = es.iter().map(|e| keys_ty(&keys, e.class)).collect();
    macro_rules! op {
      ($t:expr) => {{
        let t: T = $t;
        let c: Vec<usize> = (0..es.len()).filter(|i| tys[*i] == t && es[*i].size < 120).collect();
        if c.is_empty() {
          continue;
        }
        *r.pick(&c)
      }};
    }
    // redo: the same request with operands replaced by members of their classes
    let twin = es.len() > first_inst && r.chance(1, 2);
    let (t, tag, mut ops): (T, String, Vec<usize>) = if twin {
      let e = r.range(first_inst, es.len() - 1);
      let k = &keys[es[e].class];
      let ops = k
        .ops
        .iter()
        .map(|c| {
          let m: Vec<usize> = (0..es.len()).filter(|i| es[*i].class == *c).collect();
          if m.is_empty() { usize::MAX } else { *r.pick(&m) }
        })
        .collect::<Vec<_>>();
      if ops.contains(&usize::MAX) {
        continue;
      }
      (k.t.clone(), k.tag.clone(), ops)
    } else {
      match r.below(16) {
        0 | 1 => (T::I32, format!("int {}", r.below(4) as i32 - 1), vec![]),
        2 => (r.pick(&ptys).clone(), "zero".into(), vec![]),
        3 => (r.pick(&ptys).clone(), "undef".into(), vec![]),
        4 => {
          let n = if r.chance(1, 8) { r.range(20, 110) } else { r.range(1, 3) };
          let cs: Vec<usize> = (0..es.len())
            .filter(|i| tys[*i] == T::I32 && (keys[es[*i].class].tag.starts_with("int") || ["zero", "undef"].contains(&keys[es[*i].class].tag.as_str())))
            .collect();
          if cs.is_empty() {
            continue;
          }
          (T::arr(T::I32, n), "agg".into(), (0..n).map(|_| *r.pick(&cs)).collect())
        }
        5 => (T::ptr(r.pick(&[T::I32, T::arr(T::I32, 2)]).clone()), "alloc".into(), vec![]),
        6 => {
          if r.chance(1, 2) {
            (T::I32, "load".into(), vec![op!(T::ptr(T::I32))])
          } else {
            (T::arr(T::I32, 2), "load".into(), vec![op!(T::ptr(T::arr(T::I32, 2)))])
          }
        }
        7 => (T::Unit, "store".into(), vec![op!(T::I32), op!(T::ptr(T::I32))]),
        8 => (T::ptr(T::I32), "getptr".into(), vec![op!(T::ptr(T::I32)), op!(T::I32)]),
        9 => (T::ptr(T::I32), "getelem".into(), vec![op!(T::ptr(T::arr(T::I32, 2))), op!(T::I32)]),
        10 | 11 => (T::I32, format!("bin {}", r.pick(&BOPS).1), vec![op!(T::I32), op!(T::I32)]),
        12 => {
          let (a, b) = (r.below(4), r.below(4));
          if a == b && !bts[a].is_empty() {
            continue;
          }
          let mut ops = vec![op!(T::I32)];
          for t in bts[a].iter().chain(&bts[b]) {
            ops.push(op!(t.clone()));
          }
          (T::Unit, format!("br {a} {b}"), ops)
        }
        13 => {
          let a = r.below(4);
          let mut ops = vec![];
          for t in &bts[a] {
            ops.push(op!(t.clone()));
          }
          (T::Unit, format!("jump {a}"), ops)
        }
        14 => {
          let c = r.below(4);
          let mut ops = vec![];
          for _ in 0..csig[c].0 {
            ops.push(op!(T::I32));
          }
          (if csig[c].1 { T::I32 } else { T::Unit }, format!("call {c}"), ops)
        }
        _ => {
          if r.chance(1, 3) {
            (T::Unit, "ret".into(), vec![])
          } else {
            (T::Unit, "ret".into(), vec![op!(T::I32)])
          }
        }
      }
    };
    if twin && !ops.is_empty() && tag != "agg" && r.chance(1, 3) {
      // change one operand
      let k = r.below(ops.len());
      let t = keys[es[ops[k]].class].t.clone();
      ops[k] = op!(t);
    }
    if twin && tag == "agg" && r.chance(1, 3) {
      // change one element
      let cs: Vec<usize> = (0..es.len()).filter(|i| tys[*i] == T::I32 && keys[es[*i].class].tag.starts_with("int")).collect();
      if !cs.is_empty() {
        let k = r.below(ops.len());
        ops[k] = *r.pick(&cs);
      }
    }
    let mut tag = tag;
    if twin && tag.starts_with("call") && ops.len() == 2 && r.chance(1, 3) {
      tag = format!("call {}", r.below(2));
    }
    if twin && tag.starts_with("bin") && r.chance(1, 4) {
      tag = format!("bin {}", r.pick(&BOPS).1);
    }
    if twin && tag.starts_with("jump") && ops.is_empty() && r.chance(1, 3) {
      tag = format!("jump {}", r.range(2, 3));
    }
    if twin && tag.starts_with("br") && ops.len() == 1 && r.chance(1, 3) {
      tag = format!("br {} {}", r.range(2, 3), r.range(2, 3));
    }
    let size = 1 + ops.iter().map(|o| es[*o].size).sum::<u64>();
    if size > 400 {
      continue;
    }
    let vs: Vec<Value> = ops.iter().map(|o| es[*o].v).collect();
    let cl = class!(Key { t: t.clone(), tag: tag.clone(), ops: ops.iter().map(|o| es[*o].class).collect() });
    let b = |s: &str| -> usize { s.parse().unwrap() };
    let w: Vec<&str> = tag.split(' ').collect();
    let mut go = || {
      let nv = fd.dfg_mut().new_value();
      match w[0] {
        "int" => nv.integer(w[1].parse().unwrap()),
        "zero" => nv.zero_init(api::ty(&t)),
        "undef" => nv.undef(api::ty(&t)),
        "agg" => nv.aggregate(vs.clone()),
        "alloc" => nv.alloc(api::ty(t.pointee().unwrap())),
        "load" => nv.load(vs[0]),
        "store" => nv.store(vs[0], vs[1]),
        "getptr" => nv.get_ptr(vs[0], vs[1]),
        "getelem" => nv.get_elem_ptr(vs[0], vs[1]),
        "bin" => nv.binary(api::bop(BOPS.iter().find(|x| x.1 == w[1]).unwrap().0), vs[0], vs[1]),
        "br" => {
          let (x, y) = (b(w[1]), b(w[2]));
          let k = 1 + bts[x].len();
          nv.branch_with_args(vs[0], bbs[x], bbs[y], vs[1..k].to_vec(), vs[k..].to_vec())
        }
        "jump" => nv.jump_with_args(bbs[b(w[1])], vs.clone()),
        "call" => nv.call(callee[b(w[1])], vs.clone()),
        _ => nv.ret(vs.first().copied()),
      }
    };
    let v = go();
    if r.chance(1, 4) {
      fd.dfg_mut().set_value_name(v, Some(format!("%n{}", es.len())));
    }
    hist.push(format!("{v:?} = {tag} {vs:?} class {cl}"));
    cx.count(&format!("values {}", w[0]));
    es.push(Ev { v, class: cl, size });
  }
  cx.what = hist.join("\n");
  let mut sh: Vec<usize> = es.iter().map(|e| e.class).collect();
  sh.sort();
  cx.shape(fnv(format!("{:?}", keys).as_bytes()) ^ fnv(format!("{sh:?}").as_bytes()));
  if idx < 2 {
    let s = cx.what.clone();
    cx.sample(|| s);
  }
  let fd = p.func(f);
  let dfg = fd.dfg();
  let datas: Vec<Option<&ValueData>> = es.iter().map(|e| dfg.values().get(&e.v)).collect();
  for (i, a) in es.iter().enumerate() {
    for (j, b) in es.iter().enumerate() {
      let want = a.class == b.class;
      cx.count(if want { "equal pairs" } else { "different pairs" });
      let got = dfg.value_eq(a.v, b.v);
      if got != want {
        let (ka, kb) = (&keys[a.class], &keys[b.class]);
        return cx.fail(
          if want { "equal values compare different" } else { "different values compare equal" },
          format!("{:?} ({}) and {:?} ({})\n{}", a.v, ka.tag, b.v, kb.tag, cx.what),
        );
      }
      if let (Some(x), Some(y)) = (datas[i], datas[j]) {
        if dfg.data_eq(x, y) != want {
          return cx.fail("data compares differently from values", format!("{:?} and {:?}\n{}", a.v, b.v, cx.what));
        }
      }
    }
  }
  // data of removed values against existing ones
  let mut gone: Vec<(ValueData, usize)> = vec![];
  let fd = p.func_mut(f);
  for k in (first_inst..es.len()).rev() {
    let v = es[k].v;
    if fd.dfg().value(v).used_by().is_empty() && r.chance(1, 2) {
      gone.push((fd.dfg_mut().remove_value(v), es[k].class));
      es.remove(k);
    }
  }
  // operands of removed data may be removed as well: stop at those
  let alive: HashSet<Value> = es.iter().map(|e| e.v).collect();
  gone.retain(|(d, _)| d.kind().value_uses().all(|v| alive.contains(&v)));
  let dfg = p.func(f).dfg();
  for (d, c) in &gone {
    for e in es.iter().filter(|e| !e.v.is_global()) {
      cx.count("removed data compared");
      if dfg.data_eq(d, dfg.value(e.v)) != (*c == e.class) || dfg.data_eq(dfg.value(e.v), d) != (*c == e.class) {
        return cx.fail("removed data compares wrongly", format!("{:?} {}\n{}", e.v, keys[*c].tag, cx.what));
      }
    }
  }
}

fn keys_ty(keys: &[Key], c: usize) -> T {
  keys[c].t.clone()
}

const A: &[&str] = &["cases are produced by this check's own generator; what lies outside its shape is not seen"];

pub static CHECKS: &[&Check] = &[
  &Check { id: "C10", rule: "sets of types with near relatives, built in random orders, twice, with drops, on one to four threads and under changing pointer sizes; all pairs are compared with structural equality, and size, spelling, hash and re-parsed form with the model; distinct sets of types", cases: (180000, 1000000), limit: (120, 1500), case: c10, workers: 0, assumptions: A },
  &Check { id: "C11", rule: "programs whose names are drawn from a small pool of look-alikes of generated names; every mention of a name in both outputs is matched with the entity it must denote; uniqueness, constancy and faithfulness are judged per scope; distinct assignments of given names", cases: (200000, 2000000), limit: (150, 1500), case: c11, workers: 0, assumptions: A },
  &Check { id: "C17", rule: "random programs and pass lists (module passes that add, remove and inspect functions, function passes that change them; functions in every state of construction, up to 400), run up to three times; the log of applications is replayed on a model; distinct pass lists", cases: (300000, 20000000), limit: (100, 1200), case: c17, workers: 0, assumptions: A },
  &Check { id: "C18", rule: "random programs, built or parsed, dumped repeatedly by new and reused generators, constructed again in the same process, on another thread and in other processes; byte comparison; non-trivial: more than 3 instructions, distinct by shape", cases: (90000, 400000), limit: (150, 1500), case: c18, workers: 0, assumptions: A },
  &Check { id: "C21", rule: "values grown as twins and near twins (one operand, operation, target or callee changed) of each other; all pairs compared with hash-consed structure; distinct sets of structures", cases: (240000, 1500000), limit: (150, 1500), case: c21, workers: 0, assumptions: &["parameters of different blocks at the same position with the same type are not compared with each other", "cases are produced by this check's own generator; what lies outside its shape is not seen"] },
];
