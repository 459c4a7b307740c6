//! Independent well-formedness verifier and use-set checker.

use crate::api::from_ty;
use crate::model::*;
use koopa::ir::*;
use std::collections::{HashMap, HashSet};

/// Checks that the recorded users of every value and block are exactly the
/// values that refer to it. Scans every local and global value.
pub fn use_sets(p: &Program) -> Result<usize, String> {
  let mut users: HashMap<Value, HashSet<Value>> = HashMap::new();
  let mut n = 0;
  {
    let gs = p.borrow_values();
    for (v, d) in gs.iter() {
      if !v.is_global() {
        return Err("a global value has a local handle".into());
      }
      for u in refs(d.kind()).0 {
        if !gs.contains_key(&u) {
          return Err(format!("global value {} uses a value that does not exist", kname(d.kind())));
        }
        users.entry(u).or_default().insert(*v);
      }
    }
  }
  for f in p.func_layout() {
    let fd = p.funcs().get(f).ok_or("function of the layout does not exist")?;
    let mut bbu: HashMap<BasicBlock, HashSet<Value>> = HashMap::new();
    let gs = p.borrow_values();
    let mut lu: HashMap<Value, HashSet<Value>> = HashMap::new();
    for (v, d) in fd.dfg().values() {
      if v.is_global() {
        return Err("a local value has a global handle".into());
      }
      let (vs, bs) = refs(d.kind());
      for u in vs {
        if gs.contains_key(&u) {
          users.entry(u).or_default().insert(*v);
        } else if fd.dfg().values().contains_key(&u) {
          lu.entry(u).or_default().insert(*v);
        } else {
          return Err(format!("{} uses a value that does not exist", kname(d.kind())));
        }
      }
      for b in bs {
        if !fd.dfg().bbs().contains_key(&b) {
          return Err(format!("{} uses a block that does not exist", kname(d.kind())));
        }
        bbu.entry(b).or_default().insert(*v);
      }
    }
    for (v, d) in fd.dfg().values() {
      n += 1;
      cmp(d.used_by(), lu.get(v), fd, &|| format!("local {}", kname(d.kind())))?;
    }
    for (b, d) in fd.dfg().bbs() {
      n += 1;
      cmp(d.used_by(), bbu.get(b), fd, &|| format!("block {:?}", d.name()))?;
    }
  }
  for (v, d) in p.borrow_values().iter() {
    n += 1;
    let empty = HashSet::new();
    let want = users.get(v).unwrap_or(&empty);
    if d.used_by() != want {
      return Err(format!(
        "users of global {} are recorded as {} values, {} actually use it ({} missing, {} stale)",
        kname(d.kind()),
        d.used_by().len(),
        want.len(),
        want.difference(d.used_by()).count(),
        d.used_by().difference(want).count()
      ));
    }
  }
  Ok(n)
}

fn cmp(
  got: &HashSet<Value>,
  want: Option<&HashSet<Value>>,
  fd: &FunctionData,
  what: &dyn Fn() -> String,
) -> Result<(), String> {
  let empty = HashSet::new();
  let want = want.unwrap_or(&empty);
  if got == want {
    return Ok(());
  }
  let d = |s: &HashSet<Value>, t: &HashSet<Value>| {
    let mut v: Vec<&str> = s
      .difference(t)
      .map(|v| fd.dfg().values().get(v).map_or("removed value", |d| kname(d.kind())))
      .collect();
    v.sort();
    v.join(", ")
  };
  Err(format!(
    "users of {} in function {}: missing [{}], stale [{}]",
    what(),
    fd.name(),
    d(want, got),
    d(got, want)
  ))
}

pub fn kname(k: &ValueKind) -> &'static str {
  match k {
    ValueKind::Integer(_) => "integer",
    ValueKind::ZeroInit(_) => "zeroinit",
    ValueKind::Undef(_) => "undef",
    ValueKind::Aggregate(_) => "aggregate",
    ValueKind::FuncArgRef(_) => "function parameter",
    ValueKind::BlockArgRef(_) => "block parameter",
    ValueKind::Alloc(_) => "alloc",
    ValueKind::GlobalAlloc(_) => "global alloc",
    ValueKind::Load(_) => "load",
    ValueKind::Store(_) => "store",
    ValueKind::GetPtr(_) => "getptr",
    ValueKind::GetElemPtr(_) => "getelemptr",
    ValueKind::Binary(_) => "binary",
    ValueKind::Branch(_) => "branch",
    ValueKind::Jump(_) => "jump",
    ValueKind::Call(_) => "call",
    ValueKind::Return(_) => "return",
  }
}

/// Values and blocks a kind refers to, read field by field (not through the
/// library's own use iterators).
pub fn refs(k: &ValueKind) -> (Vec<Value>, Vec<BasicBlock>) {
  match k {
    ValueKind::Aggregate(a) => (a.elems().to_vec(), vec![]),
    ValueKind::GlobalAlloc(a) => (vec![a.init()], vec![]),
    ValueKind::Load(a) => (vec![a.src()], vec![]),
    ValueKind::Store(a) => (vec![a.value(), a.dest()], vec![]),
    ValueKind::GetPtr(a) => (vec![a.src(), a.index()], vec![]),
    ValueKind::GetElemPtr(a) => (vec![a.src(), a.index()], vec![]),
    ValueKind::Binary(a) => (vec![a.lhs(), a.rhs()], vec![]),
    ValueKind::Branch(a) => {
      let mut v = vec![a.cond()];
      v.extend(a.true_args());
      v.extend(a.false_args());
      (v, vec![a.true_bb(), a.false_bb()])
    }
    ValueKind::Jump(a) => (a.args().to_vec(), vec![a.target()]),
    ValueKind::Call(a) => (a.args().to_vec(), vec![]),
    ValueKind::Return(a) => (a.value().into_iter().collect(), vec![]),
    _ => (vec![], vec![]),
  }
}

struct Cx<'a> {
  p: &'a Program,
  fd: &'a FunctionData,
}

impl Cx<'_> {
  fn t(&self, v: Value) -> Result<T, String> {
    if let Some(d) = self.p.borrow_values().get(&v) {
      return Ok(from_ty(d.ty()));
    }
    self.fd.dfg().values().get(&v).map(|d| from_ty(d.ty())).ok_or("operand does not exist".to_string())
  }
}

fn const_ok(k: &ValueKind, t: &T, tys: &dyn Fn(Value) -> Result<(T, bool), String>) -> Result<(), String> {
  match k {
    ValueKind::Integer(_) if *t != T::I32 => Err(format!("integer of type {t}")),
    ValueKind::ZeroInit(_) | ValueKind::Undef(_) if *t == T::Unit => Err("constant of unit type".into()),
    ValueKind::Aggregate(a) => match t {
      T::Arr(e, n) => {
        if a.elems().len() != *n || *n == 0 {
          return Err(format!("aggregate of {} elements has type {t}", a.elems().len()));
        }
        for v in a.elems() {
          let (et, c) = tys(*v)?;
          if et != **e || !c {
            return Err(format!("element of type {et} (constant: {c}) in aggregate of type {t}"));
          }
        }
        Ok(())
      }
      _ => Err(format!("aggregate of type {t}")),
    },
    _ => Ok(()),
  }
}

/// Checks every rule of the IR on a whole program (including `use_sets`).
pub fn verify(p: &Program) -> Result<(), String> {
  {
    let gs = p.borrow_values();
    let tys = |v: Value| gs.get(&v).map(|d| (from_ty(d.ty()), d.kind().is_const())).ok_or("operand does not exist".to_string());
    let laid: HashSet<Value> = p.inst_layout().iter().copied().collect();
    for (v, d) in gs.iter() {
      let t = from_ty(d.ty());
      match d.kind() {
        ValueKind::GlobalAlloc(a) => {
          let (it, c) = tys(a.init())?;
          if t != T::ptr(it.clone()) || !c || it == T::Unit {
            return Err(format!("global of type {t} is initialized by a value of type {it} (constant: {c})"));
          }
          if !laid.contains(v) {
            return Err("global alloc is not in the layout".into());
          }
        }
        k if k.is_const() => const_ok(k, &t, &tys)?,
        k => return Err(format!("global value is a {}", kname(k))),
      }
    }
  }
  let mut fseen = HashSet::new();
  for f in p.func_layout() {
    if !fseen.insert(*f) {
      return Err("function placed twice".into());
    }
  }
  if fseen.len() != p.funcs().len() {
    return Err("function map and function layout differ".into());
  }
  for f in p.func_layout() {
    let fd = p.funcs().get(f).ok_or("function of the layout does not exist")?;
    func(p, fd).map_err(|e| format!("in function {}: {e}", fd.name()))?;
  }
  use_sets(p)?;
  Ok(())
}

fn func(p: &Program, fd: &FunctionData) -> Result<(), String> {
  let cx = Cx { p, fd };
  let (pt, rt) = match from_ty(fd.ty()) {
    T::Fun(p, r) => (p, (*r).clone()),
    t => return Err(format!("function has type {t}")),
  };
  if pt.contains(&T::Unit) {
    return Err("unit parameter".into());
  }
  if fd.layout().bbs().is_empty() {
    if !fd.dfg().bbs().is_empty() {
      return Err("function has blocks, but none is placed".into());
    }
    return Ok(());
  }
  if fd.params().len() != pt.len() {
    return Err(format!("{} parameters, type {}", fd.params().len(), fd.ty()));
  }
  for (i, v) in fd.params().iter().enumerate() {
    let d = fd.dfg().values().get(v).ok_or("parameter does not exist")?;
    match d.kind() {
      ValueKind::FuncArgRef(a) if a.index() == i && from_ty(d.ty()) == pt[i] => {}
      k => return Err(format!("parameter {i} is {k:?} of type {}", d.ty())),
    }
  }
  // blocks and placement
  let mut placed = HashSet::new();
  let mut bparam = HashSet::new();
  let bbs: Vec<BasicBlock> = fd.layout().bbs().keys().copied().collect();
  if fd.layout().entry_bb() != bbs.first().copied() {
    return Err("entry block is not the first one".into());
  }
  let bset: HashSet<BasicBlock> = bbs.iter().copied().collect();
  if bset.len() != bbs.len() || bset.len() != fd.dfg().bbs().len() {
    return Err("blocks are not placed exactly once".into());
  }
  for (bb, node) in fd.layout().bbs() {
    let d = fd.dfg().bbs().get(bb).ok_or("placed block does not exist")?;
    for (i, v) in d.params().iter().enumerate() {
      let vd = fd.dfg().values().get(v).ok_or("block parameter does not exist")?;
      match vd.kind() {
        ValueKind::BlockArgRef(a) if a.index() == i && *vd.ty() != Type::get_unit() => {}
        k => return Err(format!("block parameter {i} is {k:?}")),
      }
      if !bparam.insert(*v) {
        return Err("block parameter shared".into());
      }
    }
    let n = node.insts().len();
    if n == 0 {
      return Err("empty block".into());
    }
    for (i, v) in node.insts().keys().enumerate() {
      let vd = fd.dfg().values().get(v).ok_or("placed instruction does not exist")?;
      if !vd.kind().is_local_inst() {
        return Err(format!("{} is placed", kname(vd.kind())));
      }
      if !placed.insert(*v) {
        return Err("instruction placed twice".into());
      }
      if fd.layout().parent_bb(*v) != Some(*bb) {
        return Err("wrong containing block".into());
      }
      let term = matches!(vd.kind(), ValueKind::Branch(_) | ValueKind::Jump(_) | ValueKind::Return(_));
      if term != (i + 1 == n) {
        return Err(if term { "terminator inside a block".into() } else { "block without terminator".into() });
      }
      if *vd.ty() == Type::get_unit() && vd.name().is_some() {
        return Err("named unit value".into());
      }
    }
  }
  // values
  let gs = p.borrow_values();
  let tys = |v: Value| {
    fd.dfg()
      .values()
      .get(&v)
      .map(|d| (from_ty(d.ty()), d.kind().is_const()))
      .ok_or("element does not exist".to_string())
  };
  for (v, d) in fd.dfg().values() {
    let t = from_ty(d.ty());
    let k = d.kind();
    if k.is_const() {
      const_ok(k, &t, &tys)?;
      continue;
    }
    match k {
      ValueKind::FuncArgRef(_) if !fd.params().contains(v) => return Err("stray function parameter".into()),
      ValueKind::BlockArgRef(_) if !bparam.contains(v) => return Err("stray block parameter".into()),
      ValueKind::GlobalAlloc(_) => return Err("global alloc in a function".into()),
      k if k.is_local_inst() && !placed.contains(v) => {
        return Err(format!("{} is not placed in any block", kname(k)))
      }
      _ => {}
    }
    let e = |m: String| Err(format!("{}: {m}", kname(k)));
    // operands are constants, parameters, placed instructions or globals
    for u in refs(k).0 {
      match fd.dfg().values().get(&u) {
        Some(ud) => {
          if ud.kind().is_local_inst() && !placed.contains(&u) {
            return e("uses an instruction that is not placed".into());
          }
          if *ud.ty() == Type::get_unit() {
            return e("uses a unit value".into());
          }
        }
        None => match gs.get(&u) {
          Some(g) if g.kind().is_global_alloc() => {}
          Some(_) => return e("uses a global constant".into()),
          None => return e("operand does not exist".into()),
        },
      }
    }
    let args = |params: &[T], args: &[Value]| -> Result<(), String> {
      let a: Vec<T> = args.iter().map(|v| cx.t(*v)).collect::<Result<_, _>>()?;
      if a != params {
        return Err(format!("arguments {a:?} given for {params:?}"));
      }
      Ok(())
    };
    let bt = |b: BasicBlock| -> Result<Vec<T>, String> {
      fd.dfg().bbs().get(&b).ok_or("target does not exist")?.params().iter().map(|v| cx.t(*v)).collect()
    };
    let entry = fd.layout().entry_bb();
    match k {
      ValueKind::Alloc(_) => {
        if !matches!(&t, T::Ptr(b) if **b != T::Unit) {
          return e(format!("has type {t}"));
        }
      }
      ValueKind::Load(x) => {
        if cx.t(x.src())? != T::ptr(t.clone()) {
          return e(format!("of {} has type {t}", cx.t(x.src())?));
        }
      }
      ValueKind::Store(x) => {
        if T::ptr(cx.t(x.value())?) != cx.t(x.dest())? || t != T::Unit {
          return e(format!("of {} to {}", cx.t(x.value())?, cx.t(x.dest())?));
        }
      }
      ValueKind::GetPtr(x) => {
        if cx.t(x.index())? != T::I32 || cx.t(x.src())? != t || t.pointee().is_none() {
          return e(format!("of {} by {} has type {t}", cx.t(x.src())?, cx.t(x.index())?));
        }
      }
      ValueKind::GetElemPtr(x) => {
        let s = cx.t(x.src())?;
        let ok = matches!(&s, T::Ptr(a) if matches!(&**a, T::Arr(el, _) if T::Ptr(el.clone()) == t));
        if !ok || cx.t(x.index())? != T::I32 {
          return e(format!("of {s} by {} has type {t}", cx.t(x.index())?));
        }
      }
      ValueKind::Binary(x) => {
        if cx.t(x.lhs())? != T::I32 || cx.t(x.rhs())? != T::I32 || t != T::I32 {
          return e(format!("{} {} has type {t}", cx.t(x.lhs())?, cx.t(x.rhs())?));
        }
      }
      ValueKind::Branch(x) => {
        if cx.t(x.cond())? != T::I32 || t != T::Unit {
          return e("condition is not i32".into());
        }
        args(&bt(x.true_bb())?, x.true_args())?;
        args(&bt(x.false_bb())?, x.false_args())?;
        if x.true_bb() == x.false_bb() && !x.true_args().is_empty() {
          return e("same target with arguments".into());
        }
        if Some(x.true_bb()) == entry || Some(x.false_bb()) == entry {
          return e("to the entry block".into());
        }
      }
      ValueKind::Jump(x) => {
        args(&bt(x.target())?, x.args())?;
        if Some(x.target()) == entry || t != T::Unit {
          return e("to the entry block".into());
        }
      }
      ValueKind::Call(x) => {
        let callee = p.funcs().get(&x.callee()).ok_or("callee does not exist")?;
        match from_ty(callee.ty()) {
          T::Fun(ps, r) => {
            args(&ps, x.args())?;
            if *r != t {
              return e(format!("has type {t}, callee returns {r}"));
            }
          }
          _ => return e("callee is not a function".into()),
        }
      }
      ValueKind::Return(x) => {
        let vt = match x.value() {
          None => T::Unit,
          Some(v) => cx.t(v)?,
        };
        if vt != rt || t != T::Unit {
          return e(format!("of {vt} in a function returning {rt}"));
        }
      }
      _ => {}
    }
  }
  Ok(())
}
