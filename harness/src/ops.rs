//! Random edit histories on programs, mirrored by a shadow model.
//! C07 use-def, C08 layout, C09 builders, C22 tables.

use crate::api::{bop, from_bop, from_ty, ty};
use crate::fw::*;
use crate::model::{Bop, BOPS, T};
use crate::rng::{fnv, Rng};
use crate::verify::refs;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;
use std::collections::{HashMap, HashSet};

/// Shadow of a value's kind.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SK {
  Int(i32),
  Zero,
  Undef,
  Agg(Vec<Value>),
  FArg(usize),
  BArg(usize),
  Alloc,
  GAlloc(Value),
  Load(Value),
  Store(Value, Value),
  GetPtr(Value, Value),
  GetElem(Value, Value),
  Bin(Bop, Value, Value),
  Br(Value, BasicBlock, Vec<Value>, BasicBlock, Vec<Value>),
  Jump(BasicBlock, Vec<Value>),
  Call(Function, Vec<Value>),
  Ret(Option<Value>),
}

impl SK {
  pub fn of(k: &ValueKind) -> SK {
    match k {
      ValueKind::Integer(i) => SK::Int(i.value()),
      ValueKind::ZeroInit(_) => SK::Zero,
      ValueKind::Undef(_) => SK::Undef,
      ValueKind::Aggregate(a) => SK::Agg(a.elems().to_vec()),
      ValueKind::FuncArgRef(a) => SK::FArg(a.index()),
      ValueKind::BlockArgRef(a) => SK::BArg(a.index()),
      ValueKind::Alloc(_) => SK::Alloc,
      ValueKind::GlobalAlloc(a) => SK::GAlloc(a.init()),
      ValueKind::Load(a) => SK::Load(a.src()),
      ValueKind::Store(a) => SK::Store(a.value(), a.dest()),
      ValueKind::GetPtr(a) => SK::GetPtr(a.src(), a.index()),
      ValueKind::GetElemPtr(a) => SK::GetElem(a.src(), a.index()),
      ValueKind::Binary(a) => SK::Bin(from_bop(a.op()), a.lhs(), a.rhs()),
      ValueKind::Branch(a) => SK::Br(a.cond(), a.true_bb(), a.true_args().to_vec(), a.false_bb(), a.false_args().to_vec()),
      ValueKind::Jump(a) => SK::Jump(a.target(), a.args().to_vec()),
      ValueKind::Call(a) => SK::Call(a.callee(), a.args().to_vec()),
      ValueKind::Return(a) => SK::Ret(a.value()),
    }
  }
  pub fn vals(&self) -> Vec<Value> {
    match self {
      SK::Agg(v) | SK::Jump(_, v) | SK::Call(_, v) => v.clone(),
      SK::GAlloc(v) | SK::Load(v) | SK::Ret(Some(v)) => vec![*v],
      SK::Store(a, b) | SK::GetPtr(a, b) | SK::GetElem(a, b) | SK::Bin(_, a, b) => vec![*a, *b],
      SK::Br(c, _, a, _, b) => {
        let mut v = vec![*c];
        v.extend(a);
        v.extend(b);
        v
      }
      _ => vec![],
    }
  }
  pub fn blocks(&self) -> Vec<BasicBlock> {
    match self {
      SK::Br(_, a, _, b, _) => vec![*a, *b],
      SK::Jump(a, _) => vec![*a],
      _ => vec![],
    }
  }
  pub fn is_const(&self) -> bool {
    matches!(self, SK::Int(_) | SK::Zero | SK::Undef | SK::Agg(_))
  }
  fn is_arg(&self) -> bool {
    matches!(self, SK::FArg(_) | SK::BArg(_))
  }
}

#[derive(Clone)]
pub struct SV {
  pub t: T,
  pub k: SK,
  pub name: Option<String>,
}

pub struct SB {
  pub name: Option<String>,
  pub params: Vec<Value>,
}

pub struct SF {
  pub h: Function,
  pub name: String,
  pub pts: Vec<T>,
  pub ret: T,
  pub params: Vec<Value>,
  pub vals: HashMap<Value, SV>,
  /// Local values in order of creation (for stable choices).
  pub order: Vec<Value>,
  pub bbs: HashMap<BasicBlock, SB>,
  pub border: Vec<BasicBlock>,
  pub lay: Vec<(BasicBlock, Vec<Value>)>,
  pub decl: bool,
}

#[derive(Clone, Debug)]
enum Req {
  Int(i32),
  Zero(T),
  Undef(T),
  Agg(Vec<Value>),
  Alloc(T),
  Load(Value),
  Store(Value, Value),
  GetPtr(Value, Value),
  GetElem(Value, Value),
  Bin(Bop, Value, Value),
  Br(Value, BasicBlock, BasicBlock),
  BrA(Value, BasicBlock, BasicBlock, Vec<Value>, Vec<Value>),
  Jump(BasicBlock),
  JumpA(BasicBlock, Vec<Value>),
  Call(Function, Vec<Value>),
  Ret(Option<Value>),
  GAlloc(Value),
}

pub struct World {
  pub p: Program,
  pub g: HashMap<Value, SV>,
  pub gorder: Vec<Value>,
  pub gl: Vec<Value>,
  pub fs: Vec<SF>,
  pub dead_v: Vec<Value>,
  pub dead_b: Vec<BasicBlock>,
  pub dead_f: Vec<Function>,
  pub detached: Vec<(FunctionData, SF)>,
  pub log: Vec<String>,
  pub names: usize,
}

fn good_name(r: &mut Rng, n: &mut usize) -> String {
  *n += 1;
  let p = if r.chance(1, 2) { '@' } else { '%' };
  match r.below(4) {
    0 => format!("{p}{n}"),
    1 => format!("{p}x"),
    2 => format!("{p}{}", "y".repeat(r.range(1, 3))),
    _ => format!("{p}n{n}"),
  }
}

fn bad_name(r: &mut Rng) -> String {
  (*r.pick(&["", "x", "%", "@", "$a", "a%b", "_@", " %a"])).to_string()
}

fn opt_name(r: &mut Rng, n: &mut usize, bad: bool) -> (Option<String>, bool) {
  if bad && r.chance(1, 6) {
    (Some(bad_name(r)), false)
  } else if r.chance(1, 3) {
    (None, true)
  } else {
    (Some(good_name(r, n)), true)
  }
}

fn rty(r: &mut Rng, d: usize) -> T {
  match r.below(if d == 0 { 2 } else { 8 }) {
    0 | 1 | 2 => T::I32,
    3 | 4 => T::ptr(rty(r, d - 1)),
    5 | 6 => T::arr(rty(r, d - 1), r.range(1, 3)),
    _ => T::fun((0..r.below(3)).map(|_| rty(r, d - 1)).collect(), if r.chance(1, 2) { T::Unit } else { rty(r, d - 1) }),
  }
}

#[derive(Default)]
pub struct Mix {
  pub build: usize,
  pub bad: bool,
  pub replace: usize,
  pub update: usize,
  pub remove: usize,
  pub name: usize,
  pub layout: usize,
  pub table: usize,
  pub raw: usize,
  pub bbs: usize,
}

impl World {
  pub fn new() -> World {
    World {
      p: Program::new(),
      g: HashMap::new(),
      gorder: vec![],
      gl: vec![],
      fs: vec![],
      dead_v: vec![],
      dead_b: vec![],
      dead_f: vec![],
      detached: vec![],
      log: vec![],
      names: 0,
    }
  }

  fn sv(&self, fi: Option<usize>, v: Value) -> Option<&SV> {
    self.g.get(&v).or_else(|| fi.and_then(|f| self.fs[f].vals.get(&v)))
  }

  fn vt(&self, fi: Option<usize>, v: Value) -> Option<T> {
    self.sv(fi, v).map(|s| s.t.clone())
  }

  /// All values a request in this place may name.
  fn pool(&self, fi: Option<usize>) -> Vec<Value> {
    let mut v: Vec<Value> = self.gorder.clone();
    if let Some(f) = fi {
      v.extend(&self.fs[f].order);
      v.extend(&self.fs[f].order);
    }
    v
  }

  fn bad_value(&self, r: &mut Rng, fi: Option<usize>) -> Option<Value> {
    let mut v = self.dead_v.clone();
    for (i, f) in self.fs.iter().enumerate() {
      if Some(i) != fi {
        v.extend(&f.order);
      }
    }
    (!v.is_empty()).then(|| *r.pick(&v))
  }

  fn pick_ty(&self, r: &mut Rng, fi: Option<usize>, bad: bool, f: impl Fn(&T) -> bool) -> Option<Value> {
    let pool = self.pool(fi);
    if bad && r.chance(1, 25) {
      if let Some(v) = self.bad_value(r, fi) {
        return Some(v);
      }
    }
    if !(bad && r.chance(1, 12)) {
      let good: Vec<Value> = pool.iter().copied().filter(|v| f(&self.vt(fi, *v).unwrap())).collect();
      if !good.is_empty() {
        return Some(*r.pick(&good));
      }
      if !bad {
        return None;
      }
    }
    (!pool.is_empty()).then(|| *r.pick(&pool))
  }

  fn pick_const(&self, r: &mut Rng, fi: Option<usize>, t: Option<&T>, bad: bool) -> Option<Value> {
    let pool: Vec<Value> = self
      .pool(fi)
      .into_iter()
      .filter(|v| {
        let s = self.sv(fi, *v).unwrap();
        s.k.is_const() && t.is_none_or(|t| s.t == *t)
      })
      .collect();
    if bad && r.chance(1, 12) {
      return self.pick_ty(r, fi, bad, |_| true);
    }
    (!pool.is_empty()).then(|| *r.pick(&pool))
  }

  fn pick_bb(&self, r: &mut Rng, fi: usize, bad: bool) -> Option<BasicBlock> {
    if bad && r.chance(1, 20) {
      let mut v = self.dead_b.clone();
      for (i, f) in self.fs.iter().enumerate() {
        if i != fi {
          v.extend(&f.border);
        }
      }
      if !v.is_empty() {
        return Some(*r.pick(&v));
      }
    }
    let v = &self.fs[fi].border;
    (!v.is_empty()).then(|| *r.pick(v))
  }

  fn args_for(&self, r: &mut Rng, fi: usize, ts: &[T], bad: bool) -> Option<Vec<Value>> {
    let mut v = vec![];
    // at most one mistake in a long list, anywhere
    let long = ts.len() > 6;
    for t in ts {
      v.push(self.pick_ty(r, Some(fi), bad && !long, |x| x == t)?);
    }
    if long && bad && r.chance(1, 2) {
      let k = r.below(v.len());
      v[k] = self.pick_ty(r, Some(fi), bad, |x| *x != ts[k])?;
    }
    if bad && r.chance(1, 8) {
      if r.chance(1, 2) {
        v.pop();
      } else {
        v.push(self.pick_ty(r, Some(fi), bad, |_| true)?);
      }
    }
    Some(v)
  }

  fn bb_pts(&self, fi: usize, b: BasicBlock) -> Option<Vec<T>> {
    let s = self.fs[fi].bbs.get(&b)?;
    s.params.iter().map(|v| self.vt(Some(fi), *v)).collect()
  }

  fn req(&mut self, r: &mut Rng, fi: Option<usize>, bad: bool) -> Option<Req> {
    let anyty = |r: &mut Rng| if bad && r.chance(1, 8) { T::Unit } else { rty(r, 3) };
    let Some(f) = fi else {
      return Some(match r.below(8) {
        0 => Req::Int(r.int()),
        1 => Req::Zero(anyty(r)),
        2 => Req::Undef(anyty(r)),
        3 | 4 => Req::Agg(self.agg(r, fi, bad)?),
        _ => Req::GAlloc(match self.pick_const(r, fi, None, false) {
          Some(v) if !(bad && r.chance(1, 10)) => v,
          _ => self.bad_value(r, fi)?,
        }),
      });
    };
    let int = |t: &T| *t == T::I32;
    Some(match r.below(24) {
      0 => Req::Int(r.int()),
      1 => Req::Zero(anyty(r)),
      2 => Req::Undef(anyty(r)),
      3 => Req::Agg(self.agg(r, fi, bad)?),
      4 | 5 => Req::Alloc(anyty(r)),
      6 | 7 => Req::Load(self.pick_ty(r, fi, bad, |t| matches!(t, T::Ptr(x) if **x != T::Unit))?),
      8 | 9 => {
        let d = self.pick_ty(r, fi, bad, |t| matches!(t, T::Ptr(x) if **x != T::Unit))?;
        let vt = self.vt(fi, d).and_then(|t| t.pointee().cloned()).unwrap_or(T::I32);
        Req::Store(self.pick_ty(r, fi, bad, |t| *t == vt)?, d)
      }
      10 => Req::GetPtr(self.pick_ty(r, fi, bad, |t| matches!(t, T::Ptr(_)))?, self.pick_ty(r, fi, bad, int)?),
      11 | 12 => Req::GetElem(
        self.pick_ty(r, fi, bad, |t| matches!(t, T::Ptr(x) if matches!(**x, T::Arr(..))))?,
        self.pick_ty(r, fi, bad, int)?,
      ),
      13 | 14 => Req::Bin(r.pick(&BOPS).0, self.pick_ty(r, fi, bad, int)?, self.pick_ty(r, fi, bad, int)?),
      15 => {
        let c = self.pick_ty(r, fi, bad, int)?;
        let empty: Vec<BasicBlock> =
          self.fs[f].border.iter().copied().filter(|b| self.fs[f].bbs[b].params.is_empty()).collect();
        let one = |r: &mut Rng| -> Option<BasicBlock> {
          if bad && r.chance(1, 6) {
            self.pick_bb(r, f, bad)
          } else {
            (!empty.is_empty()).then(|| *r.pick(&empty))
          }
        };
        let (a, b) = (one(r)?, one(r)?);
        Req::Br(c, a, b)
      }
      16 | 17 => {
        let c = self.pick_ty(r, fi, bad, int)?;
        let (a, b) = (self.pick_bb(r, f, bad)?, self.pick_bb(r, f, bad)?);
        let (pa, pb) = (self.bb_pts(f, a).unwrap_or_default(), self.bb_pts(f, b).unwrap_or_default());
        Req::BrA(c, a, b, self.args_for(r, f, &pa, bad)?, self.args_for(r, f, &pb, bad)?)
      }
      18 => Req::Jump(self.pick_bb(r, f, bad)?),
      19 => {
        let a = self.pick_bb(r, f, bad)?;
        let pa = self.bb_pts(f, a).unwrap_or_default();
        Req::JumpA(a, self.args_for(r, f, &pa, bad)?)
      }
      20..=22 => {
        if bad && r.chance(1, 15) && !self.dead_f.is_empty() {
          return Some(Req::Call(*r.pick(&self.dead_f), vec![]));
        }
        let c = r.below(self.fs.len());
        let pts = self.fs[c].pts.clone();
        Req::Call(self.fs[c].h, self.args_for(r, f, &pts, bad)?)
      }
      _ => Req::Ret(if r.chance(1, 3) { None } else { Some(self.pick_ty(r, fi, bad, |t| *t != T::Unit)?) }),
    })
  }

  fn agg(&self, r: &mut Rng, fi: Option<usize>, bad: bool) -> Option<Vec<Value>> {
    if bad && r.chance(1, 15) {
      return Some(vec![]);
    }
    let a = self.pick_const(r, fi, None, bad)?;
    let t = self.vt(fi, a);
    let mut v = vec![a];
    let long = r.chance(1, 20);
    let n = if long { r.range(10, 80) } else { r.below(4) };
    // at most one mistake in a long list, anywhere
    let at = if bad && r.chance(1, 2) { r.below(n.max(1)) } else { n };
    for i in 0..n {
      let any = if long { i == at } else { bad && r.chance(1, 12) };
      let bad = bad && !long;
      v.push(self.pick_const(r, fi, if any { None } else { t.as_ref() }, bad).unwrap_or(a));
    }
    Some(v)
  }

  /// What the rules say about a request: type and kind of the result.
  fn judge(&self, fi: Option<usize>, q: &Req) -> Option<(T, SK)> {
    let t = |v: Value| self.vt(fi, v);
    let pt = |v: Value| match t(v) {
      Some(T::Ptr(x)) => Some((*x).clone()),
      _ => None,
    };
    let int = |v: Value| (t(v)? == T::I32).then_some(());
    let args = |pts: &[T], a: &[Value]| -> Option<()> {
      if pts.len() != a.len() {
        return None;
      }
      for (p, v) in pts.iter().zip(a) {
        if t(*v)? != *p {
          return None;
        }
      }
      Some(())
    };
    Some(match q {
      Req::Int(i) => (T::I32, SK::Int(*i)),
      Req::Zero(T::Unit) | Req::Undef(T::Unit) | Req::Alloc(T::Unit) => return None,
      Req::Zero(t) => (t.clone(), SK::Zero),
      Req::Undef(t) => (t.clone(), SK::Undef),
      Req::Alloc(t) => (T::ptr(t.clone()), SK::Alloc),
      Req::Agg(v) => {
        let e = t(*v.first()?)?;
        for x in v {
          if t(*x)? != e || !self.sv(fi, *x)?.k.is_const() {
            return None;
          }
        }
        (T::arr(e, v.len()), SK::Agg(v.clone()))
      }
      Req::Load(v) => (pt(*v)?, SK::Load(*v)),
      Req::Store(v, d) => {
        if t(*v)? != pt(*d)? {
          return None;
        }
        (T::Unit, SK::Store(*v, *d))
      }
      Req::GetPtr(s, i) => {
        int(*i)?;
        (T::ptr(pt(*s)?), SK::GetPtr(*s, *i))
      }
      Req::GetElem(s, i) => {
        int(*i)?;
        match pt(*s)? {
          T::Arr(e, _) => (T::ptr((*e).clone()), SK::GetElem(*s, *i)),
          _ => return None,
        }
      }
      Req::Bin(o, a, b) => {
        int(*a)?;
        int(*b)?;
        (T::I32, SK::Bin(*o, *a, *b))
      }
      Req::Br(c, a, b) => {
        int(*c)?;
        if !self.bb_pts(fi?, *a)?.is_empty() || !self.bb_pts(fi?, *b)?.is_empty() {
          return None;
        }
        (T::Unit, SK::Br(*c, *a, vec![], *b, vec![]))
      }
      Req::BrA(c, a, b, x, y) => {
        int(*c)?;
        args(&self.bb_pts(fi?, *a)?, x)?;
        args(&self.bb_pts(fi?, *b)?, y)?;
        if a == b && !x.is_empty() {
          return None;
        }
        (T::Unit, SK::Br(*c, *a, x.clone(), *b, y.clone()))
      }
      Req::Jump(a) => {
        if !self.bb_pts(fi?, *a)?.is_empty() {
          return None;
        }
        (T::Unit, SK::Jump(*a, vec![]))
      }
      Req::JumpA(a, x) => {
        args(&self.bb_pts(fi?, *a)?, x)?;
        (T::Unit, SK::Jump(*a, x.clone()))
      }
      Req::Call(c, x) => {
        let f = self.fs.iter().find(|f| f.h == *c)?;
        args(&f.pts, x)?;
        (f.ret.clone(), SK::Call(*c, x.clone()))
      }
      Req::Ret(None) => (T::Unit, SK::Ret(None)),
      Req::Ret(Some(v)) => {
        if t(*v)? == T::Unit {
          return None;
        }
        (T::Unit, SK::Ret(Some(*v)))
      }
      Req::GAlloc(v) => {
        let x = t(*v)?;
        if x == T::Unit {
          return None;
        }
        (T::ptr(x), SK::GAlloc(*v))
      }
    })
  }

  /// Hands the request to the library.
  fn perform(&mut self, fi: Option<usize>, q: &Req, replace: Option<Value>) -> Result<Value, String> {
    fn common<B: ValueBuilder>(b: B, q: &Req) -> Value {
      match q {
        Req::Int(i) => b.integer(*i),
        Req::Zero(t) => b.zero_init(ty(t)),
        Req::Undef(t) => b.undef(ty(t)),
        Req::Agg(v) => b.aggregate(v.clone()),
        _ => unreachable!(),
      }
    }
    fn local<B: LocalInstBuilder>(b: B, q: &Req) -> Value {
      match q.clone() {
        Req::Alloc(t) => b.alloc(ty(&t)),
        Req::Load(v) => b.load(v),
        Req::Store(v, d) => b.store(v, d),
        Req::GetPtr(s, i) => b.get_ptr(s, i),
        Req::GetElem(s, i) => b.get_elem_ptr(s, i),
        Req::Bin(o, x, y) => b.binary(bop(o), x, y),
        Req::Br(c, x, y) => b.branch(c, x, y),
        Req::BrA(c, x, y, p, q) => b.branch_with_args(c, x, y, p, q),
        Req::Jump(x) => b.jump(x),
        Req::JumpA(x, a) => b.jump_with_args(x, a),
        Req::Call(c, a) => b.call(c, a),
        Req::Ret(v) => b.ret(v),
        q => common(b, &q),
      }
    }
    let p = &mut self.p;
    let h = fi.map(|f| self.fs[f].h);
    guarded(move || match (h, replace) {
      (None, _) => match q {
        Req::GAlloc(v) => p.new_value().global_alloc(*v),
        q => common(p.new_value(), q),
      },
      (Some(h), None) => local(p.func_mut(h).dfg_mut().new_value(), q),
      (Some(h), Some(v)) => local(p.func_mut(h).dfg_mut().replace_value_with(v), q),
    })
  }

  fn add_sv(&mut self, fi: Option<usize>, v: Value, s: SV) {
    match fi {
      None => {
        if matches!(s.k, SK::GAlloc(_)) {
          self.gl.push(v);
        }
        self.g.insert(v, s);
        self.gorder.push(v);
      }
      Some(f) => {
        self.fs[f].vals.insert(v, s);
        self.fs[f].order.push(v);
      }
    }
  }

  fn used(&self, v: Value) -> bool {
    self.g.values().any(|s| s.k.vals().contains(&v))
      || self.fs.iter().any(|f| f.vals.values().any(|s| s.k.vals().contains(&v)))
  }

  fn bb_used(&self, f: usize, b: BasicBlock) -> bool {
    self.fs[f].vals.values().any(|s| s.k.blocks().contains(&b))
  }

  fn placed(&self, f: usize, v: Value) -> bool {
    self.fs[f].lay.iter().any(|(_, vs)| vs.contains(&v))
  }

  /// True if `v` reaches `x` through operands (to keep programs acyclic).
  fn reaches(&self, f: usize, v: Value, x: Value) -> bool {
    let mut seen = HashSet::new();
    let mut st = vec![v];
    while let Some(v) = st.pop() {
      if v == x {
        return true;
      }
      if seen.insert(v) {
        if let Some(s) = self.sv(Some(f), v) {
          st.extend(s.k.vals());
        }
      }
    }
    false
  }

  fn step(&mut self, cx: &mut Cx, r: &mut Rng, m: &Mix) -> Result<(), (String, String)> {
    let ws = [m.build, m.replace, m.update, m.remove, m.name, m.layout, m.table, m.raw, m.bbs];
    let total: usize = ws.iter().sum();
    let mut k = r.below(total);
    let mut op = 0;
    while k >= ws[op] {
      k -= ws[op];
      op += 1;
    }
    let defs: Vec<usize> = (0..self.fs.len()).filter(|f| !self.fs[*f].decl).collect();
    let f = if defs.is_empty() { None } else { Some(*r.pick(&defs)) };
    match (op, f) {
      (0, f) => {
        let f = if r.chance(1, 5) { None } else { f };
        self.op_build(cx, r, f, m.bad, None)
      }
      (1, Some(f)) => {
        let v = if m.bad && r.chance(1, 15) {
          match self.bad_value(r, Some(f)) {
            Some(v) => v,
            None => return Ok(()),
          }
        } else {
          let c: Vec<Value> = self.fs[f].order.iter().copied().filter(|v| !self.fs[f].vals[v].k.is_arg()).collect();
          if c.is_empty() {
            return Ok(());
          }
          *r.pick(&c)
        };
        self.op_build(cx, r, Some(f), m.bad, Some(v))
      }
      (2, Some(f)) => self.op_update(cx, r, f),
      (3, f) => self.op_remove(cx, r, f),
      (4, f) => self.op_name(cx, r, f, m.bad),
      (5, Some(f)) => self.op_layout(cx, r, f),
      (6, _) => self.op_table(cx, r, m.bad),
      (7, f) => self.op_raw(cx, r, f),
      (8, Some(f)) => self.op_bb(cx, r, f, m.bad),
      _ => Ok(()),
    }
  }

  fn op_build(&mut self, cx: &mut Cx, r: &mut Rng, fi: Option<usize>, bad: bool, replace: Option<Value>) -> Result<(), (String, String)> {
    let Some(q) = self.req(r, fi, bad) else { return Ok(()) };
    let mut want = self.judge(fi, &q);
    if let Some(v) = replace {
      match (&want, fi) {
        (Some((_, k)), Some(f)) => {
          if k.vals().iter().any(|x| self.reaches(f, *x, v)) {
            return Ok(());
          }
          if !self.fs[f].vals.contains_key(&v) {
            want = None;
          }
        }
        _ => (),
      }
    }
    let verb = if replace.is_some() { "replace" } else { "build" };
    self.log.push(format!("{verb} {replace:?} in {fi:?}: {q:?} -> expected {}", if want.is_some() { "ok" } else { "refusal" }));
    let got = self.perform(fi, &q, replace);
    cx.count(&format!("{verb} {} {}", if want.is_some() { "accepted" } else { "refused" }, reqname(&q)));
    match (want, got) {
      (Some((t, k)), Ok(v)) => {
        if let Some(o) = replace {
          if v != o {
            return Err(("a replacement has another handle".into(), String::new()));
          }
          let f = fi.unwrap();
          self.fs[f].vals.insert(v, SV { t, k, name: None });
        } else {
          if self.sv(fi, v).is_some() || self.dead_v.contains(&v) {
            return Err(("a new value has a used handle".into(), String::new()));
          }
          if v.is_global() != fi.is_none() {
            return Err(("`is_global` of a new value is wrong".into(), String::new()));
          }
          self.add_sv(fi, v, SV { t, k, name: None });
        }
        Ok(())
      }
      (None, Err(_)) => Ok(()),
      (Some(_), Err(m)) => Err(("a valid request was refused".into(), format!("{q:?}: {m}"))),
      (None, Ok(_)) => Err(("an ill-typed request was accepted".into(), format!("{q:?}"))),
    }
  }

  fn op_update(&mut self, cx: &mut Cx, r: &mut Rng, f: usize) -> Result<(), (String, String)> {
    let c: Vec<Value> = self.fs[f].order.iter().copied().filter(|v| !self.fs[f].vals[v].k.vals().is_empty() || !self.fs[f].vals[v].k.blocks().is_empty()).collect();
    if c.is_empty() {
      return Ok(());
    }
    let v = *r.pick(&c);
    let t = |w: &World, x: Value| w.vt(Some(f), x).unwrap();
    let mut k = self.fs[f].vals[&v].k.clone();
    let pool: Vec<Value> = self.pool(Some(f)).into_iter().filter(|x| t(self, *x) != T::Unit && !self.reaches(f, *x, v)).collect();
    if pool.is_empty() {
      return Ok(());
    }
    let bbs = self.fs[f].border.clone();
    let n = r.range(1, 3);
    for _ in 0..n {
      let x = *r.pick(&pool);
      let vecop = |r: &mut Rng, a: &mut Vec<Value>| match r.below(4) {
        0 => a.push(x),
        1 => {
          a.pop();
        }
        2 => {
          let i = r.below(a.len() + 1);
          a.insert(i, x)
        }
        _ => {
          if !a.is_empty() {
            let i = r.below(a.len());
            a[i] = x;
          }
        }
      };
      match &mut k {
        SK::Agg(a) | SK::Call(_, a) => vecop(r, a),
        SK::Load(a) => *a = x,
        SK::Store(a, b) | SK::GetPtr(a, b) | SK::GetElem(a, b) | SK::Bin(_, a, b) => {
          if r.chance(1, 2) {
            *a = x
          } else {
            *b = x
          }
        }
        SK::Ret(a) => *a = if r.chance(1, 3) { None } else { Some(x) },
        SK::Jump(b, a) => {
          if r.chance(1, 2) {
            *b = *r.pick(&bbs)
          } else {
            vecop(r, a)
          }
        }
        SK::Br(c, b1, a1, b2, a2) => match r.below(5) {
          0 => *c = x,
          1 => *b1 = *r.pick(&bbs),
          2 => *b2 = *r.pick(&bbs),
          3 => vecop(r, a1),
          _ => vecop(r, a2),
        },
        _ => (),
      }
      if let SK::Bin(o, ..) = &mut k {
        if r.chance(1, 4) {
          *o = r.pick(&BOPS).0;
        }
      }
    }
    self.log.push(format!("update {v:?} in {f}: {k:?}"));
    cx.count("updates");
    let h = self.fs[f].h;
    let k2 = k.clone();
    let p = &mut self.p;
    guarded(move || p.func_mut(h).dfg_mut().update_value(v, |d| set_kind(d.kind_mut(), &k2)))
      .map_err(|m| ("an update was refused".to_string(), m))?;
    self.fs[f].vals.get_mut(&v).unwrap().k = k;
    Ok(())
  }

  fn op_remove(&mut self, cx: &mut Cx, r: &mut Rng, f: Option<usize>) -> Result<(), (String, String)> {
    let glob = f.is_none() || r.chance(1, 4);
    if glob {
      let c: Vec<Value> = self.gorder.iter().copied().filter(|v| !self.used(*v)).collect();
      if c.is_empty() {
        return Ok(());
      }
      let v = *r.pick(&c);
      self.log.push(format!("remove global {v:?}"));
      cx.count("globals removed");
      let p = &mut self.p;
      let d = guarded(move || p.remove_value(v)).map_err(|m| ("removal of an unused global was refused".to_string(), m))?;
      let s = self.g.remove(&v).unwrap();
      self.gorder.retain(|x| *x != v);
      self.gl.retain(|x| *x != v);
      self.dead_v.push(v);
      same_data(&d, &s).map_err(|m| ("the data returned by a removal is wrong".to_string(), m))
    } else {
      let f = f.unwrap();
      let c: Vec<Value> = self.fs[f]
        .order
        .iter()
        .copied()
        .filter(|v| !self.used(*v) && !self.placed(f, *v) && !matches!(self.fs[f].vals[v].k, SK::BArg(_) | SK::FArg(_)))
        .collect();
      if c.is_empty() {
        return Ok(());
      }
      let v = *r.pick(&c);
      self.log.push(format!("remove {v:?} in {f}"));
      cx.count("locals removed");
      let h = self.fs[f].h;
      let p = &mut self.p;
      let d = guarded(move || p.func_mut(h).dfg_mut().remove_value(v)).map_err(|m| ("removal of an unused value was refused".to_string(), m))?;
      let s = self.fs[f].vals.remove(&v).unwrap();
      self.fs[f].order.retain(|x| *x != v);
      self.dead_v.push(v);
      same_data(&d, &s).map_err(|m| ("the data returned by a removal is wrong".to_string(), m))?;
      if r.chance(1, 4) && s.k.vals().iter().all(|x| self.sv(Some(f), *x).is_some()) {
        // put the removed data back as a new value
        self.log.push("re-insert the removed data".into());
        cx.count("removed data inserted again");
        let p = &mut self.p;
        let v = guarded(move || p.func_mut(h).dfg_mut().new_value().raw(d)).map_err(|m| ("raw insertion was refused".to_string(), m))?;
        self.add_sv(Some(f), v, s);
      }
      Ok(())
    }
  }

  fn op_name(&mut self, cx: &mut Cx, r: &mut Rng, f: Option<usize>, bad: bool) -> Result<(), (String, String)> {
    let (n, ok) = opt_name(r, &mut self.names, bad);
    let glob = f.is_none() || r.chance(1, 3);
    let c = if glob { self.gorder.clone() } else { self.fs[f.unwrap()].order.clone() };
    if c.is_empty() {
      return Ok(());
    }
    let v = *r.pick(&c);
    self.log.push(format!("name {v:?} {n:?} -> expected {}", if ok { "ok" } else { "refusal" }));
    cx.count(if ok { "names set" } else { "names refused" });
    let p = &mut self.p;
    let n2 = n.clone();
    let h = f.map(|f| self.fs[f].h);
    let got = guarded(move || {
      if glob {
        p.set_value_name(v, n2)
      } else {
        p.func_mut(h.unwrap()).dfg_mut().set_value_name(v, n2)
      }
    });
    match (ok, got) {
      (true, Ok(())) => {
        let s = if glob { self.g.get_mut(&v) } else { self.fs[f.unwrap()].vals.get_mut(&v) };
        s.unwrap().name = n;
        Ok(())
      }
      (false, Err(_)) => Ok(()),
      (true, Err(m)) => Err(("a valid name was refused".into(), m)),
      (false, Ok(())) => Err(("an invalid name was accepted".into(), format!("{n:?}"))),
    }
  }

  fn op_bb(&mut self, cx: &mut Cx, r: &mut Rng, f: usize, bad: bool) -> Result<(), (String, String)> {
    let h = self.fs[f].h;
    match r.below(8) {
      0 if !self.fs[f].border.is_empty() => {
        // rename
        let b = *r.pick(&self.fs[f].border.clone());
        let (n, _) = opt_name(r, &mut self.names, false);
        self.log.push(format!("name {b:?} {n:?}"));
        self.p.func_mut(h).dfg_mut().bb_mut(b).set_name(n.clone());
        self.fs[f].bbs.get_mut(&b).unwrap().name = n;
        Ok(())
      }
      1 | 2 => {
        let c: Vec<BasicBlock> = self.fs[f]
          .border
          .iter()
          .copied()
          .filter(|b| {
            !self.bb_used(f, *b)
              && !self.fs[f].lay.iter().any(|x| x.0 == *b)
              && self.fs[f].bbs[b].params.iter().all(|v| !self.used(*v))
          })
          .collect();
        if c.is_empty() {
          return Ok(());
        }
        let b = *r.pick(&c);
        self.log.push(format!("remove block {b:?} in {f}"));
        cx.count("blocks removed");
        let p = &mut self.p;
        let d = guarded(move || p.func_mut(h).dfg_mut().remove_bb(b)).map_err(|m| ("removal of an unused block was refused".to_string(), m))?;
        let s = self.fs[f].bbs.remove(&b).unwrap();
        self.fs[f].border.retain(|x| *x != b);
        self.dead_b.push(b);
        for v in &s.params {
          self.fs[f].vals.remove(v);
          self.fs[f].order.retain(|x| x != v);
          self.dead_v.push(*v);
        }
        if d.name() != &s.name || d.params() != s.params || !d.used_by().is_empty() {
          return Err(("the data returned by a block removal is wrong".into(), String::new()));
        }
        Ok(())
      }
      3 if self.fs[f].border.iter().any(|b| !self.fs[f].bbs[b].params.is_empty()) => {
        // drop an unused parameter
        for b in self.fs[f].border.clone() {
          let ps = &self.fs[f].bbs[&b].params;
          if let Some(i) = (0..ps.len()).find(|i| !self.used(ps[*i])) {
            let v = ps[i];
            self.log.push(format!("drop parameter {v:?} of {b:?}"));
            cx.count("block parameters dropped");
            let p = &mut self.p;
            guarded(move || {
              let d = p.func_mut(h).dfg_mut();
              d.bb_mut(b).params_mut().retain(|x| *x != v);
              d.remove_value(v);
            })
            .map_err(|m| ("removal of an unused block parameter was refused".to_string(), m))?;
            self.fs[f].bbs.get_mut(&b).unwrap().params.remove(i);
            self.fs[f].vals.remove(&v);
            self.fs[f].order.retain(|x| *x != v);
            self.dead_v.push(v);
            return Ok(());
          }
        }
        Ok(())
      }
      _ => {
        // new block
        let (n, mut ok) = opt_name(r, &mut self.names, bad);
        let how = r.below(3);
        let long = r.chance(1, 12);
        let k = if how == 0 {
          0
        } else if long {
          r.range(5, 40)
        } else {
          r.below(4)
        };
        let odds = if long { 60 } else { 10 };
        let mut ps: Vec<(Option<String>, T)> = vec![];
        for _ in 0..k {
          let (pn, pok) = if how == 2 { opt_name(r, &mut self.names, bad && !long) } else { (None, true) };
          let t = if bad && r.chance(1, odds) { T::Unit } else { rty(r, if long { 1 } else { 2 }) };
          ok &= pok && t != T::Unit;
          ps.push((pn, t));
        }
        self.log.push(format!("new block {n:?} {ps:?} in {f} -> expected {}", if ok { "ok" } else { "refusal" }));
        cx.count(if ok { "blocks built" } else { "blocks refused" });
        let (n2, ps2) = (n.clone(), ps.clone());
        let p = &mut self.p;
        let got = guarded(move || {
          let b = p.func_mut(h).dfg_mut().new_bb();
          match how {
            0 => b.basic_block(n2),
            1 => b.basic_block_with_params(n2, ps2.iter().map(|p| ty(&p.1)).collect()),
            _ => b.basic_block_with_param_names(n2, ps2.iter().map(|p| (p.0.clone(), ty(&p.1))).collect()),
          }
        });
        match (ok, got) {
          (false, Err(_)) => Ok(()),
          (true, Err(m)) => Err(("a valid block was refused".into(), m)),
          (false, Ok(_)) => Err(("an invalid block was accepted".into(), format!("{n:?} {ps:?}"))),
          (true, Ok(b)) => {
            if self.fs.iter().any(|f| f.bbs.contains_key(&b)) || self.dead_b.contains(&b) {
              return Err(("a new block has a used handle".into(), String::new()));
            }
            let vs = self.p.func(h).dfg().bb(b).params().to_vec();
            if vs.len() != ps.len() {
              return Err(("a new block has the wrong number of parameters".into(), format!("{} instead of {}", vs.len(), ps.len())));
            }
            for (i, (v, (n, t))) in vs.iter().zip(ps).enumerate() {
              if self.fs[f].vals.contains_key(v) || self.dead_v.contains(v) {
                return Err(("a new block parameter has a used handle".into(), String::new()));
              }
              self.add_sv(Some(f), *v, SV { t, k: SK::BArg(i), name: n });
            }
            self.fs[f].bbs.insert(b, SB { name: n, params: vs });
            self.fs[f].border.push(b);
            Ok(())
          }
        }
      }
    }
  }

  fn op_raw(&mut self, cx: &mut Cx, r: &mut Rng, f: Option<usize>) -> Result<(), (String, String)> {
    let glob = f.is_none() || r.chance(1, 4);
    let src: Vec<Value> = if glob {
      self.gorder.clone()
    } else {
      let f = f.unwrap();
      self.fs[f].order.iter().copied().filter(|v| !self.fs[f].vals[v].k.is_arg()).collect()
    };
    if src.is_empty() {
      return Ok(());
    }
    let v = *r.pick(&src);
    cx.count("raw clones");
    if glob {
      self.log.push(format!("raw clone of global {v:?}"));
      let s = self.g[&v].clone();
      let p = &mut self.p;
      let n = guarded(move || {
        let d = p.borrow_value(v).clone();
        p.new_value().raw(d)
      })
      .map_err(|m| ("raw insertion was refused".to_string(), m))?;
      self.add_sv(None, n, s);
      return Ok(());
    }
    let f = f.unwrap();
    let h = self.fs[f].h;
    let s = self.fs[f].vals[&v].clone();
    if r.chance(1, 2) {
      self.log.push(format!("raw clone of {v:?} in {f}"));
      let p = &mut self.p;
      let n = guarded(move || {
        let d = p.func(h).dfg().value(v).clone();
        p.func_mut(h).dfg_mut().new_value().raw(d)
      })
      .map_err(|m| ("raw insertion was refused".to_string(), m))?;
      self.add_sv(Some(f), n, s);
    } else {
      let o = *r.pick(&src);
      if s.k.vals().iter().any(|x| self.reaches(f, *x, o)) || s.k.vals().contains(&o) {
        return Ok(());
      }
      self.log.push(format!("raw replacement of {o:?} by a clone of {v:?} in {f}"));
      let p = &mut self.p;
      guarded(move || {
        let d = p.func(h).dfg().value(v).clone();
        p.func_mut(h).dfg_mut().replace_value_with(o).raw(d)
      })
      .map_err(|m| ("raw replacement was refused".to_string(), m))?;
      self.fs[f].vals.insert(o, s);
    }
    Ok(())
  }

  fn op_table(&mut self, cx: &mut Cx, r: &mut Rng, bad: bool) -> Result<(), (String, String)> {
    match r.below(10) {
      0 | 1 if self.fs.len() > 1 => {
        let i = r.below(self.fs.len());
        let h = self.fs[i].h;
        self.log.push(format!("remove function {h:?} ({i})"));
        cx.count("functions removed");
        let p = &mut self.p;
        let d = guarded(move || p.remove_func(h)).map_err(|m| ("removal of a function panicked".to_string(), m))?;
        let Some(d) = d else { return Err(("removal of a present function returned nothing".into(), String::new())) };
        let s = self.fs.remove(i);
        if d.name() != s.name || d.params() != s.params {
          return Err(("removal returned the data of another function".into(), format!("{} instead of {}", d.name(), s.name)));
        }
        self.dead_f.push(h);
        if self.detached.len() < 2 {
          self.detached.push((d, s));
        } else {
          self.dead_v.extend(&s.order);
          self.dead_b.extend(&s.border);
        }
        Ok(())
      }
      2 => {
        if self.dead_f.is_empty() {
          return Ok(());
        }
        let h = *r.pick(&self.dead_f);
        self.log.push(format!("remove absent function {h:?}"));
        cx.count("absent functions removed");
        let p = &mut self.p;
        match guarded(move || p.remove_func(h)) {
          Ok(None) => Ok(()),
          Ok(Some(_)) => Err(("removal of an absent function returned data".into(), String::new())),
          Err(m) => Err(("removal of an absent function panicked".into(), m)),
        }
      }
      3 if !self.detached.is_empty() => {
        // add a removed function again
        let i = r.below(self.detached.len());
        let s = &self.detached[i].1;
        // its operands have to exist still
        let alive = s.vals.values().all(|x| x.k.vals().iter().all(|v| s.vals.contains_key(v) || self.g.contains_key(v)));
        let (d, mut s) = self.detached.remove(i);
        if !alive {
          self.dead_v.extend(&s.order);
          self.dead_b.extend(&s.border);
          return Ok(());
        }
        self.log.push(format!("add removed function {} again", s.name));
        cx.count("functions added again");
        let p = &mut self.p;
        #[allow(deprecated)]
        let h = guarded(move || p.new_func(d)).map_err(|m| ("adding function data panicked".to_string(), m))?;
        s.h = h;
        self.fs.push(s);
        Ok(())
      }
      4 if !self.fs.is_empty() => {
        let i = r.below(self.fs.len());
        let n = good_name(r, &mut self.names);
        self.log.push(format!("rename function {i} to {n}"));
        self.p.func_mut(self.fs[i].h).set_name(n.clone());
        self.fs[i].name = n;
        Ok(())
      }
      5 if bad => {
        // a call of remove_value on something absent is refused
        if self.dead_v.is_empty() {
          return Ok(());
        }
        let v = *r.pick(&self.dead_v);
        self.log.push(format!("remove absent global {v:?}"));
        let p = &mut self.p;
        match guarded(move || p.remove_value(v)) {
          Err(_) => Ok(()),
          Ok(_) => Err(("removal of an absent global returned data".into(), String::new())),
        }
      }
      _ => self.new_fn(cx, r, bad),
    }
  }

  fn new_fn(&mut self, cx: &mut Cx, r: &mut Rng, bad: bool) -> Result<(), (String, String)> {
    let mut ok = true;
    let name = if bad && r.chance(1, 10) {
      ok = false;
      bad_name(r)
    } else {
      good_name(r, &mut self.names)
    };
    let how = r.below(6);
    let mut ps: Vec<(Option<String>, T)> = vec![];
    let long = r.chance(1, 12);
    let odds = if long { 60 } else { 12 };
    for _ in 0..if long { r.range(5, 40) } else { r.below(4) } {
      let (pn, pok) = if how == 1 || how == 4 { opt_name(r, &mut self.names, bad && !long) } else { (None, true) };
      let t = if bad && r.chance(1, odds) { T::Unit } else { rty(r, if long { 1 } else { 2 }) };
      ok &= pok && t != T::Unit;
      ps.push((pn, t));
    }
    let ret = if r.chance(1, 3) { T::Unit } else { rty(r, 2) };
    self.log.push(format!("new function {name:?} {ps:?}: {ret} (way {how}) -> expected {}", if ok { "ok" } else { "refusal" }));
    cx.count(if ok { "functions added" } else { "functions refused" });
    let tys: Vec<T> = ps.iter().map(|p| p.1.clone()).collect();
    let decl = how == 2 || how == 5;
    let (n2, ps2, ret2) = (name.clone(), ps.clone(), ret.clone());
    let p = &mut self.p;
    #[allow(deprecated)]
    let got = guarded(move || {
      let ts: Vec<Type> = ps2.iter().map(|p| ty(&p.1)).collect();
      let nts: Vec<(Option<String>, Type)> = ps2.iter().map(|p| (p.0.clone(), ty(&p.1))).collect();
      let ret = ty(&ret2);
      match how {
        0 => p.new_func_def(n2, ts, ret),
        1 => p.new_func_def_with_param_names(n2, nts, ret),
        2 => p.new_func_decl(n2, ts, ret),
        3 => p.new_func(FunctionData::new(n2, ts, ret)),
        4 => p.new_func(FunctionData::with_param_names(n2, nts, ret)),
        _ => p.new_func(FunctionData::new_decl(n2, ts, ret)),
      }
    });
    match (ok, got) {
      (false, Err(_)) => Ok(()),
      (true, Err(m)) => Err(("a valid function was refused".into(), m)),
      (false, Ok(_)) => Err(("an invalid function was accepted".into(), format!("{name:?} {ps:?}"))),
      (true, Ok(h)) => {
        if self.fs.iter().any(|f| f.h == h) || self.dead_f.contains(&h) {
          return Err(("a new function has a used handle".into(), String::new()));
        }
        let params = self.p.func(h).params().to_vec();
        if params.len() != if decl { 0 } else { ps.len() } {
          return Err(("a new function has the wrong number of parameters".into(), format!("{}", params.len())));
        }
        let mut s = SF {
          h,
          name,
          pts: tys,
          ret,
          params: params.clone(),
          vals: HashMap::new(),
          order: vec![],
          bbs: HashMap::new(),
          border: vec![],
          lay: vec![],
          decl,
        };
        for (i, (v, (n, t))) in params.iter().zip(ps).enumerate() {
          if self.dead_v.contains(v) || self.fs.iter().any(|f| f.vals.contains_key(v)) {
            return Err(("a new parameter has a used handle".into(), String::new()));
          }
          s.vals.insert(*v, SV { t, k: SK::FArg(i), name: n });
          s.order.push(*v);
        }
        self.fs.push(s);
        Ok(())
      }
    }
  }

  fn op_layout(&mut self, cx: &mut Cx, r: &mut Rng, f: usize) -> Result<(), (String, String)> {
    let h = self.fs[f].h;
    let mut what;
    if r.chance(1, 3) {
      // block list
      let free: Vec<BasicBlock> =
        self.fs[f].border.iter().copied().filter(|b| !self.fs[f].lay.iter().any(|x| x.0 == *b)).collect();
      let cur: Vec<BasicBlock> = self.fs[f].lay.iter().map(|x| x.0).collect();
      let dup = r.chance(1, 8) && !cur.is_empty();
      let key = if dup {
        Some(*r.pick(&cur))
      } else if !free.is_empty() {
        Some(*r.pick(&free))
      } else {
        None
      };
      let at = if cur.is_empty() { None } else { Some(r.below(cur.len())) };
      let list = self.p.func_mut(h).layout_mut().bbs_mut();
      let lay = &mut self.fs[f].lay;
      let mut res: Option<Result<(), BasicBlock>> = None;
      match (r.below(11), key, at) {
        (0 | 1, Some(k), _) => {
          what = "block push_key_back";
          self.log.push(format!("{what} {k:?} in {f}"));
          res = Some(list.push_key_back(k));
          if !dup {
            lay.push((k, vec![]));
          }
        }
        (2, Some(k), _) => {
          what = "block push_key_front";
          self.log.push(format!("{what} {k:?} in {f}"));
          res = Some(list.push_key_front(k));
          if !dup {
            lay.insert(0, (k, vec![]));
          }
        }
        (3, Some(k), Some(i)) => {
          what = "block insert_key_before";
          self.log.push(format!("{what} #{i} {k:?} in {f}"));
          res = Some(list.cursor_mut(cur[i]).insert_key_before(k));
          if !dup {
            lay.insert(i, (k, vec![]));
          }
        }
        (4, Some(k), Some(i)) => {
          what = "block insert_key_after";
          self.log.push(format!("{what} #{i} {k:?} in {f}"));
          res = Some(list.cursor_mut(cur[i]).insert_key_after(k));
          if !dup {
            lay.insert(i + 1, (k, vec![]));
          }
        }
        (5 | 6, _, Some(i)) => {
          what = "block remove";
          self.log.push(format!("{what} #{i} in {f}"));
          let got = list.remove(&cur[i]).map(|x| x.0);
          lay.remove(i);
          if got != Some(cur[i]) {
            return Err(("removing a placed block returned something else".into(), format!("{got:?}")));
          }
        }
        (7, _, Some(i)) => {
          what = "block remove_current";
          self.log.push(format!("{what} #{i} in {f}"));
          let mut c = list.cursor_mut(cur[i]);
          let got = c.remove_current().map(|x| x.0);
          let next = c.key().copied();
          lay.remove(i);
          if got != Some(cur[i]) || next != cur.get(i + 1).copied() {
            return Err(("removing the block under a cursor went wrong".into(), format!("{got:?} {next:?}")));
          }
        }
        (8, _, _) if !free.is_empty() => {
          what = "block remove absent";
          let k = *r.pick(&free);
          self.log.push(format!("{what} {k:?} in {f}"));
          if list.remove(&k).is_some() {
            return Err(("removing an absent block returned something".into(), String::new()));
          }
        }
        (9, _, _) if r.chance(1, 5) => {
          what = "block list clear";
          self.log.push(format!("{what} in {f}"));
          list.clear();
          lay.clear();
        }
        (10, _, _) => {
          what = "block list extend";
          let mut ks = free.clone();
          r.shuffle(&mut ks);
          ks.truncate(3);
          self.log.push(format!("{what} {ks:?} in {f}"));
          list.extend(ks.iter().copied());
          lay.extend(ks.into_iter().map(|k| (k, vec![])));
        }
        _ => return Ok(()),
      }
      if let Some(x) = res {
        let want = if dup { Err(key.unwrap()) } else { Ok(()) };
        if x != want {
          return Err((format!("{what} returned the wrong result"), format!("{x:?} instead of {want:?}")));
        }
        if dup {
          cx.count("duplicate keys refused");
        }
      }
    } else {
      // instruction list
      if self.fs[f].lay.is_empty() {
        return Ok(());
      }
      let bi = r.below(self.fs[f].lay.len());
      let b = self.fs[f].lay[bi].0;
      let free: Vec<Value> = self.fs[f]
        .order
        .iter()
        .copied()
        .filter(|v| !self.fs[f].vals[v].k.is_arg() && !self.fs[f].vals[v].k.is_const() && !self.placed(f, *v))
        .collect();
      let cur = self.fs[f].lay[bi].1.clone();
      let dup = r.chance(1, 8) && !cur.is_empty();
      let key = if dup {
        Some(*r.pick(&cur))
      } else if !free.is_empty() {
        Some(*r.pick(&free))
      } else {
        None
      };
      let at = if cur.is_empty() { None } else { Some(r.below(cur.len())) };
      let layout = self.p.func_mut(h).layout_mut();
      let list = layout.bb_mut(b).insts_mut();
      let lay = &mut self.fs[f].lay[bi].1;
      let mut res: Option<Result<(), Value>> = None;
      match (r.below(13), key, at) {
        (0 | 1 | 11, Some(k), _) => {
          what = "inst push_key_back";
          self.log.push(format!("{what} {k:?} in {f} {b:?}"));
          res = Some(list.push_key_back(k));
          if !dup {
            lay.push(k);
          }
        }
        (2, Some(k), _) => {
          what = "inst push_key_front";
          self.log.push(format!("{what} {k:?} in {f} {b:?}"));
          res = Some(list.push_key_front(k));
          if !dup {
            lay.insert(0, k);
          }
        }
        (3, Some(k), Some(i)) => {
          what = "inst insert_key_before";
          self.log.push(format!("{what} #{i} {k:?} in {f} {b:?}"));
          res = Some(list.cursor_mut(cur[i]).insert_key_before(k));
          if !dup {
            lay.insert(i, k);
          }
        }
        (4, Some(k), Some(i)) => {
          what = "inst insert_key_after";
          self.log.push(format!("{what} #{i} {k:?} in {f} {b:?}"));
          res = Some(list.cursor_mut(cur[i]).insert_key_after(k));
          if !dup {
            lay.insert(i + 1, k);
          }
        }
        (5, _, Some(i)) => {
          what = "inst remove";
          self.log.push(format!("{what} #{i} in {f} {b:?}"));
          let got = list.remove(&cur[i]).map(|x| x.0);
          lay.remove(i);
          if got != Some(cur[i]) {
            return Err(("removing a placed instruction returned something else".into(), format!("{got:?}")));
          }
        }
        (6, _, Some(i)) => {
          what = "inst remove_current";
          self.log.push(format!("{what} #{i} in {f} {b:?}"));
          let mut c = list.cursor_mut(cur[i]);
          let got = c.remove_current().map(|x| x.0);
          let next = c.key().copied();
          lay.remove(i);
          if got != Some(cur[i]) || next != cur.get(i + 1).copied() {
            return Err(("removing the instruction under a cursor went wrong".into(), format!("{got:?} {next:?}")));
          }
        }
        (7, _, _) if !free.is_empty() => {
          what = "inst remove absent";
          let k = *r.pick(&free);
          self.log.push(format!("{what} {k:?} in {f} {b:?}"));
          if list.remove(&k).is_some() {
            return Err(("removing an absent instruction returned something".into(), String::new()));
          }
        }
        (8, _, _) if r.chance(1, 3) => {
          what = "inst list clear";
          self.log.push(format!("{what} in {f} {b:?}"));
          list.clear();
          lay.clear();
        }
        (9, _, _) => {
          what = "inst list extend";
          let mut ks = free.clone();
          r.shuffle(&mut ks);
          ks.truncate(4);
          self.log.push(format!("{what} {ks:?} in {f} {b:?}"));
          list.extend(ks.iter().copied());
          lay.extend(ks);
        }
        (10, _, Some(i)) => {
          // move an instruction to another block
          what = "inst move";
          let k = cur[i];
          let to = r.below(self.fs[f].lay.len());
          let tb = self.fs[f].lay[to].0;
          self.log.push(format!("{what} {k:?} from {b:?} to {tb:?} in {f}"));
          // into the new block first, or out of the old one first
          let early = to != bi && r.chance(1, 2);
          let how = r.below(4);
          let out = |d: &mut FunctionData| {
            let list = d.layout_mut().bb_mut(b).insts_mut();
            match how {
              0 => {
                list.cursor_mut(k).remove_current();
              }
              1 if early => list.clear(),
              _ => {
                list.remove(&k);
              }
            }
          };
          let d = self.p.func_mut(h);
          if !early {
            out(d);
          }
          let front = r.chance(1, 2);
          let l = d.layout_mut().bb_mut(tb).insts_mut();
          let x = if front { l.push_key_front(k) } else { l.push_key_back(k) };
          if x.is_err() {
            return Err(("moving an instruction was refused".into(), String::new()));
          }
          if early {
            what = "inst inserted elsewhere, then taken out";
            self.log.push(format!("{what} ({how})"));
            if d.layout().parent_bb(k) != Some(tb) {
              return Err(("an instruction is not in the block it was inserted to last".into(), String::new()));
            }
            out(d);
          }
          if early && how == 1 {
            self.fs[f].lay[bi].1.clear();
          } else {
            self.fs[f].lay[bi].1.remove(i);
          }
          if front {
            self.fs[f].lay[to].1.insert(0, k);
          } else {
            self.fs[f].lay[to].1.push(k);
          }
        }
        (12, Some(k), Some(i)) if !dup => {
          // a longer walk with one cursor
          what = "inst cursor walk";
          self.log.push(format!("{what} from #{i} inserting {k:?} in {f} {b:?}"));
          let mut c = list.cursor_mut(cur[i]);
          let mut pos = i;
          for _ in 0..r.below(4) {
            if r.chance(1, 2) && pos + 1 < lay.len() {
              c.move_next();
              pos += 1;
            } else if pos > 0 {
              c.move_prev();
              pos -= 1;
            }
            if c.key() != lay.get(pos) {
              return Err(("a cursor points at another instruction".into(), String::new()));
            }
          }
          if r.chance(1, 2) {
            let _ = c.insert_key_before(k);
            lay.insert(pos, k);
            pos += 1;
          } else {
            let _ = c.insert_key_after(k);
            lay.insert(pos + 1, k);
          }
          if r.chance(1, 2) {
            let g = c.remove_current().map(|x| x.0);
            let w = lay.remove(pos);
            if g != Some(w) {
              return Err(("removing the instruction under a cursor went wrong".into(), String::new()));
            }
          }
        }
        _ => return Ok(()),
      }
      if let Some(x) = res {
        let want = if dup { Err(key.unwrap()) } else { Ok(()) };
        if x != want {
          return Err((format!("{what} returned the wrong result"), format!("{x:?} instead of {want:?}")));
        }
        if dup {
          cx.count("duplicate keys refused");
        }
      }
    }
    cx.count(what);
    Ok(())
  }

  // ---- comparisons ----

  pub fn cmp_values(&self) -> Result<usize, String> {
    let mut n = 0;
    {
      let vs = self.p.borrow_values();
      if vs.len() != self.g.len() {
        return Err(format!("{} global values instead of {}", vs.len(), self.g.len()));
      }
      for (v, s) in &self.g {
        let d = vs.get(v).ok_or_else(|| format!("global {v:?} is missing"))?;
        same_data(d, s).map_err(|m| format!("global {v:?}: {m}"))?;
        n += 1;
      }
    }
    for f in &self.fs {
      let fd = self.p.funcs().get(&f.h).ok_or_else(|| format!("function {} is missing", f.name))?;
      let vs = fd.dfg().values();
      if vs.len() != f.vals.len() {
        return Err(format!("{} values instead of {} in {}", vs.len(), f.vals.len(), f.name));
      }
      for (v, s) in &f.vals {
        let d = vs.get(v).ok_or_else(|| format!("value {v:?} is missing"))?;
        same_data(d, s).map_err(|m| format!("value {v:?}: {m}"))?;
        n += 1;
      }
      if fd.dfg().bbs().len() != f.bbs.len() {
        return Err(format!("{} blocks instead of {} in {}", fd.dfg().bbs().len(), f.bbs.len(), f.name));
      }
      for (b, s) in &f.bbs {
        let d = fd.dfg().bbs().get(b).ok_or_else(|| format!("block {b:?} is missing"))?;
        if d.name() != &s.name || d.params() != s.params {
          return Err(format!("block {b:?} has name {:?} and parameters {:?} instead of {:?} and {:?}", d.name(), d.params(), s.name, s.params));
        }
        n += 1;
      }
    }
    Ok(n)
  }

  pub fn cmp_users(&self, from_shadow: bool) -> Result<usize, String> {
    // users as the current data say (real kinds), or as the requests said
    let mut uses: HashMap<Value, HashSet<Value>> = HashMap::new();
    let mut n = 0;
    {
      let vs = self.p.borrow_values();
      for (v, d) in vs.iter() {
        let us = if from_shadow { self.g.get(v).map(|s| s.k.vals()).unwrap_or_default() } else { refs(d.kind()).0 };
        for u in us {
          uses.entry(u).or_default().insert(*v);
        }
      }
    }
    for f in &self.fs {
      let Some(fd) = self.p.funcs().get(&f.h) else { return Err("function is missing".into()) };
      let mut bu: HashMap<BasicBlock, HashSet<Value>> = HashMap::new();
      for (v, d) in fd.dfg().values() {
        let (us, bs) = if from_shadow {
          f.vals.get(v).map(|s| (s.k.vals(), s.k.blocks())).unwrap_or_default()
        } else {
          refs(d.kind())
        };
        for u in us {
          uses.entry(u).or_default().insert(*v);
        }
        for b in bs {
          bu.entry(b).or_default().insert(*v);
        }
      }
      for (b, d) in fd.dfg().bbs() {
        n += 1;
        let e = HashSet::new();
        let w = bu.get(b).unwrap_or(&e);
        if d.used_by() != w {
          return Err(format!("users of block {b:?} are recorded as {:?}, the current users are {:?}", d.used_by(), w));
        }
      }
    }
    let e = HashSet::new();
    for f in &self.fs {
      for (v, d) in self.p.func(f.h).dfg().values() {
        n += 1;
        let w = uses.get(v).unwrap_or(&e);
        if d.used_by() != w {
          return Err(format!("users of value {v:?} are recorded as {:?}, the current users are {:?}", d.used_by(), w));
        }
      }
    }
    for (v, d) in self.p.borrow_values().iter() {
      n += 1;
      let w = uses.get(v).unwrap_or(&e);
      if d.used_by() != w {
        return Err(format!("users of global {v:?} are recorded as {:?}, the current users are {:?}", d.used_by(), w));
      }
    }
    Ok(n)
  }

  pub fn cmp_layout(&self) -> Result<usize, String> {
    let mut n = 0;
    for f in &self.fs {
      let l = self.p.func(f.h).layout();
      let want: Vec<BasicBlock> = f.lay.iter().map(|x| x.0).collect();
      let got: Vec<BasicBlock> = l.bbs().keys().copied().collect();
      if got != want {
        return Err(format!("blocks of {} are {got:?} instead of {want:?}", f.name));
      }
      if l.bbs().len() != want.len() || l.bbs().is_empty() != want.is_empty() {
        return Err("length of the block list is wrong".into());
      }
      if l.entry_bb() != want.first().copied() {
        return Err(format!("entry of {} is {:?} instead of {:?}", f.name, l.entry_bb(), want.first()));
      }
      if l.bbs().back_key() != want.last() {
        return Err("last block is wrong".into());
      }
      // walk backwards too
      let mut back = vec![];
      let mut c = l.bbs().cursor_back();
      while let Some(k) = c.key() {
        back.push(*k);
        if back.len() > want.len() {
          break;
        }
        c.move_prev();
      }
      back.reverse();
      if back != want {
        return Err(format!("blocks of {} read backwards are {back:?} instead of {want:?}", f.name));
      }
      for b in &f.border {
        if l.bbs().contains_key(b) != want.contains(b) {
          return Err(format!("block list is wrong about containing {b:?}"));
        }
      }
      let mut parent: HashMap<Value, BasicBlock> = HashMap::new();
      for ((b, node), (_, ws)) in l.bbs().iter().zip(&f.lay) {
        let got: Vec<Value> = node.insts().keys().copied().collect();
        if got != *ws {
          return Err(format!("instructions of {b:?} are {got:?} instead of {ws:?}"));
        }
        let mut back = vec![];
        let mut c = node.insts().cursor_back();
        while let Some(k) = c.key() {
          back.push(*k);
          if back.len() > ws.len() {
            break;
          }
          c.move_prev();
        }
        back.reverse();
        if back != *ws {
          return Err(format!("instructions of {b:?} read backwards are {back:?} instead of {ws:?}"));
        }
        if node.insts().len() != ws.len() || node.insts().front_key() != ws.first() || node.insts().back_key() != ws.last() {
          return Err("length or ends of an instruction list are wrong".into());
        }
        for v in ws {
          parent.insert(*v, *b);
        }
      }
      for v in f.order.iter().chain(&self.dead_v) {
        n += 1;
        if l.parent_bb(*v) != parent.get(v).copied() {
          return Err(format!("parent of {v:?} is {:?} instead of {:?}", l.parent_bb(*v), parent.get(v)));
        }
      }
    }
    Ok(n)
  }

  pub fn cmp_tables(&self) -> Result<usize, String> {
    let want: Vec<Function> = self.fs.iter().map(|f| f.h).collect();
    if self.p.func_layout() != want {
      return Err(format!("functions are {:?} instead of {want:?}", self.p.func_layout()));
    }
    if self.p.funcs().len() != want.len() {
      return Err(format!("{} functions instead of {}", self.p.funcs().len(), want.len()));
    }
    for f in &self.fs {
      let d = self.p.funcs().get(&f.h).ok_or_else(|| format!("function {} is missing", f.name))?;
      if d.name() != f.name {
        return Err(format!("function {} is named {}", f.name, d.name()));
      }
      let t = T::fun(f.pts.clone(), f.ret.clone());
      if from_ty(d.ty()) != t {
        return Err(format!("function {} has type {} instead of {t}", f.name, d.ty()));
      }
      if d.params() != f.params {
        return Err(format!("function {} has other parameters", f.name));
      }
      for (i, v) in f.params.iter().enumerate() {
        let x = d.dfg().values().get(v).ok_or("a parameter is missing")?;
        let s = &f.vals[v];
        if SK::of(x.kind()) != SK::FArg(i) || from_ty(x.ty()) != s.t || x.name() != &s.name {
          return Err(format!("parameter {i} of {} is {:?} {:?} {:?}", f.name, x.kind(), x.ty(), x.name()));
        }
      }
    }
    for h in &self.dead_f {
      if self.p.funcs().contains_key(h) {
        return Err("a removed function is still there".into());
      }
    }
    if self.p.inst_layout() != self.gl {
      return Err(format!("globals are {:?} instead of {:?}", self.p.inst_layout(), self.gl));
    }
    let vs = self.p.borrow_values();
    if vs.len() != self.g.len() {
      return Err(format!("{} global values instead of {}", vs.len(), self.g.len()));
    }
    for (v, s) in &self.g {
      let d = vs.get(v).ok_or("a global value is missing")?;
      same_data(d, s).map_err(|m| format!("global {v:?}: {m}"))?;
    }
    for v in &self.dead_v {
      if vs.contains_key(v) {
        return Err("a removed global is still there".into());
      }
    }
    Ok(self.fs.len() + self.g.len())
  }

  fn hist(&self) -> String {
    let n = self.log.len().saturating_sub(400);
    self.log[n..].join("\n")
  }
}

fn same_data(d: &ValueData, s: &SV) -> Result<(), String> {
  if SK::of(d.kind()) != s.k {
    return Err(format!("kind is {:?} instead of {:?}", SK::of(d.kind()), s.k));
  }
  if from_ty(d.ty()) != s.t {
    return Err(format!("type is {} instead of {}", d.ty(), s.t));
  }
  if d.name() != &s.name {
    return Err(format!("name is {:?} instead of {:?}", d.name(), s.name));
  }
  Ok(())
}

fn reqname(q: &Req) -> &'static str {
  match q {
    Req::Int(_) => "integer",
    Req::Zero(_) => "zeroinit",
    Req::Undef(_) => "undef",
    Req::Agg(_) => "aggregate",
    Req::Alloc(_) => "alloc",
    Req::Load(_) => "load",
    Req::Store(..) => "store",
    Req::GetPtr(..) => "getptr",
    Req::GetElem(..) => "getelemptr",
    Req::Bin(..) => "binary",
    Req::Br(..) => "branch",
    Req::BrA(..) => "branch with args",
    Req::Jump(_) => "jump",
    Req::JumpA(..) => "jump with args",
    Req::Call(..) => "call",
    Req::Ret(_) => "ret",
    Req::GAlloc(_) => "global alloc",
  }
}

/// Writes a shadow kind into a kind of the same variant through its accessors.
fn set_kind(k: &mut ValueKind, s: &SK) {
  match (k, s) {
    (ValueKind::Aggregate(a), SK::Agg(v)) => *a.elems_mut() = v.clone(),
    (ValueKind::Load(a), SK::Load(v)) => *a.src_mut() = *v,
    (ValueKind::Store(a), SK::Store(v, d)) => {
      *a.value_mut() = *v;
      *a.dest_mut() = *d;
    }
    (ValueKind::GetPtr(a), SK::GetPtr(v, i)) => {
      *a.src_mut() = *v;
      *a.index_mut() = *i;
    }
    (ValueKind::GetElemPtr(a), SK::GetElem(v, i)) => {
      *a.src_mut() = *v;
      *a.index_mut() = *i;
    }
    (ValueKind::Binary(a), SK::Bin(o, v, i)) => {
      *a.op_mut() = bop(*o);
      *a.lhs_mut() = *v;
      *a.rhs_mut() = *i;
    }
    (ValueKind::Branch(a), SK::Br(c, x, xa, y, ya)) => {
      *a.cond_mut() = *c;
      *a.true_bb_mut() = *x;
      *a.false_bb_mut() = *y;
      *a.true_args_mut() = xa.clone();
      *a.false_args_mut() = ya.clone();
    }
    (ValueKind::Jump(a), SK::Jump(b, v)) => {
      *a.target_mut() = *b;
      *a.args_mut() = v.clone();
    }
    (ValueKind::Call(a), SK::Call(c, v)) => {
      *a.callee_mut() = *c;
      *a.args_mut() = v.clone();
    }
    (ValueKind::Return(a), SK::Ret(v)) => *a.value_mut() = *v,
    _ => unreachable!(),
  }
}

#[derive(Clone, Copy, PartialEq)]
enum Aspect {
  Users,
  Layout,
  Build,
  Tables,
}

fn run(cx: &mut Cx, idx: u64, tag: &str, m: &Mix, aspect: Aspect) {
  let mut r = cx.rng(tag, idx);
  let mut ws = vec![World::new()];
  if aspect == Aspect::Tables || r.chance(1, 5) {
    ws.push(World::new());
  }
  // Miri is slow, and looks at the execution rather than at the outcome
  let tiny = cfg!(miri);
  let steps = match () {
    _ if tiny => r.range(8, 24),
    _ if cx.thorough => r.range(60, 300),
    _ => r.range(40, 160),
  };
  // some material to start with
  for w in &mut ws {
    for _ in 0..2 {
      let _ = w.new_fn(cx, &mut r, false);
    }
    if w.fs.iter().all(|f| f.decl) {
      while w.fs.iter().all(|f| f.decl) {
        let _ = w.new_fn(cx, &mut r, false);
      }
    }
    let seed = Mix { build: 6, bbs: 3, layout: 2, name: 1, ..Mix::default() };
    for _ in 0..if tiny { 8 } else { 25 } {
      if let Err((s, d)) = w.step(cx, &mut r, &seed) {
        return cx.fail(s, format!("{d}\n{}", w.hist()));
      }
    }
  }
  for i in 0..steps {
    let k = r.below(ws.len());
    let mark = ws[k].log.len();
    let w = &mut ws[k];
    if let Err((s, d)) = w.step(cx, &mut r, m) {
      // what was asked of the library in this step went wrong
      let mine = match aspect {
        Aspect::Users => s.contains("removal") || s.contains("update") || s.contains("replace"),
        Aspect::Layout => true,
        Aspect::Build => true,
        Aspect::Tables => true,
      };
      if mine {
        cx.fail(s, format!("{d}\n{}", w.hist()));
      }
      return;
    }
    if aspect == Aspect::Tables && ws.len() == 2 && r.chance(1, 12) {
      // a handle of the other program is absent from this one
      let h = ws[1 - k].fs.first().map(|f| f.h);
      if let Some(h) = h {
        if ws[k].p.funcs().contains_key(&h) || ws[k].p.remove_func(h).is_some() {
          return cx.fail("a function of another program was found", ws[k].hist());
        }
        cx.count("foreign functions removed");
      }
    }
    if ws[k].log.len() == mark {
      continue;
    }
    cx.count("steps");
    if i + 1 == steps || !tiny && (i % 4 == 0 || aspect != Aspect::Users) {
      for w in &ws {
        let res = match aspect {
          Aspect::Users => w.cmp_users(false),
          Aspect::Layout => w.cmp_layout(),
          Aspect::Build => w.cmp_values().and_then(|n| w.cmp_users(true).map(|m| n + m)),
          Aspect::Tables => w.cmp_tables(),
        };
        match res {
          Ok(n) => cx.add("entities compared", n as u64),
          Err(e) => {
            let sig = match aspect {
              Aspect::Users => "recorded users differ from the current users",
              Aspect::Layout => "layout differs from the edits",
              Aspect::Build => "values differ from what was built",
              Aspect::Tables => "tables differ from the history",
            };
            return cx.fail(sig, format!("{e}\n{}", w.hist()));
          }
        }
      }
    }
  }
  let h = fnv(ws.iter().map(|w| w.hist()).collect::<String>().as_bytes());
  cx.shape(h);
  if idx < 1 {
    let s: String = ws[0].log.iter().take(25).cloned().collect::<Vec<_>>().join("\n");
    cx.sample(|| s);
  }
  if aspect == Aspect::Users || aspect == Aspect::Tables {
    teardown(cx, &mut r, ws.remove(0), aspect);
  }
}

/// Removes everything in an order the uses allow; then tries one forbidden
/// removal at the end of the history.
fn teardown(cx: &mut Cx, r: &mut Rng, mut w: World, aspect: Aspect) {
  if aspect == Aspect::Users && r.chance(1, 2) {
    // a used value, or block, must not be removable
    let mut used: Vec<(Option<usize>, Value)> = w.gorder.iter().filter(|v| w.used(**v)).map(|v| (None, *v)).collect();
    for (i, f) in w.fs.iter().enumerate() {
      used.extend(f.order.iter().filter(|v| w.used(**v)).map(|v| (Some(i), *v)));
    }
    let mut bbs = vec![];
    for (i, f) in w.fs.iter().enumerate() {
      for b in &f.border {
        if w.bb_used(i, *b) || f.bbs[b].params.iter().any(|v| w.used(*v)) {
          bbs.push((i, *b));
        }
      }
    }
    if r.chance(1, 3) && !bbs.is_empty() {
      let (f, b) = *r.pick(&bbs);
      let h = w.fs[f].h;
      cx.count("forbidden block removals tried");
      w.log.push(format!("remove used block {b:?}"));
      if guarded(|| w.p.func_mut(h).dfg_mut().remove_bb(b)).is_ok() {
        cx.fail("a used block was removed", w.hist());
      }
    } else if !used.is_empty() {
      let (f, v) = *r.pick(&used);
      cx.count("forbidden removals tried");
      w.log.push(format!("remove used value {v:?}"));
      let ok = match f {
        None => guarded(|| w.p.remove_value(v)).is_ok(),
        Some(f) => {
          let h = w.fs[f].h;
          guarded(|| w.p.func_mut(h).dfg_mut().remove_value(v)).is_ok()
        }
      };
      if ok {
        cx.fail("a used value was removed", w.hist());
      }
    }
    return;
  }
  // functions first: afterwards no local keeps a global in use
  if r.chance(1, 2) {
    for f in std::mem::take(&mut w.fs) {
      w.log.push(format!("remove function {}", f.name));
      if w.p.remove_func(f.h).is_none() {
        return cx.fail("removal of a present function returned nothing", w.hist());
      }
    }
  } else {
    for f in &w.fs {
      // take the values away one by one, users before operands
      let mut left: Vec<Value> = f.order.clone();
      let d = w.p.func_mut(f.h);
      d.layout_mut().bbs_mut().clear();
      while !left.is_empty() {
        let ready: Vec<Value> = left
          .iter()
          .copied()
          .filter(|v| !left.iter().any(|u| f.vals[u].k.vals().contains(v)))
          .collect();
        if ready.is_empty() {
          return;
        }
        for v in ready {
          left.retain(|x| *x != v);
          if let Err(m) = guarded(|| d.dfg_mut().remove_value(v)) {
            return cx.fail("removal of an unused value was refused", format!("{v:?}: {m}\n{}", w.hist()));
          }
        }
      }
      for b in &f.border {
        if !d.dfg().bb(*b).used_by().is_empty() {
          return cx.fail("a block without users is recorded as used", w.hist());
        }
      }
    }
  }
  let mut left = w.gorder.clone();
  while !left.is_empty() {
    let ready: Vec<Value> = left.iter().copied().filter(|v| !left.iter().any(|u| w.g[u].k.vals().contains(v))).collect();
    if ready.is_empty() {
      return;
    }
    for v in ready {
      left.retain(|x| *x != v);
      if let Err(m) = guarded(|| w.p.remove_value(v)) {
        return cx.fail("removal of an unused global was refused", format!("{v:?}: {m}\n{}", w.hist()));
      }
    }
  }
  cx.count("programs taken apart completely");
  if !w.p.borrow_values().is_empty() || !w.p.inst_layout().is_empty() {
    cx.fail("globals are left after removing all", w.hist());
  }
}

fn c07(cx: &mut Cx, idx: u64) {
  let m = Mix { build: 8, replace: 8, update: 8, remove: 6, bbs: 4, layout: 1, table: 1, raw: 3, name: 0, bad: false };
  run(cx, idx, "C07", &m, Aspect::Users)
}

fn c08(cx: &mut Cx, idx: u64) {
  if idx == 0 {
    return pop_probe(cx);
  }
  let m = Mix { build: 4, bbs: 3, layout: 30, remove: 1, table: 0, raw: 1, ..Mix::default() };
  run(cx, idx, "C08", &m, Aspect::Layout)
}

fn c09(cx: &mut Cx, idx: u64) {
  let m = Mix { build: 20, replace: 5, bbs: 5, name: 3, table: 1, remove: 2, layout: 0, bad: true, ..Mix::default() };
  run(cx, idx, "C09", &m, Aspect::Build)
}

fn c22(cx: &mut Cx, idx: u64) {
  let m = Mix { build: 6, table: 14, remove: 4, name: 2, bbs: 1, layout: 1, bad: true, ..Mix::default() };
  run(cx, idx, "C22", &m, Aspect::Tables)
}

/// `pop_front` and `pop_back` come from the list library and are known to
/// leave the list inconsistent.
fn pop_probe(cx: &mut Cx) {
  let mut p = Program::new();
  let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
  let d = p.func_mut(f);
  let bs: Vec<BasicBlock> = (0..3).map(|_| d.dfg_mut().new_bb().basic_block(None)).collect();
  for back in [false, true] {
    let l = d.layout_mut().bbs_mut();
    l.clear();
    l.extend(bs.iter().copied());
    if back {
      l.pop_back();
    } else {
      l.pop_front();
    }
    let want = if back { &bs[..2] } else { &bs[1..] };
    let got: Vec<BasicBlock> = l.keys().take(5).copied().collect();
    let mut rev = vec![];
    let mut c = l.cursor_back();
    let broken = guarded(|| {
      while let Some(k) = c.key() {
        rev.push(*k);
        c.move_prev();
      }
    });
    rev.reverse();
    let follow = guarded(|| {
      let _ = l.push_key_back(bs[if back { 2 } else { 0 }]);
      l.keys().count()
    });
    l.clear();
    let _ = l.push_key_back(bs[0]);
    if back {
      l.pop_back();
    } else {
      l.pop_front();
    }
    let gone = l.front_key().is_none() && l.back_key().is_none();
    if !gone || got != want || broken.is_err() || rev != want || follow != Ok(3) {
      let n = if back { "pop_back" } else { "pop_front" };
      cx.fail(format!("{n} leaves the list linked to the removed entry"), format!("{got:?} {rev:?} {follow:?}"));
    }
  }
}

const A: &[&str] = &[
  "histories are produced by this check's own generator; the shadow model assumes that a value is placed in at most one list at a time",
  "edits through detached function data or removed list nodes are outside the claim",
];

pub static CHECKS: &[&Check] = &[
  &Check { id: "C07", rule: "random edit histories (build, replace, update, remove, raw clones, blocks, functions) on one or two programs; after the edits recorded users are compared with a recount over the current data; at the end everything is taken apart in dependency order, or one forbidden removal is tried; distinct by history", cases: (180000, 1500000), limit: (200, 1500), case: c07, workers: 0, assumptions: A },
  &Check { id: "C08", rule: "random histories of layout edits (push, cursor insert, remove, extend, clear, move) compared after every step with plain lists, forwards, backwards and through parent_bb; distinct by history", cases: (180000, 1500000), limit: (200, 1500), case: c08, workers: 0, assumptions: A },
  &Check { id: "C09", rule: "random builder requests, a part of them ill-typed or naming absent entities; each outcome and the whole resulting state are compared with a reference typing of the request; distinct by history", cases: (120000, 1000000), limit: (200, 1500), case: c09, workers: 0, assumptions: A },
  &Check { id: "C22", rule: "random histories of adding, removing, re-adding and renaming functions and globals in two programs side by side, compared after every step with plain tables; distinct by history", cases: (120000, 1000000), limit: (200, 1500), case: c22, workers: 0, assumptions: A },
];
