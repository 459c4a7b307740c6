//! Reference model of Koopa IR programs, independent of the library under test.

use std::collections::VecDeque;
use std::fmt::{self, Write};
use std::rc::Rc;

/// Type.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
  I32,
  Unit,
  Ptr(Rc<T>),
  Arr(Rc<T>, usize),
  Fun(Vec<T>, Rc<T>),
}

impl T {
  pub fn ptr(t: T) -> T {
    T::Ptr(Rc::new(t))
  }
  pub fn arr(t: T, n: usize) -> T {
    T::Arr(Rc::new(t), n)
  }
  pub fn fun(p: Vec<T>, r: T) -> T {
    T::Fun(p, Rc::new(r))
  }
  pub fn pointee(&self) -> Option<&T> {
    match self {
      T::Ptr(t) => Some(t),
      _ => None,
    }
  }
  /// Size in bytes as the language defines it, with `ps` as pointer size.
  pub fn size(&self, ps: usize) -> usize {
    match self {
      T::I32 => 4,
      T::Unit => 0,
      T::Arr(t, n) => t.size(ps).saturating_mul(*n),
      T::Ptr(_) | T::Fun(..) => ps,
    }
  }
  /// Number of scalar cells.
  pub fn cells(&self) -> usize {
    match self {
      T::Arr(t, n) => t.cells().saturating_mul(*n),
      T::Unit => 0,
      _ => 1,
    }
  }
  pub fn depth(&self) -> usize {
    match self {
      T::I32 | T::Unit => 0,
      T::Ptr(t) | T::Arr(t, _) => 1 + t.depth(),
      T::Fun(p, r) => 1 + p.iter().chain(Some(&**r)).map(T::depth).max().unwrap_or(0),
    }
  }
}

impl fmt::Display for T {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      T::I32 => write!(f, "i32"),
      T::Unit => write!(f, "unit"),
      T::Ptr(t) => write!(f, "*{t}"),
      T::Arr(t, n) => write!(f, "[{t}, {n}]"),
      T::Fun(p, r) => {
        write!(f, "(")?;
        for (i, t) in p.iter().enumerate() {
          if i > 0 {
            write!(f, ", ")?;
          }
          write!(f, "{t}")?;
        }
        write!(f, ")")?;
        if **r != T::Unit {
          write!(f, ": {r}")?;
        }
        Ok(())
      }
    }
  }
}

/// Constant.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum C {
  Int(i32),
  Zero(T),
  Undef(T),
  Agg(Vec<C>),
}

impl C {
  pub fn ty(&self) -> T {
    match self {
      C::Int(_) => T::I32,
      C::Zero(t) | C::Undef(t) => t.clone(),
      C::Agg(es) => T::arr(es[0].ty(), es.len()),
    }
  }
  pub fn is_agg(&self) -> bool {
    matches!(self, C::Agg(_))
  }
}

/// Operand.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  C(C),
  /// Global variable.
  G(usize),
  /// Function parameter.
  P(usize),
  /// Block parameter (block, index).
  B(usize, usize),
  /// Instruction (block, index).
  V(usize, usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Bop {
  Ne,
  Eq,
  Gt,
  Lt,
  Ge,
  Le,
  Add,
  Sub,
  Mul,
  Div,
  Mod,
  And,
  Or,
  Xor,
  Shl,
  Shr,
  Sar,
}

pub const BOPS: [(Bop, &str); 17] = [
  (Bop::Ne, "ne"),
  (Bop::Eq, "eq"),
  (Bop::Gt, "gt"),
  (Bop::Lt, "lt"),
  (Bop::Ge, "ge"),
  (Bop::Le, "le"),
  (Bop::Add, "add"),
  (Bop::Sub, "sub"),
  (Bop::Mul, "mul"),
  (Bop::Div, "div"),
  (Bop::Mod, "mod"),
  (Bop::And, "and"),
  (Bop::Or, "or"),
  (Bop::Xor, "xor"),
  (Bop::Shl, "shl"),
  (Bop::Shr, "shr"),
  (Bop::Sar, "sar"),
];

impl Bop {
  pub fn name(self) -> &'static str {
    BOPS.iter().find(|b| b.0 == self).unwrap().1
  }
  /// Result, or `None` when undefined.
  pub fn eval(self, a: i32, b: i32) -> Option<i32> {
    Some(match self {
      Bop::Ne => (a != b) as i32,
      Bop::Eq => (a == b) as i32,
      Bop::Gt => (a > b) as i32,
      Bop::Lt => (a < b) as i32,
      Bop::Ge => (a >= b) as i32,
      Bop::Le => (a <= b) as i32,
      Bop::Add => a.wrapping_add(b),
      Bop::Sub => a.wrapping_sub(b),
      Bop::Mul => a.wrapping_mul(b),
      Bop::Div => a.checked_div(b)?,
      Bop::Mod => a.checked_rem(b)?,
      Bop::And => a & b,
      Bop::Or => a | b,
      Bop::Xor => a ^ b,
      Bop::Shl | Bop::Shr | Bop::Sar if !(0..32).contains(&b) => return None,
      Bop::Shl => ((a as u32) << b) as i32,
      Bop::Shr => ((a as u32) >> b) as i32,
      Bop::Sar => a >> b,
    })
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
  Alloc,
  Load(Op),
  Store(Op, Op),
  GetPtr(Op, Op),
  GetElemPtr(Op, Op),
  Bin(Bop, Op, Op),
  Br(Op, usize, Vec<Op>, usize, Vec<Op>),
  Jump(usize, Vec<Op>),
  Call(usize, Vec<Op>),
  Ret(Option<Op>),
}

impl K {
  pub fn is_term(&self) -> bool {
    matches!(self, K::Br(..) | K::Jump(..) | K::Ret(..))
  }
  pub fn targets(&self) -> Vec<usize> {
    match self {
      K::Br(_, t, _, f, _) => vec![*t, *f],
      K::Jump(t, _) => vec![*t],
      _ => vec![],
    }
  }
  pub fn kind_name(&self) -> &'static str {
    match self {
      K::Alloc => "alloc",
      K::Load(_) => "load",
      K::Store(..) => "store",
      K::GetPtr(..) => "getptr",
      K::GetElemPtr(..) => "getelemptr",
      K::Bin(b, ..) => b.name(),
      K::Br(..) => "br",
      K::Jump(..) => "jump",
      K::Call(..) => "call",
      K::Ret(..) => "ret",
    }
  }
  pub fn ops(&self) -> Vec<&Op> {
    match self {
      K::Alloc => vec![],
      K::Load(a) => vec![a],
      K::Store(a, b) | K::GetPtr(a, b) | K::GetElemPtr(a, b) | K::Bin(_, a, b) => vec![a, b],
      K::Br(c, _, ta, _, fa) => Some(c).into_iter().chain(ta).chain(fa).collect(),
      K::Jump(_, a) | K::Call(_, a) => a.iter().collect(),
      K::Ret(v) => v.iter().collect(),
    }
  }
  pub fn ops_mut(&mut self) -> Vec<&mut Op> {
    match self {
      K::Alloc => vec![],
      K::Load(a) => vec![a],
      K::Store(a, b) | K::GetPtr(a, b) | K::GetElemPtr(a, b) | K::Bin(_, a, b) => vec![a, b],
      K::Br(c, _, ta, _, fa) => Some(c).into_iter().chain(ta).chain(fa).collect(),
      K::Jump(_, a) | K::Call(_, a) => a.iter_mut().collect(),
      K::Ret(v) => v.iter_mut().collect(),
    }
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Inst {
  pub name: Option<String>,
  pub ty: T,
  pub k: K,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Block {
  pub name: Option<String>,
  pub params: Vec<(Option<String>, T)>,
  pub insts: Vec<Inst>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fun {
  pub name: String,
  pub params: Vec<(Option<String>, T)>,
  pub ret: T,
  /// Empty for declarations.
  pub blocks: Vec<Block>,
}

impl Fun {
  pub fn is_decl(&self) -> bool {
    self.blocks.is_empty()
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Glob {
  pub name: Option<String>,
  pub init: C,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Prog {
  pub globals: Vec<Glob>,
  pub funcs: Vec<Fun>,
}

impl Prog {
  pub fn op_ty(&self, f: usize, op: &Op) -> T {
    match op {
      Op::C(c) => c.ty(),
      Op::G(g) => T::ptr(self.globals[*g].init.ty()),
      Op::P(i) => self.funcs[f].params[*i].1.clone(),
      Op::B(b, i) => self.funcs[f].blocks[*b].params[*i].1.clone(),
      Op::V(b, i) => self.funcs[f].blocks[*b].insts[*i].ty.clone(),
    }
  }

  pub fn n_insts(&self) -> usize {
    self.funcs.iter().flat_map(|f| &f.blocks).map(|b| b.insts.len()).sum()
  }

  /// Renumbers blocks of every function in breadth-first order from the
  /// entry, dropping blocks that are not reachable.
  pub fn canon(mut self) -> Prog {
    for f in &mut self.funcs {
      let order = bfs(f);
      reorder(f, &order);
    }
    self
  }

  /// Drops all names of values and blocks.
  pub fn erase_names(mut self) -> Prog {
    for g in &mut self.globals {
      g.name = None;
    }
    for f in &mut self.funcs {
      for p in &mut f.params {
        p.0 = None;
      }
      for b in &mut f.blocks {
        b.name = None;
        for p in &mut b.params {
          p.0 = None;
        }
        for i in &mut b.insts {
          i.name = None;
        }
      }
    }
    self
  }

  /// Drops parameter names of declarations (the text form has none).
  pub fn erase_decl_names(mut self) -> Prog {
    for f in &mut self.funcs {
      if f.is_decl() {
        for p in &mut f.params {
          p.0 = None;
        }
      }
    }
    self
  }

  /// Hash of the shape (everything but names and integer literals).
  pub fn shape(&self) -> u64 {
    let mut p = self.clone().erase_names();
    for g in &mut p.globals {
      blur(&mut g.init);
    }
    for (n, f) in p.funcs.iter_mut().enumerate() {
      f.name = format!("f{n}");
      for b in &mut f.blocks {
        for i in &mut b.insts {
          for o in i.k.ops_mut() {
            if let Op::C(c) = o {
              blur(c);
            }
          }
        }
      }
    }
    crate::rng::fnv(format!("{p:?}").as_bytes())
  }
}

fn blur(c: &mut C) {
  match c {
    C::Int(i) => *i = 0,
    C::Agg(es) => es.iter_mut().for_each(blur),
    _ => {}
  }
}

/// Blocks in breadth-first order from the entry.
pub fn bfs(f: &Fun) -> Vec<usize> {
  if f.blocks.is_empty() {
    return vec![];
  }
  let mut seen = vec![false; f.blocks.len()];
  let mut q = VecDeque::from([0]);
  seen[0] = true;
  let mut order = vec![];
  while let Some(b) = q.pop_front() {
    order.push(b);
    if let Some(t) = f.blocks[b].insts.last() {
      for s in t.k.targets() {
        if !seen[s] {
          seen[s] = true;
          q.push_back(s);
        }
      }
    }
  }
  order
}

/// Renumbers the blocks: new block `i` is old block `order[i]`.
pub fn reorder(f: &mut Fun, order: &[usize]) {
  let mut new = vec![usize::MAX; f.blocks.len()];
  for (i, b) in order.iter().enumerate() {
    new[*b] = i;
  }
  let mut blocks: Vec<Block> = order.iter().map(|b| f.blocks[*b].clone()).collect();
  for b in &mut blocks {
    for i in &mut b.insts {
      for o in i.k.ops_mut() {
        match o {
          Op::B(b, _) | Op::V(b, _) => *b = new[*b],
          _ => {}
        }
      }
      match &mut i.k {
        K::Br(_, t, _, f, _) => {
          *t = new[*t];
          *f = new[*f];
        }
        K::Jump(t, _) => *t = new[*t],
        _ => {}
      }
    }
  }
  f.blocks = blocks;
}

// --- readable rendering, for reports and for comparing line by line

fn n(x: &Option<String>) -> &str {
  x.as_deref().unwrap_or("_")
}

pub fn show_c(c: &C) -> String {
  match c {
    C::Int(i) => i.to_string(),
    C::Zero(t) => format!("zeroinit<{t}>"),
    C::Undef(t) => format!("undef<{t}>"),
    C::Agg(es) => format!("{{{}}}", es.iter().map(show_c).collect::<Vec<_>>().join(", ")),
  }
}

pub fn show_op(o: &Op) -> String {
  match o {
    Op::C(c) => show_c(c),
    Op::G(i) => format!("G{i}"),
    Op::P(i) => format!("P{i}"),
    Op::B(b, i) => format!("B{b}.{i}"),
    Op::V(b, i) => format!("V{b}.{i}"),
  }
}

fn show_ops(os: &[Op]) -> String {
  os.iter().map(show_op).collect::<Vec<_>>().join(", ")
}

pub fn show_inst(i: &Inst) -> String {
  let k = match &i.k {
    K::Alloc => "alloc".to_string(),
    K::Load(a) => format!("load {}", show_op(a)),
    K::Store(a, b) => format!("store {}, {}", show_op(a), show_op(b)),
    K::GetPtr(a, b) => format!("getptr {}, {}", show_op(a), show_op(b)),
    K::GetElemPtr(a, b) => format!("getelemptr {}, {}", show_op(a), show_op(b)),
    K::Bin(o, a, b) => format!("{} {}, {}", o.name(), show_op(a), show_op(b)),
    K::Br(c, t, ta, f, fa) => {
      format!("br {}, b{t}({}), b{f}({})", show_op(c), show_ops(ta), show_ops(fa))
    }
    K::Jump(t, a) => format!("jump b{t}({})", show_ops(a)),
    K::Call(f, a) => format!("call F{f}({})", show_ops(a)),
    K::Ret(None) => "ret".to_string(),
    K::Ret(Some(v)) => format!("ret {}", show_op(v)),
  };
  format!("{} <{}> = {k}", n(&i.name), i.ty)
}

pub fn show(p: &Prog) -> String {
  let mut s = String::new();
  for (i, g) in p.globals.iter().enumerate() {
    writeln!(s, "G{i} {} = {} <{}>", n(&g.name), show_c(&g.init), g.init.ty()).unwrap();
  }
  for (i, f) in p.funcs.iter().enumerate() {
    let ps: Vec<_> = f.params.iter().map(|(x, t)| format!("{}: {t}", n(x))).collect();
    writeln!(s, "F{i} {}({}): {}", f.name, ps.join(", "), f.ret).unwrap();
    for (j, b) in f.blocks.iter().enumerate() {
      let ps: Vec<_> = b.params.iter().map(|(x, t)| format!("{}: {t}", n(x))).collect();
      writeln!(s, " b{j} {}({}):", n(&b.name), ps.join(", ")).unwrap();
      for (k, i) in b.insts.iter().enumerate() {
        writeln!(s, "  V{j}.{k} {}", show_inst(i)).unwrap();
      }
    }
  }
  s
}

/// First difference of two programs, or `None` when equal.
pub fn diff(want: &Prog, got: &Prog) -> Option<String> {
  if want == got {
    return None;
  }
  let (a, b) = (show(want), show(got));
  let (mut x, mut y) = (a.lines(), b.lines());
  loop {
    match (x.next(), y.next()) {
      (None, None) => return Some("programs differ (same rendering)".into()),
      (l, r) if l == r => continue,
      (l, r) => {
        return Some(format!("expected `{}`, got `{}`", l.unwrap_or("<end>"), r.unwrap_or("<end>")))
      }
    }
  }
}
