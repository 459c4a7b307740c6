//! Generator of well-formed programs (reference model form).

use crate::model::*;
use crate::rng::Rng;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Names {
  /// Every value is unnamed or has a name of its own.
  Unique,
  /// Names drawn from a tiny pool, with look-alikes of generated names.
  Clash,
}

#[derive(Clone, Debug)]
pub struct Cfg {
  pub names: Names,
  /// Defined behaviour only, terminating: the program can be executed.
  pub exec: bool,
  /// Callees precede callers, as the text form requires.
  pub ordered: bool,
  pub max_funcs: usize,
  pub max_blocks: usize,
  pub max_insts: usize,
  /// Unusual sizes: long names, large argument lists, deep types.
  pub wild: bool,
  /// Zero initializers and aggregates as ordinary operands (not expressible in text).
  pub rich_consts: bool,
}

impl Cfg {
  pub fn text(rng: &mut Rng) -> Cfg {
    let big = rng.chance(1, 12);
    // a few programs have more blocks or instructions than a small counter can count
    let (tall, long) = (rng.chance(1, 150), rng.chance(1, 150));
    Cfg {
      names: Names::Unique,
      exec: false,
      ordered: true,
      max_funcs: if big { 8 } else { 4 },
      max_blocks: if tall { 400 } else if big { 24 } else { *rng.pick(&[1, 3, 5, 8]) },
      max_insts: if tall { 3 } else if long { 500 } else if big { 20 } else { *rng.pick(&[2, 5, 9]) },
      wild: rng.chance(1, 6) && !tall && !long,
      rich_consts: false,
    }
  }
  pub fn exec(rng: &mut Rng) -> Cfg {
    Cfg { exec: true, ..Cfg::text(rng) }
  }
}

/// Indices of the functions an executable program relies on.
pub const FUEL: usize = 0;

/// Lengths around the limits of number representations.
const HUGE: [usize; 10] = [60, 120, 250, 1000, 65530, 65536, (1 << 31) - 4, 1 << 31, (1 << 32) - 4, 1 << 40];

struct G<'a> {
  r: &'a mut Rng,
  cfg: Cfg,
  p: Prog,
  /// Names taken by globals and functions.
  used: HashSet<String>,
  /// Names taken by values of the current function.
  local: HashSet<String>,
  bbs: HashSet<String>,
  /// Names of values of all functions.
  all_local: HashSet<String>,
  serial: usize,
  /// Put after the sigil of clashing names.
  stem: &'static str,
}

/// A value usable at some point: operand, type, and the index range that
/// `getptr` may add (executable programs only).
#[derive(Clone)]
struct Av {
  op: Op,
  ty: T,
  span: (i32, i32),
  /// Points to memory this function may write freely (not the fuel).
  ok: bool,
}

pub fn gen(r: &mut Rng, cfg: &Cfg) -> Prog {
  let mut g = G {
    r,
    cfg: cfg.clone(),
    p: Prog::default(),
    used: HashSet::new(),
    local: HashSet::new(),
    bbs: HashSet::new(),
    all_local: HashSet::new(),
    serial: 0,
    stem: "",
  };
  if cfg.names == Names::Clash && g.r.chance(1, 4) {
    g.stem = g.r.pick(&["q", "name_", "counter_of_", "a_rather_long_name_that_goes_on_and_on_"]);
  }
  g.program();
  g.p
}

const STEMS: [&str; 14] = [
  "x", "y", "val", "a_b", "_", "X", "tmp_0", "i32x", "bb0", "entry", "ret_", "global1", "longer_name_with_many_parts", "fun_alloc",
];
const CLASH: [&str; 14] = [
  "%x", "@x", "%x_0", "%x_1", "@x_0", "%y", "%a", "@a", "%x_0_0", "@main", "@f", "%f", "%0", "%1",
];

impl G<'_> {
  fn fresh(&mut self, kind: u8) -> String {
    // kind: 0 global or function, 1 local value, 2 block
    loop {
      let pre = if kind == 0 && self.r.chance(9, 10) || self.r.chance(1, 4) { '@' } else { '%' };
      let stem = *self.r.pick(&STEMS);
      let s = match self.r.below(4) {
        0 => format!("{pre}{stem}"),
        1 => {
          self.serial += 1;
          format!("{pre}{stem}_{}", self.serial)
        }
        2 => {
          self.serial += 1;
          format!("{pre}v{}", self.serial)
        }
        _ => {
          let n = if self.cfg.wild && self.r.chance(1, 8) { self.long() } else { self.r.range(1, 4) };
          let mut s = pre.to_string();
          for i in 0..n {
            let c = *self.r.pick(b"abzAZ_019");
            s.push(if i == 0 && c.is_ascii_digit() { 'q' } else { c as char });
          }
          s
        }
      };
      let taken = match kind {
        0 => self.used.contains(&s) || self.all_local.contains(&s),
        1 => self.used.contains(&s) || self.local.contains(&s),
        // block names are a name space of their own
        _ => self.bbs.contains(&s),
      };
      if taken {
        continue;
      }
      match kind {
        0 => self.used.insert(s.clone()),
        1 => {
          self.all_local.insert(s.clone());
          self.local.insert(s.clone())
        }
        _ => self.bbs.insert(s.clone()),
      };
      return s;
    }
  }

  /// The length of a long name.
  fn long(&mut self) -> usize {
    match self.r.below(100) {
      0 => 66000,
      1..=12 => self.r.range(1000, 5000),
      _ => self.r.range(60, 700),
    }
  }

  fn clash(&mut self) -> String {
    let s = *self.r.pick(&CLASH);
    if s[1..].starts_with(|c: char| c.is_ascii_digit()) {
      return s.to_string();
    }
    format!("{}{}{}", &s[..1], self.stem, &s[1..])
  }

  fn opt_name(&mut self, kind: u8) -> Option<String> {
    match self.cfg.names {
      Names::Unique => self.r.chance(2, 3).then(|| self.fresh(kind)),
      Names::Clash => self.r.chance(3, 4).then(|| self.clash()),
    }
  }

  fn func_name(&mut self) -> String {
    match self.cfg.names {
      Names::Clash if self.r.chance(2, 3) => {
        // function names stay unique among functions and globals
        for _ in 0..20 {
          let s = self.clash();
          if !s[1..].starts_with(|c: char| c.is_ascii_digit()) && self.used.insert(s.clone()) {
            return s;
          }
        }
        self.fresh(0)
      }
      _ => self.fresh(0),
    }
  }

  /// A type values can have.
  fn ty(&mut self, depth: usize) -> T {
    match self.r.below(if depth == 0 { 4 } else { 10 }) {
      0..=4 => T::I32,
      5 | 6 => T::ptr(self.ty(depth - 1)),
      7 | 8 => {
        let mut n = if self.cfg.wild { self.r.range(1, 9) } else { self.r.range(1, 4) };
        if !self.cfg.exec && self.r.chance(1, 40) {
          n = *self.r.pick(&HUGE) + self.r.below(9);
        }
        T::arr(self.ty(depth - 1), n)
      }
      _ => self.fun_ty(depth),
    }
  }

  fn fun_ty(&mut self, depth: usize) -> T {
    if self.cfg.exec {
      return T::I32;
    }
    let n = if self.cfg.wild && self.r.chance(1, 60) { self.r.range(4, 300) } else { self.r.below(3) };
    let depth = if n > 3 { 1 } else { depth };
    let ps = (0..n).map(|_| self.ty(depth - 1)).collect();
    let ret = if self.r.chance(1, 3) { T::Unit } else { self.ty(depth - 1) };
    T::fun(ps, ret)
  }

  fn any_ty(&mut self) -> T {
    let d = if self.cfg.wild { self.r.below(5) } else { self.r.below(3) };
    self.ty(d)
  }

  /// Constant initializer of type `t`.
  fn konst(&mut self, t: &T, depth: usize) -> C {
    if !self.cfg.exec && self.r.chance(1, 12) {
      return C::Undef(t.clone());
    }
    match t {
      T::I32 if self.r.chance(1, 10) => C::Zero(T::I32),
      T::I32 => C::Int(self.r.int()),
      T::Arr(e, n) if *n <= (if depth == 0 { 300 } else { 40 }) && depth < 4 && self.r.chance(3, 4) => {
        // some aggregates repeat one element, and often that is a zero
        if self.r.chance(1, 6) {
          let elem = if **e == T::I32 && self.r.chance(1, 2) { C::Int(0) } else { self.konst(e, depth + 1) };
          return C::Agg(vec![elem; *n]);
        }
        C::Agg((0..*n).map(|_| self.konst(e, depth + 1)).collect())
      }
      _ => C::Zero(t.clone()),
    }
  }

  fn program(&mut self) {
    if self.cfg.exec {
      for n in ["@main", "@putint", "@getint", "@put3"] {
        self.used.insert(n.into());
      }
      let name = self.fresh(0);
      self.p.globals.push(Glob { name: Some(name), init: C::Int(60) });
    }
    let ng = self.r.below(4) + self.cfg.exec as usize;
    for _ in 0..ng {
      let t = self.any_ty();
      // executable programs start from pointer-free globals
      let t = if self.cfg.exec && has_ptr(&t) { T::arr(T::I32, self.r.range(1, 5)) } else { t };
      let init = self.konst(&t, 0);
      let name = match self.cfg.names {
        Names::Unique => {
          if self.r.chance(4, 5) {
            Some(self.fresh(0))
          } else {
            None
          }
        }
        Names::Clash => self.opt_name(0),
      };
      self.p.globals.push(Glob { name, init });
    }
    if self.cfg.exec {
      for (n, ps, ret) in [
        ("@putint", vec![T::I32], T::Unit),
        ("@getint", vec![], T::I32),
        ("@put3", vec![T::I32, T::I32, T::I32], T::I32),
      ] {
        self.p.funcs.push(Fun {
          name: n.into(),
          params: ps.into_iter().map(|t| (None, t)).collect(),
          ret,
          blocks: vec![],
        });
      }
    }
    let nf = self.r.range(1, self.cfg.max_funcs.max(1));
    let first = self.p.funcs.len();
    for i in 0..nf {
      let main = self.cfg.exec && i == nf - 1;
      let np = match self.r.below(6) {
        0..=3 => self.r.below(4),
        4 => 0,
        _ if self.cfg.wild && self.r.chance(1, 12) => self.r.range(200, 300),
        _ if self.cfg.wild => self.r.below(14),
        _ => 1,
      };
      self.local.clear();
      let mut params = vec![];
      for _ in 0..np {
        let t = if self.cfg.exec {
          match self.r.below(5) {
            0 => T::ptr(T::I32),
            1 => T::ptr(T::arr(T::I32, self.r.range(1, 4))),
            _ => T::I32,
          }
        } else {
          self.any_ty()
        };
        let name = self.opt_name(1);
        params.push((name, t));
      }
      if main {
        params.clear();
      }
      let ret = if main || self.r.chance(1, 2) {
        T::I32
      } else if self.r.chance(1, 2) || self.cfg.exec {
        T::Unit
      } else {
        self.any_ty()
      };
      let name = if main {
        "@main".to_string()
      } else {
        self.func_name()
      };
      let decl = !self.cfg.exec && self.r.chance(1, 5);
      if decl {
        params.iter_mut().for_each(|p| p.0 = None);
      }
      self.p.funcs.push(Fun { name, params, ret, blocks: vec![] });
      if !decl {
        let f = self.p.funcs.len() - 1;
        if self.cfg.ordered || self.cfg.exec {
          self.body(f);
        }
      }
    }
    if !(self.cfg.ordered || self.cfg.exec) {
      for f in first..self.p.funcs.len() {
        if self.r.chance(4, 5) {
          self.local.clear();
          let ns: Vec<_> = self.p.funcs[f].params.iter().filter_map(|p| p.0.clone()).collect();
          self.local.extend(ns);
          self.body(f);
        } else {
          self.p.funcs[f].params.iter_mut().for_each(|p| p.0 = None);
        }
      }
    }
    // the callees of an executable program may come later in the program
    if self.cfg.exec && !self.cfg.ordered {
      let mut perm: Vec<usize> = (0..self.p.funcs.len()).collect();
      self.r.shuffle(&mut perm);
      permute_funcs(&mut self.p, &perm);
    }
  }

  fn body(&mut self, f: usize) {
    self.bbs.clear();
    let exec = self.cfg.exec;
    let nb = self.r.range(1, self.cfg.max_blocks.max(1));
    // tree of discovery: every block but the entry has one parent
    let mut kids: Vec<Vec<usize>> = vec![vec![]; nb];
    for b in 1..nb {
      let lo = if self.r.chance(1, 2) { b.saturating_sub(3) } else { 0 };
      let mut p = self.r.range(lo, b - 1);
      while kids[p].len() >= 2 {
        p = (p + 1) % b;
      }
      kids[p].push(b);
    }
    // terminator shape: targets of each block
    #[derive(Clone)]
    enum Tm {
      Ret,
      Jump(usize),
      Br(usize, usize),
    }
    let mut tms = vec![];
    for b in 0..nb {
      let other = |r: &mut Rng| -> Option<usize> {
        if nb < 2 {
          return None;
        }
        Some(r.range(1, nb - 1))
      };
      // in executable programs a retreating edge needs a forward alternative
      let fwd = |r: &mut Rng| -> Option<usize> { (b + 1 < nb).then(|| r.range(b + 1, nb - 1)) };
      let tm = match kids[b].len() {
        2 => {
          if self.r.chance(1, 2) {
            Tm::Br(kids[b][0], kids[b][1])
          } else {
            Tm::Br(kids[b][1], kids[b][0])
          }
        }
        1 => {
          let k = kids[b][0];
          match self.r.below(3) {
            0 => Tm::Jump(k),
            _ => match other(self.r) {
              Some(o) if self.r.chance(1, 2) => Tm::Br(k, o),
              Some(o) => Tm::Br(o, k),
              None => Tm::Jump(k),
            },
          }
        }
        _ => match self.r.below(4) {
          0 | 1 => Tm::Ret,
          2 => match if exec { fwd(self.r) } else { other(self.r) } {
            Some(o) => Tm::Jump(o),
            None => Tm::Ret,
          },
          _ => {
            let x = if exec { fwd(self.r) } else { other(self.r) };
            match (x, other(self.r)) {
              (Some(x), Some(y)) if self.r.chance(1, 2) => Tm::Br(x, y),
              (Some(x), Some(y)) => Tm::Br(y, x),
              _ => Tm::Ret,
            }
          }
        },
      };
      tms.push(tm);
    }
    // block headers; a block that one branch targets twice takes no parameters
    let mut noparam = vec![false; nb];
    noparam[0] = true;
    for t in &tms {
      if let Tm::Br(x, y) = t {
        if x == y {
          noparam[*x] = true;
        }
      }
    }
    for b in 0..nb {
      let name = if b == 0 && self.r.chance(1, 2) && self.cfg.names == Names::Unique {
        self.bbs.insert("%entry".into());
        Some("%entry".to_string())
      } else {
        self.opt_name(2)
      };
      let mut params = vec![];
      if !noparam[b] && self.r.chance(2, 5) {
        let np = match self.cfg.wild {
          true if self.r.chance(1, 60) => self.r.range(200, 300),
          true => self.r.range(1, 5),
          false => self.r.range(1, 3),
        };
        for _ in 0..np {
          let t = if exec {
            match self.r.below(4) {
              0 => T::arr(T::I32, self.r.range(1, 3)),
              _ => T::I32,
            }
          } else {
            self.any_ty()
          };
          let name = self.opt_name(1);
          params.push((name, t));
        }
      }
      self.p.funcs[f].blocks.push(Block { name, params, insts: vec![] });
    }
    // dominators
    let mut preds = vec![vec![]; nb];
    for (b, t) in tms.iter().enumerate() {
      match t {
        Tm::Jump(x) => preds[*x].push(b),
        Tm::Br(x, y) => {
          preds[*x].push(b);
          preds[*y].push(b);
        }
        Tm::Ret => {}
      }
    }
    let full: Vec<usize> = (0..nb).collect();
    let mut dom: Vec<Vec<usize>> = vec![full; nb];
    dom[0] = vec![0];
    loop {
      let mut ch = false;
      for b in 1..nb {
        let mut d: Option<Vec<usize>> = None;
        for p in &preds[b] {
          d = Some(match d {
            None => dom[*p].clone(),
            Some(x) => x.into_iter().filter(|y| dom[*p].contains(y)).collect(),
          });
        }
        let mut d = d.unwrap_or_default();
        if !d.contains(&b) {
          d.push(b);
        }
        d.sort();
        if d != dom[b] {
          dom[b] = d;
          ch = true;
        }
      }
      if !ch {
        break;
      }
    }
    // instructions
    let mut avail: Vec<Vec<Av>> = vec![vec![]; nb];
    let mut base = vec![];
    for (i, g) in self.p.globals.iter().enumerate() {
      base.push(Av { op: Op::G(i), ty: T::ptr(g.init.ty()), span: (0, 0), ok: !(exec && i == FUEL) });
    }
    for (i, p) in self.p.funcs[f].params.iter().enumerate() {
      base.push(Av { op: Op::P(i), ty: p.1.clone(), span: (0, 0), ok: true });
    }
    for b in 0..nb {
      let mut av: Vec<Av> = base.clone();
      for d in &dom[b] {
        if *d != b {
          av.extend(avail[*d].iter().cloned());
        }
      }
      let inherited = av.len();
      let ps = self.p.funcs[f].blocks[b].params.clone();
      for (i, (_, t)) in ps.iter().enumerate() {
        av.push(Av { op: Op::B(b, i), ty: t.clone(), span: (0, 0), ok: true });
      }
      let n = self.r.below(self.cfg.max_insts + 1);
      for _ in 0..n {
        self.inst(f, b, &mut av);
      }
      let term = match tms[b].clone() {
        Tm::Ret => {
          let ret = self.p.funcs[f].ret.clone();
          let v = (ret != T::Unit).then(|| self.operand(&ret, &av, f));
          K::Ret(v)
        }
        Tm::Jump(t) => {
          let args = self.bb_args(f, t, &av);
          K::Jump(t, args)
        }
        Tm::Br(x, y) => {
          let back = (x <= b) as usize + (y <= b) as usize;
          let cond = if exec && back > 0 {
            // burn fuel; leave the loop when there is none left
            let l = self.push(f, b, None, T::I32, K::Load(Op::G(FUEL)));
            let s = self.push(f, b, None, T::I32, K::Bin(Bop::Sub, l, Op::C(C::Int(1))));
            self.push(f, b, None, T::Unit, K::Store(s.clone(), Op::G(FUEL)));
            let pos = self.push(f, b, None, T::I32, K::Bin(Bop::Gt, s, Op::C(C::Int(0))));
            let rnd = self.operand(&T::I32, &av, f);
            let rnd = if self.r.chance(1, 2) { rnd } else { Op::C(C::Int(self.r.int())) };
            let nz = self.push(f, b, None, T::I32, K::Bin(Bop::Ne, rnd, Op::C(C::Int(0))));
            let c = self.push(f, b, None, T::I32, K::Bin(Bop::And, pos, nz));
            if x <= b {
              c
            } else {
              self.push(f, b, None, T::I32, K::Bin(Bop::Eq, c, Op::C(C::Int(0))))
            }
          } else {
            self.operand(&T::I32, &av, f)
          };
          if exec && back == 2 {
            let ret = self.p.funcs[f].ret.clone();
            let v = (ret != T::Unit).then(|| self.operand(&ret, &av, f));
            // cannot guard both edges: return instead (the targets have other parents)
            let _ = cond;
            K::Ret(v)
          } else {
            let xa = self.bb_args(f, x, &av);
            let ya = self.bb_args(f, y, &av);
            K::Br(cond, x, xa, y, ya)
          }
        }
      };
      self.p.funcs[f].blocks[b].insts.push(Inst { name: None, ty: T::Unit, k: term });
      avail[b] = av.split_off(inherited);
    }
    if exec {
      // returning early may have cut blocks off
      let order = bfs(&self.p.funcs[f]);
      if order.len() < nb {
        let mut keep = order.clone();
        keep.sort();
        reorder(&mut self.p.funcs[f], &keep);
      }
    }
    // any placement order with the entry first is fine
    let nb = self.p.funcs[f].blocks.len();
    if nb > 2 && self.r.chance(1, 3) {
      let mut order: Vec<usize> = (1..nb).collect();
      self.r.shuffle(&mut order);
      order.insert(0, 0);
      reorder(&mut self.p.funcs[f], &order);
    }
  }

  fn bb_args(&mut self, f: usize, t: usize, av: &[Av]) -> Vec<Op> {
    let tys: Vec<T> = self.p.funcs[f].blocks[t].params.iter().map(|p| p.1.clone()).collect();
    tys.iter().map(|t| self.operand(t, av, f)).collect()
  }

  fn push(&mut self, f: usize, b: usize, name: Option<String>, ty: T, k: K) -> Op {
    let is = &mut self.p.funcs[f].blocks[b].insts;
    is.push(Inst { name, ty, k });
    Op::V(b, is.len() - 1)
  }

  /// An operand of type `t`: a value in scope, or a constant.
  fn operand(&mut self, t: &T, av: &[Av], _f: usize) -> Op {
    let c: Vec<&Av> = av.iter().filter(|a| a.ty == *t).collect();
    if !c.is_empty() && self.r.chance(4, 5) {
      // prefer recent ones a little
      let k = if self.r.chance(1, 3) { c.len() - 1 } else { self.r.below(c.len()) };
      return c[k].op.clone();
    }
    if self.cfg.rich_consts && !(self.cfg.exec && has_ptr(t)) && self.r.chance(1, 4) {
      return Op::C(self.konst(t, 0));
    }
    match t {
      T::I32 if self.cfg.exec || self.r.chance(7, 8) => Op::C(C::Int(self.r.int())),
      _ if self.cfg.exec => match c.first() {
        Some(a) => a.op.clone(),
        None => Op::C(C::Undef(t.clone())),
      },
      _ => Op::C(C::Undef(t.clone())),
    }
  }

  fn inst(&mut self, f: usize, b: usize, av: &mut Vec<Av>) {
    let exec = self.cfg.exec;
    let ptrs: Vec<Av> = av.iter().filter(|a| a.ok && matches!(a.ty, T::Ptr(_))).cloned().collect();
    match self.r.below(12) {
      0 | 1 => {
        // alloc
        let t = if exec {
          match self.r.below(4) {
            0 => T::I32,
            1 => T::arr(T::I32, self.r.range(1, 6)),
            2 => T::arr(T::arr(T::I32, self.r.range(1, 3)), self.r.range(1, 3)),
            _ => {
              if self.r.chance(1, 2) {
                T::ptr(T::I32)
              } else {
                T::I32
              }
            }
          }
        } else {
          self.any_ty()
        };
        let name = self.opt_name(1);
        let v = self.push(f, b, name, T::ptr(t.clone()), K::Alloc);
        if exec {
          let val = match &t {
            T::Ptr(_) => {
              // a pointer to some integer
              match av.iter().filter(|a| a.ok && a.ty == t).next_back() {
                Some(a) => a.op.clone(),
                None => {
                  let x = self.push(f, b, None, t.clone(), K::Alloc);
                  self.push(f, b, None, T::Unit, K::Store(Op::C(C::Int(7)), x.clone()));
                  av.push(Av { op: x.clone(), ty: t.clone(), span: (0, 0), ok: true });
                  x
                }
              }
            }
            _ => Op::C(self.konst(&t, 0)),
          };
          self.push(f, b, None, T::Unit, K::Store(val, v.clone()));
        }
        av.push(Av { op: v, ty: T::ptr(t), span: (0, 0), ok: true });
      }
      2 | 3 if !ptrs.is_empty() => {
        // load
        let p = self.r.pick(&ptrs).clone();
        let t = p.ty.pointee().unwrap().clone();
        let name = self.opt_name(1);
        let v = self.push(f, b, name, t.clone(), K::Load(p.op));
        // what a loaded pointer may be moved by is unknown
        av.push(Av { op: v, ty: t, span: (0, 0), ok: true });
      }
      4 | 5 if !ptrs.is_empty() => {
        // store
        let p = self.r.pick(&ptrs).clone();
        let t = p.ty.pointee().unwrap().clone();
        let val = if matches!(t, T::Arr(..)) && self.r.chance(1, 2) || self.r.chance(1, 6) {
          if exec && has_ptr(&t) {
            return;
          }
          Op::C(self.konst(&t, 0))
        } else {
          self.operand(&t, av, f)
        };
        if exec && matches!(val, Op::C(C::Undef(_))) {
          return;
        }
        self.push(f, b, None, T::Unit, K::Store(val, p.op));
      }
      6 if !ptrs.is_empty() => {
        // getptr
        let p = self.r.pick(&ptrs).clone();
        let (idx, span) = if exec {
          let (lo, hi) = p.span;
          let k = lo + self.r.below((hi - lo + 1) as usize) as i32;
          (Op::C(C::Int(k)), (lo - k, hi - k))
        } else {
          (self.operand(&T::I32, av, f), (0, 0))
        };
        let name = self.opt_name(1);
        let v = self.push(f, b, name, p.ty.clone(), K::GetPtr(p.op, idx));
        av.push(Av { op: v, ty: p.ty, span, ok: true });
      }
      7 => {
        // getelemptr
        let arrs: Vec<Av> =
          ptrs.into_iter().filter(|p| matches!(p.ty.pointee(), Some(T::Arr(..)))).collect();
        if arrs.is_empty() {
          return;
        }
        let p = self.r.pick(&arrs).clone();
        let (e, n) = match p.ty.pointee() {
          Some(T::Arr(e, n)) => ((**e).clone(), *n),
          _ => unreachable!(),
        };
        let (idx, span) = if exec {
          if self.r.chance(1, 2) {
            let k = self.r.below(n) as i32;
            (Op::C(C::Int(k)), (-k, n as i32 - 1 - k))
          } else {
            // masked variable index
            let mut m = 1;
            while m * 2 <= n {
              m *= 2;
            }
            let v = self.operand(&T::I32, av, f);
            let x = self.push(f, b, None, T::I32, K::Bin(Bop::And, v, Op::C(C::Int(m as i32 - 1))));
            (x, (0, 0))
          }
        } else {
          (self.operand(&T::I32, av, f), (0, 0))
        };
        let name = self.opt_name(1);
        let ty = T::ptr(e);
        let v = self.push(f, b, name, ty.clone(), K::GetElemPtr(p.op, idx));
        av.push(Av { op: v, ty, span, ok: true });
      }
      8 | 9 => {
        // binary
        let op = self.r.pick(&BOPS).0;
        let l = self.operand(&T::I32, av, f);
        let mut rhs = self.operand(&T::I32, av, f);
        if exec {
          match op {
            Bop::Div | Bop::Mod => {
              rhs = if self.r.chance(1, 2) {
                Op::C(C::Int(*self.r.pick(&[1, 2, 3, 7, -2, -5, 10, i32::MAX, i32::MIN])))
              } else {
                let x = self.push(f, b, None, T::I32, K::Bin(Bop::And, rhs, Op::C(C::Int(15))));
                self.push(f, b, None, T::I32, K::Bin(Bop::Add, x, Op::C(C::Int(1))))
              }
            }
            Bop::Shl | Bop::Shr | Bop::Sar => {
              rhs = if self.r.chance(1, 2) {
                Op::C(C::Int(self.r.below(32) as i32))
              } else {
                self.push(f, b, None, T::I32, K::Bin(Bop::And, rhs, Op::C(C::Int(31))))
              }
            }
            _ => {}
          }
        }
        let name = self.opt_name(1);
        let v = self.push(f, b, name, T::I32, K::Bin(op, l, rhs));
        av.push(Av { op: v, ty: T::I32, span: (0, 0), ok: true });
      }
      _ => {
        // call
        let callable: Vec<usize> = (0..self.p.funcs.len())
          .filter(|c| {
            if exec {
              *c != f
                && self.p.funcs[*c]
                  .params
                  .iter()
                  .all(|(_, t)| *t == T::I32 || av.iter().any(|a| a.ok && a.ty == *t))
            } else {
              !self.cfg.ordered || *c <= f
            }
          })
          .collect();
        if callable.is_empty() {
          return;
        }
        let c = *self.r.pick(&callable);
        let tys: Vec<T> = self.p.funcs[c].params.iter().map(|p| p.1.clone()).collect();
        let usable: Vec<Av> = if exec { av.iter().filter(|a| a.ok).cloned().collect() } else { av.clone() };
        let args = tys.iter().map(|t| self.operand(t, &usable, f)).collect();
        let ret = self.p.funcs[c].ret.clone();
        let name = if ret == T::Unit { None } else { self.opt_name(1) };
        let v = self.push(f, b, name, ret.clone(), K::Call(c, args));
        if ret != T::Unit {
          av.push(Av { op: v, ty: ret, span: (0, 0), ok: true });
        }
      }
    }
  }
}

fn has_ptr(t: &T) -> bool {
  match t {
    T::Ptr(_) | T::Fun(..) => true,
    T::Arr(e, _) => has_ptr(e),
    _ => false,
  }
}

/// Reorders the functions: new function `i` is old function `perm[i]`.
pub fn permute_funcs(p: &mut Prog, perm: &[usize]) {
  let mut new = vec![0; perm.len()];
  for (i, o) in perm.iter().enumerate() {
    new[*o] = i;
  }
  let old = std::mem::take(&mut p.funcs);
  p.funcs = perm.iter().map(|o| old[*o].clone()).collect();
  for f in &mut p.funcs {
    for b in &mut f.blocks {
      for i in &mut b.insts {
        if let K::Call(c, _) = &mut i.k {
          *c = new[*c];
        }
      }
    }
  }
}

/// Many entities of one kind, most of a type of their own.
pub fn wide(r: &mut Rng, n: usize) -> Prog {
  let mut m = Prog::default();
  let kind = r.below(4);
  let arr = |i: usize| T::Arr(Rc::new(T::I32), i % 20000 + 1);
  match kind {
    0 => {
      for i in 0..n {
        m.globals.push(Glob { name: Some(format!("@g{i}")), init: C::Zero(arr(i)) });
      }
    }
    1 => {
      for i in 0..n {
        m.funcs.push(Fun { name: format!("@f{i}"), params: vec![(None, T::Ptr(Rc::new(arr(i))))], ret: T::I32, blocks: vec![] });
      }
    }
    _ => {
      let mut insts: Vec<Inst> = (0..n)
        .map(|i| Inst { name: (i % 3 > 0).then(|| format!("%v{i}")), ty: T::Ptr(Rc::new(arr(if kind == 2 { i } else { 0 }))), k: K::Alloc })
        .collect();
      insts.push(Inst { name: None, ty: T::Unit, k: K::Ret(None) });
      m.funcs.push(Fun { name: "@f".into(), params: vec![], ret: T::Unit, blocks: vec![Block { name: Some("%entry".into()), params: vec![], insts }] });
    }
  }
  m
}
