//! Writes model programs as Koopa text, in the plain style or with every
//! freedom of formatting the language leaves.

use crate::model::*;
use crate::rng::Rng;
use std::collections::HashSet;

/// A token of the text, with what it is for (used by mutations).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tk {
  S(Tok),
  /// The next token must be on another line.
  Nl,
  /// The next token must be on the same line.
  Same,
}

/// What an operand must be.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Need {
  Exact(T),
  /// Any pointer (the source of a load and the like).
  Ptr,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Role {
  /// Keyword.
  Kw,
  /// Punctuation.
  P,
  /// Length of an array type.
  Len,
  /// Element of an initializer of the given type.
  Init(T),
  /// Definitions, with the type of what they name.
  GDef(T),
  ParamDef(T),
  BParamDef(T),
  ValDef(T),
  BbDef,
  FnDef,
  /// Value operand, symbol or not.
  Use(Need),
  BbUse,
  FnUse,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
  pub s: String,
  pub role: Role,
  /// Function, block and instruction the token belongs to.
  pub at: (usize, usize, usize),
}

pub const NO: usize = usize::MAX;

impl Tok {
  pub fn is_sym(&self) -> bool {
    self.s.starts_with(['@', '%'])
  }
}

pub struct Style {
  /// Random spacing and comments.
  pub wild: bool,
  /// Unreachable blocks may be added, blocks may be placed in any order.
  pub shuffle: bool,
  pub dead: bool,
}

pub const PLAIN: Style = Style { wild: false, shuffle: false, dead: false };

struct E<'a> {
  rng: &'a mut Rng,
  p: &'a Prog,
  wild: bool,
  out: Vec<Tk>,
  gnames: Vec<String>,
  at: (usize, usize, usize),
}

/// Names of everything in one function.
struct Names {
  params: Vec<String>,
  bbs: Vec<String>,
  bparams: Vec<Vec<String>>,
  insts: Vec<Vec<String>>,
}

/// The tokens of `p`.
pub fn tokens(p: &Prog, r: &mut Rng, st: &Style) -> Vec<Tk> {
  let mut taken = HashSet::new();
  let mut n = 0;
  let gnames: Vec<String> = p
    .globals
    .iter()
    .map(|g| match &g.name {
      Some(s) => s.clone(),
      None => temp(r, &mut taken, &mut n, st.wild),
    })
    .collect();
  let mut e = E { rng: r, p, wild: st.wild, out: vec![], gnames, at: (NO, NO, NO) };
  // interleave globals and functions; a global precedes the functions using it
  let mut next_g = 0;
  for f in 0..p.funcs.len() {
    let need = p.funcs[f]
      .blocks
      .iter()
      .flat_map(|b| &b.insts)
      .flat_map(|i| i.k.ops())
      .filter_map(|o| if let Op::G(g) = o { Some(*g + 1) } else { None })
      .max()
      .unwrap_or(0);
    while next_g < p.globals.len() && (next_g < need || !st.shuffle || e.rng.chance(1, 3)) {
      e.global(next_g);
      next_g += 1;
    }
    let mut t = taken.clone();
    e.func(f, &mut t, st);
  }
  while next_g < p.globals.len() {
    e.global(next_g);
    next_g += 1;
  }
  e.out
}

pub fn text(p: &Prog, r: &mut Rng, st: &Style) -> String {
  let t = tokens(p, r, st);
  join(&t, r, st.wild)
}

fn temp(r: &mut Rng, taken: &mut HashSet<String>, n: &mut usize, wild: bool) -> String {
  loop {
    let s = if wild && r.chance(1, 3) { format!("%{}", r.below(5000)) } else { format!("%{n}") };
    *n += 1;
    if taken.insert(s.clone()) {
      return s;
    }
  }
}

impl E<'_> {
  fn s(&mut self, s: impl Into<String>) {
    let s = s.into();
    let role = if s.starts_with(|c: char| c.is_ascii_alphabetic()) { Role::Kw } else { Role::P };
    self.r(s, role);
  }
  fn r(&mut self, s: impl Into<String>, role: Role) {
    let at = self.at;
    self.out.push(Tk::S(Tok { s: s.into(), role, at }));
  }
  fn int(&mut self, v: i64, role: Role) {
    let s = if self.wild && self.rng.chance(1, 8) {
      let n = if self.rng.chance(1, 6) { self.rng.range(4, 40) } else { self.rng.range(1, 3) };
      let z = "0".repeat(n);
      if v < 0 {
        format!("-{z}{}", -v)
      } else {
        format!("{z}{v}")
      }
    } else {
      v.to_string()
    };
    self.r(s, role);
  }
  fn ty(&mut self, t: &T) {
    match t {
      T::I32 => self.s("i32"),
      T::Unit => panic!("unit has no spelling"),
      T::Ptr(t) => {
        self.s("*");
        self.ty(t);
      }
      T::Arr(t, n) => {
        self.s("[");
        self.ty(t);
        self.s(",");
        self.int(*n as i64, Role::Len);
        self.s("]");
      }
      T::Fun(ps, r) => {
        self.s("(");
        for (i, p) in ps.iter().enumerate() {
          if i > 0 {
            self.s(",");
          }
          self.ty(p);
        }
        self.s(")");
        if **r != T::Unit {
          self.s(":");
          self.ty(r);
        }
      }
    }
  }
  fn konst(&mut self, c: &C, role: Role) {
    match c {
      C::Int(i) => self.int(*i as i64, role),
      C::Zero(_) => self.r("zeroinit", role),
      C::Undef(_) => self.r("undef", role),
      C::Agg(es) => {
        self.s("{");
        for (i, e) in es.iter().enumerate() {
          if i > 0 {
            self.s(",");
          }
          self.konst(e, Role::Init(e.ty()));
        }
        self.s("}");
      }
    }
  }
  fn global(&mut self, g: usize) {
    self.s("global");
    self.at = (NO, NO, g);
    let n = self.gnames[g].clone();
    let t = self.p.globals[g].init.ty();
    self.r(n, Role::GDef(T::ptr(t)));
    self.s("=");
    self.s("alloc");
    let init = self.p.globals[g].init.clone();
    self.ty(&init.ty());
    self.s(",");
    self.konst(&init, Role::Init(init.ty()));
    self.out.push(Tk::Nl);
  }
  fn func(&mut self, f: usize, taken: &mut HashSet<String>, st: &Style) {
    let fun = &self.p.funcs[f];
    self.at = (f, NO, NO);
    self.s(if fun.is_decl() { "decl" } else { "fun" });
    self.r(fun.name.clone(), Role::FnDef);
    self.s("(");
    let mut n = 0;
    let wild = self.wild;
    macro_rules! nm {
      ($x:expr, $t:expr) => {
        match $x {
          Some(s) => s.clone(),
          None => temp(self.rng, $t, &mut n, wild),
        }
      };
    }
    if fun.is_decl() {
      for (i, (_, t)) in fun.params.iter().enumerate() {
        if i > 0 {
          self.s(",");
        }
        self.ty(t);
      }
      self.s(")");
      if fun.ret != T::Unit {
        self.s(":");
        self.ty(&fun.ret);
      }
      self.out.push(Tk::Nl);
      return;
    }
    let mut bb_taken = HashSet::new();
    let names = Names {
      params: fun.params.iter().map(|p| nm!(&p.0, taken)).collect(),
      bbs: fun.blocks.iter().map(|b| nm!(&b.name, &mut bb_taken)).collect(),
      bparams: fun
        .blocks
        .iter()
        .map(|b| b.params.iter().map(|p| nm!(&p.0, taken)).collect())
        .collect(),
      insts: fun
        .blocks
        .iter()
        .map(|b| {
          b.insts
            .iter()
            .map(|i| if i.ty == T::Unit { String::new() } else { nm!(&i.name, taken) })
            .collect()
        })
        .collect(),
    };
    for (i, (_, t)) in fun.params.iter().enumerate() {
      if i > 0 {
        self.s(",");
      }
      self.r(names.params[i].clone(), Role::ParamDef(t.clone()));
      self.s(":");
      self.ty(t);
    }
    self.s(")");
    if fun.ret != T::Unit {
      self.s(":");
      self.ty(&fun.ret);
    }
    self.s("{");
    self.out.push(Tk::Nl);
    let mut order: Vec<usize> = (1..fun.blocks.len()).collect();
    if st.shuffle && self.rng.chance(1, 2) {
      self.rng.shuffle(&mut order);
    }
    order.insert(0, 0);
    for b in order {
      self.block(f, b, &names);
      self.at = (f, NO, NO);
      if st.dead && self.rng.chance(1, 10) {
        self.dead_block(&names, &mut bb_taken, taken, &mut n);
      }
    }
    self.s("}");
    self.out.push(Tk::Nl);
  }
  /// A block nothing reaches: it is dropped, and neither its symbols nor its
  /// types are looked at.
  fn dead_block(
    &mut self,
    names: &Names,
    bb_taken: &mut HashSet<String>,
    taken: &mut HashSet<String>,
    n: &mut usize,
  ) {
    let name = loop {
      let s = if self.rng.chance(1, 2) {
        format!("%dead{}", self.rng.below(1000))
      } else {
        temp(self.rng, &mut bb_taken.clone(), n, true)
      };
      if !names.bbs.contains(&s) && bb_taken.insert(s.clone()) {
        break s;
      }
    };
    self.s(name.clone());
    self.s(":");
    self.out.push(Tk::Nl);
    if self.rng.chance(1, 2) {
      let v = temp(self.rng, taken, n, true);
      self.s(v);
      self.s("=");
      self.s("add");
      self.s("1");
      self.s(",");
      self.s("2");
      self.out.push(Tk::Nl);
    }
    if names.bbs.len() > 1 && self.rng.chance(1, 2) {
      self.s("jump");
      let k = self.rng.range(1, names.bbs.len() - 1);
      if names.bparams[k].is_empty() {
        self.s(names.bbs[k].clone());
      } else {
        self.s(name);
      }
    } else {
      self.s("jump");
      self.s(name);
    }
    self.out.push(Tk::Nl);
  }
  fn empty_list(&mut self) {
    if self.wild && self.rng.chance(1, 8) {
      self.s("(");
      self.s(")");
    }
  }
  fn block(&mut self, f: usize, b: usize, names: &Names) {
    let blk = &self.p.funcs[f].blocks[b];
    self.at = (f, b, NO);
    self.r(names.bbs[b].clone(), Role::BbDef);
    if blk.params.is_empty() {
      self.empty_list();
    } else {
      self.s("(");
      for (i, (_, t)) in blk.params.iter().enumerate() {
        if i > 0 {
          self.s(",");
        }
        self.r(names.bparams[b][i].clone(), Role::BParamDef(t.clone()));
        self.s(":");
        self.ty(t);
      }
      self.s(")");
    }
    self.s(":");
    self.out.push(Tk::Nl);
    for (i, inst) in blk.insts.iter().enumerate() {
      self.at = (f, b, i);
      // the unused result of a call may be dropped
      let drop = self.wild
        && matches!(inst.k, K::Call(..))
        && inst.name.is_none()
        && !self.p.funcs[f].blocks.iter().flat_map(|b| &b.insts).any(|x| x.k.ops().contains(&&Op::V(b, i)))
        && self.rng.chance(1, 2);
      if inst.ty != T::Unit && !drop {
        self.r(names.insts[b][i].clone(), Role::ValDef(inst.ty.clone()));
        self.s("=");
      }
      self.inst(inst, names);
      self.out.push(Tk::Nl);
    }
  }
  fn op(&mut self, o: &Op, names: &Names, role: Role) {
    match o {
      Op::C(c) => self.konst(c, role),
      Op::G(g) => self.r(self.gnames[*g].clone(), role),
      Op::P(i) => self.r(names.params[*i].clone(), role),
      Op::B(b, i) => self.r(names.bparams[*b][*i].clone(), role),
      Op::V(b, i) => self.r(names.insts[*b][*i].clone(), role),
    }
  }
  fn exact(&self, o: &Op) -> Role {
    Role::Use(Need::Exact(self.p.op_ty(self.at.0, o)))
  }
  fn args(&mut self, a: &[Op], names: &Names, always: bool) {
    if a.is_empty() && !always {
      self.empty_list();
      return;
    }
    self.s("(");
    for (i, o) in a.iter().enumerate() {
      if i > 0 {
        self.s(",");
      }
      let r = self.exact(o);
      self.op(o, names, r);
    }
    self.s(")");
  }
  fn inst(&mut self, inst: &Inst, names: &Names) {
    match &inst.k {
      K::Alloc => {
        self.s("alloc");
        self.ty(inst.ty.pointee().unwrap());
      }
      K::Load(a) => {
        self.s("load");
        self.op(a, names, Role::Use(Need::Ptr));
      }
      K::Store(a, b) | K::GetPtr(a, b) | K::GetElemPtr(a, b) | K::Bin(_, a, b) => {
        self.s(inst.k.kind_name());
        let (x, y) = match &inst.k {
          K::Store(..) => (self.exact(a), Role::Use(Need::Ptr)),
          K::Bin(..) => (self.exact(a), self.exact(b)),
          _ => (Role::Use(Need::Ptr), self.exact(b)),
        };
        self.op(a, names, x);
        self.s(",");
        self.op(b, names, y);
      }
      K::Br(c, t, ta, e, ea) => {
        self.s("br");
        let r = self.exact(c);
        self.op(c, names, r);
        self.s(",");
        self.r(names.bbs[*t].clone(), Role::BbUse);
        self.args(ta, names, false);
        self.s(",");
        self.r(names.bbs[*e].clone(), Role::BbUse);
        self.args(ea, names, false);
      }
      K::Jump(t, a) => {
        self.s("jump");
        self.r(names.bbs[*t].clone(), Role::BbUse);
        self.args(a, names, false);
      }
      K::Call(c, a) => {
        self.s("call");
        self.r(self.p.funcs[*c].name.clone(), Role::FnUse);
        self.args(a, names, true);
      }
      K::Ret(v) => {
        self.s("ret");
        if let Some(v) = v {
          self.out.push(Tk::Same);
          let r = self.exact(v);
          self.op(v, names, r);
        }
      }
    }
  }
}

const COMMENTS: [&str; 10] = [
  "// c\n", "//\n", "/**/", "/* x */", "/* a\nb */", "/***/", "/* // */", "// /* \r", "/*/ */", "/* ** / * **/",
];

/// A comment, closed by its last character.
fn comment(r: &mut Rng) -> String {
  if r.chance(1, 2) {
    return r.pick(&COMMENTS).to_string();
  }
  let words = ["*", "/", "//", "/*", "**", "%", "ret", "é€", "\t", "\"", "}", "@x", "1", "-", " ", "\u{85}", "\u{0}", "\\"];
  let line = r.chance(1, 2);
  let mut body = String::new();
  let n = if r.chance(1, 40) { r.range(50, 3000) } else { r.range(0, 8) };
  for _ in 0..n {
    body.push_str(r.pick(&words));
    if !line && r.chance(1, 8) {
      body.push_str(*r.pick(&["\n", "\r\n", "\r"]));
    }
    // the body does not close the comment
    while !line && body.contains("*/") {
      body = body.replace("*/", "* ");
    }
  }
  if line {
    format!("//{body}{}", *r.pick(&["\n", "\n", "\r\n", "\r"]))
  } else {
    format!("/*{body}*/")
  }
}

/// Joins tokens. In the wild style, with arbitrary white space and comments.
pub fn join(ts: &[Tk], r: &mut Rng, wild: bool) -> String {
  let mut s = String::new();
  let (mut nl, mut same) = (true, false);
  let mut indent = false;
  // a few texts are written on as few or as many lines as possible
  let mode = if wild { r.below(4) } else { 9 };
  let mut prev_ret = false;
  // somewhere in a few texts is more space than a small counter can count
  let far = (wild && !ts.is_empty() && r.chance(1, 120)).then(|| r.below(ts.len()));
  for (i, t) in ts.iter().enumerate() {
    if far == Some(i) && !same && !matches!(t, Tk::Same) {
      let n = *r.pick(&[300, 33000, 66000, 66000]);
      match r.below(4) {
        0 => s.push_str(&" ".repeat(n)),
        1 => s.push_str(&format!("/*{}*/", "x".repeat(n))),
        _ => s.push_str(&"\n".repeat(n)),
      }
    }
    match t {
      Tk::Nl => nl = true,
      Tk::Same => same = true,
      Tk::S(Tok { s: t, .. }) => {
        let glue = s.chars().last().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
          && t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
        if !wild {
          if nl {
            if !s.is_empty() {
              s.push('\n');
            }
            if indent && t != "}" {
              s.push_str("  ");
            }
          } else if !(matches!(t.as_str(), "," | ")" | ":" | "]" | "(") || s.ends_with('(') || s.ends_with('[') || s.ends_with('*'))
          {
            s.push(' ');
          }
          if t == "{" {
            indent = true;
          } else if t == "}" && nl {
            indent = false;
          }
        } else if same {
          match r.below(5) {
            0 if !glue => {}
            1 => s.push_str(" /*c*/ "),
            2 => s.push('\t'),
            _ => s.push(' '),
          }
        } else {
          let must = nl && prev_ret;
          let mut ok = !must;
          let mut sep = !glue;
          match mode {
            0 => {}
            1 => {
              s.push('\n');
              ok = true;
              sep = true;
            }
            _ => {
              for _ in 0..r.below(3) {
                let w = match r.below(9) {
                  0 => comment(r),
                  1 => "\n".into(),
                  2 => "\t".into(),
                  3 => "\r\n".into(),
                  4 => "\x0c".into(),
                  5 => (*r.pick(&["\x0b", "\r", "    "])).into(),
                  _ => " ".to_string(),
                };
                s.push_str(&w);
                // only line feeds end lines, but carriage returns end comments
                if w.contains('\n') {
                  ok = true;
                }
                sep = true;
              }
            }
          }
          if !ok {
            s.push('\n');
          } else if !sep {
            s.push(' ');
          }
        }
        s.push_str(t);
        prev_ret = t == "ret";
        nl = false;
        same = false;
      }
    }
  }
  match if wild { r.below(8) } else { 7 } {
    0 => {}
    1 => s.push_str("// end"),
    2 => s.push_str("/* end */"),
    3 => s.push_str("\r"),
    4 => s.push_str("\n\n  \t// end\n/**/"),
    _ => s.push('\n'),
  }
  s
}
