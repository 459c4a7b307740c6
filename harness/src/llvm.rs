//! Reader, verifier and interpreter of LLVM text, for the subset (and its
//! neighbourhood) that a translation of Koopa programs needs, and a reference
//! interpreter of Koopa programs over the same memory.

use crate::fw::*;
use crate::gen::{self, Cfg, Names};
use crate::model::*;
use crate::rng::fnv;
use crate::text::{lossy, observe};
use crate::{api, emit};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum L {
  I1,
  I32,
  Void,
  Label,
  Ptr(Rc<L>),
  Arr(Rc<L>, usize),
  Fn(Vec<L>, Rc<L>),
}

impl fmt::Display for L {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      L::I1 => write!(f, "i1"),
      L::I32 => write!(f, "i32"),
      L::Void => write!(f, "void"),
      L::Label => write!(f, "label"),
      L::Ptr(t) => write!(f, "{t}*"),
      L::Arr(t, n) => write!(f, "[{n} x {t}]"),
      L::Fn(p, r) => {
        write!(f, "{r} (")?;
        for (i, t) in p.iter().enumerate() {
          write!(f, "{}{t}", if i > 0 { ", " } else { "" })?;
        }
        write!(f, ")")
      }
    }
  }
}

impl L {
  fn size(&self) -> u64 {
    match self {
      L::I1 | L::I32 => 4,
      L::Arr(t, n) => t.size().wrapping_mul(*n as u64),
      _ => 8,
    }
  }
  fn cells(&self) -> usize {
    match self {
      L::Arr(t, n) => t.cells().saturating_mul(*n),
      L::Void => 0,
      _ => 1,
    }
  }
  fn sized(&self) -> bool {
    match self {
      L::I1 | L::I32 | L::Ptr(_) => true,
      L::Arr(t, _) => t.sized(),
      _ => false,
    }
  }
}

/// The translation of a Koopa type.
pub fn lower(t: &T) -> L {
  match t {
    T::I32 => L::I32,
    T::Unit => L::Void,
    T::Ptr(t) => L::Ptr(Rc::new(lower(t))),
    T::Arr(t, n) => L::Arr(Rc::new(lower(t)), *n),
    T::Fun(ps, r) => L::Ptr(Rc::new(L::Fn(ps.iter().map(lower).collect(), Rc::new(lower(r))))),
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum O {
  Int(i64),
  Zero,
  Undef,
  Arr(Vec<(L, O)>),
  Global(String),
  Local(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum I {
  Phi(L, Vec<(O, String)>),
  Alloca(L),
  Load(L, L, O),
  Store(L, O, L, O),
  Gep(L, L, O, Vec<(L, O)>),
  Icmp(String, L, O, O),
  Cast(String, L, O, L),
  Select(O, L, O, O),
  /// Flags are those that make the result undefined.
  Bin(String, Vec<String>, L, O, O),
  Br(String),
  CondBr(O, String, String),
  Switch(L, O, String, Vec<(i64, String)>),
  Unreachable,
  Call(L, String, Vec<(L, O)>),
  Ret(L, Option<O>),
}

#[derive(Clone, Debug)]
pub struct LBlock {
  pub name: String,
  pub insts: Vec<(Option<String>, I)>,
}

#[derive(Clone, Debug)]
pub struct LFun {
  pub name: String,
  pub decl: bool,
  pub ret: L,
  pub params: Vec<(L, Option<String>)>,
  pub blocks: Vec<LBlock>,
}

#[derive(Clone, Debug, Default)]
pub struct Module {
  pub globals: Vec<(String, L, O)>,
  pub funcs: Vec<LFun>,
}

// --- tokens

#[derive(Clone, Debug, PartialEq)]
enum Tok {
  Global(String),
  Local(String),
  Label(String),
  Word(String),
  Int(i64),
  Sym(char),
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
  let b = s.as_bytes();
  let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_');
  let mut i = 0;
  let mut out = vec![];
  while i < b.len() {
    let c = b[i];
    if c.is_ascii_whitespace() {
      i += 1;
    } else if c == b';' {
      while i < b.len() && b[i] != b'\n' {
        i += 1;
      }
    } else if c == b'@' || c == b'%' {
      let st = i + 1;
      let name = if b.get(st) == Some(&b'"') {
        let e = s[st + 1..].find('"').ok_or("open quote")? + st + 1;
        i = e + 1;
        s[st + 1..e].to_string()
      } else {
        i = st;
        while i < b.len() && idc(b[i]) {
          i += 1;
        }
        s[st..i].to_string()
      };
      if name.is_empty() {
        return Err(format!("empty name at byte {st}"));
      }
      if name.as_bytes()[0].is_ascii_digit() && !name.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("name `{name}` starts with a digit"));
      }
      out.push(if c == b'@' { Tok::Global(name) } else { Tok::Local(name) });
    } else if idc(c) {
      let st = i;
      while i < b.len() && idc(b[i]) {
        i += 1;
      }
      let w = &s[st..i];
      if b.get(i) == Some(&b':') {
        i += 1;
        out.push(Tok::Label(w.into()));
      } else if let Ok(v) = w.parse::<i64>() {
        out.push(Tok::Int(v));
      } else {
        out.push(Tok::Word(w.into()));
      }
    } else if b"[](){}*,=".contains(&c) {
      i += 1;
      out.push(Tok::Sym(c as char));
    } else {
      return Err(format!("unexpected character `{}`", c as char));
    }
  }
  Ok(out)
}

struct P {
  t: Vec<Tok>,
  i: usize,
}

type R<X> = Result<X, String>;

impl P {
  fn peek(&self) -> Option<&Tok> {
    self.t.get(self.i)
  }
  fn next(&mut self) -> R<Tok> {
    self.i += 1;
    self.t.get(self.i - 1).cloned().ok_or_else(|| "unexpected end".into())
  }
  fn eat(&mut self, c: char) -> bool {
    if self.peek() == Some(&Tok::Sym(c)) {
      self.i += 1;
      return true;
    }
    false
  }
  fn sym(&mut self, c: char) -> R<()> {
    let t = self.next()?;
    if t == Tok::Sym(c) {
      return Ok(());
    }
    Err(format!("expected `{c}`, found {t:?} near {:?}", &self.t[self.i.saturating_sub(8)..(self.i + 3).min(self.t.len())]))
  }
  fn word(&mut self, w: &str) -> R<()> {
    match self.next()? {
      Tok::Word(x) if x == w => Ok(()),
      t => Err(format!("expected `{w}`, found {t:?}")),
    }
  }
  fn eat_word(&mut self, w: &str) -> bool {
    if matches!(self.peek(), Some(Tok::Word(x)) if x == w) {
      self.i += 1;
      return true;
    }
    false
  }
  fn ty(&mut self) -> R<L> {
    let mut t = match self.next()? {
      Tok::Word(w) => match w.as_str() {
        "i32" => L::I32,
        "i1" => L::I1,
        "void" => L::Void,
        "label" => L::Label,
        _ => return Err(format!("unknown type `{w}`")),
      },
      Tok::Sym('[') => {
        let n = match self.next()? {
          Tok::Int(n) if n >= 0 => n as usize,
          t => return Err(format!("array length {t:?}")),
        };
        self.word("x")?;
        let t = self.ty()?;
        self.sym(']')?;
        if !t.sized() {
          return Err(format!("array of {t}"));
        }
        L::Arr(Rc::new(t), n)
      }
      t => return Err(format!("expected a type, found {t:?}")),
    };
    loop {
      if self.eat('*') {
        if t == L::Void || t == L::Label {
          return Err(format!("pointer to {t}"));
        }
        t = L::Ptr(Rc::new(t));
      } else if self.peek() == Some(&Tok::Sym('(')) && self.fn_type_ahead() {
        self.sym('(')?;
        let mut ps = vec![];
        while !self.eat(')') {
          if !ps.is_empty() {
            self.sym(',')?;
          }
          let p = self.ty()?;
          if !p.sized() {
            return Err(format!("parameter of type {p}"));
          }
          ps.push(p);
        }
        if matches!(t, L::Fn(..) | L::Label) {
          return Err("function returning a function".into());
        }
        t = L::Fn(ps, Rc::new(t));
      } else {
        return Ok(t);
      }
    }
  }
  fn fn_type_ahead(&self) -> bool {
    matches!(self.t.get(self.i + 1), Some(Tok::Sym(')' | '[')) | Some(Tok::Word(_)))
  }
  fn operand(&mut self, t: &L) -> R<O> {
    Ok(match self.next()? {
      Tok::Int(v) => O::Int(v),
      Tok::Global(n) => O::Global(n),
      Tok::Local(n) => O::Local(n),
      Tok::Word(w) if w == "zeroinitializer" || w == "null" && matches!(t, L::Ptr(_)) => O::Zero,
      Tok::Word(w) if w == "undef" || w == "poison" => O::Undef,
      Tok::Word(w) if (w == "true" || w == "false") && *t == L::I1 => O::Int((w == "true") as i64),
      Tok::Sym('[') => {
        let mut es = vec![];
        while !self.eat(']') {
          if !es.is_empty() {
            self.sym(',')?;
          }
          let t = self.ty()?;
          let o = self.operand(&t)?;
          es.push((t, o));
        }
        O::Arr(es)
      }
      x => return Err(format!("expected an operand, found {x:?}")),
    })
  }
  fn align(&mut self) -> R<()> {
    if self.peek() == Some(&Tok::Sym(',')) && self.t.get(self.i + 1) == Some(&Tok::Word("align".into())) {
      self.i += 2;
      self.next()?;
    }
    Ok(())
  }
  fn typed(&mut self) -> R<(L, O)> {
    let t = self.ty()?;
    let o = self.operand(&t)?;
    Ok((t, o))
  }
  fn local(&mut self) -> R<String> {
    match self.next()? {
      Tok::Local(n) => Ok(n),
      t => Err(format!("expected a local name, found {t:?}")),
    }
  }
  fn global(&mut self) -> R<String> {
    match self.next()? {
      Tok::Global(n) => Ok(n),
      t => Err(format!("expected a global name, found {t:?}")),
    }
  }

  fn module(&mut self) -> R<Module> {
    let mut m = Module::default();
    while let Some(t) = self.peek().cloned() {
      match t {
        Tok::Global(n) => {
          self.i += 1;
          self.sym('=')?;
          self.word("global")?;
          let (t, o) = self.typed()?;
          m.globals.push((n, t, o));
        }
        Tok::Word(w) if w == "define" || w == "declare" => {
          self.i += 1;
          m.funcs.push(self.func(w == "declare")?);
        }
        t => return Err(format!("unexpected {t:?} at top level")),
      }
    }
    Ok(m)
  }

  fn func(&mut self, decl: bool) -> R<LFun> {
    let ret = self.ty()?;
    let name = self.global()?;
    self.sym('(')?;
    let mut params = vec![];
    while !self.eat(')') {
      if !params.is_empty() {
        self.sym(',')?;
      }
      let t = self.ty()?;
      let n = match self.peek() {
        Some(Tok::Local(n)) => {
          let n = n.clone();
          self.i += 1;
          Some(n)
        }
        _ => None,
      };
      params.push((t, n));
    }
    let mut blocks = vec![];
    if !decl {
      self.sym('{')?;
      while !self.eat('}') {
        match self.next()? {
          Tok::Label(name) => blocks.push(LBlock { name, insts: vec![] }),
          _ => {
            self.i -= 1;
            if blocks.is_empty() {
              return Err("instruction before the first label".into());
            }
            let i = self.inst()?;
            blocks.last_mut().unwrap().insts.push(i);
          }
        }
      }
    }
    Ok(LFun { name, decl, ret, params, blocks })
  }

  fn inst(&mut self) -> R<(Option<String>, I)> {
    let mut def = None;
    if let Some(Tok::Local(n)) = self.peek() {
      def = Some(n.clone());
      self.i += 1;
      self.sym('=')?;
    }
    let w = match self.next()? {
      Tok::Word(w) => w,
      t => return Err(format!("expected an instruction, found {t:?} near {:?}", &self.t[self.i.saturating_sub(12)..self.i])),
    };
    let i = match w.as_str() {
      "phi" => {
        let t = self.ty()?;
        let mut v = vec![];
        loop {
          self.sym('[')?;
          let o = self.operand(&t)?;
          self.sym(',')?;
          v.push((o, self.local()?));
          self.sym(']')?;
          if !self.eat(',') {
            break;
          }
        }
        I::Phi(t, v)
      }
      "alloca" => {
        let t = self.ty()?;
        self.align()?;
        I::Alloca(t)
      }
      "load" => {
        let t = self.ty()?;
        self.sym(',')?;
        let (pt, p) = self.typed()?;
        self.align()?;
        I::Load(t, pt, p)
      }
      "store" => {
        let (t, v) = self.typed()?;
        self.sym(',')?;
        let (pt, p) = self.typed()?;
        self.align()?;
        I::Store(t, v, pt, p)
      }
      "getelementptr" => {
        self.eat_word("inbounds");
        let t = self.ty()?;
        self.sym(',')?;
        let (pt, p) = self.typed()?;
        let mut ix = vec![];
        while self.eat(',') {
          ix.push(self.typed()?);
        }
        I::Gep(t, pt, p, ix)
      }
      "icmp" => {
        let c = match self.next()? {
          Tok::Word(c) => c,
          t => return Err(format!("bad comparison {t:?}")),
        };
        if !["eq", "ne", "sgt", "slt", "sge", "sle", "ugt", "ult", "uge", "ule"].contains(&c.as_str()) {
          return Err(format!("bad comparison {c}"));
        }
        let (t, a) = self.typed()?;
        self.sym(',')?;
        let b = self.operand(&t)?;
        I::Icmp(c, t, a, b)
      }
      "zext" | "sext" | "trunc" | "bitcast" => {
        let (t, v) = self.typed()?;
        self.word("to")?;
        I::Cast(w, t, v, self.ty()?)
      }
      "freeze" => {
        let (t, v) = self.typed()?;
        I::Cast(w, t.clone(), v, t)
      }
      "select" => {
        let (t, c) = self.typed()?;
        self.sym(',')?;
        let (at, a) = self.typed()?;
        self.sym(',')?;
        let (bt, b) = self.typed()?;
        if t != L::I1 || at != bt {
          return Err(format!("select of {t}, {at}, {bt}"));
        }
        I::Select(c, at, a, b)
      }
      "switch" => {
        let (t, v) = self.typed()?;
        self.sym(',')?;
        self.word("label")?;
        let d = self.local()?;
        self.sym('[')?;
        let mut cs = vec![];
        while !self.eat(']') {
          let (ct, c) = self.typed()?;
          let O::Int(c) = c else { return Err("case is no integer".into()) };
          if ct != t {
            return Err(format!("case of {ct} in a switch of {t}"));
          }
          self.sym(',')?;
          self.word("label")?;
          cs.push((c, self.local()?));
        }
        I::Switch(t, v, d, cs)
      }
      "unreachable" => I::Unreachable,
      "tail" | "notail" if self.peek() == Some(&Tok::Word("call".into())) => {
        let (_, i) = self.inst()?;
        i
      }
      "br" => {
        if self.eat_word("label") {
          I::Br(self.local()?)
        } else {
          let (t, c) = self.typed()?;
          if t != L::I1 {
            return Err(format!("branch on {t}"));
          }
          self.sym(',')?;
          self.word("label")?;
          let a = self.local()?;
          self.sym(',')?;
          self.word("label")?;
          I::CondBr(c, a, self.local()?)
        }
      }
      "call" => {
        let t = self.ty()?;
        let n = self.global()?;
        self.sym('(')?;
        let mut args = vec![];
        while !self.eat(')') {
          if !args.is_empty() {
            self.sym(',')?;
          }
          args.push(self.typed()?);
        }
        I::Call(t, n, args)
      }
      "ret" => {
        let t = self.ty()?;
        if t == L::Void {
          I::Ret(t, None)
        } else {
          let o = self.operand(&t)?;
          I::Ret(t, Some(o))
        }
      }
      "add" | "sub" | "mul" | "sdiv" | "srem" | "udiv" | "urem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
        let mut flags = vec![];
        for f in ["nuw", "nsw", "nuw", "exact"] {
          if self.eat_word(f) {
            flags.push(f.to_string());
          }
        }
        let (t, a) = self.typed()?;
        self.sym(',')?;
        let b = self.operand(&t)?;
        I::Bin(w, flags, t, a, b)
      }
      _ => return Err(format!("unknown instruction `{w}`")),
    };
    Ok((def, i))
  }
}

pub fn parse(s: &str) -> R<Module> {
  let t = lex(s)?;
  P { t, i: 0 }.module()
}

// --- verification

impl I {
  fn is_term(&self) -> bool {
    matches!(self, I::Br(_) | I::CondBr(..) | I::Switch(..) | I::Unreachable | I::Ret(..))
  }
  fn targets(&self) -> Vec<&String> {
    match self {
      I::Br(a) => vec![a],
      I::CondBr(_, a, b) => vec![a, b],
      I::Switch(_, _, d, cs) => [d].into_iter().chain(cs.iter().map(|c| &c.1)).collect(),
      _ => vec![],
    }
  }
  fn result(&self) -> R<L> {
    Ok(match self {
      I::Phi(t, _) | I::Load(t, ..) | I::Bin(_, _, t, ..) | I::Select(_, t, ..) | I::Call(t, ..) => t.clone(),
      I::Alloca(t) => L::Ptr(Rc::new(t.clone())),
      I::Cast(_, _, _, t) => t.clone(),
      I::Icmp(..) => L::I1,
      I::Gep(t, _, _, ix) => {
        let mut t = t.clone();
        for _ in ix.iter().skip(1) {
          t = match t {
            L::Arr(e, _) => (*e).clone(),
            t => return Err(format!("indexing into {t}")),
          };
        }
        L::Ptr(Rc::new(t))
      }
      _ => L::Void,
    })
  }
}

/// Static rules of LLVM IR. Returns the number of uses resolved.
pub fn verify(m: &Module) -> R<u64> {
  let mut uses = 0;
  let mut top: HashMap<&str, L> = HashMap::new();
  for (n, t, _) in &m.globals {
    if !t.sized() {
      return Err(format!("global @{n} of type {t}"));
    }
    if top.insert(n, L::Ptr(Rc::new(t.clone()))).is_some() {
      return Err(format!("@{n} is defined twice"));
    }
  }
  for f in &m.funcs {
    let t = L::Fn(f.params.iter().map(|p| p.0.clone()).collect(), Rc::new(f.ret.clone()));
    if let Some(p) = f.params.iter().find(|p| !p.0.sized()) {
      return Err(format!("parameter of type {} in @{}", p.0, f.name));
    }
    if top.insert(&f.name, L::Ptr(Rc::new(t))).is_some() {
      return Err(format!("@{} is defined twice", f.name));
    }
  }
  let none = HashMap::new();
  for (n, t, o) in &m.globals {
    konst(o, t, &none, &top, &mut uses).map_err(|e| format!("@{n}: {e}"))?;
    if matches!(o, O::Local(_)) {
      return Err(format!("@{n}: local name in an initializer"));
    }
  }
  for f in &m.funcs {
    vfunc(f, &top, &mut uses).map_err(|e| format!("@{}: {e}", f.name))?;
  }
  Ok(uses)
}

fn konst(o: &O, t: &L, locals: &HashMap<&str, L>, top: &HashMap<&str, L>, uses: &mut u64) -> R<()> {
  match o {
    O::Int(v) => match t {
      L::I32 if (i32::MIN as i64..=u32::MAX as i64).contains(v) => Ok(()),
      L::I1 if (0..=1).contains(v) => Ok(()),
      _ => Err(format!("integer {v} as {t}")),
    },
    O::Zero | O::Undef if t.sized() => Ok(()),
    O::Zero | O::Undef => Err(format!("constant of type {t}")),
    O::Arr(es) => match t {
      L::Arr(e, n) => {
        if es.len() != *n {
          return Err(format!("{} elements for {t}", es.len()));
        }
        for (et, eo) in es {
          if *et != **e {
            return Err(format!("element of type {et} in {t}"));
          }
          if matches!(eo, O::Local(_)) {
            return Err("local name in a constant".into());
          }
          konst(eo, et, locals, top, uses)?;
        }
        Ok(())
      }
      _ => Err(format!("array constant as {t}")),
    },
    O::Global(n) => match top.get(n.as_str()) {
      None => Err(format!("@{n} is not defined")),
      Some(x) if x == t => {
        *uses += 1;
        Ok(())
      }
      Some(x) => Err(format!("@{n} has type {x}, used as {t}")),
    },
    O::Local(n) => match locals.get(n.as_str()) {
      None => Err(format!("%{n} is not defined")),
      Some(x) if x == t => {
        *uses += 1;
        Ok(())
      }
      Some(x) => Err(format!("%{n} has type {x}, used as {t}")),
    },
  }
}

fn vfunc(f: &LFun, top: &HashMap<&str, L>, uses: &mut u64) -> R<()> {
  if f.decl {
    return Ok(());
  }
  if f.blocks.is_empty() {
    return Err("no blocks".into());
  }
  let mut names: HashMap<&str, L> = HashMap::new();
  // defined where: (block, position); parameters have none
  let mut place: HashMap<&str, (usize, usize)> = HashMap::new();
  for (t, n) in &f.params {
    let n = n.as_ref().ok_or("unnamed parameter")?;
    if names.insert(n, t.clone()).is_some() {
      return Err(format!("%{n} is defined twice"));
    }
  }
  let mut bidx: HashMap<&str, usize> = HashMap::new();
  for (bi, b) in f.blocks.iter().enumerate() {
    if names.insert(&b.name, L::Label).is_some() {
      return Err(format!("label {} is defined twice", b.name));
    }
    bidx.insert(&b.name, bi);
    for (k, (d, i)) in b.insts.iter().enumerate() {
      let t = i.result()?;
      match d {
        Some(_) if t == L::Void => return Err(format!("result name for {i:?}")),
        Some(n) => {
          if names.insert(n, t).is_some() {
            return Err(format!("%{n} is defined twice"));
          }
          place.insert(n, (bi, k));
        }
        None if t != L::Void && !matches!(i, I::Call(..)) => return Err(format!("no result name for {i:?}")),
        None => {}
      }
      if i.is_term() != (k + 1 == b.insts.len()) {
        return Err(format!("terminator out of place in {}", b.name));
      }
    }
    if b.insts.is_empty() {
      return Err(format!("block {} is empty", b.name));
    }
  }
  // edges
  let n = f.blocks.len();
  let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
  let mut succs: Vec<Vec<usize>> = vec![vec![]; n];
  for (bi, b) in f.blocks.iter().enumerate() {
    for t in b.insts.last().unwrap().1.targets() {
      let t = *bidx.get(t.as_str()).ok_or_else(|| format!("label %{t} is not defined"))?;
      preds[t].push(bi);
      succs[bi].push(t);
      *uses += 1;
    }
  }
  if !preds[0].is_empty() {
    return Err("the entry block has predecessors".into());
  }
  // dominators
  let mut reach = vec![false; n];
  let mut st = vec![0];
  while let Some(b) = st.pop() {
    if !std::mem::replace(&mut reach[b], true) {
      st.extend(&succs[b]);
    }
  }
  let mut dom: Vec<Vec<bool>> = vec![vec![true; n]; n];
  dom[0] = vec![false; n];
  dom[0][0] = true;
  loop {
    let mut ch = false;
    for b in (1..n).filter(|b| reach[*b]) {
      let mut d = vec![true; n];
      for p in preds[b].iter().filter(|p| reach[**p]) {
        for i in 0..n {
          d[i] &= dom[*p][i];
        }
      }
      d[b] = true;
      if d != dom[b] {
        dom[b] = d;
        ch = true;
      }
    }
    if !ch {
      break;
    }
  }
  let avail = |o: &O, b: usize, k: usize| -> R<()> {
    if let O::Local(n) = o {
      if let Some((db, dk)) = place.get(n.as_str()) {
        let ok = if *db == b { *dk < k } else { dom[b][*db] };
        if reach[b] && !ok {
          return Err(format!("%{n} does not dominate its use"));
        }
      }
    }
    Ok(())
  };
  for (bi, b) in f.blocks.iter().enumerate() {
    let mut phis = true;
    for (k, (_, i)) in b.insts.iter().enumerate() {
      let mut chk = |o: &O, t: &L| -> R<()> {
        konst(o, t, &names, top, uses)?;
        avail(o, bi, k)
      };
      if let I::Phi(t, inc) = i {
        if !phis {
          return Err("phi after other instructions".into());
        }
        let mut from = vec![];
        for (o, l) in inc {
          konst(o, t, &names, top, uses)?;
          let p = *bidx.get(l.as_str()).ok_or_else(|| format!("label %{l} is not defined"))?;
          avail(o, p, usize::MAX)?;
          from.push(p);
        }
        let mut want = preds[bi].clone();
        want.sort();
        from.sort();
        if want != from {
          return Err(format!("phi of {} lists {} blocks, there are {} predecessors, or others", b.name, from.len(), want.len()));
        }
        if !t.sized() {
          return Err(format!("phi of type {t}"));
        }
        continue;
      }
      phis = false;
      match i {
        I::Phi(..) | I::Br(_) => {}
        I::Alloca(t) => {
          if !t.sized() {
            return Err(format!("alloca of {t}"));
          }
        }
        I::Load(t, pt, p) => {
          if *pt != L::Ptr(Rc::new(t.clone())) || !t.sized() {
            return Err(format!("load of {t} from {pt}"));
          }
          chk(p, pt)?;
        }
        I::Store(t, v, pt, p) => {
          if *pt != L::Ptr(Rc::new(t.clone())) || !t.sized() {
            return Err(format!("store of {t} to {pt}"));
          }
          chk(v, t)?;
          chk(p, pt)?;
        }
        I::Gep(t, pt, p, ix) => {
          if *pt != L::Ptr(Rc::new(t.clone())) || ix.is_empty() || !t.sized() {
            return Err(format!("getelementptr over {t} from {pt}"));
          }
          chk(p, pt)?;
          for (t, o) in ix {
            if *t != L::I32 {
              return Err(format!("index of type {t}"));
            }
            chk(o, t)?;
          }
        }
        I::Icmp(_, t, a, b) => {
          if !matches!(t, L::I32 | L::I1 | L::Ptr(_)) {
            return Err(format!("comparison of {t}"));
          }
          chk(a, t)?;
          chk(b, t)?;
        }
        I::Cast(c, t, v, to) => {
          let ok = match c.as_str() {
            "zext" | "sext" => (t, to) == (&L::I1, &L::I32),
            "trunc" => (t, to) == (&L::I32, &L::I1),
            "bitcast" => t == to || matches!((t, to), (L::Ptr(_), L::Ptr(_))),
            _ => t == to,
          };
          if !ok {
            return Err(format!("{c} of {t} to {to}"));
          }
          chk(v, t)?;
        }
        I::Select(c, t, a, b) => {
          chk(c, &L::I1)?;
          chk(a, t)?;
          chk(b, t)?;
        }
        I::Switch(t, v, _, cs) => {
          if !matches!(t, L::I32 | L::I1) {
            return Err(format!("switch on {t}"));
          }
          chk(v, t)?;
          let keys: HashSet<u32> = cs.iter().map(|c| c.0 as u32).collect();
          if keys.len() != cs.len() {
            return Err("switch has a case twice".into());
          }
        }
        I::Unreachable => {}
        I::Bin(op, flags, t, a, b) => {
          for f in flags {
            let ok = match op.as_str() {
              "add" | "sub" | "mul" | "shl" => f != "exact",
              "sdiv" | "udiv" | "lshr" | "ashr" => f == "exact",
              _ => false,
            };
            if !ok {
              return Err(format!("{op} {f}"));
            }
          }
          if !matches!(t, L::I32 | L::I1) {
            return Err(format!("arithmetic on {t}"));
          }
          chk(a, t)?;
          chk(b, t)?;
        }
        I::CondBr(c, ..) => chk(c, &L::I1)?,
        I::Call(t, n, args) => {
          let want = L::Ptr(Rc::new(L::Fn(args.iter().map(|a| a.0.clone()).collect(), Rc::new(t.clone()))));
          chk(&O::Global(n.clone()), &want)?;
          for (t, o) in args {
            chk(o, t)?;
          }
        }
        I::Ret(t, v) => {
          if *t != f.ret {
            return Err(format!("ret {t} in a function returning {}", f.ret));
          }
          if let Some(v) = v {
            chk(v, t)?;
          }
        }
      }
    }
  }
  Ok(())
}

// --- execution: total semantics on a sparse memory

/// A scalar; `None` is an undefined one.
pub type S = Option<u64>;
type V = Vec<S>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
  /// Call of function number n.
  Call(usize, V),
  Store(u64, V),
  Ret(V),
}

#[derive(Default, Clone)]
pub struct Mem {
  cells: BTreeMap<u64, S>,
  brk: u64,
}

impl Mem {
  fn alloc(&mut self, size: u64) -> u64 {
    if self.brk == 0 {
      self.brk = 0x10000;
    }
    let a = self.brk;
    self.brk = a + (size.min(1 << 40) + 63) / 64 * 64;
    a
  }
}

fn h(tag: u64, x: &[S]) -> u64 {
  let mut b = tag.to_le_bytes().to_vec();
  for s in x {
    b.extend(s.map_or(u64::MAX - 7, |v| v).to_le_bytes());
  }
  fnv(&b)
}

fn leaves(t: &L, at: u64, out: &mut Vec<(u64, bool)>) {
  match t {
    L::Arr(e, n) => {
      for i in 0..*n {
        leaves(e, at.wrapping_add(e.size().wrapping_mul(i as u64)), out);
      }
    }
    L::Void => {}
    L::I32 | L::I1 => out.push((at, true)),
    _ => out.push((at, false)),
  }
}

fn load(m: &Mem, t: &L, a: u64) -> V {
  let mut ls = vec![];
  leaves(t, a, &mut ls);
  ls.into_iter()
    .map(|(a, small)| {
      let v = match m.cells.get(&a) {
        Some(v) => (*v)?,
        None => h(1, &[Some(a)]),
      };
      Some(if small { v & 0xffff_ffff } else { v })
    })
    .collect()
}

fn store(m: &mut Mem, t: &L, a: u64, v: &V) {
  let mut ls = vec![];
  leaves(t, a, &mut ls);
  for ((a, _), s) in ls.into_iter().zip(v) {
    m.cells.insert(a, *s);
  }
}

/// What a run showed.
pub struct Run {
  pub events: Vec<Ev>,
  pub mem: Mem,
  /// Ended by returning (not by undefinedness or the step limit).
  pub done: bool,
  pub steps: u64,
}

pub struct Limits {
  pub steps: u64,
  /// Follow calls into defined functions.
  pub follow: bool,
}

enum Stop {
  Undefined,
  Steps,
}

/// The value an external (or not followed) call returns.
fn outside(callee: usize, ncall: usize, args: &V, t: &L) -> V {
  let mut x = args.clone();
  x.push(Some(ncall as u64));
  let base = h(100 + callee as u64, &x);
  (0..t.cells())
    .map(|i| {
      let v = h(base, &[Some(i as u64)]);
      Some(if scalar_small(t) { v & 0xffff_ffff } else { v })
    })
    .collect()
}

fn scalar_small(t: &L) -> bool {
  match t {
    L::Arr(e, _) => scalar_small(e),
    L::I32 | L::I1 => true,
    _ => false,
  }
}

/// External functions of executable programs, as the C definitions in
/// `externs` do it.
fn known_extern(name: &str, ncall: usize, args: &V) -> Option<V> {
  match name {
    "putint" => Some(vec![]),
    "getint" => Some(vec![Some((ncall as u64).wrapping_mul(2654435761).wrapping_add(12345) & 0xffff_ffff)]),
    "put3" => {
      let mut s: u64 = ncall as u64;
      for (k, a) in args.iter().enumerate() {
        s = s.wrapping_add((*a)?.wrapping_mul([3, 5, 7][k]));
      }
      Some(vec![Some(s & 0xffff_ffff)])
    }
    _ => None,
  }
}

fn args_for(tys: &[L], seed: u64) -> Vec<V> {
  tys
    .iter()
    .enumerate()
    .map(|(i, t)| {
      (0..t.cells())
        .map(|k| {
          let v = h(7, &[Some(seed), Some(i as u64), Some(k as u64)]);
          // small integers often, so that branches go both ways
          let v = match v % 3 {
            0 => (v >> 8) & 1,
            1 => (v >> 8) % 9,
            _ => v >> 8,
          };
          Some(if scalar_small(t) { v & 0xffff_ffff } else { v })
        })
        .collect()
    })
    .collect()
}

// reference: Koopa programs

struct Ref<'a> {
  p: &'a Prog,
  run: Run,
  lim: &'a Limits,
  gaddr: Vec<u64>,
  ncall: usize,
  whole: bool,
}

fn cval(c: &C) -> V {
  match c {
    C::Int(i) => vec![Some(*i as u32 as u64)],
    C::Zero(t) => vec![Some(0); t.cells()],
    C::Undef(t) => vec![None; t.cells()],
    C::Agg(es) => es.iter().flat_map(cval).collect(),
  }
}

pub fn run_model(p: &Prog, f: usize, seed: u64, lim: &Limits, whole: bool) -> Run {
  let mut r = Ref { p, run: Run { events: vec![], mem: Mem::default(), done: false, steps: 0 }, lim, gaddr: vec![], ncall: 0, whole };
  for g in &p.globals {
    let t = lower(&g.init.ty());
    let a = r.run.mem.alloc(t.size());
    r.gaddr.push(a);
    store(&mut r.run.mem, &t, a, &cval(&g.init));
  }
  let tys: Vec<L> = p.funcs[f].params.iter().map(|p| lower(&p.1)).collect();
  if let Ok(v) = r.call(f, args_for(&tys, seed)) {
    r.run.events.push(Ev::Ret(v));
    r.run.done = true;
  }
  r.run
}

fn i32_of(v: &V) -> Result<i32, Stop> {
  v[0].map(|x| x as u32 as i32).ok_or(Stop::Undefined)
}

/// Total version of the binary operations: `Err` where undefined.
fn bin_total(op: Bop, a: &V, b: &V) -> Result<V, Stop> {
  let (x, y) = match (a[0], b[0]) {
    (Some(x), Some(y)) => (x as u32 as i32, y as u32 as i32),
    _ if matches!(op, Bop::Div | Bop::Mod) => return Err(Stop::Undefined),
    _ => return Ok(vec![None]),
  };
  match op.eval(x, y) {
    Some(v) => Ok(vec![Some(v as u32 as u64)]),
    // shifting too far gives nothing usable
    None if matches!(op, Bop::Shl | Bop::Shr | Bop::Sar) => Ok(vec![None]),
    None => Err(Stop::Undefined),
  }
}

impl Ref<'_> {
  fn call(&mut self, f: usize, args: Vec<V>) -> Result<V, Stop> {
    let p = self.p;
    let fun = &p.funcs[f];
    let mut vals: HashMap<(usize, usize), V> = HashMap::new();
    let mut bp: HashMap<(usize, usize), V> = HashMap::new();
    let mut b = 0;
    loop {
      let mut next = None;
      for (k, i) in fun.blocks[b].insts.iter().enumerate() {
        self.run.steps += 1;
        if self.run.steps > self.lim.steps {
          return Err(Stop::Steps);
        }
        let g = |o: &Op| -> V {
          match o {
            Op::C(c) => cval(c),
            Op::G(g) => vec![Some(self.gaddr[*g])],
            Op::P(i) => args[*i].clone(),
            Op::B(b, i) => bp[&(*b, *i)].clone(),
            Op::V(b, i) => vals[&(*b, *i)].clone(),
          }
        };
        let v = match &i.k {
          K::Alloc => {
            let t = lower(i.ty.pointee().unwrap());
            vec![Some(self.run.mem.alloc(t.size()))]
          }
          K::Load(s) => {
            let a = g(s)[0].ok_or(Stop::Undefined)?;
            load(&self.run.mem, &lower(&i.ty), a)
          }
          K::Store(v, d) => {
            let a = g(d)[0].ok_or(Stop::Undefined)?;
            let val = g(v);
            let t = lower(&p.op_ty(f, v));
            store(&mut self.run.mem, &t, a, &val);
            self.run.events.push(Ev::Store(a, val));
            vec![]
          }
          K::GetPtr(s, x) | K::GetElemPtr(s, x) => {
            let st = p.op_ty(f, s);
            let base = st.pointee().unwrap();
            let e = match (&i.k, base) {
              (K::GetElemPtr(..), T::Arr(e, _)) => lower(e),
              _ => lower(base),
            };
            match (g(s)[0], g(x)[0]) {
              (Some(a), Some(x)) => vec![Some(a.wrapping_add(e.size().wrapping_mul(x as u32 as i32 as i64 as u64)))],
              _ => vec![None],
            }
          }
          K::Bin(op, l, r) => bin_total(*op, &g(l), &g(r))?,
          K::Br(c, t, ta, e, ea) => {
            let c = i32_of(&g(c))?;
            let (to, a) = if c != 0 { (*t, ta) } else { (*e, ea) };
            next = Some((to, a.iter().map(g).collect::<Vec<V>>()));
            vec![]
          }
          K::Jump(t, a) => {
            next = Some((*t, a.iter().map(g).collect()));
            vec![]
          }
          K::Call(c, a) => {
            let a: Vec<V> = a.iter().map(g).collect();
            let flat: V = a.iter().flatten().copied().collect();
            let callee = &p.funcs[*c];
            if self.lim.follow && !callee.is_decl() {
              self.call(*c, a)?
            } else {
              self.ncall += 1;
              self.run.events.push(Ev::Call(*c, flat.clone()));
              if self.whole && flat.contains(&None) {
                return Err(Stop::Undefined);
              }
              known_extern(&callee.name[1..], self.ncall, &flat)
                .filter(|_| self.whole)
                .unwrap_or_else(|| outside(*c, self.ncall, &flat, &lower(&callee.ret)))
            }
          }
          K::Ret(v) => return Ok(v.as_ref().map_or(vec![], g)),
        };
        self.run.steps += v.len() as u64 / 8;
        vals.insert((b, k), v);
      }
      let (to, a) = next.unwrap();
      for (i, v) in a.into_iter().enumerate() {
        bp.insert((to, i), v);
      }
      b = to;
    }
  }
}

// the LLVM module

struct Mach<'a> {
  m: &'a Module,
  /// What the functions are called in the program.
  names: Vec<String>,
  run: Run,
  lim: &'a Limits,
  gaddr: HashMap<&'a str, u64>,
  fidx: HashMap<&'a str, usize>,
  ncall: usize,
  whole: bool,
}

pub fn run_module(m: &Module, names: &Prog, f: usize, seed: u64, lim: &Limits, whole: bool) -> Run {
  let mut r = Mach {
    m,
    names: names.funcs.iter().map(|f| f.name[1..].to_string()).collect(),
    run: Run { events: vec![], mem: Mem::default(), done: false, steps: 0 },
    lim,
    gaddr: HashMap::new(),
    fidx: m.funcs.iter().enumerate().map(|(i, f)| (f.name.as_str(), i)).collect(),
    ncall: 0,
    whole,
  };
  for (n, t, _) in &m.globals {
    let a = r.run.mem.alloc(t.size());
    r.gaddr.insert(n, a);
  }
  for (n, t, o) in &m.globals {
    let v = r.val(&HashMap::new(), t, o);
    store(&mut r.run.mem, t, r.gaddr[n.as_str()], &v);
  }
  let tys: Vec<L> = m.funcs[f].params.iter().map(|p| p.0.clone()).collect();
  if let Ok(v) = r.call(f, args_for(&tys, seed)) {
    r.run.events.push(Ev::Ret(v));
    r.run.done = true;
  }
  r.run
}

/// Whether the flag makes the result of the operation undefined.
fn poison(op: &str, flag: &str, a: u32, b: u32) -> bool {
  let (x, y) = (a as i32, b as i32);
  match (op, flag) {
    ("add", "nsw") => x.checked_add(y).is_none(),
    ("add", _) => a.checked_add(b).is_none(),
    ("sub", "nsw") => x.checked_sub(y).is_none(),
    ("sub", _) => a.checked_sub(b).is_none(),
    ("mul", "nsw") => x.checked_mul(y).is_none(),
    ("mul", _) => a.checked_mul(b).is_none(),
    ("shl", "nsw") => b > 31 || (x << b) >> b != x,
    ("shl", _) => b > 31 || (a << b) >> b != a,
    ("sdiv", _) => y != 0 && x.wrapping_rem(y) != 0,
    ("udiv", _) => b != 0 && a % b != 0,
    _ => b <= 31 && a & ((1 << b) - 1) != 0,
  }
}

impl<'a> Mach<'a> {
  fn val(&self, env: &HashMap<&'a str, V>, t: &L, o: &O) -> V {
    match o {
      O::Int(v) => vec![Some(*v as u32 as u64)],
      O::Zero => vec![Some(0); t.cells()],
      O::Undef => vec![None; t.cells()],
      O::Arr(es) => es.iter().flat_map(|(t, o)| self.val(env, t, o)).collect(),
      O::Global(n) => vec![self.gaddr.get(n.as_str()).copied().or_else(|| self.fidx.get(n.as_str()).map(|i| h(9, &[Some(*i as u64)])))],
      O::Local(n) => env.get(n.as_str()).cloned().unwrap_or_else(|| vec![None; t.cells()]),
    }
  }

  fn call(&mut self, f: usize, args: Vec<V>) -> Result<V, Stop> {
    let m = self.m;
    let fun = &m.funcs[f];
    let mut env: HashMap<&'a str, V> = HashMap::new();
    for ((_, n), v) in fun.params.iter().zip(args) {
      env.insert(n.as_ref().unwrap(), v);
    }
    let bidx: HashMap<&str, usize> = fun.blocks.iter().enumerate().map(|(i, b)| (b.name.as_str(), i)).collect();
    let (mut b, mut prev) = (0, usize::MAX);
    loop {
      let blk = &fun.blocks[b];
      // phis read the state before the block
      let mut phis = vec![];
      for (d, i) in &blk.insts {
        if let I::Phi(t, inc) = i {
          let o = &inc.iter().find(|x| bidx[x.1.as_str()] == prev).unwrap().0;
          phis.push((d.as_ref().unwrap(), self.val(&env, t, o)));
        }
      }
      for (n, v) in phis {
        env.insert(n, v);
      }
      let mut next = None;
      for (d, i) in &blk.insts {
        self.run.steps += 1;
        if self.run.steps > self.lim.steps {
          return Err(Stop::Steps);
        }
        let v = match i {
          I::Phi(..) => continue,
          I::Alloca(t) => vec![Some(self.run.mem.alloc(t.size()))],
          I::Load(t, pt, p) => {
            let a = self.val(&env, pt, p)[0].ok_or(Stop::Undefined)?;
            load(&self.run.mem, t, a)
          }
          I::Store(t, v, pt, p) => {
            let a = self.val(&env, pt, p)[0].ok_or(Stop::Undefined)?;
            let v = self.val(&env, t, v);
            store(&mut self.run.mem, t, a, &v);
            self.run.events.push(Ev::Store(a, v));
            vec![]
          }
          I::Gep(t, pt, p, ix) => {
            let mut a = self.val(&env, pt, p)[0];
            let mut t = t.clone();
            for (k, (xt, x)) in ix.iter().enumerate() {
              if k > 0 {
                t = match t {
                  L::Arr(e, _) => (*e).clone(),
                  t => t,
                };
              }
              let x = self.val(&env, xt, x)[0];
              a = match (a, x) {
                (Some(a), Some(x)) => Some(a.wrapping_add(t.size().wrapping_mul(x as u32 as i32 as i64 as u64))),
                _ => None,
              };
            }
            vec![a]
          }
          I::Icmp(c, t, a, b) => {
            let (x, y) = (self.val(&env, t, a)[0], self.val(&env, t, b)[0]);
            vec![match (x, y) {
              (Some(x), Some(y)) => {
                let (sx, sy) = if *t == L::I32 { (x as u32 as i32 as i64, y as u32 as i32 as i64) } else { (x as i64, y as i64) };
                Some(match c.as_str() {
                  "eq" => x == y,
                  "ne" => x != y,
                  "sgt" => sx > sy,
                  "slt" => sx < sy,
                  "sge" => sx >= sy,
                  "sle" => sx <= sy,
                  "ugt" => x > y,
                  "ult" => x < y,
                  "uge" => x >= y,
                  _ => x <= y,
                } as u64)
              }
              _ => None,
            }]
          }
          I::Cast(c, t, v, _) => {
            let v = self.val(&env, t, v);
            match c.as_str() {
              "sext" => v.iter().map(|x| x.map(|x| if x & 1 != 0 { u32::MAX as u64 } else { 0 })).collect(),
              "trunc" => v.iter().map(|x| x.map(|x| x & 1)).collect(),
              "freeze" => v.iter().map(|x| Some(x.unwrap_or(0))).collect(),
              _ => v,
            }
          }
          I::Select(c, t, a, b) => match self.val(&env, &L::I1, c)[0] {
            Some(c) => self.val(&env, t, if c & 1 != 0 { a } else { b }),
            None => vec![None; t.cells()],
          },
          I::Unreachable => return Err(Stop::Undefined),
          I::Switch(t, v, d, cs) => {
            let v = self.val(&env, t, v)[0].ok_or(Stop::Undefined)?;
            let l = cs.iter().find(|c| c.0 as u32 as u64 == v).map_or(d, |c| &c.1);
            next = Some(bidx[l.as_str()]);
            vec![]
          }
          I::Bin(op, flags, t, a, b) => {
            let (a, b) = (self.val(&env, t, a), self.val(&env, t, b));
            if let (false, Some(x), Some(y)) = (flags.is_empty(), a[0], b[0]) {
              if flags.iter().any(|f| poison(op, f, x as u32, y as u32)) {
                env.insert(d.as_ref().unwrap(), vec![None]);
                continue;
              }
            }
            let op = match op.as_str() {
              "add" => Bop::Add,
              "sub" => Bop::Sub,
              "mul" => Bop::Mul,
              "sdiv" => Bop::Div,
              "srem" => Bop::Mod,
              "and" => Bop::And,
              "or" => Bop::Or,
              "xor" => Bop::Xor,
              "shl" => Bop::Shl,
              "lshr" => Bop::Shr,
              "ashr" => Bop::Sar,
              x => {
                let (Some(a), Some(b)) = (a[0], b[0]) else { return Err(Stop::Undefined) };
                if b as u32 == 0 {
                  return Err(Stop::Undefined);
                }
                let v = if x == "udiv" { a as u32 / b as u32 } else { a as u32 % b as u32 };
                env.insert(d.as_ref().unwrap(), vec![Some(v as u64)]);
                continue;
              }
            };
            let v = bin_total(op, &a, &b)?;
            if *t == L::I1 { v.iter().map(|x| x.map(|x| x & 1)).collect() } else { v }
          }
          I::Br(l) => {
            next = Some(bidx[l.as_str()]);
            vec![]
          }
          I::CondBr(c, x, y) => {
            let c = self.val(&env, &L::I1, c)[0].ok_or(Stop::Undefined)?;
            next = Some(bidx[if c & 1 != 0 { x.as_str() } else { y.as_str() }]);
            vec![]
          }
          I::Call(t, n, a) => {
            let a: Vec<V> = a.iter().map(|(t, o)| self.val(&env, t, o)).collect();
            let c = self.fidx[n.as_str()];
            let flat: V = a.iter().flatten().copied().collect();
            if self.lim.follow && !m.funcs[c].decl {
              self.call(c, a)?
            } else {
              self.ncall += 1;
              self.run.events.push(Ev::Call(c, flat.clone()));
              if self.whole && flat.contains(&None) {
                return Err(Stop::Undefined);
              }
              known_extern(&self.names[c], self.ncall, &flat).filter(|_| self.whole).unwrap_or_else(|| outside(c, self.ncall, &flat, t))
            }
          }
          I::Ret(t, v) => return Ok(v.as_ref().map_or(vec![], |v| self.val(&env, t, v))),
        };
        if let Some(d) = d {
          env.insert(d, v);
        }
      }
      prev = b;
      b = next.unwrap();
    }
  }
}

/// Whether `got` is allowed where `want` is demanded (undefined ones allow all).
fn fits(want: &V, got: &V) -> bool {
  want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w.is_none() || w == g)
}

pub fn compare(want: &Run, got: &Run) -> Option<String> {
  for (i, (w, g)) in want.events.iter().zip(&got.events).enumerate() {
    let ok = match (w, g) {
      (Ev::Call(a, x), Ev::Call(b, y)) => a == b && fits(x, y),
      (Ev::Store(a, x), Ev::Store(b, y)) => a == b && fits(x, y),
      (Ev::Ret(x), Ev::Ret(y)) => fits(x, y),
      _ => false,
    };
    if !ok {
      return Some(format!("event {i}: the program does {w:x?}, its translation does {g:x?}"));
    }
  }
  if want.done {
    if !got.done {
      return Some(format!("the program ends after {} steps, its translation does not (after {} steps and {} events)", want.steps, got.steps, got.events.len()));
    }
    if want.events.len() != got.events.len() {
      return Some("the translation goes on after the program ended".into());
    }
    let keys: HashSet<u64> = want.mem.cells.keys().chain(got.mem.cells.keys()).copied().collect();
    for k in keys {
      let (w, g) = (want.mem.cells.get(&k), got.mem.cells.get(&k));
      if w != g && w != Some(&None) {
        return Some(format!("final memory at {k:#x}: {w:x?} in the program, {g:x?} in its translation"));
      }
    }
  }
  None
}

// --- the check

fn too_big(p: &Prog) -> bool {
  fn big(t: &T) -> bool {
    t.cells() > 1000 || t.pointee().is_some_and(big)
  }
  p.globals.iter().any(|g| big(&g.init.ty()))
    || p.funcs.iter().any(|f| {
      f.params.iter().any(|p| big(&p.1))
        || big(&f.ret)
        || f.blocks.iter().any(|b| b.params.iter().any(|p| big(&p.1)) || b.insts.iter().any(|i| big(&i.ty)))
    })
}

fn c06(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C06", idx);
  let exec = r.chance(2, 5);
  let mut cfg = if exec { Cfg::exec(&mut r) } else { Cfg::text(&mut r) };
  cfg.ordered = r.chance(1, 2);
  if r.chance(1, 4) {
    cfg.names = Names::Clash;
  }
  cfg.rich_consts = r.chance(1, 3);
  let m = gen::gen(&mut r, &cfg);
  cx.what = show(&m);
  observe(cx, &m);
  if m.n_insts() > 3 {
    cx.shape(m.shape());
  }
  let via_text = cfg.names == Names::Unique && cfg.ordered && !cfg.rich_consts && r.chance(1, 3);
  let (p, m) = if via_text {
    let st = emit::Style { wild: false, shuffle: true, dead: true };
    let s = emit::text(&m, &mut r, &st);
    match api::parse(s.as_bytes()) {
      Ok(p) => (p, m.canon()),
      Err(_) => return cx.fail("well-formed text rejected", s),
    }
  } else {
    (api::build(&m, &mut r).0, m)
  };
  let text = match api::dump_llvm(&p) {
    Ok(t) => lossy(&t),
    Err(e) => return cx.fail("generation failed", e),
  };
  let lm = match parse(&text) {
    Ok(m) => m,
    Err(e) => {
      // only a compiler may say that this is not LLVM
      return match tool(cx, "llvm-as-18", &["-", "-o", "/dev/null"], &text) {
        Ok(_) => {
          if cx.verbose {
            eprintln!("case {idx}: {e}");
          }
          cx.count("modules not understood (accepted by llvm-as)");
          // the compiler is left to say what it does
          let main = m.funcs.iter().position(|f| f.name == "@main" && !f.is_decl());
          let Some(main) = main.filter(|_| exec && cfg.names == Names::Unique && !too_big(&m)) else { return };
          let want = run_model(&m, main, 0, &Limits { steps: 20000, follow: true }, true);
          if want.done && m.globals.iter().all(|g| g.name.is_some()) {
            cx.count("programs run by lli");
            let globals: Vec<(String, L)> = m.globals.iter().map(|g| (g.name.as_deref().map_or(String::new(), |n| n[1..].to_string()), lower(&g.init.ty()))).collect();
            if let Err(e) = lli(cx, &m, &globals, &text, &want) {
              cx.fail("compiled program behaves differently", format!("{e}\n{text}\n{}", show(&m)));
            }
          }
        }
        Err(x) => cx.fail("output is not LLVM", format!("{e}\n{x}\n{text}")),
      };
    }
  };
  match verify(&lm) {
    Ok(n) => cx.add("uses resolved", n),
    Err(e) => return cx.fail("output is ill-formed", format!("{e}\n{text}")),
  }
  cx.count("modules verified");
  if idx < 2 {
    cx.sample(|| text.clone());
  }
  // interface: one function for each, of the same kind and type
  if lm.funcs.len() != m.funcs.len() || lm.globals.len() != m.globals.len() {
    return cx.fail("functions or globals missing", format!("{text}\n{}", show(&m)));
  }
  for (a, b) in lm.funcs.iter().zip(&m.funcs) {
    let tys: Vec<L> = b.params.iter().map(|p| lower(&p.1)).collect();
    let got: Vec<L> = a.params.iter().map(|p| p.0.clone()).collect();
    if a.decl != b.is_decl() || tys != got || a.ret != lower(&b.ret) {
      return cx.fail("function signature differs", format!("@{} for {}\n{text}", a.name, b.name));
    }
  }
  for ((n, t, _), g) in lm.globals.iter().zip(&m.globals) {
    if *t != lower(&g.init.ty()) {
      return cx.fail("global type differs", format!("@{n}\n{text}"));
    }
  }
  if idx % (if cx.thorough { 25 } else { 60 }) < 8 && (idx / 8) % 2 == 0 {
    cx.count("modules given to llvm-as");
    if let Err(x) = tool(cx, "opt-18", &["-passes=verify", "-o", "/dev/null", "-"], &text) {
      return cx.fail("LLVM rejects the output", format!("{x}\n{text}"));
    }
  }
  if too_big(&m) {
    cx.count("too large to run");
    return;
  }
  // every function alone
  let lim = Limits { steps: 600, follow: false };
  let lim2 = Limits { steps: 20000, follow: false };
  for f in 0..m.funcs.len() {
    if m.funcs[f].is_decl() {
      continue;
    }
    for s in 0..3 {
      let want = run_model(&m, f, s, &lim, false);
      let got = run_module(&lm, &m, f, s, &lim2, false);
      cx.count(if want.done { "function runs (ended)" } else { "function runs (cut)" });
      cx.add("events compared", want.events.len() as u64);
      if let Some(d) = compare(&want, &got) {
        return cx.fail("behaviour differs", format!("function {} alone: {d}\n{text}\n{}", m.funcs[f].name, show(&m)));
      }
    }
  }
  if exec {
    let main = m.funcs.iter().position(|f| f.name == "@main" && !f.is_decl()).unwrap();
    let lim = Limits { steps: 20000, follow: true };
    let lim2 = Limits { steps: 400000, follow: true };
    let want = run_model(&m, main, 0, &lim, true);
    let got = run_module(&lm, &m, main, 0, &lim2, true);
    cx.count(if want.done { "program runs (ended)" } else { "program runs (cut)" });
    cx.add("events compared", want.events.len() as u64);
    cx.add("steps", want.steps);
    if let Some(d) = compare(&want, &got) {
      return cx.fail("behaviour differs", format!("whole program: {d}\n{text}\n{}", show(&m)));
    }
    let every = if cx.thorough { 40 } else { 100 };
    if want.done && idx % every < 8 && lm.funcs.iter().zip(&m.funcs).all(|(a, b)| a.name == b.name[1..] || !b.is_decl() && b.name != "@main") {
      cx.count("programs run by lli");
      let globals: Vec<(String, L)> = lm.globals.iter().map(|g| (g.0.clone(), g.1.clone())).collect();
      if let Err(e) = lli(cx, &m, &globals, &text, &want) {
        cx.fail("compiled program behaves differently", format!("{e}\n{text}\n{}", show(&m)));
      }
    }
  }
}

fn tool(_cx: &Cx, exe: &str, args: &[&str], input: &str) -> R<Vec<u8>> {
  use std::io::Write;
  use std::process::*;
  let mut c = Command::new(exe)
    .args(args)
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::piped())
    .spawn()
    .unwrap_or_else(|e| {
      eprintln!("INCONCLUSIVE: {exe}: {e}");
      exit(3)
    });
  let _ = c.stdin.take().unwrap().write_all(input.as_bytes());
  let o = c.wait_with_output().map_err(|e| e.to_string())?;
  if o.status.success() {
    Ok(o.stdout)
  } else {
    Err(format!("{exe}: {:?} {}", o.status, lossy(&o.stderr)))
  }
}

/// Runs the program with the real compiler: its output has to show the same
/// external calls, final integers in globals, and return value.
fn lli(cx: &Cx, m: &Prog, globals: &[(String, L)], text: &str, want: &Run) -> R<()> {
  let mut e = String::from(
    "@.p = constant [8 x i8] c\"C0 %d\\0A\\00\\00\"\n@.q = constant [14 x i8] c\"C2 %d %d %d\\0A\\00\\00\"\n@.g = constant [4 x i8] c\"C1\\0A\\00\"\n@.r = constant [7 x i8] c\"R %d\\0A\\00\\00\"\n@.m = constant [7 x i8] c\"M %d\\0A\\00\\00\"\n@.n = global i64 0\n\
     declare i32 @printf(i8*, ...)\ndeclare i32 @main()\n\
     define i64 @.next() {\n  %a = load i64, i64* @.n\n  %b = add i64 %a, 1\n  store i64 %b, i64* @.n\n  ret i64 %b\n}\n\
     define void @putint(i32 %x) {\n  %n = call i64 @.next()\n  %r = call i32 (i8*, ...) @printf(i8* @.p, i32 %x)\n  ret void\n}\n\
     define i32 @getint() {\n  %n = call i64 @.next()\n  %r = call i32 (i8*, ...) @printf(i8* @.g)\n  %m = mul i64 %n, 2654435761\n  %s = add i64 %m, 12345\n  %t = trunc i64 %s to i32\n  ret i32 %t\n}\n\
     define i32 @put3(i32 %a, i32 %b, i32 %c) {\n  %n = call i64 @.next()\n  %r = call i32 (i8*, ...) @printf(i8* @.q, i32 %a, i32 %b, i32 %c)\n  %x = mul i32 %a, 3\n  %y = mul i32 %b, 5\n  %z = mul i32 %c, 7\n  %i = trunc i64 %n to i32\n  %s = add i32 %x, %y\n  %t = add i32 %s, %z\n  %u = add i32 %t, %i\n  ret i32 %u\n}\n",
  );
  let ext = ["@putint", "@getint", "@put3"];
  let mut exp = String::new();
  for ev in &want.events {
    match ev {
      Ev::Call(f, a) => {
        let k = ext.iter().position(|x| *x == m.funcs[*f].name).ok_or("unknown external")?;
        write!(exp, "C{k}").unwrap();
        for x in a {
          write!(exp, " {}", x.unwrap() as u32 as i32).unwrap();
        }
        exp.push('\n');
      }
      Ev::Ret(v) => match v[0] {
        Some(x) => writeln!(exp, "R {}", x as u32 as i32).unwrap(),
        None => return Ok(()),
      },
      Ev::Store(..) => {}
    }
  }
  let mut body = String::from("define i32 @.start() {\n  %r = call i32 @main()\n  %p = call i32 (i8*, ...) @printf(i8* @.r, i32 %r)\n");
  let mut n = 0;
  let mut at = Mem::default();
  for (name, t) in globals {
    let base = at.alloc(t.size());
    writeln!(e, "@{name} = external global {t}").unwrap();
    let mut ls = vec![];
    leaves(t, base, &mut ls);
    for (a, small) in ls.into_iter().take(30) {
      let Some(Some(Some(v))) = small.then(|| want.mem.cells.get(&a).copied()) else { continue };
      n += 1;
      writeln!(body, "  %a{n} = getelementptr i8, i8* @{name}, i64 {}", a - base).unwrap();
      writeln!(body, "  %v{n} = load i32, i32* %a{n}\n  %q{n} = call i32 (i8*, ...) @printf(i8* @.m, i32 %v{n})").unwrap();
      writeln!(exp, "M {}", v as u32 as i32).unwrap();
    }
  }
  body.push_str("  ret i32 0\n}\n");
  e.push_str(&body);
  let ep = format!("{}/out.ll", cx.scratch);
  std::fs::write(&ep, text).map_err(|e| e.to_string())?;
  let out = tool(cx, "lli-18", &["-jit-kind=mcjit", &format!("-extra-module={ep}"), "-entry-function=.start", "-"], &e)?;
  let out = lossy(&out);
  if out != exp {
    let d = out.lines().zip(exp.lines()).position(|(a, b)| a != b);
    return Err(format!("output of the compiled program differs (line {d:?})\n--- expected\n{exp}--- printed\n{out}"));
  }
  Ok(())
}



pub static CHECKS: &[&Check] = &[&Check {
  id: "C06",
  rule: "random well-formed programs (unique or clashing names, callees before or after callers, array constants as operands) are translated; the output is read and verified by an independent reader with typed pointers, every function is run alone on three inputs and executable programs as a whole, by an interpreter of the output and one of the model, comparing every store, call, return and the final memory; a sample goes to LLVM's own verifier and to lli; non-trivial: more than 3 instructions, distinct by shape",
  cases: (24000, 400000),
  limit: (200, 1800),
  case: c06,
  workers: 0,
  assumptions: &[
    "cases are produced by this check's own generator; programs outside its shape are not seen",
    "LLVM 18 reads typed pointers as opaque ones; pointee types are checked by this check's own verifier only",
  ],
}];
