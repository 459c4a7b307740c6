//! Reference front end: an independent reading of the language, used as the
//! oracle for arbitrary texts. It says what program a text denotes, or where
//! and why the text is ill-formed, or that the language leaves it open.

use crate::model::*;
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
  Lexical,
  Grammar,
  Semantic,
}

pub type P2 = (u32, u32);

#[derive(Clone, Debug)]
pub struct Bad {
  pub class: Class,
  pub rule: &'static str,
  /// The first error lies in one of these ranges (line, column; inclusive).
  pub spans: Vec<(P2, P2)>,
  /// The first token of the text is the bad one.
  pub first: bool,
  /// The whole text is lexically and grammatically right.
  pub grammar_ok: bool,
}

pub enum Verdict {
  Ok(Prog),
  Bad(Bad),
  Unsure(&'static str),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tk {
  Int(i64),
  Sym(String),
  Kw(String),
  Bin(Bop),
  Ch(char),
  End,
  Err(&'static str),
}

pub struct Tok {
  pub k: Tk,
  pub s: P2,
  pub e: P2,
}

const KW: [&str; 15] = [
  "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret",
  "fun", "decl",
];

pub fn lex(b: &[u8]) -> Result<Vec<Tok>, &'static str> {
  let mut out = vec![];
  let mut i = 0;
  // position of each byte
  let mut pos = Vec::with_capacity(b.len() + 1);
  let (mut l, mut c) = (1u32, 0u32);
  for x in b {
    if *x == b'\n' {
      l += 1;
      c = 0;
    } else {
      c += 1;
    }
    pos.push((l, c));
  }
  let end = pos.last().copied().unwrap_or((1, 0));
  pos.push(end);
  loop {
    while i < b.len() && matches!(b[i], b' ' | 9..=13) {
      i += 1;
    }
    if i >= b.len() {
      out.push(Tok { k: Tk::End, s: end, e: end });
      return Ok(out);
    }
    let st = i;
    let mut bad = None;
    let x = b[i];
    let k = match x {
      b'/' => {
        match b.get(i + 1) {
          Some(b'/') => {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
              i += 1;
            }
            continue;
          }
          Some(b'*') => match b[i + 2..].windows(2).position(|w| w == b"*/") {
            Some(p) => {
              i += 2 + p + 2;
              continue;
            }
            None => bad = Some("unclosed comment"),
          },
          _ => bad = Some("invalid comment"),
        }
        Tk::End
      }
      b'@' | b'%' => {
        i += 1;
        if i < b.len() && b[i].is_ascii_digit() {
          if x == b'@' {
            bad = Some("invalid named symbol");
          }
          if b[i] == b'0' {
            i += 1;
          } else {
            while i < b.len() && b[i].is_ascii_digit() {
              i += 1;
            }
            if i < b.len() && b[i] >= 0x80 {
              return Err("non-ASCII digit");
            }
          }
        } else {
          while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
          }
          if i < b.len() && b[i] >= 0x80 {
            return Err("non-ASCII identifier");
          }
          if i == st + 1 {
            bad = Some("empty symbol");
          }
        }
        Tk::Sym(String::from_utf8_lossy(&b[st..i]).into_owned())
      }
      b'a'..=b'z' | b'A'..=b'Z' => {
        while i < b.len() && b[i].is_ascii_alphanumeric() {
          i += 1;
        }
        if i < b.len() && b[i] >= 0x80 {
          return Err("non-ASCII identifier");
        }
        let w = std::str::from_utf8(&b[st..i]).unwrap();
        if KW.contains(&w) {
          Tk::Kw(w.to_string())
        } else if let Some(o) = BOPS.iter().find(|o| o.1 == w) {
          Tk::Bin(o.0)
        } else {
          bad = Some("unknown keyword");
          Tk::End
        }
      }
      b'0'..=b'9' | b'-' => {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
          i += 1;
        }
        if i < b.len() && b[i] >= 0x80 {
          return Err("non-ASCII digit");
        }
        match std::str::from_utf8(&b[st..i]).unwrap().parse::<i64>() {
          Ok(v) if i32::try_from(v).is_err() => return Err("integer outside 32 bits"),
          Ok(v) => Tk::Int(v),
          Err(_) => {
            bad = Some("invalid integer");
            Tk::End
          }
        }
      }
      0x80.. => return Err("non-ASCII character"),
      _ => {
        i += 1;
        Tk::Ch(x as char)
      }
    };
    if let Some(m) = bad {
      out.push(Tok { k: Tk::Err(m), s: pos[st], e: pos[st] });
      return Ok(out);
    }
    out.push(Tok { k, s: pos[st], e: pos[i - 1] });
  }
}

pub type Span = (P2, P2);

#[derive(Clone, Debug)]
enum I {
  Int(i32),
  Undef,
  Zero,
  Agg(Vec<I>),
}

#[derive(Clone, Debug)]
enum Val {
  Sym(String),
  Const(I),
}

#[derive(Debug)]
enum Sk {
  Alloc(T),
  Load(String),
  Store(Val, String),
  GetPtr(String, Val),
  GetElemPtr(String, Val),
  Bin(Bop, Val, Val),
  Br(Val, String, Vec<Val>, String, Vec<Val>),
  Jump(String, Vec<Val>),
  Call(String, Vec<Val>),
  Ret(Option<Val>),
}

struct Stmt {
  def: Option<String>,
  k: Sk,
  sp: Span,
}

struct Blk {
  name: String,
  params: Vec<(String, T)>,
  stmts: Vec<Stmt>,
  sp: Span,
}

enum Item {
  Global(String, T, I, Span),
  Decl(String, Vec<T>, T, Span),
  Fun(String, Vec<(String, T)>, T, Vec<Blk>, Span),
}

struct Ps<'a> {
  t: &'a [Tok],
  i: usize,
}

/// Token (or range) and rule of a grammar error.
struct GErr {
  class: Class,
  rule: &'static str,
  sp: Span,
}

type R<X> = Result<X, GErr>;

impl Ps<'_> {
  fn k(&self) -> &Tk {
    &self.t[self.i].k
  }
  fn next(&mut self) -> R<()> {
    if self.i + 1 < self.t.len() {
      self.i += 1;
    }
    if let Tk::Err(m) = self.k() {
      return Err(GErr { class: Class::Lexical, rule: m, sp: (self.t[self.i].s, self.t[self.i].s) });
    }
    Ok(())
  }
  fn err<X>(&self, rule: &'static str) -> R<X> {
    Err(GErr { class: Class::Grammar, rule, sp: (self.t[self.i].s, self.t[self.i].s) })
  }
  fn is(&self, c: char) -> bool {
    *self.k() == Tk::Ch(c)
  }
  fn ch(&mut self, c: char) -> R<()> {
    if !self.is(c) {
      return self.err("missing punctuation");
    }
    self.next()
  }
  fn kw(&mut self, w: &str) -> R<()> {
    if *self.k() != Tk::Kw(w.into()) {
      return self.err("missing keyword");
    }
    self.next()
  }
  fn sym(&mut self) -> R<String> {
    match self.k().clone() {
      Tk::Sym(s) => {
        self.next()?;
        Ok(s)
      }
      _ => self.err("missing symbol"),
    }
  }
  fn list<X>(&mut self, f: impl Fn(&mut Self) -> R<X>) -> R<Vec<X>> {
    self.ch('(')?;
    let mut v = vec![];
    if !self.is(')') {
      loop {
        v.push(f(self)?);
        if !self.is(',') {
          break;
        }
        self.next()?;
      }
    }
    self.ch(')')?;
    Ok(v)
  }
  fn opt_list<X>(&mut self, f: impl Fn(&mut Self) -> R<X>) -> R<Vec<X>> {
    if self.is('(') {
      self.list(f)
    } else {
      Ok(vec![])
    }
  }
  fn opt_ret(&mut self) -> R<T> {
    if self.is(':') {
      self.next()?;
      self.ty()
    } else {
      Ok(T::Unit)
    }
  }
  fn ty(&mut self) -> R<T> {
    match self.k() {
      Tk::Kw(k) if k == "i32" => {
        self.next()?;
        Ok(T::I32)
      }
      Tk::Ch('*') => {
        self.next()?;
        Ok(T::ptr(self.ty()?))
      }
      Tk::Ch('[') => {
        self.next()?;
        let t = self.ty()?;
        self.ch(',')?;
        let Tk::Int(n) = *self.k() else { return self.err("missing array length") };
        let sp = (self.t[self.i].s, self.t[self.i].s);
        self.next()?;
        if n <= 0 {
          return Err(GErr { class: Class::Grammar, rule: "array length not positive", sp });
        }
        self.ch(']')?;
        Ok(T::arr(t, n as usize))
      }
      Tk::Ch('(') => {
        let ps = self.list(|s| s.ty())?;
        let r = self.opt_ret()?;
        Ok(T::fun(ps, r))
      }
      _ => self.err("missing type"),
    }
  }
  fn param(&mut self) -> R<(String, T)> {
    let n = self.sym()?;
    self.ch(':')?;
    Ok((n, self.ty()?))
  }
  fn init(&mut self) -> R<I> {
    let v = match self.k() {
      Tk::Int(v) => I::Int(*v as i32),
      Tk::Kw(k) if k == "undef" => I::Undef,
      Tk::Kw(k) if k == "zeroinit" => I::Zero,
      Tk::Ch('{') => {
        self.next()?;
        let mut v = vec![self.init()?];
        while self.is(',') {
          self.next()?;
          v.push(self.init()?);
        }
        self.ch('}')?;
        return Ok(I::Agg(v));
      }
      _ => return self.err("missing initializer"),
    };
    self.next()?;
    Ok(v)
  }
  fn value(&mut self) -> R<Val> {
    let v = match self.k() {
      Tk::Sym(s) => Val::Sym(s.clone()),
      Tk::Int(v) => Val::Const(I::Int(*v as i32)),
      Tk::Kw(k) if k == "undef" => Val::Const(I::Undef),
      _ => return self.err("missing value"),
    };
    self.next()?;
    Ok(v)
  }
  fn call(&mut self) -> R<Sk> {
    self.next()?;
    let f = self.sym()?;
    Ok(Sk::Call(f, self.list(|s| s.value())?))
  }
  fn stmt(&mut self) -> R<(Stmt, bool)> {
    let st = self.t[self.i].s;
    let mut def = None;
    let mut term = false;
    let k = match self.k().clone() {
      Tk::Sym(n) => {
        def = Some(n);
        self.next()?;
        self.ch('=')?;
        match self.k().clone() {
          Tk::Kw(k) if k == "alloc" => {
            self.next()?;
            Sk::Alloc(self.ty()?)
          }
          Tk::Kw(k) if k == "load" => {
            self.next()?;
            Sk::Load(self.sym()?)
          }
          Tk::Kw(k) if k == "getptr" || k == "getelemptr" => {
            self.next()?;
            let s = self.sym()?;
            self.ch(',')?;
            let v = self.value()?;
            if k == "getptr" {
              Sk::GetPtr(s, v)
            } else {
              Sk::GetElemPtr(s, v)
            }
          }
          Tk::Kw(k) if k == "call" => self.call()?,
          Tk::Bin(o) => {
            self.next()?;
            let a = self.value()?;
            self.ch(',')?;
            Sk::Bin(o, a, self.value()?)
          }
          _ => return self.err("missing expression"),
        }
      }
      Tk::Kw(k) => match k.as_str() {
        "store" => {
          self.next()?;
          let v = match self.k().clone() {
            Tk::Sym(s) => {
              self.next()?;
              Val::Sym(s)
            }
            _ => Val::Const(self.init()?),
          };
          self.ch(',')?;
          Sk::Store(v, self.sym()?)
        }
        "call" => self.call()?,
        "br" => {
          term = true;
          self.next()?;
          let c = self.value()?;
          self.ch(',')?;
          let t = self.sym()?;
          let ta = self.opt_list(|s| s.value())?;
          self.ch(',')?;
          let f = self.sym()?;
          let fa = self.opt_list(|s| s.value())?;
          Sk::Br(c, t, ta, f, fa)
        }
        "jump" => {
          term = true;
          self.next()?;
          let t = self.sym()?;
          Sk::Jump(t, self.opt_list(|s| s.value())?)
        }
        "ret" => {
          term = true;
          let l = self.t[self.i].s.0;
          self.next()?;
          Sk::Ret(if self.t[self.i].s.0 == l { Some(self.value()?) } else { None })
        }
        _ => return self.err("missing statement"),
      },
      _ => return self.err("missing statement"),
    };
    // the last token of the statement is the one before the current
    let e = self.t[self.i - 1].e;
    Ok((Stmt { def, k, sp: (st, e) }, term))
  }
  fn item(&mut self) -> R<Option<Item>> {
    let st = self.t[self.i].s;
    match self.k().clone() {
      Tk::End => Ok(None),
      Tk::Kw(k) if k == "global" => {
        self.next()?;
        let n = self.sym()?;
        self.ch('=')?;
        self.kw("alloc")?;
        let t = self.ty()?;
        self.ch(',')?;
        let i = self.init()?;
        Ok(Some(Item::Global(n, t, i, (st, self.t[self.i - 1].e))))
      }
      Tk::Kw(k) if k == "decl" => {
        self.next()?;
        let n = self.sym()?;
        let ps = self.list(|s| s.ty())?;
        let r = self.opt_ret()?;
        Ok(Some(Item::Decl(n, ps, r, (st, self.t[self.i - 1].e))))
      }
      Tk::Kw(k) if k == "fun" => {
        self.next()?;
        let n = self.sym()?;
        let ps = self.list(|s| s.param())?;
        let r = self.opt_ret()?;
        self.ch('{')?;
        let mut bs = vec![];
        while !self.is('}') {
          let from = self.t[self.i].s;
          let name = self.sym()?;
          let params = self.opt_list(|s| s.param())?;
          self.ch(':')?;
          let mut stmts = vec![];
          loop {
            let (s, term) = self.stmt()?;
            stmts.push(s);
            if term {
              break;
            }
          }
          bs.push(Blk { name, params, stmts, sp: (from, self.t[self.i - 1].e) });
        }
        let e = self.t[self.i].e;
        self.next()?;
        if bs.is_empty() {
          return Err(GErr { class: Class::Grammar, rule: "function without blocks", sp: (st, e) });
        }
        Ok(Some(Item::Fun(n, ps, r, bs, (st, e))))
      }
      _ => self.err("missing definition"),
    }
  }
}

struct Sem {
  p: Prog,
  gvars: HashMap<String, usize>,
  gfuns: HashMap<String, usize>,
  bad: Vec<(&'static str, Span)>,
  unsure: Option<&'static str>,
  /// As `unsure`, and nothing else can be said about the text.
  open: Option<&'static str>,
  /// Statements that may be rejected.
  may: Vec<Span>,
  /// Blocks that can not be reached.
  skipped: Vec<(String, Span)>,
}

fn temp(s: &str) -> bool {
  s.starts_with('%') && s[1..].bytes().all(|b| b.is_ascii_digit())
}

fn name(s: &str) -> Option<String> {
  (!temp(s)).then(|| s.to_string())
}

fn init(t: &T, i: &I) -> Result<C, &'static str> {
  Ok(match i {
    I::Undef => C::Undef(t.clone()),
    I::Zero => C::Zero(t.clone()),
    I::Int(v) if *t == T::I32 => C::Int(*v),
    I::Int(_) => return Err("integer for another type"),
    I::Agg(es) => match t {
      T::Arr(e, n) if *n == es.len() => C::Agg(es.iter().map(|i| init(e, i)).collect::<Result<_, _>>()?),
      T::Arr(..) => return Err("aggregate length"),
      _ => return Err("aggregate for another type"),
    },
  })
}

impl Sem {
  fn item(&mut self, it: &Item) {
    match it {
      Item::Global(n, t, i, sp) => {
        match init(t, i) {
          Ok(c) => {
            self.p.globals.push(Glob { name: name(n), init: c });
          }
          Err(m) => return self.bad.push((m, *sp)),
        }
        if self.gfuns.contains_key(n) || self.gvars.insert(n.clone(), self.p.globals.len() - 1).is_some() {
          self.bad.push(("duplicate global", *sp));
        }
      }
      Item::Decl(n, ps, r, sp) => {
        let params = ps.iter().map(|t| (None, t.clone())).collect();
        self.p.funcs.push(Fun { name: n.clone(), params, ret: r.clone(), blocks: vec![] });
        self.add_fun(n, sp);
      }
      Item::Fun(n, ps, r, bs, sp) => self.fun(n, ps, r, bs, sp),
    }
  }
  fn add_fun(&mut self, n: &str, sp: &Span) {
    if self.gvars.contains_key(n) || self.gfuns.insert(n.to_string(), self.p.funcs.len() - 1).is_some() {
      self.bad.push(("duplicate function", *sp));
    }
  }
  fn fun(&mut self, n: &str, ps: &[(String, T)], ret: &T, bs: &[Blk], sp: &Span) {
    let mut pidx = HashMap::new();
    for (i, (x, _)) in ps.iter().enumerate() {
      if pidx.insert(x.clone(), i).is_some() {
        self.bad.push(("duplicate parameter", *sp));
      } else if self.gvars.contains_key(x) {
        self.bad.push(("parameter named like a global", *sp));
      }
    }
    self.p.funcs.push(Fun {
      name: n.to_string(),
      params: ps.iter().map(|(x, t)| (name(x), t.clone())).collect(),
      ret: ret.clone(),
      blocks: vec![],
    });
    self.add_fun(n, sp);
    // blocks
    let mut bidx: HashMap<&str, usize> = HashMap::new();
    for (i, b) in bs.iter().enumerate() {
      if bidx.insert(&b.name, i).is_some() {
        self.bad.push(("duplicate block", *sp));
      }
    }
    let mut order = vec![0];
    let mut seen = HashSet::from([0]);
    let mut q = VecDeque::from([0]);
    if bidx[bs[0].name.as_str()] != 0 {
      // the entry itself is duplicated, already reported
      return;
    }
    let mut preds: HashMap<usize, Vec<usize>> = HashMap::new();
    while let Some(b) = q.pop_front() {
      let t = bs[b].stmts.last().unwrap();
      let ts: Vec<&String> = match &t.k {
        Sk::Br(_, x, _, y, _) => vec![x, y],
        Sk::Jump(x, _) => vec![x],
        _ => vec![],
      };
      for x in ts {
        match bidx.get(x.as_str()) {
          _ if *x == bs[0].name => self.bad.push(("jump to the entry block", t.sp)),
          None => self.bad.push(("unknown block", t.sp)),
          Some(s) => {
            preds.entry(*s).or_default().push(b);
            if seen.insert(*s) {
              q.push_back(*s);
              order.push(*s);
            }
          }
        }
      }
    }
    self.skipped.extend((0..bs.len()).filter(|b| !seen.contains(b)).map(|b| (bs[b].name.clone(), bs[b].sp)));
    if !bs[0].params.is_empty() {
      self.open = Some("entry block with parameters");
    }
    let new: HashMap<usize, usize> = order.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    // dominators: d dominates b if b can not be reached without d
    let reach_without = |d: usize| -> HashSet<usize> {
      let mut s = HashSet::new();
      if d == 0 {
        return s;
      }
      let mut st = vec![0];
      s.insert(0);
      while let Some(b) = st.pop() {
        for (x, ps) in &preds {
          if *x != d && ps.contains(&b) && s.insert(*x) {
            st.push(*x);
          }
        }
      }
      s
    };
    // symbols: name -> (op, type, block, index or usize::MAX for parameters)
    let mut syms: HashMap<String, (Op, Option<T>, usize, usize)> = HashMap::new();
    let whole = *sp;
    for b in &order {
      for (i, (x, t)) in bs[*b].params.iter().enumerate() {
        if self.gvars.contains_key(x) || syms.contains_key(x) {
          self.bad.push(("duplicate symbol", whole));
        }
        if pidx.contains_key(x) {
          self.open = Some("block parameter named like a function parameter");
        }
        syms.insert(x.clone(), (Op::B(new[b], i), Some(t.clone()), *b, usize::MAX));
      }
    }
    for (x, i) in &pidx {
      syms.insert(x.clone(), (Op::P(*i), Some(ps[*i].1.clone()), 0, usize::MAX));
    }
    // first the types of all definitions, in order (a type may depend on earlier ones)
    let mut later: HashMap<String, (usize, usize)> = HashMap::new();
    for b in &order {
      for (i, s) in bs[*b].stmts.iter().enumerate() {
        if let Some(d) = &s.def {
          if self.gvars.contains_key(d) || syms.contains_key(d) || later.contains_key(d) {
            self.bad.push(("duplicate symbol", s.sp));
          }
          later.insert(d.clone(), (*b, i));
        }
      }
    }
    if !self.bad.is_empty() {
      // what the rest means depends on which definition is kept
      self.more(bs, &order);
      return;
    }
    let mut doms: HashMap<usize, HashSet<usize>> = HashMap::new();
    let mut blocks: Vec<Block> = order
      .iter()
      .map(|b| Block {
        name: name(&bs[*b].name),
        params: bs[*b].params.iter().map(|(x, t)| (name(x), t.clone())).collect(),
        insts: vec![],
      })
      .collect();
    for b in &order {
      for (i, s) in bs[*b].stmts.iter().enumerate() {
        let mut cx = Fcx { sem: self, syms: &syms, later: &later, preds: &preds, doms: &mut doms, reach: &reach_without, b: *b, sp: s.sp };
        let (k, t) = match cx.stmt(&s.k, ret, bs, &bidx, &new) {
          Some(x) => x,
          None => {
            // the definition exists, with an unknown type
            if let Some(d) = &s.def {
              syms.insert(d.clone(), (Op::V(new[b], i), None, *b, i));
            }
            blocks[new[b]].insts.push(Inst { name: None, ty: T::Unit, k: K::Ret(None) });
            continue;
          }
        };
        if let Some(d) = &s.def {
          if t == T::Unit {
            self.bad.push(("unit value bound to a symbol", s.sp));
          }
          syms.insert(d.clone(), (Op::V(new[b], i), Some(t.clone()), *b, i));
        }
        blocks[new[b]].insts.push(Inst { name: s.def.as_deref().and_then(name), ty: t, k });
      }
    }
    self.p.funcs.last_mut().unwrap().blocks = blocks;
  }
  /// Any statement of these blocks may be blamed as well.
  fn more(&mut self, bs: &[Blk], order: &[usize]) {
    for b in order {
      for s in &bs[*b].stmts {
        self.bad.push(("follow-up", s.sp));
      }
    }
  }
}

struct Fcx<'a> {
  sem: &'a mut Sem,
  syms: &'a HashMap<String, (Op, Option<T>, usize, usize)>,
  later: &'a HashMap<String, (usize, usize)>,
  preds: &'a HashMap<usize, Vec<usize>>,
  doms: &'a mut HashMap<usize, HashSet<usize>>,
  reach: &'a dyn Fn(usize) -> HashSet<usize>,
  b: usize,
  sp: Span,
}

impl Fcx<'_> {
  fn bad<X>(&mut self, m: &'static str) -> Option<X> {
    self.sem.bad.push((m, self.sp));
    None
  }
  fn open<X>(&mut self) -> Option<X> {
    self.sem.unsure = Some("use not dominated by its definition");
    self.sem.may.push(self.sp);
    None
  }
  /// Whether `x` can be reached backwards from the current block.
  fn behind(&self, x: usize) -> bool {
    let mut seen = HashSet::new();
    let mut st = vec![self.b];
    while let Some(b) = st.pop() {
      for p in self.preds.get(&b).into_iter().flatten() {
        if *p == x {
          return true;
        }
        if seen.insert(*p) {
          st.push(*p);
        }
      }
    }
    false
  }
  /// Operand and type; `None` when in error or of unknown type.
  fn sym(&mut self, s: &str) -> Option<(Op, T)> {
    if let Some(g) = self.sem.gvars.get(s) {
      return Some((Op::G(*g), T::ptr(self.sem.p.globals[*g].init.ty())));
    }
    match self.syms.get(s) {
      Some((op, t, db, _)) => {
        if *db != self.b {
          let (reach, d) = (self.reach, *db);
          let avoid = self.doms.entry(d).or_insert_with(|| reach(d));
          if avoid.contains(&self.b) {
            if !self.behind(d) {
              return self.bad("symbol not defined before its use");
            }
            return self.open();
          }
        }
        Some((op.clone(), t.clone()?))
      }
      None => {
        if let Some((db, _)) = self.later.get(s) {
          if self.behind(*db) {
            return self.open();
          }
        }
        self.bad("undefined symbol")
      }
    }
  }
  fn val(&mut self, v: &Val, t: &T) -> Option<Op> {
    match v {
      Val::Sym(s) => {
        let (o, st) = self.sym(s)?;
        if st != *t {
          return self.bad("operand type");
        }
        Some(o)
      }
      Val::Const(i) => match init(t, i) {
        Ok(c) => Some(Op::C(c)),
        Err(m) => self.bad(m),
      },
    }
  }
  fn args(&mut self, a: &[Val], ts: &[T]) -> Option<Vec<Op>> {
    if a.len() != ts.len() {
      return self.bad("number of arguments");
    }
    let v: Vec<Option<Op>> = a.iter().zip(ts).map(|(v, t)| self.val(v, t)).collect();
    v.into_iter().collect()
  }
  fn stmt(
    &mut self,
    k: &Sk,
    ret: &T,
    bs: &[Blk],
    bidx: &HashMap<&str, usize>,
    new: &HashMap<usize, usize>,
  ) -> Option<(K, T)> {
    let btys = |s: &str| -> (usize, Vec<T>) {
      let b = bidx[s];
      (new[&b], bs[b].params.iter().map(|p| p.1.clone()).collect())
    };
    Some(match k {
      Sk::Alloc(t) => (K::Alloc, T::ptr(t.clone())),
      Sk::Load(s) => {
        let (o, t) = self.sym(s)?;
        match t {
          T::Ptr(t) => (K::Load(o), (*t).clone()),
          _ => return self.bad("load of a non-pointer"),
        }
      }
      Sk::Store(v, d) => {
        let (o, t) = self.sym(d)?;
        match t {
          T::Ptr(t) => (K::Store(self.val(v, &t)?, o), T::Unit),
          _ => return self.bad("store to a non-pointer"),
        }
      }
      Sk::GetPtr(s, v) => {
        let (o, t) = self.sym(s)?;
        if t.pointee().is_none() {
          return self.bad("getptr of a non-pointer");
        }
        (K::GetPtr(o, self.val(v, &T::I32)?), t)
      }
      Sk::GetElemPtr(s, v) => {
        let (o, t) = self.sym(s)?;
        match t.pointee() {
          Some(T::Arr(e, _)) => (K::GetElemPtr(o, self.val(v, &T::I32)?), T::Ptr(e.clone())),
          _ => return self.bad("getelemptr of a non-array pointer"),
        }
      }
      Sk::Bin(op, a, b) => {
        let a = self.val(a, &T::I32);
        let b = self.val(b, &T::I32);
        (K::Bin(*op, a?, b?), T::I32)
      }
      Sk::Br(c, t, ta, f, fa) => {
        let c = self.val(c, &T::I32);
        let (tb, tt) = btys(t);
        let (fb, ft) = btys(f);
        let x = self.args(ta, &tt);
        let y = self.args(fa, &ft);
        if tb == fb && (!ta.is_empty() || !fa.is_empty()) {
          return self.bad("same target with arguments");
        }
        (K::Br(c?, tb, x?, fb, y?), T::Unit)
      }
      Sk::Jump(t, a) => {
        let (b, ts) = btys(t);
        (K::Jump(b, self.args(a, &ts)?), T::Unit)
      }
      Sk::Call(f, a) => {
        let Some(f) = self.sem.gfuns.get(f).copied() else { return self.bad("undefined function") };
        let ts: Vec<T> = self.sem.p.funcs[f].params.iter().map(|p| p.1.clone()).collect();
        let r = self.sem.p.funcs[f].ret.clone();
        (K::Call(f, self.args(a, &ts)?), r)
      }
      Sk::Ret(v) => match (v, ret) {
        (None, T::Unit) => (K::Ret(None), T::Unit),
        (Some(_), T::Unit) => return self.bad("value returned from a function without value"),
        (None, _) => return self.bad("no value returned"),
        (Some(v), t) => (K::Ret(Some(self.val(v, t)?)), T::Unit),
      },
    })
  }
}

/// Says what a text is.
pub fn judge(text: &[u8]) -> Verdict {
  judge_with(text, &mut vec![])
}

/// The same, with the name and place of every block of a well-formed text that can not be reached.
pub fn judge_with(text: &[u8], skipped: &mut Vec<(String, Span)>) -> Verdict {
  let toks = match lex(text) {
    Ok(t) => t,
    Err(m) => return Verdict::Unsure(m),
  };
  let mut sem = Sem { p: Prog::default(), gvars: HashMap::new(), gfuns: HashMap::new(), bad: vec![], unsure: None, open: None, may: vec![], skipped: vec![] };
  if let Tk::Err(m) = toks[0].k {
    let s = toks[0].s;
    return Verdict::Bad(Bad { class: Class::Lexical, rule: m, spans: vec![(s, s)], first: true, grammar_ok: false });
  }
  let mut ps = Ps { t: &toks, i: 0 };
  loop {
    match ps.item() {
      Ok(None) => break,
      Ok(Some(it)) => {
        sem.item(&it);
        if let Some(m) = sem.open {
          return Verdict::Unsure(m);
        }
        if !sem.bad.is_empty() {
          let rule = sem.bad[0].0;
          let grammar_ok = loop {
            match ps.item() {
              Ok(None) => break true,
              Ok(Some(_)) => {}
              Err(_) => break false,
            }
          };
          return Verdict::Bad(Bad {
            class: Class::Semantic,
            rule,
            spans: sem.bad.iter().map(|b| b.1).chain(sem.may).collect(),
            first: false,
            grammar_ok,
          });
        }
        if let Some(m) = sem.unsure {
          return Verdict::Unsure(m);
        }
      }
      Err(e) => return Verdict::Bad(Bad { class: e.class, rule: e.rule, spans: vec![e.sp], first: false, grammar_ok: false }),
    }
  }
  *skipped = sem.skipped;
  Verdict::Ok(sem.p)
}
