//! C24: tokens and syntax trees are what is written, where it is written.

use crate::emit::{self, Style};
use crate::fw::*;
use crate::gen::{self, Cfg};
use crate::refront::{self, Tk, Tok};
use crate::rng::{fnv, Rng};
use crate::{api, emit::Tk as E};
use koopa::front::ast::{Ast, AstKind as K};
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::token::{Token, TokenKind};
use std::io::Read;

fn same(t: &Token, want: &Tok) -> bool {
  match (&t.kind, &want.k) {
    (TokenKind::Int(a), Tk::Int(b)) => a == b,
    (TokenKind::Symbol(a), Tk::Sym(b)) => a == b,
    (TokenKind::Keyword(a), Tk::Kw(b)) => a.to_string() == *b && format!("{a:?}").to_lowercase() == *b,
    (TokenKind::BinaryOp(a), Tk::Bin(b)) => api::from_bop(*a) == *b,
    (TokenKind::Other(a), Tk::Ch(b)) => a == b,
    (TokenKind::End, Tk::End) => true,
    _ => false,
  }
}

fn span(s: (u32, u32), e: (u32, u32)) -> String {
  format!("{}:{}-{}:{}", s.0, s.1, e.0, e.1)
}

struct Src<F>(F);

impl<F: FnMut(&mut [u8]) -> std::io::Result<usize>> Read for Src<F> {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    (self.0)(b)
  }
}

/// The tokens of `text` as the lexer reports them.
fn lexed(text: &str, want: &[Tok]) -> Result<(), String> {
  // what comes after the end of the text is no part of it
  let mut text = text.as_bytes();
  let mut ended = false;
  let mut l = Lexer::new(Src(move |b: &mut [u8]| {
    if text.is_empty() && !ended {
      ended = true;
      return Ok(0);
    }
    if ended {
      text = b"ret 0 ";
    }
    text.read(b)
  }));
  for (i, w) in want.iter().enumerate() {
    let t = l.next_token().map_err(|e| format!("token {i} ({:?}): error {e:?}", w.k))?;
    if !same(&t, w) {
      return Err(format!("token {i} is {:?}, found {:?}", w.k, t.kind));
    }
    let (a, b) = (span(w.s, w.e), format!("{:?}", t.span));
    if a != b {
      return Err(format!("token {i} ({:?}) is at {a}, reported at {b}", w.k));
    }
  }
  // the end stays the end
  for _ in 0..2 {
    let t = l.next_token().map_err(|e| format!("after the end: error {e:?}"))?;
    if t.kind != TokenKind::End {
      return Err(format!("after the end: {:?}", t.kind));
    }
  }
  Ok(())
}

/// Consumes the tokens a tree stands for.
struct Walk<'a> {
  t: &'a [Tok],
  i: usize,
  nodes: u64,
  /// Ranges of tokens that can be left out (first) or repeated,
  /// with the separator for the latter.
  parts: Vec<(bool, usize, usize, &'static str)>,
}

type R = Result<(), String>;

impl Walk<'_> {
  fn eat(&mut self, k: Tk) -> R {
    if self.t[self.i].k != k {
      let t = &self.t[self.i];
      return Err(format!("the text has {:?} at {}:{}, the tree {k:?}", t.k, t.s.0, t.s.1));
    }
    self.i += 1;
    Ok(())
  }
  fn ch(&mut self, c: char) -> R {
    self.eat(Tk::Ch(c))
  }
  fn kw(&mut self, s: &str) -> R {
    self.eat(Tk::Kw(s.into()))
  }
  fn sym(&mut self, s: &str) -> R {
    self.eat(Tk::Sym(s.into()))
  }
  fn at(&self, c: char) -> bool {
    self.t[self.i].k == Tk::Ch(c)
  }
  /// An element of a list of `n` has been read.
  fn element(&mut self, from: usize, i: usize, n: usize, least: usize) {
    self.parts.push((false, from, self.i, ", "));
    if n > least {
      self.parts.push((true, from - (i > 0) as usize, self.i + (i == 0 && n > 1) as usize, " "));
    }
  }
  fn list<X>(&mut self, xs: &[X], f: impl Fn(&mut Self, &X) -> R) -> R {
    self.ch('(')?;
    for (i, x) in xs.iter().enumerate() {
      if i > 0 {
        self.ch(',')?;
      }
      let from = self.i;
      f(self, x)?;
      self.element(from, i, xs.len(), 0);
    }
    self.ch(')')
  }
  fn opt_list<X>(&mut self, xs: &[X], f: impl Fn(&mut Self, &X) -> R) -> R {
    if xs.is_empty() && !self.at('(') {
      return Ok(());
    }
    self.list(xs, f)
  }
  fn ret(&mut self, r: &Option<Box<Ast>>) -> R {
    match r {
      Some(t) => {
        self.ch(':')?;
        self.node(t)
      }
      None if self.at(':') => Err("a return type is missing in the tree".into()),
      None => Ok(()),
    }
  }
  fn param(&mut self, p: &(String, Box<Ast>)) -> R {
    self.sym(&p.0)?;
    self.ch(':')?;
    self.node(&p.1)
  }

  fn node(&mut self, a: &Ast) -> R {
    let from = self.i;
    self.nodes += 1;
    match &a.kind {
      K::IntType(_) => self.kw("i32")?,
      K::ArrayType(t) => {
        self.ch('[')?;
        self.node(&t.base)?;
        self.ch(',')?;
        self.eat(Tk::Int(t.len as i64))?;
        self.ch(']')?;
      }
      K::PointerType(t) => {
        self.ch('*')?;
        self.node(&t.base)?;
      }
      K::FunType(t) => {
        self.list(&t.params, |s, p| s.node(p))?;
        self.ret(&t.ret)?;
      }
      K::SymbolRef(s) => self.sym(&s.symbol)?,
      K::IntVal(i) => self.eat(Tk::Int(i.value as i64))?,
      K::UndefVal(_) => self.kw("undef")?,
      K::ZeroInit(_) => self.kw("zeroinit")?,
      K::Aggregate(x) => {
        self.ch('{')?;
        for (i, e) in x.elems.iter().enumerate() {
          if i > 0 {
            self.ch(',')?;
          }
          let from = self.i;
          self.node(e)?;
          self.element(from, i, x.elems.len(), 1);
        }
        self.ch('}')?;
      }
      K::SymbolDef(d) => {
        self.sym(&d.name)?;
        self.ch('=')?;
        self.node(&d.value)?;
      }
      K::GlobalDef(d) => {
        self.kw("global")?;
        self.sym(&d.name)?;
        self.ch('=')?;
        self.node(&d.value)?;
      }
      K::MemDecl(d) => {
        self.kw("alloc")?;
        self.node(&d.ty)?;
      }
      K::GlobalDecl(d) => {
        self.kw("alloc")?;
        self.node(&d.ty)?;
        self.ch(',')?;
        self.node(&d.init)?;
      }
      K::Load(l) => {
        self.kw("load")?;
        self.sym(&l.symbol)?;
      }
      K::Store(s) => {
        self.kw("store")?;
        self.node(&s.value)?;
        self.ch(',')?;
        self.sym(&s.symbol)?;
      }
      K::GetPointer(g) => {
        self.kw("getptr")?;
        self.sym(&g.symbol)?;
        self.ch(',')?;
        self.node(&g.value)?;
      }
      K::GetElementPointer(g) => {
        self.kw("getelemptr")?;
        self.sym(&g.symbol)?;
        self.ch(',')?;
        self.node(&g.value)?;
      }
      K::BinaryExpr(b) => {
        self.eat(Tk::Bin(api::from_bop(b.op)))?;
        self.node(&b.lhs)?;
        self.ch(',')?;
        self.node(&b.rhs)?;
      }
      K::Branch(b) => {
        self.kw("br")?;
        self.node(&b.cond)?;
        self.ch(',')?;
        self.sym(&b.tbb)?;
        self.opt_list(&b.targs, |s, a| s.node(a))?;
        self.ch(',')?;
        self.sym(&b.fbb)?;
        self.opt_list(&b.fargs, |s, a| s.node(a))?;
      }
      K::Jump(j) => {
        self.kw("jump")?;
        self.sym(&j.target)?;
        self.opt_list(&j.args, |s, a| s.node(a))?;
      }
      K::FunCall(c) => {
        self.kw("call")?;
        self.sym(&c.fun)?;
        self.list(&c.args, |s, a| s.node(a))?;
      }
      K::Return(r) => {
        self.kw("ret")?;
        if let Some(v) = &r.value {
          self.node(v)?;
        }
      }
      K::FunDef(f) => {
        self.kw("fun")?;
        self.sym(&f.name)?;
        self.list(&f.params, |s, p| s.param(p))?;
        self.ret(&f.ret)?;
        self.ch('{')?;
        for b in &f.bbs {
          let from = self.i;
          self.node(b)?;
          self.parts.push((false, from, self.i, "\n"));
          if f.bbs.len() > 1 {
            self.parts.push((true, from, self.i, "\n"));
          }
        }
        self.ch('}')?;
      }
      K::Block(b) => {
        self.sym(&b.name)?;
        self.opt_list(&b.params, |s, p| s.param(p))?;
        self.ch(':')?;
        for (i, st) in b.stmts.iter().enumerate() {
          let from = self.i;
          self.node(st)?;
          if i + 1 < b.stmts.len() {
            self.parts.push((false, from, self.i, "\n"));
            self.parts.push((true, from, self.i, "\n"));
          }
        }
      }
      K::FunDecl(d) => {
        self.kw("decl")?;
        self.sym(&d.name)?;
        self.list(&d.params, |s, p| s.node(p))?;
        self.ret(&d.ret)?;
      }
      K::End(_) => self.eat(Tk::End)?,
      K::Error(_) => return Err("error node".into()),
    }
    let (a_, b) = (span(self.t[from].s, self.t[self.i - 1].e), format!("{:?}", a.span));
    if a_ != b {
      return Err(format!("{} is at {a_}, reported at {b}", format!("{:?}", a.kind).split('(').next().unwrap()));
    }
    Ok(())
  }
}

fn parsed(text: &str) -> Result<Vec<Box<Ast>>, String> {
  let mut p = Parser::new(Lexer::new(text.as_bytes())).map_err(|e| format!("{e:?}"))?;
  let mut v = vec![];
  loop {
    let a = p.parse_next().map_err(|e| format!("{e:?}"))?;
    let end = matches!(a.kind, K::End(_));
    v.push(a);
    if end {
      // and no more
      let a = p.parse_next().map_err(|e| format!("after the end: {e:?}"))?;
      return if matches!(a.kind, K::End(_)) { Ok(v) } else { Err("items after the end".into()) };
    }
  }
}

/// Another token of the same class in the place of one.
fn other(ts: &[E], r: &mut Rng) -> Option<Vec<E>> {
  for _ in 0..20 {
    let at = r.below(ts.len());
    let E::S(t) = &ts[at] else { continue };
    let new = if t.is_sym() {
      let o = ts.iter().filter_map(|x| if let E::S(x) = x { Some(&x.s) } else { None }).filter(|s| s.starts_with(['@', '%'])).collect::<Vec<_>>();
      match r.below(3) {
        0 => format!("{}9", t.s.replace("%0", "%z")),
        _ => r.pick(&o).to_string(),
      }
    } else if let Ok(i) = t.s.parse::<i32>() {
      match r.below(3) {
        0 => i.wrapping_add(1),
        1 => i.wrapping_neg(),
        _ => i ^ 1 << r.below(31),
      }
      .to_string()
    } else if crate::model::BOPS.iter().any(|o| o.1 == t.s) {
      r.pick(&crate::model::BOPS).1.to_string()
    } else if t.s == "undef" || t.s == "zeroinit" {
      "0".to_string()
    } else {
      continue;
    };
    let num = |s: &str| s.parse::<i64>().ok();
    if new == t.s || num(&new).is_some() && num(&new) == num(&t.s) {
      continue;
    }
    let mut ts = ts.to_vec();
    let E::S(t) = &mut ts[at] else { unreachable!() };
    t.s = new;
    return Some(ts);
  }
  None
}

fn c24(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C24", idx);
  let mut cfg = Cfg::text(&mut r);
  if r.chance(1, 2) {
    cfg.max_funcs = cfg.max_funcs.min(2);
  }
  let m = gen::gen(&mut r, &cfg);
  let st = Style { wild: r.chance(3, 4), shuffle: r.chance(1, 2), dead: r.chance(1, 3) };
  let ts = emit::tokens(&m, &mut r, &st);
  let text = emit::join(&ts, &mut r, st.wild);
  cx.what = text.clone();
  let Ok(want) = refront::lex(text.as_bytes()) else { return cx.count("texts left open") };
  if want.last().is_some_and(|t| matches!(t.k, Tk::Err(_))) {
    return cx.count("texts left open");
  }
  cx.add("tokens compared", want.len() as u64);
  if let Err(e) = lexed(&text, &want) {
    return cx.fail("wrong token", format!("{e}\n{text}"));
  }
  let trees = match parsed(&text) {
    Ok(t) => t,
    Err(e) => return cx.fail("well-formed text refused", format!("{e}\n{text}")),
  };
  let mut w = Walk { t: &want, i: 0, nodes: 0, parts: vec![] };
  for t in &trees {
    if let Err(e) = w.node(t) {
      return cx.fail("wrong tree", format!("{e}\n{text}"));
    }
  }
  cx.add("tree nodes compared", w.nodes);
  cx.add("items", trees.len() as u64 - 1);
  if ts.len() > 20 {
    cx.shape(fnv(format!("{:?}", ts.iter().filter_map(|t| if let E::S(t) = t { Some(&t.s) } else { None }).collect::<Vec<_>>()).as_bytes()));
  }
  // the same tokens, laid out in another way
  let wild = !st.wild || r.chance(1, 2);
  let again = emit::join(&ts, &mut r, wild);
  match parsed(&again) {
    Ok(t) if t == trees => cx.count("layouts compared"),
    Ok(_) => return cx.fail("the tree depends on the layout", format!("{text}\n---\n{again}")),
    Err(e) => return cx.fail("well-formed text refused", format!("{e}\n{again}")),
  }
  // one token changed
  for _ in 0..3 {
    let Some(ts) = other(&ts, &mut r) else { break };
    let changed = emit::join(&ts, &mut r, st.wild);
    if let Ok(t) = parsed(&changed) {
      cx.count("trees with one token changed");
      if t == trees {
        return cx.fail("trees of different texts are equal", format!("{text}\n---\n{changed}"));
      }
    }
  }
  // one part left out or repeated
  let starts: Vec<usize> = std::iter::once(0).chain(text.bytes().enumerate().filter(|b| b.1 == b'\n').map(|b| b.0 + 1)).collect();
  let at = |p: (u32, u32)| starts[p.0 as usize - 1] + p.1 as usize - 1;
  for _ in 0..3 {
    if w.parts.is_empty() {
      break;
    }
    let (cut, from, to, sep) = *r.pick(&w.parts);
    let (a, b) = (at(want[from].s), at(want[to - 1].e) + 1);
    let (head, part, tail) = (&text[..a], &text[a..b], &text[b..]);
    let changed = if cut { format!("{head}{sep}{tail}") } else { format!("{head}{part}{sep}{part}\n{tail}") };
    match parsed(&changed) {
      Ok(t) => {
        cx.count(if cut { "trees with one part left out" } else { "trees with one part repeated" });
        if t == trees {
          return cx.fail("trees of different texts are equal", format!("{text}\n---\n{changed}"));
        }
      }
      Err(e) => return cx.fail("well-formed text refused", format!("{e}\n{changed}")),
    }
  }
  // any sequence of tokens
  let mut soup: Vec<E> = ts.iter().filter(|t| matches!(t, E::S(_))).cloned().collect();
  r.shuffle(&mut soup);
  soup.truncate(r.range(1, 60));
  let soup = emit::join(&soup, &mut r, true);
  if let Ok(want) = refront::lex(soup.as_bytes()) {
    // up to the first error
    let n = want.iter().position(|t| matches!(t.k, Tk::Err(_)));
    match n {
      None => {
        cx.add("tokens compared", want.len() as u64);
        cx.count("token soups");
        if let Err(e) = lexed(&soup, &want) {
          return cx.fail("wrong token", format!("{e}\n{soup}"));
        }
      }
      Some(_) => cx.count("token soups left open"),
    }
  }
  cx.sample(|| text.clone());
}

pub static CHECKS: &[&Check] = &[&Check {
  id: "C24",
  rule: "generated texts in several layouts, the same with one token changed, with one argument, element, parameter, statement or block left out or repeated, and shuffled tokens: every token and every node of every tree is compared, with its place, with an independent division of the text into tokens; non-trivial: more than 20 tokens, distinct by tokens",
  cases: (60000, 2000000),
  limit: (60, 1200),
  case: c24,
  workers: 0,
  assumptions: &["positions are counted in bytes", "the place of the end of the input is that of its last character"],
}];
