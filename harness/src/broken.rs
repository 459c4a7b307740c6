//! Mutants of well-formed texts, and the checks on what the front end makes
//! of them.

use std::rc::Rc;
use crate::emit::{Need, Role, Tk, Tok, NO};
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::refront::{self, Verdict};
use crate::rng::{fnv, Rng};
use crate::text::lossy;
use crate::{api, emit, gen, verify};

struct M<'a> {
  r: &'a mut Rng,
  t: Vec<Tk>,
}

impl M<'_> {
  fn find(&self, f: impl Fn(&Tok) -> bool) -> Vec<usize> {
    self.t.iter().enumerate().filter(|(_, t)| matches!(t, Tk::S(t) if f(t))).map(|(i, _)| i).collect()
  }
  fn pick(&mut self, f: impl Fn(&Tok) -> bool) -> Option<usize> {
    let v = self.find(f);
    if v.is_empty() {
      None
    } else {
      Some(*self.r.pick(&v))
    }
  }
  /// Any token; half the time, every kind of place is as likely as every other.
  fn pick_any(&mut self) -> Option<usize> {
    if self.r.chance(1, 2) {
      return self.pick(|_| true);
    }
    let class = |t: &Tok| match &t.role {
      Role::Kw | Role::P => t.s.clone(),
      Role::Init(_) => "init".into(),
      Role::Use(_) => "use".into(),
      Role::GDef(_) | Role::ParamDef(_) | Role::BParamDef(_) | Role::ValDef(_) => "def".into(),
      r => format!("{r:?}"),
    };
    // a place: what stands there, and what before it and after it
    let v = self.find(|_| true);
    let mut places: Vec<(String, usize)> = vec![];
    for (k, i) in v.iter().enumerate() {
      let mut c = class(self.tok(*i));
      for j in [k.checked_sub(1), Some(k + 1).filter(|j| *j < v.len())].into_iter().flatten() {
        c += " ";
        c += &class(self.tok(v[j]));
      }
      places.push((c, *i));
    }
    let mut kinds: Vec<&String> = places.iter().map(|p| &p.0).collect();
    kinds.sort();
    kinds.dedup();
    if kinds.is_empty() {
      return None;
    }
    let kind = (*self.r.pick(&kinds)).clone();
    let of: Vec<usize> = places.iter().filter(|p| p.0 == kind).map(|p| p.1).collect();
    Some(*self.r.pick(&of))
  }
  fn tok(&self, i: usize) -> &Tok {
    match &self.t[i] {
      Tk::S(t) => t,
      _ => unreachable!(),
    }
  }
  fn set(&mut self, i: usize, s: impl Into<String>) {
    if let Tk::S(t) = &mut self.t[i] {
      t.s = s.into();
    }
  }
  fn ins(&mut self, i: usize, s: impl Into<String>) {
    let at = (NO, NO, NO);
    self.t.insert(i, Tk::S(Tok { s: s.into(), role: Role::P, at }));
  }
  fn prev(&self, i: usize) -> Option<usize> {
    (0..i).rev().find(|j| matches!(self.t[*j], Tk::S(_)))
  }
  fn next(&self, i: usize) -> Option<usize> {
    (i + 1..self.t.len()).find(|j| matches!(self.t[*j], Tk::S(_)))
  }
  /// Range of the tokens of the statement the token belongs to.
  fn stmt(&self, i: usize) -> (usize, usize) {
    let at = self.tok(i).at;
    let inside = |j: usize| matches!(&self.t[j], Tk::S(t) if t.at == at) || !matches!(self.t[j], Tk::S(_));
    let mut a = i;
    while a > 0 && inside(a - 1) && !matches!(self.t[a - 1], Tk::Nl) {
      a -= 1;
    }
    let mut b = i + 1;
    while b < self.t.len() && inside(b) && !matches!(self.t[b - 1], Tk::Nl) {
      b += 1;
    }
    (a, b)
  }
  /// Range of the whole definition around a token.
  fn item(&self, i: usize) -> (usize, usize) {
    let starts = self.find(|t| t.role == Role::Kw && matches!(t.s.as_str(), "fun" | "decl" | "global"));
    let a = starts.iter().copied().filter(|s| *s <= i).max().unwrap_or(0);
    let b = starts.iter().copied().find(|s| *s > i).unwrap_or(self.t.len());
    (a, b)
  }
}

const STRAY: [&str; 30] = [
  ",", ";", "=", "(", ")", "{", "}", "[", "]", ":", "*", "i32", "undef", "zeroinit", "0", "-1", "%x", "@y", "add", "ret", "jump",
  "br", "alloc", "fun", "global", "decl", "foo", "@1", "%", "/*",
];

/// Names of the mutations.
pub const MUTS: [&str; 39] = [
  "operand to other symbol", "operand to constant", "operand to undefined symbol", "operand to symbol of another function",
  "definition renamed to existing", "definition renamed", "target to other block", "target to entry", "target to undefined",
  "callee to other function", "callee to undefined", "argument added", "argument removed", "type changed", "array length",
  "statement deleted", "statement duplicated", "statements swapped", "token deleted", "token inserted", "token replaced",
  "tokens swapped", "integer out of range", "definition deleted", "definition duplicated", "definition moved to the end",
  "body emptied", "character changed", "initializer changed", "return changed", "terminator added",
  "separator added", "pair added", "targets made equal", "statement bound", "binding removed",
  "operand of a similar type", "type made similar", "symbol respelled throughout",
];

fn mutate(m: &mut M, which: &str) -> Option<()> {
  let is_use = |t: &Tok| matches!(t.role, Role::Use(_));
  let is_def = |t: &Tok| matches!(t.role, Role::GDef(_) | Role::ParamDef(_) | Role::BParamDef(_) | Role::ValDef(_));
  match which {
    "operand to other symbol" => {
      let i = m.pick(is_use)?;
      let f = m.tok(i).at.0;
      let j = m.pick(|t| is_def(t) && (t.at.0 == f || t.at.0 == NO))?;
      let s = m.tok(j).s.clone();
      m.set(i, s);
    }
    "operand to constant" => {
      let i = m.pick(|t| matches!(&t.role, Role::Use(Need::Ptr)) || matches!(&t.role, Role::Use(Need::Exact(t)) if *t != T::I32))
        .or_else(|| m.pick(is_use))?;
      let s = *m.r.pick(&["0", "7", "undef", "zeroinit", "-3"]);
      m.set(i, s);
    }
    "operand to undefined symbol" => {
      let i = m.pick(is_use)?;
      let s = *m.r.pick(&["%nosuch", "@nosuch", "%9999", "%_"]);
      m.set(i, s);
    }
    "operand to symbol of another function" => {
      let i = m.pick(is_use)?;
      let f = m.tok(i).at.0;
      let j = m.pick(|t| is_def(t) && t.at.0 != f || matches!(t.role, Role::BbDef | Role::FnDef))?;
      let s = m.tok(j).s.clone();
      m.set(i, s);
    }
    "definition renamed to existing" => {
      let d = |t: &Tok| is_def(t) || matches!(t.role, Role::BbDef | Role::FnDef);
      let i = m.pick(d)?;
      let f = m.tok(i).at.0;
      let j = if m.r.chance(2, 3) { m.pick(|t| d(t) && t.at.0 == f) } else { m.pick(d) }?;
      let s = m.tok(j).s.clone();
      m.set(i, s);
    }
    "definition renamed" => {
      let i = m.pick(|t| is_def(t) || matches!(t.role, Role::BbDef | Role::FnDef))?;
      m.set(i, "@renamed_here");
    }
    "symbol respelled throughout" => {
      let i = m.pick(|t| is_def(t) || matches!(t.role, Role::BbDef | Role::FnDef))?;
      let s = m.tok(i).s.clone();
      let n = *m.r.pick(&["@1", "@9x", "@0", "%07", "%7_", "%9é", "@é", "%_", "@_1", "%", "@", "@-a", "@a.b", "%٣x", "@a٣"]);
      for k in m.find(|t| t.s == s) {
        m.set(k, n);
      }
    }
    "target to other block" => {
      let i = m.pick(|t| t.role == Role::BbUse)?;
      let f = m.tok(i).at.0;
      let j = m.pick(|t| t.role == Role::BbDef && t.at.0 == f)?;
      let s = m.tok(j).s.clone();
      m.set(i, s);
    }
    "target to entry" => {
      let i = m.pick(|t| t.role == Role::BbUse)?;
      let f = m.tok(i).at.0;
      let j = m.find(|t| t.role == Role::BbDef && t.at.0 == f)[0];
      let s = m.tok(j).s.clone();
      m.set(i, s);
    }
    "target to undefined" => {
      let i = m.pick(|t| t.role == Role::BbUse)?;
      m.set(i, "%nosuchblock");
    }
    "callee to other function" => {
      let i = m.pick(|t| t.role == Role::FnUse)?;
      let j = m.pick(|t| t.role == Role::FnDef)?;
      let s = m.tok(j).s.clone();
      m.set(i, s);
    }
    "callee to undefined" => {
      let i = m.pick(|t| t.role == Role::FnUse)?;
      let f = m.tok(i).at.0;
      let s = if m.r.chance(1, 2) {
        "@nosuchfun".to_string()
      } else {
        let j = m.pick(|t| is_def(t) && (t.at.0 == f || t.at.0 == NO))?;
        m.tok(j).s.clone()
      };
      m.set(i, s);
    }
    "argument added" => {
      let i = m.pick(|t| matches!(t.role, Role::FnUse | Role::BbUse))?;
      let f = m.tok(i).at.0;
      let arg = if m.r.chance(1, 2) {
        "0".to_string()
      } else {
        let j = m.pick(|t| is_def(t) && (t.at.0 == f || t.at.0 == NO))?;
        m.tok(j).s.clone()
      };
      match m.next(i) {
        Some(j) if m.tok(j).s == "(" => {
          let k = m.next(j)?;
          if m.tok(k).s == ")" {
            m.ins(k, arg);
          } else {
            m.ins(j + 1, arg);
            m.ins(j + 2, ",");
          }
        }
        _ => {
          m.ins(i + 1, "(");
          m.ins(i + 2, arg);
          m.ins(i + 3, ")");
        }
      }
    }
    "argument removed" => {
      let at = |t: &Tok| matches!(t.role, Role::FnUse | Role::BbUse);
      let v: Vec<usize> = m.find(at).into_iter().filter(|i| m.next(*i).is_some_and(|j| m.tok(j).s == "(")).collect();
      if v.is_empty() {
        return None;
      }
      let i = *m.r.pick(&v);
      let j = m.next(i)?;
      let k = m.next(j)?;
      if m.tok(k).s == ")" {
        return None;
      }
      let c = m.next(k)?;
      if m.tok(c).s == "," {
        m.t.remove(c);
      }
      m.t.remove(k);
    }
    "type changed" => {
      let i = m.pick(|t| t.s == "i32" && t.role == Role::Kw || t.s == "*" && t.role == Role::P)?;
      if m.tok(i).s == "*" {
        m.t.remove(i);
      } else {
        match m.r.below(5) {
          0 => m.ins(i, "*"),
          1 => m.set(i, "[i32, 2]"),
          2 => m.set(i, "(i32)"),
          3 => m.set(i, "(): i32"),
          _ => m.set(i, "[i32, 1]"),
        }
      }
    }
    "array length" => {
      let i = m.pick(|t| t.role == Role::Len)?;
      let v: i64 = m.tok(i).s.parse().unwrap_or(1);
      let s = match m.r.below(7) {
        0 => "0".into(),
        1 => "-1".into(),
        // out of the range that is specified
        4 => "9223372036854775807".into(),
        5 => m.r.pick(&["2147483647", "2147483648", "4294967296", "4611686018427387904", "1099511627776", "18446744073709551617"]).to_string(),
        2 => v.wrapping_add(1).to_string(),
        3 => v.wrapping_sub(1).to_string(),
        _ => "-2147483648".to_string(),
      };
      m.set(i, s);
    }
    "statement deleted" => {
      let i = m.pick(|t| t.at.0 != NO && t.at.2 != NO)?;
      let (a, b) = m.stmt(i);
      m.t.drain(a..b);
    }
    "statement duplicated" => {
      let i = m.pick(|t| t.at.0 != NO && t.at.2 != NO)?;
      let (a, b) = m.stmt(i);
      let v: Vec<Tk> = m.t[a..b].to_vec();
      let at = if m.r.chance(1, 2) {
        b
      } else {
        let j = m.pick(|t| t.at.0 != NO && t.at.2 != NO)?;
        m.stmt(j).0
      };
      for (k, t) in v.into_iter().enumerate() {
        m.t.insert(at + k, t);
      }
    }
    "statements swapped" => {
      let i = m.pick(|t| t.at.0 != NO && t.at.2 != NO)?;
      let (a, b) = m.stmt(i);
      let f = m.tok(i).at.0;
      let j = m.pick(|t| t.at.0 == f && t.at.2 != NO)?;
      let (c, d) = m.stmt(j);
      if b <= c {
        let (x, y) = (m.t[a..b].to_vec(), m.t[c..d].to_vec());
        m.t.splice(c..d, x);
        m.t.splice(a..b, y);
      } else if d <= a {
        let (x, y) = (m.t[c..d].to_vec(), m.t[a..b].to_vec());
        m.t.splice(a..b, x);
        m.t.splice(c..d, y);
      } else {
        return None;
      }
    }
    "token deleted" => {
      let i = m.pick_any()?;
      m.t.remove(i);
    }
    "token inserted" => {
      let i = m.pick_any()?;
      let s = *m.r.pick(&STRAY);
      m.ins(i, s);
    }
    "token replaced" => {
      let i = m.pick_any()?;
      let s = if m.r.chance(1, 2) {
        m.r.pick(&STRAY).to_string()
      } else {
        let j = m.pick_any()?;
        m.tok(j).s.clone()
      };
      m.set(i, s);
    }
    "tokens swapped" => {
      let i = m.pick_any()?;
      let j = if m.r.chance(1, 2) { m.prev(i)? } else { m.pick_any()? };
      m.t.swap(i, j);
    }
    "integer out of range" => {
      let i = m.pick(|t| t.s.bytes().all(|c| c.is_ascii_digit() || c == b'-'))?;
      let s = *m.r.pick(&["9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-", "--1", "1_0", "0x10"]);
      m.set(i, s);
    }
    "definition deleted" => {
      let i = m.pick(|_| true)?;
      let (a, b) = m.item(i);
      m.t.drain(a..b);
    }
    "definition duplicated" => {
      let i = m.pick(|_| true)?;
      let (a, b) = m.item(i);
      let v = m.t[a..b].to_vec();
      if m.r.chance(1, 2) {
        m.t.extend(v);
      } else {
        m.t.splice(b..b, v);
      }
    }
    "definition moved to the end" => {
      let i = m.pick(|_| true)?;
      let (a, b) = m.item(i);
      let v: Vec<Tk> = m.t.drain(a..b).collect();
      m.t.extend(v);
    }
    "body emptied" => {
      let i = m.pick(|t| t.role == Role::FnDef)?;
      let (_, b) = m.item(i);
      let o = (i..b).find(|j| matches!(&m.t[*j], Tk::S(t) if t.s == "{"))?;
      let c = (o..b).rev().find(|j| matches!(&m.t[*j], Tk::S(t) if t.s == "}"))?;
      m.t.drain(o + 1..c);
    }
    "initializer changed" => {
      let i = m.pick(|t| matches!(t.role, Role::Init(_)))?;
      let s = *m.r.pick(&["0", "undef", "zeroinit", "{1}", "{1, 2}", "{undef, 1, zeroinit}", "{}", "{{0}}", "%x", "{%x}"]);
      m.set(i, s);
    }
    "return changed" => {
      let i = m.pick(|t| t.s == "ret" && t.role == Role::Kw)?;
      let (_, b) = m.stmt(i);
      if m.next(i).is_some_and(|j| j < b) && m.r.chance(1, 2) {
        let j = m.next(i)?;
        m.t.remove(j);
      } else {
        let f = m.tok(i).at.0;
        let j = m.pick(|t| is_def(t) && (t.at.0 == f || t.at.0 == NO));
        let s = j.map_or("0".to_string(), |j| m.tok(j).s.clone());
        if let Some(k) = m.next(i).filter(|k| *k < b) {
          m.set(k, s);
        } else {
          m.t.insert(i + 1, Tk::Same);
          m.ins(i + 2, s);
        }
      }
    }
    "terminator added" => {
      let i = m.pick(|t| t.at.0 != NO && t.at.2 != NO)?;
      let (a, b) = m.stmt(i);
      let f = m.tok(i).at.0;
      let j = m.pick(|t| t.role == Role::BbDef && t.at.0 == f)?;
      let s = m.tok(j).s.clone();
      let at = if m.r.chance(1, 2) { a } else { b };
      m.t.insert(at, Tk::Nl);
      if m.r.chance(1, 2) {
        m.ins(at, "ret");
      } else {
        m.ins(at, s);
        m.ins(at, "jump");
      }
    }
    "separator added" => {
      // next to a bracket or another separator
      let i = m.pick_any()?;
      let near = |s: &str| "()[]{},:=".contains(s);
      let i = if near(&m.tok(i).s) { i } else { m.pick(|t| near(&t.s))? };
      let s = *m.r.pick(&[",", ",", ",", ":", "=", ";"]);
      let at = i + m.r.below(2);
      m.ins(at, s);
    }
    "pair added" => {
      let i = m.pick_any()?;
      let (o, c) = *m.r.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
      // around the token, or empty before or after it
      let k = m.r.below(3);
      m.ins(if k == 0 { i } else { i + (k == 1) as usize }, c);
      m.ins(if k == 0 { i } else { i + (k == 1) as usize }, o);
      if k == 0 {
        m.t.swap(i + 1, i + 2);
      }
    }
    "targets made equal" => {
      let i = m.pick(|t| t.s == "br" && t.role == Role::Kw)?;
      let (a, b) = m.stmt(i);
      let ts: Vec<usize> = m.find(|t| t.role == Role::BbUse).into_iter().filter(|j| (a..b).contains(j)).collect();
      let [x, y] = ts[..] else { return None };
      // the whole of one target in place of the other, arguments included
      let comma = |m: &M, from: usize| (from..b).rev().find(|j| *j < y && matches!(&m.t[*j], Tk::S(t) if t.s == ","));
      let mid = comma(m, x)?;
      let mut end = b;
      while end > y + 1 && !matches!(m.t[end - 1], Tk::S(_)) {
        end -= 1;
      }
      if m.r.chance(1, 2) {
        let v = m.t[x..mid].to_vec();
        m.t.splice(y..end, v);
      } else {
        let v = m.t[y..end].to_vec();
        m.t.splice(x..mid, v);
      }
    }
    "statement bound" => {
      let i = m.pick(|t| t.role == Role::Kw && matches!(t.s.as_str(), "call" | "store" | "br" | "jump" | "ret"))?;
      if m.prev(i).is_some_and(|j| m.tok(j).s == "=") {
        return None;
      }
      let s = *m.r.pick(&["%bound", "@bound", "%0"]);
      m.t.insert(i, Tk::Same);
      m.ins(i, "=");
      m.ins(i, s);
    }
    "operand of a similar type" => {
      let i = m.pick(|t| matches!(&t.role, Role::Use(Need::Exact(t)) if *t != T::I32) || matches!(t.role, Role::Use(Need::Ptr)) && t.s.starts_with(['%', '@']))
        .or_else(|| m.pick(is_use))?;
      let t = match &m.tok(i).role {
        Role::Use(Need::Exact(t)) => t.clone(),
        // the type of the definition
        _ => {
          let (f, n) = (m.tok(i).at.0, m.tok(i).s.clone());
          let j = m.pick(|t| is_def(t) && t.s == n && (t.at.0 == f || t.at.0 == NO))?;
          match &m.tok(j).role {
            Role::GDef(t) | Role::ParamDef(t) | Role::BParamDef(t) | Role::ValDef(t) => t.clone(),
            _ => return None,
          }
        }
      };
      let t = similar(m.r, &t);
      let (a, _) = m.stmt(i);
      let n = *m.r.pick(&["%similar", "@similar"]);
      m.set(i, n);
      m.t.insert(a, Tk::Nl);
      m.ins(a, format!("{n} = load @similar_to"));
      m.t.insert(0, Tk::Nl);
      m.ins(0, format!("global @similar_to = alloc {t}, zeroinit"));
    }
    "type made similar" => {
      // where a type is written after a name
      let d = |t: &Tok| match &t.role {
        Role::ParamDef(t) | Role::BParamDef(t) => Some(t.clone()),
        _ => None,
      };
      let i = m.pick(|t| d(t).is_some_and(|t| t != T::I32)).or_else(|| m.pick(|t| d(t).is_some()))?;
      let t = d(m.tok(i))?;
      let t = similar(m.r, &t);
      let c = m.next(i).filter(|j| m.tok(*j).s == ":")?;
      // the type ends before the separator or the bracket that closes the list
      let (mut depth, mut e) = (0, c);
      loop {
        e = m.next(e)?;
        match m.tok(e).s.as_str() {
          "(" | "[" => depth += 1,
          ")" | "]" if depth > 0 => depth -= 1,
          ")" => break,
          "," if depth == 0 => break,
          _ => {}
        }
      }
      m.t.drain(c + 1..e);
      m.ins(c + 1, t.to_string());
    }
    "binding removed" => {
      let i = m.pick(|t| t.s == "=" && t.at.2 != NO)?;
      let j = m.prev(i)?;
      m.t.drain(j..=i);
    }
    _ => return None,
  }
  Some(())
}

/// A type that is nearly the given one.
fn similar(r: &mut Rng, t: &T) -> T {
  let p = |t: T| T::Ptr(Rc::new(t));
  match t {
    T::I32 | T::Unit => match r.below(3) {
      0 => T::Arr(Rc::new(T::I32), 1),
      1 => p(T::I32),
      _ => T::Fun(vec![], Rc::new(T::I32)),
    },
    T::Ptr(b) => match r.below(6) {
      0 => p(t.clone()),
      1 => (**b).clone(),
      _ => p(similar(r, b)),
    },
    T::Arr(e, n) => match (r.below(5), &**e) {
      (0, T::Arr(x, m)) => T::Arr(Rc::new(T::Arr(x.clone(), *n)), *m),
      (1, T::Arr(x, m)) => T::Arr(x.clone(), n.saturating_mul(*m).min(1 << 30)),
      (0 | 1, _) => p((**e).clone()),
      (2, _) => T::Arr(e.clone(), n + 1),
      (3, _) if *n > 1 => T::Arr(e.clone(), n - 1),
      _ => T::Arr(Rc::new(similar(r, e)), *n),
    },
    T::Fun(ps, ret) => {
      let mut ps = ps.clone();
      let mut ret = ret.clone();
      match r.below(6) {
        0 => {
          let at = r.below(ps.len() + 1);
          ps.insert(at, T::I32);
        }
        1 if !ps.is_empty() => {
          let at = r.below(ps.len());
          ps.remove(at);
        }
        2 if ps.len() > 1 => ps.reverse(),
        3 | 4 if !ps.is_empty() => {
          let at = r.below(ps.len());
          ps[at] = similar(r, &ps[at]);
        }
        _ => ret = Rc::new(if *ret == T::Unit { T::I32 } else if r.chance(1, 2) { T::Unit } else { similar(r, &ret) }),
      }
      T::Fun(ps, ret)
    }
  }
}

/// A text with (usually) one thing changed, and the name of the change.
pub fn mutant(r: &mut Rng, n: usize) -> (&'static str, Vec<u8>) {
  loop {
    let mut cfg = Cfg::text(r);
    if r.chance(2, 3) {
      cfg.max_blocks = cfg.max_blocks.min(5);
      cfg.max_insts = cfg.max_insts.min(6);
    }
    let p = gen::gen(r, &cfg);
    let st = emit::Style { wild: r.chance(1, 2), shuffle: r.chance(1, 2), dead: r.chance(1, 4) };
    let t = emit::tokens(&p, r, &st);
    let mut m = M { r, t };
    let which = *m.r.pick(&MUTS);
    let mut done = which == "character changed";
    for _ in 0..n {
      done |= mutate(&mut m, which).is_some();
    }
    if !done {
      continue;
    }
    let t = std::mem::take(&mut m.t);
    let mut s = emit::join(&t, r, st.wild).into_bytes();
    if which == "character changed" && !s.is_empty() {
      for _ in 0..n {
        let i = r.below(s.len());
        match r.below(4) {
          0 => {
            s.remove(i);
          }
          1 => s.insert(i, *r.pick(b" \n\t(){}[],:=*@%/019axz_-;$#\"'!")),
          2 => s[i] = *r.pick(b" \n(){}[],:=*@%/019axz_-;$"),
          _ => s.truncate(i.max(1)),
        }
        if s.is_empty() {
          s.push(b' ');
        }
      }
    }
    return (which, s);
  }
}

fn c03(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C03", idx);
  let (which, s) = mutant(&mut r, 1);
  cx.what = format!("[{which}]\n{}", lossy(&s));
  cx.count("mutants");
  match refront::judge(&s) {
    Verdict::Ok(_) => cx.count("mutants still well-formed"),
    Verdict::Unsure(m) => cx.count(&format!("left open: {m}")),
    Verdict::Bad(b) => {
      cx.count(&format!("ill-formed ({:?}): {}", b.class, b.rule));
      cx.count(&format!("ill-formed by mutation: {which}"));
      cx.shape(fnv(&s));
      let e0 = koopa::front::span::Span::error_num();
      let res = api::parse(&s);
      let n = koopa::front::span::Span::error_num();
      let _ = e0;
      if idx < 40 {
        cx.sample(|| format!("[{which}; {}]\n{}", b.rule, lossy(&s)));
      }
      match res {
        Ok(_) => cx.fail(
          format!("ill-formed text accepted: {}", b.rule),
          format!("[{which}; {:?}: {} at {:?}]\n{}", b.class, b.rule, b.spans.first(), lossy(&s)),
        ),
        Err(_) if n == 0 => cx.fail("text rejected without counting an error", cx.what.clone()),
        Err(_) => {}
      }
    }
  }
}

fn c05(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C05", idx);
  let n = r.range(1, 3);
  let (which, s) = mutant(&mut r, n);
  cx.what = format!("[{which}]\n{}", lossy(&s));
  cx.count("texts");
  let verdict = refront::judge(&s);
  match api::parse(&s) {
    Err(_) => {
      cx.count("texts rejected");
      if let Verdict::Ok(_) = verdict {
        cx.fail("well-formed text rejected", cx.what.clone());
      }
    }
    Ok(p) => {
      cx.count("programs verified");
      cx.shape(fnv(&s));
      if let Err(e) = verify::verify(&p) {
        return cx.fail(format!("accepted program is ill-formed: {e}"), cx.what.clone());
      }
      match verdict {
        Verdict::Ok(m) => {
          cx.count("programs compared with the reference reading");
          match api::extract(&p) {
            Err(e) => cx.fail("accepted program is broken", format!("{e}\n{}", cx.what)),
            Ok(g) => {
              if let Some(d) = diff(&m, &g) {
                cx.fail("program differs from the text", format!("{d}\n{}", cx.what));
              }
            }
          }
        }
        Verdict::Bad(b) => cx.fail(format!("ill-formed text accepted: {}", b.rule), cx.what.clone()),
        Verdict::Unsure(m) => {
          cx.count(&format!("accepted, meaning left open: {m}"));
          // whatever it means, it must be a well-formed program with a text
          match api::dump_koopa(&p) {
            Ok(_) => {}
            Err(e) => cx.fail("accepted program can not be dumped", format!("{e}\n{}", cx.what)),
          }
        }
      }
    }
  }
}

const A: &[&str] = &["which texts are ill-formed is decided by this harness' own reading of the language; texts it leaves open (uses not dominated by their definition, entry blocks with parameters, integers outside 32 bits, non-ASCII identifiers) are not judged"];

pub static CHECKS: &[&Check] = &[
  &Check { id: "C03", rule: "one random change (31 kinds, semantic and grammatical) to a random well-formed text; an independent reference front end decides whether the result is ill-formed, and the library must then reject it and count an error; non-trivial: ill-formed, distinct by text", cases: (320000, 3000000), limit: (200, 1800), case: c03, workers: 0, assumptions: A },
  &Check { id: "C05", rule: "one to three random changes to a random well-formed text; whenever the library accepts, an independent verifier checks every rule and user set of the program, and the reference front end the meaning; non-trivial: accepted, distinct by text", cases: (360000, 2000000), limit: (200, 1800), case: c05, workers: 0, assumptions: A },
];
