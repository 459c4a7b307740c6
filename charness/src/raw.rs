//! C12 and C13: raw programs as a C client sees and makes them.

use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{fnv, Rng};
use crate::text::observe;
use crate::{api, emit, gen, verify};
use koopa::ir::Program;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

// the interface must be linked in
use lkoopa as _;

extern "C" {
  fn lk_walk(raw: *const c_void) -> *mut c_char;
  fn lk_free(p: *mut c_char);
  fn lk_builder() -> *mut c_void;
  fn lk_builder_delete(b: *mut c_void);
  fn lk_build(b: *mut c_void, p: *const c_void) -> *mut c_void;
  fn lk_raw_free(r: *mut c_void);
  fn lk_generate(raw: *const c_void, program: *mut *const c_void) -> c_int;
  fn lk_delete(p: *const c_void);
  fn lk_code(i: c_int) -> c_int;
  fn lk_lay(raw: *const c_void, flags: c_uint, seed: u64, brk: c_int, at: c_long, sites: *mut c_long) -> *mut c_void;
  fn lk_laid_free(l: *mut c_void);
}

const SENTINEL: usize = 0x5a5a5a5a;

pub fn walk(raw: *const c_void) -> String {
  unsafe {
    let p = lk_walk(raw);
    let s = CStr::from_ptr(p).to_str().expect("walk").to_string();
    lk_free(p);
    s
  }
}

pub fn code_name(c: i32) -> &'static str {
  let names = [
    "success", "invalid utf-8", "invalid file", "invalid program", "io error", "null byte", "insufficient buffer",
    "slice kind mismatch", "null pointer", "type mismatch", "parameter count mismatch",
  ];
  for (i, n) in names.iter().enumerate() {
    if unsafe { lk_code(i as c_int) } == c {
      return n;
    }
  }
  "unknown code"
}

// --- reading what the walker wrote

type Id = String;

struct Slice {
  kind: String,
  items: Vec<Id>,
}

struct RTy<'a>(Vec<&'a str>);

struct RFn {
  ty: Id,
  name: Option<String>,
  params: Slice,
  bbs: Slice,
}

struct RBb {
  name: Option<String>,
  params: Slice,
  used_by: Slice,
  insts: Slice,
}

struct RVal<'a> {
  ty: Id,
  name: Option<String>,
  used_by: Slice,
  tag: &'a str,
  rest: Vec<&'a str>,
}

#[derive(Default)]
pub struct Raw<'a> {
  values: Option<Slice>,
  funcs: Option<Slice>,
  tys: HashMap<Id, RTy<'a>>,
  fns: HashMap<Id, RFn>,
  bbs: HashMap<Id, RBb>,
  vals: HashMap<Id, RVal<'a>>,
}

struct Cur<'a>(std::vec::IntoIter<&'a str>);

fn cur<'a>(w: &[&'a str]) -> Cur<'a> {
  Cur(w.to_vec().into_iter())
}

impl<'a> Cur<'a> {
  fn next(&mut self) -> Result<&'a str, String> {
    self.0.next().ok_or_else(|| "record too short".to_string())
  }
  fn slice(&mut self) -> Result<Slice, String> {
    let kind = self.next()?.to_string();
    let n: usize = self.next()?.parse().map_err(|_| "bad length".to_string())?;
    let items = (0..n).map(|_| self.next().map(|s| s.to_string())).collect::<Result<_, _>>()?;
    Ok(Slice { kind, items })
  }
  fn name(&mut self) -> Result<Option<String>, String> {
    let s = self.next()?;
    if s == "-" {
      return Ok(None);
    }
    let h = s[1..].as_bytes();
    let b: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    String::from_utf8(b).map(Some).map_err(|_| "name is not UTF-8".into())
  }
}

pub fn read(s: &str) -> Result<Raw<'_>, String> {
  let mut r = Raw::default();
  for l in s.lines() {
    let w: Vec<&str> = l.split(' ').collect();
    let mut c = cur(&w[1..]);
    match w[0] {
      "P" => {
        r.values = Some(c.slice()?);
        r.funcs = Some(c.slice()?);
      }
      "T" => {
        let id = c.next()?.to_string();
        r.tys.insert(id, RTy(w[2..].to_vec()));
      }
      "F" => {
        let id = c.next()?.to_string();
        let f = RFn { ty: c.next()?.to_string(), name: c.name()?, params: c.slice()?, bbs: c.slice()? };
        r.fns.insert(id, f);
      }
      "B" => {
        let id = c.next()?.to_string();
        let b = RBb { name: c.name()?, params: c.slice()?, used_by: c.slice()?, insts: c.slice()? };
        r.bbs.insert(id, b);
      }
      _ => {
        let id = c.next()?.to_string();
        let (ty, name, used_by, tag) = (c.next()?.to_string(), c.name()?, c.slice()?, c.next()?);
        r.vals.insert(id, RVal { ty, name, used_by, tag, rest: c.0.collect() });
      }
    }
  }
  Ok(r)
}

impl Raw<'_> {
  fn ty(&self, id: &str) -> Result<T, String> {
    let t = self.tys.get(id).ok_or_else(|| format!("type {id} is missing"))?;
    let mut c = cur(&t.0);
    Ok(match c.next()? {
      "i32" => T::I32,
      "unit" => T::Unit,
      "array" => {
        let b = self.ty(c.next()?)?;
        T::arr(b, c.next()?.parse().map_err(|_| "length")?)
      }
      "pointer" => T::ptr(self.ty(c.next()?)?),
      "function" => {
        let ps = c.slice()?;
        if ps.kind != "type" {
          return Err(format!("parameter types are a list of kind {}", ps.kind));
        }
        let r = c.next()?;
        T::fun(ps.items.iter().map(|p| self.ty(p)).collect::<Result<_, _>>()?, self.ty(r)?)
      }
      x => return Err(format!("type tag {x}")),
    })
  }

  fn of_kind<'b>(&self, s: &'b Slice, k: &str) -> Result<&'b [Id], String> {
    if s.kind != k {
      return Err(format!("list of kind {} where {k} is due", s.kind));
    }
    Ok(&s.items)
  }

  fn konst(&self, id: &str) -> Result<C, String> {
    let v = self.vals.get(id).ok_or("constant is missing")?;
    let ty = self.ty(&v.ty)?;
    if v.name.is_some() {
      return Err("constant has a name".into());
    }
    let c = match v.tag {
      "integer" => C::Int(v.rest[0].parse().map_err(|_| "integer")?),
      "zeroinit" => C::Zero(ty.clone()),
      "undef" => C::Undef(ty.clone()),
      "aggregate" => {
        let e = cur(&v.rest).slice()?;
        C::Agg(self.of_kind(&e, "value")?.iter().map(|e| self.konst(e)).collect::<Result<_, _>>()?)
      }
      t => return Err(format!("{t} where a constant or placed value is due")),
    };
    if c.ty() != ty {
      return Err(format!("constant of type {} is said to have type {ty}", c.ty()));
    }
    Ok(c)
  }

  /// The program in model form.
  pub fn model(&self) -> Result<Prog, String> {
    let mut m = Prog::default();
    let mut ops: HashMap<&str, Op> = HashMap::new();
    for (i, g) in self.of_kind(self.values.as_ref().unwrap(), "value")?.iter().enumerate() {
      let v = &self.vals[g];
      if v.tag != "global" {
        return Err(format!("global value is {}", v.tag));
      }
      let init = self.konst(v.rest[0])?;
      if self.ty(&v.ty)? != T::ptr(init.ty()) {
        return Err("type of a global".into());
      }
      m.globals.push(Glob { name: v.name.clone(), init });
      ops.insert(g, Op::G(i));
    }
    let fs = self.of_kind(self.funcs.as_ref().unwrap(), "function")?;
    let fidx: HashMap<&str, usize> = fs.iter().enumerate().map(|(i, f)| (f.as_str(), i)).collect();
    for f in fs {
      let f = &self.fns[f];
      let T::Fun(pt, ret) = self.ty(&f.ty)? else { return Err("type of a function".into()) };
      let ps = self.of_kind(&f.params, "value")?;
      let bbs = self.of_kind(&f.bbs, "block")?;
      let mut fun = Fun { name: f.name.clone().ok_or("function has no name")?, params: vec![], ret: (*ret).clone(), blocks: vec![] };
      if bbs.is_empty() {
        if !ps.is_empty() {
          return Err("declaration has parameter values".into());
        }
        fun.params = pt.iter().map(|t| (None, t.clone())).collect();
      } else {
        if ps.len() != pt.len() {
          return Err("number of parameters".into());
        }
        for (i, (p, t)) in ps.iter().zip(pt.iter()).enumerate() {
          let v = &self.vals[p];
          if v.tag != "farg" || v.rest[0] != i.to_string() || self.ty(&v.ty)? != *t {
            return Err(format!("parameter {i} is {} {:?} of type {}", v.tag, v.rest, self.ty(&v.ty)?));
          }
          fun.params.push((v.name.clone(), t.clone()));
          ops.insert(p, Op::P(i));
        }
      }
      let bidx: HashMap<&str, usize> = bbs.iter().enumerate().map(|(i, b)| (b.as_str(), i)).collect();
      for (bi, b) in bbs.iter().enumerate() {
        let b = &self.bbs[b];
        for (i, p) in self.of_kind(&b.params, "value")?.iter().enumerate() {
          let v = &self.vals[p];
          if v.tag != "barg" || v.rest[0] != i.to_string() {
            return Err(format!("block parameter {i} is {} {:?}", v.tag, v.rest));
          }
          ops.insert(p, Op::B(bi, i));
        }
        for (i, v) in self.of_kind(&b.insts, "value")?.iter().enumerate() {
          if ops.insert(v, Op::V(bi, i)).is_some() {
            return Err("value placed twice".into());
          }
        }
      }
      for b in bbs {
        let b = &self.bbs[b];
        let mut params = vec![];
        for p in &b.params.items {
          let v = &self.vals[p];
          params.push((v.name.clone(), self.ty(&v.ty)?));
        }
        let mut insts = vec![];
        for id in &b.insts.items {
          let v = &self.vals[id];
          let op = |id: &str| -> Result<Op, String> {
            match ops.get(id) {
              Some(o) => Ok(o.clone()),
              None => Ok(Op::C(self.konst(id)?)),
            }
          };
          let list = |s: &Slice| -> Result<Vec<Op>, String> { self.of_kind(s, "value")?.iter().map(|v| op(v)).collect() };
          let bb = |id: &str| bidx.get(id).copied().ok_or("target is not in the function".to_string());
          let mut c = cur(&v.rest);
          let k = match v.tag {
            "alloc" => K::Alloc,
            "load" => K::Load(op(c.next()?)?),
            "store" => K::Store(op(c.next()?)?, op(c.next()?)?),
            "getptr" => K::GetPtr(op(c.next()?)?, op(c.next()?)?),
            "getelemptr" => K::GetElemPtr(op(c.next()?)?, op(c.next()?)?),
            "binary" => {
              let o = c.next()?;
              let b = BOPS.iter().find(|b| b.1 == o).ok_or_else(|| format!("operator {o}"))?;
              K::Bin(b.0, op(c.next()?)?, op(c.next()?)?)
            }
            "br" => {
              let (x, t, e) = (op(c.next()?)?, bb(c.next()?)?, bb(c.next()?)?);
              let ta = list(&c.slice()?)?;
              K::Br(x, t, ta, e, list(&c.slice()?)?)
            }
            "jump" => K::Jump(bb(c.next()?)?, list(&c.slice()?)?),
            "call" => K::Call(*fidx.get(c.next()?).ok_or("callee is not in the program")?, list(&c.slice()?)?),
            "ret" => match c.next()? {
              "(nil)" => K::Ret(None),
              x => K::Ret(Some(op(x)?)),
            },
            t => return Err(format!("placed value is {t}")),
          };
          insts.push(Inst { name: v.name.clone(), ty: self.ty(&v.ty)?, k });
        }
        fun.blocks.push(Block { name: b.name.clone(), params, insts });
      }
      m.funcs.push(fun);
      // names of values are local to the function
      ops.retain(|_, o| matches!(o, Op::G(_)));
    }
    Ok(m)
  }

  /// User lists are exactly the users.
  pub fn users(&self) -> Result<u64, String> {
    let mut want: HashMap<&str, HashSet<&str>> = HashMap::new();
    for (id, v) in &self.vals {
      let mut c = cur(&v.rest);
      let mut used: Vec<&str> = vec![];
      match v.tag {
        "global" | "load" => used.push(c.next()?),
        "store" | "getptr" | "getelemptr" => used.extend([c.next()?, c.next()?]),
        "binary" => {
          c.next()?;
          used.extend([c.next()?, c.next()?]);
        }
        "ret" => used.extend([c.next()?].iter().filter(|x| **x != "(nil)")),
        "br" | "jump" | "call" | "aggregate" => {
          // every identifier among the words
          used.extend(v.rest.iter().filter(|w| w.starts_with("0x")));
        }
        _ => {}
      }
      for u in used {
        want.entry(u).or_default().insert(id);
      }
    }
    let mut n = 0;
    let lists = self.vals.iter().map(|(i, v)| (i, &v.used_by)).chain(self.bbs.iter().map(|(i, b)| (i, &b.used_by)));
    for (id, s) in lists {
      let got: HashSet<&str> = s.items.iter().map(|s| s.as_str()).collect();
      let none = HashSet::new();
      let want = want.get(id.as_str()).unwrap_or(&none);
      if s.kind != "value" {
        return Err(format!("list of users of kind {}", s.kind));
      }
      if got.len() != s.items.len() {
        return Err("a user is listed twice".into());
      }
      if got != *want {
        return Err(format!("{id} is used by {want:?}, its list says {got:?}"));
      }
      n += got.len() as u64;
    }
    Ok(n)
  }
}

// --- cases

/// A program and what it should look like.
fn program(cx: &mut Cx, r: &mut Rng) -> Option<(Program, Prog, bool)> {
  let mut cfg = Cfg::text(r);
  match r.below(12) {
    0 => {
      // large
      cfg.max_funcs = 12;
      cfg.max_blocks = 60;
      cfg.max_insts = 40;
    }
    1..=3 => cfg.names = Names::Clash,
    _ => {}
  }
  let built = r.chance(2, 3) || cfg.names == Names::Clash;
  if built {
    cfg.rich_consts = r.chance(1, 2);
    cfg.ordered = r.chance(1, 2);
  }
  let m = gen::gen(r, &cfg);
  observe(cx, &m);
  if built {
    cx.count("programs built through the interface");
    Some((api::build(&m, r).0, m, true))
  } else {
    cx.count("programs parsed");
    let s = emit::text(&m, r, &emit::Style { wild: false, shuffle: true, dead: false });
    match api::parse(s.as_bytes()) {
      Ok(p) => {
        let g = api::extract(&p).ok()?;
        Some((p, g, false))
      }
      Err(_) => {
        cx.fail("well-formed text rejected", s);
        None
      }
    }
  }
}

fn ptr(p: &Program) -> *const c_void {
  p as *const Program as *const c_void
}

/// A long chain of blocks, of calls, or of a block that is used before its
/// parameters are known.
fn long(cx: &Cx, idx: u64) -> Prog {
  let n = if cx.thorough { 60000 } else { 12000 };
  let i32v = |n: i32| Op::C(C::Int(n));
  let mut m = Prog::default();
  let unit = |k| Inst { name: None, ty: T::Unit, k };
  let block = |params, insts| Block { name: None, params, insts };
  let fun = |name: &str, params, ret, blocks| Fun { name: name.to_string(), params, ret, blocks };
  match idx {
    0 => {
      let mut bs: Vec<Block> = (0..n).map(|i| block(vec![], vec![unit(K::Jump(i + 1, vec![]))])).collect();
      bs.push(block(vec![], vec![unit(K::Ret(None))]));
      m.funcs.push(fun("@f", vec![], T::Unit, bs));
    }
    1 => {
      // from the last to the first
      let mut bs = vec![block(vec![], vec![unit(K::Jump(n, vec![i32v(1)]))])];
      bs.push(block(vec![(None, T::I32)], vec![unit(K::Ret(Some(Op::B(1, 0))))]));
      for i in 2..=n {
        bs.push(block(vec![(None, T::I32)], vec![unit(K::Jump(i - 1, vec![Op::B(i, 0)]))]));
      }
      m.funcs.push(fun("@f", vec![], T::I32, bs));
    }
    _ => {
      m.funcs.push(fun("@f0", vec![], T::Unit, vec![block(vec![], vec![unit(K::Ret(None))])]));
      for i in 1..n / 4 {
        let b = block(vec![], vec![unit(K::Call(i - 1, vec![])), unit(K::Ret(None))]);
        m.funcs.push(fun(&format!("@f{i}"), vec![], T::Unit, vec![b]));
      }
    }
  }
  m
}

fn c12(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C12", idx);
  let n = *r.pick(&[1, 1, 1, 2, 4]);
  let b = unsafe { lk_builder() };
  let mut raws: Vec<(*mut c_void, String, Prog)> = vec![];
  let mut ps = vec![];
  for i in 0..n {
    let Some((p, m, _)) = (if (5..9).contains(&idx) && i == 0 {
      // more than fits 16 bits
      let m = gen::wide(&mut r, 66000);
      cx.count("wide programs");
      Some((api::build(&m, &mut r).0, m, true))
    } else if idx < 3 && i == 0 {
      let m = long(cx, idx);
      cx.count("long chains");
      Some((api::build(&m, &mut r).0, m, true))
    } else {
      program(cx, &mut r)
    }) else {
      return;
    };
    cx.what = show(&m);
    cx.shape(fnv(cx.what.as_bytes()));
    if (3..5).contains(&idx) && i == 0 {
      let s = cx.what.clone();
      cx.sample(|| s);
    }
    let raw = unsafe { lk_build(b, ptr(&p)) };
    let s = walk(raw);
    cx.add("raw structures read", s.lines().count() as u64);
    let g = match read(&s) {
      Ok(g) => g,
      Err(e) => return cx.fail("raw program is broken", format!("{e}\n{s}")),
    };
    match g.model() {
      Err(e) => return cx.fail("raw program is broken", format!("{e}\n{}\n{s}", cx.what)),
      Ok(x) => {
        if let Some(d) = diff(&m.clone().erase_decl_names(), &x.erase_decl_names()) {
          return cx.fail("raw program differs", format!("{d}\n{}", cx.what));
        }
      }
    }
    match g.users() {
      Ok(n) => cx.add("users compared", n),
      Err(e) => return cx.fail("user lists differ", format!("{e}\n{}\n{s}", cx.what)),
    }
    drop(g);
    raws.push((raw, s, m));
    ps.push(Some(p));
    if r.chance(1, 4) {
      // the same program once more
      let k = r.below(ps.len());
      if let Some(p) = &ps[k] {
        let raw = unsafe { lk_build(b, ptr(p)) };
        cx.count("programs built again");
        let s2 = walk(raw);
        unsafe { lk_raw_free(raw) };
        match read(&s2).and_then(|g| g.users().and_then(|_| g.model())) {
          Ok(x) => {
            if let Some(d) = diff(&raws[k].2.clone().erase_decl_names(), &x.erase_decl_names()) {
              return cx.fail("raw program differs the second time", format!("{d}\n{}", cx.what));
            }
          }
          Err(e) => return cx.fail("raw program is broken the second time", format!("{e}\n{}", cx.what)),
        }
      }
    }
    if r.chance(1, 2) {
      // the raw form outlives the program
      let k = r.below(ps.len());
      if ps[k].take().is_some() {
        cx.count("programs dropped before their raw form");
      }
    }
  }
  drop(ps);
  for (raw, s, m) in &raws {
    cx.count("raw programs read again");
    if walk(*raw) != *s {
      return cx.fail("raw program changed while its builder lived", show(m));
    }
  }
  unsafe {
    raws.iter().for_each(|x| lk_raw_free(x.0));
    lk_builder_delete(b);
  }
}

const FLAGS: c_uint = 32;

fn c13(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C13", idx);
  let Some((p, m, _)) = (if idx < 3 {
    let m = long(cx, idx);
    cx.count("long chains");
    Some((api::build(&m, &mut r).0, m, true))
  } else {
    program(cx, &mut r)
  }) else {
    return;
  };
  cx.what = show(&m);
  cx.shape(fnv(cx.what.as_bytes()));
  if (3..5).contains(&idx) {
    let s = cx.what.clone();
    cx.sample(|| s);
  }
  let b = unsafe { lk_builder() };
  let raw = unsafe { lk_build(b, ptr(&p)) };
  drop(p);
  let want = sorted(m.clone().canon().erase_decl_names());
  // back, from the library's own form
  let check = |cx: &mut Cx, raw: *const c_void, how: &str, keep: &mut dyn FnMut()| -> bool {
    let mut q: *const c_void = std::ptr::null();
    let e = unsafe { lk_generate(raw, &mut q) };
    keep();
    if e != unsafe { lk_code(0) } {
      cx.fail("valid raw program refused", format!("{how}: {} ({e})\n{}", code_name(e), cx.what));
      return false;
    }
    let p = unsafe { &*(q as *const Program) };
    cx.count("raw programs converted");
    let res = api::extract(p);
    let ok = match res {
      Err(e) => {
        cx.fail("converted program is broken", format!("{how}: {e}\n{}", cx.what));
        false
      }
      Ok(g) => {
        let g = sorted(g.canon().erase_decl_names());
        match diff(&want, &g) {
          Some(d) => {
            cx.fail("converted program differs", format!("{how}: {d}\n{}\n--- converted\n{}", cx.what, show(&g)));
            false
          }
          None => match verify::verify(p) {
            Ok(_) => true,
            Err(e) => {
              cx.fail("converted program is ill-formed", format!("{how}: {e}\n{}", cx.what));
              false
            }
          },
        }
      }
    };
    if ok {
      // its texts are as usual
      let t = api::dump_koopa(p);
      if t.is_err() || api::dump_llvm(p).is_err() {
        cx.fail("converted program can not be dumped", cx.what.clone());
      }
    }
    unsafe { lk_delete(q) };
    ok
  };
  if !check(cx, raw, "the library's own raw form", &mut || {}) {
    return;
  }
  if idx < 3 {
    unsafe {
      lk_raw_free(raw);
      lk_builder_delete(b);
    }
    return;
  }
  // and from copies a client laid out
  let mut sites: c_long = 0;
  for _ in 0..2 {
    let flags = r.below(FLAGS as usize) as c_uint;
    let l = unsafe { lk_lay(raw, flags, r.fork().below(1 << 40) as u64, 0, -1, &mut sites) };
    let mut free = || unsafe { lk_laid_free(l) };
    if !check(cx, l, &format!("a client's raw form, flags {flags}"), &mut free) {
      return;
    }
  }
  // one broken field
  let kinds = [(1, "slice kind mismatch"), (2, "null pointer"), (3, "type mismatch"), (4, "parameter count mismatch"), (5, "invalid utf-8"), (6, "null pointer"), (7, "type mismatch")];
  for (k, want) in kinds {
    let flags = r.below(FLAGS as usize) as c_uint;
    let seed = r.fork().below(1 << 40) as u64;
    unsafe { lk_laid_free(lk_lay(raw, flags, seed, k, -1, &mut sites)) };
    if sites == 0 {
      continue;
    }
    for _ in 0..if cx.thorough { 8 } else { 2 } {
      let at = r.below(sites as usize) as c_long;
      let mut n = 0;
      let l = unsafe { lk_lay(raw, flags, seed, k, at, &mut n) };
      let mut q: *const c_void = std::ptr::null();
      let e = unsafe { lk_generate(l, &mut q) };
      unsafe { lk_laid_free(l) };
      cx.count(&format!("broken ({want})"));
      let how = || format!("break {k}, place {at} of {sites}, flags {flags}");
      if code_name(e) != want {
        return cx.fail(format!("{} for a {want}", code_name(e)), format!("{}\n{}", how(), cx.what));
      }
      if q as usize != SENTINEL {
        return cx.fail("program returned along with an error", format!("{}\n{}", how(), cx.what));
      }
    }
  }
  unsafe {
    lk_raw_free(raw);
    lk_builder_delete(b);
  }
}

/// Functions in the order of their names and types.
pub fn sorted(mut m: Prog) -> Prog {
  let n = m.funcs.len();
  let key: Vec<String> = m
    .funcs
    .iter()
    .map(|f| {
      let mut one = Prog::default();
      let mut f = f.clone();
      // callees are known by name here
      for b in &mut f.blocks {
        for i in &mut b.insts {
          if let K::Call(c, _) = &mut i.k {
            let g = &m.funcs[*c];
            i.name = Some(format!("{:?} {} {}", i.name, g.name, g.params.len()));
            *c = 0;
          }
        }
      }
      one.funcs.push(f);
      show(&one)
    })
    .collect();
  let mut order: Vec<usize> = (0..n).collect();
  order.sort_by(|a, b| key[*a].cmp(&key[*b]));
  gen::permute_funcs(&mut m, &order);
  m
}

pub static CHECKS: &[&Check] = &[
  &Check {
    id: "C12",
    rule: "random programs, built through the interface or parsed, one to four for one builder, are read through the published C header under AddressSanitizer, compared with the model, and read again after the programs are gone; distinct programs",
    cases: (4000, 60000),
    limit: (200, 1500),
    case: c12,
    workers: 0,
    assumptions: &["a builder is given a program again only if it has not changed"],
  },
  &Check {
    id: "C13",
    rule: "random programs converted to raw form and back, from the library's own form and from copies laid out by a C client (shared or repeated types and constants, permuted functions and blocks), and copies with one broken field of seven kinds; under AddressSanitizer; distinct programs",
    cases: (3000, 40000),
    limit: (200, 1500),
    case: c13,
    workers: 0,
    assumptions: &["one field is broken at a time"],
  },
];
