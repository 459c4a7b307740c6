//! A client of both libraries: keeps programs, builders and raw forms, reads
//! everything it was given for as long as it was promised, and gives it back.

use crate::fw::Cx;
use crate::gen::{Cfg, Names};
use crate::model::show;
use crate::rng::{fnv, Rng};
use crate::{api, broken, emit, gen};
use koopa::ir::Program;
use lkoopa::*;
use std::collections::{BTreeMap, HashSet};
use std::ffi::{c_char, c_void, CStr, CString};
use std::ptr::{null, null_mut};

/// Everything reachable from a raw program, as numbers.
pub struct Reader {
  sum: u64,
  seen: BTreeMap<usize, u64>,
  vals: Vec<RawValue>,
  bbs: Vec<RawBasicBlock>,
  funcs: Vec<RawFunction>,
}

impl Reader {
  /// Hash of what was read, and the number of structures.
  pub fn read(p: &RawProgram) -> (u64, usize) {
    let mut r = Reader { sum: 0, seen: BTreeMap::new(), vals: vec![], bbs: vec![], funcs: vec![] };
    r.slice(&p.values);
    r.slice(&p.funcs);
    loop {
      if let Some(f) = r.funcs.pop() {
        let f = unsafe { &*f };
        r.ty(f.ty);
        r.name(f.name);
        r.slice(&f.params);
        r.slice(&f.bbs);
      } else if let Some(b) = r.bbs.pop() {
        let b = unsafe { &*b };
        r.name(b.name);
        r.slice(&b.params);
        r.slice(&b.used_by);
        r.slice(&b.insts);
      } else if let Some(v) = r.vals.pop() {
        r.value(v);
      } else {
        break;
      }
    }
    let n = r.seen.len();
    (r.sum, n)
  }

  fn put(&mut self, x: u64) {
    self.sum = (self.sum.rotate_left(5) ^ x).wrapping_mul(0x9e3779b97f4a7c15);
  }

  fn fresh(&mut self, p: usize) -> bool {
    let n = self.seen.len() as u64;
    let mut new = false;
    let id = *self.seen.entry(p).or_insert_with(|| {
      new = true;
      n
    });
    self.put(id);
    new
  }

  fn name(&mut self, n: *const c_char) {
    let x = match n.is_null() {
      true => 0,
      false => fnv(unsafe { CStr::from_ptr(n) }.to_bytes()),
    };
    self.put(x);
  }

  fn ty(&mut self, t: RawType) {
    if !self.fresh(t as usize) {
      return;
    }
    match unsafe { &*t } {
      RawTypeKind::Int32 => self.put(1),
      RawTypeKind::Unit => self.put(2),
      RawTypeKind::Array(b, n) => {
        self.put(*n as u64);
        self.ty(*b);
      }
      RawTypeKind::Pointer(b) => {
        self.put(3);
        self.ty(*b);
      }
      RawTypeKind::Function(p, r) => {
        self.slice(p);
        self.ty(*r);
      }
    }
  }

  fn val(&mut self, v: RawValue) {
    if self.fresh(v as usize) {
      self.vals.push(v);
    }
  }

  fn bb(&mut self, b: RawBasicBlock) {
    if self.fresh(b as usize) {
      self.bbs.push(b);
    }
  }

  fn slice(&mut self, s: &RawSlice) {
    self.put(s.len as u64);
    if s.len == 0 {
      return;
    }
    let it = unsafe { std::slice::from_raw_parts(s.buffer as *const *const c_void, s.len as usize) };
    for i in it {
      match s.kind {
        RawSliceItemKind::Unknown => self.put(4),
        RawSliceItemKind::Type => self.ty(*i as RawType),
        RawSliceItemKind::Function => {
          if self.fresh(*i as usize) {
            self.funcs.push(*i as RawFunction);
          }
        }
        RawSliceItemKind::BasicBlock => self.bb(*i as RawBasicBlock),
        RawSliceItemKind::Value => self.val(*i as RawValue),
      }
    }
  }

  fn value(&mut self, v: RawValue) {
    let v = unsafe { &*v };
    self.ty(v.ty);
    self.name(v.name);
    self.slice(&v.used_by);
    match &v.kind {
      RawValueKind::Integer(i) => self.put(i.value as u64),
      RawValueKind::ZeroInit => self.put(5),
      RawValueKind::Undef => self.put(6),
      RawValueKind::Aggregate(a) => self.slice(&a.elems),
      RawValueKind::FuncArgRef(a) => self.put(a.index as u64),
      RawValueKind::BlockArgRef(a) => self.put(a.index as u64),
      RawValueKind::Alloc => self.put(7),
      RawValueKind::GlobalAlloc(g) => self.val(g.init),
      RawValueKind::Load(l) => self.val(l.src),
      RawValueKind::Store(s) => {
        self.val(s.value);
        self.val(s.dest);
      }
      RawValueKind::GetPtr(g) => {
        self.val(g.src);
        self.val(g.index);
      }
      RawValueKind::GetElemPtr(g) => {
        self.val(g.src);
        self.val(g.index);
      }
      RawValueKind::Binary(b) => {
        self.put(match b.op {
          RawBinaryOp::NotEq => 1,
          RawBinaryOp::Sar => 2,
          RawBinaryOp::Sub => 3,
          _ => 4,
        });
        self.val(b.lhs);
        self.val(b.rhs);
      }
      RawValueKind::Branch(b) => {
        self.val(b.cond);
        self.bb(b.true_bb);
        self.bb(b.false_bb);
        self.slice(&b.true_args);
        self.slice(&b.false_args);
      }
      RawValueKind::Jump(j) => {
        self.bb(j.target);
        self.slice(&j.args);
      }
      RawValueKind::Call(c) => {
        if self.fresh(c.callee as usize) {
          self.funcs.push(c.callee);
        }
        self.slice(&c.args);
      }
      RawValueKind::Return(r) => {
        if !r.value.is_null() {
          self.val(r.value);
        }
      }
    }
  }
}

fn same<T>(p: *const T) -> T {
  unsafe { std::ptr::read(p) }
}

/// A copy of one function (of its outer structures), with one thing wrong.
/// `f` gets the copy before it is freed.
fn wronged(raw: &RawProgram, at: usize, r: &mut Rng, f: impl FnOnce(*const RawFunctionData)) -> Option<&'static str> {
  let fs = unsafe { std::slice::from_raw_parts(raw.funcs.buffer as *const RawFunction, raw.funcs.len as usize) };
  let mut c = same(fs[at]);
  let mut bs: Vec<RawBasicBlock> = match c.bbs.len {
    0 => vec![],
    n => unsafe { std::slice::from_raw_parts(c.bbs.buffer as *const RawBasicBlock, n as usize) }.to_vec(),
  };
  let mut vs: Vec<RawValue> = vec![];
  let (mut b, mut v) = (None, None);
  let what = match r.below(9) {
    0 => {
      c.ty = null();
      "no type"
    }
    1 => {
      c.name = null();
      "no name"
    }
    2 => {
      c.params.kind = RawSliceItemKind::Type;
      "parameters of the wrong kind"
    }
    3 => {
      c.ty = &RawTypeKind::Int32;
      "type of another kind"
    }
    4 if c.params.len > 0 => {
      c.params.len -= 1;
      "a parameter less"
    }
    5 if c.bbs.len > 0 => {
      c.bbs.kind = RawSliceItemKind::Unknown;
      "blocks of the wrong kind"
    }
    6 if !bs.is_empty() => {
      let at = r.below(bs.len());
      bs[at] = null();
      "no block"
    }
    7.. if !bs.is_empty() => {
      // the entry block, which no jump leads to
      let at = 0;
      let mut nb = same(bs[at]);
      if nb.insts.len == 0 {
        return None;
      }
      vs = unsafe { std::slice::from_raw_parts(nb.insts.buffer as *const RawValue, nb.insts.len as usize) }.to_vec();
      let i = r.below(vs.len());
      let w = if r.chance(1, 3) {
        vs[i] = null();
        "no instruction"
      } else {
        let mut nv = same(vs[i]);
        let w = match &mut nv.kind {
          _ if r.chance(1, 4) => {
            nv.ty = null();
            "instruction without type"
          }
          RawValueKind::Load(l) => {
            l.src = null();
            "load from nowhere"
          }
          RawValueKind::Store(s) => {
            s.value = null();
            "store of nothing"
          }
          RawValueKind::Binary(b) => {
            b.rhs = null();
            "missing operand"
          }
          RawValueKind::GetPtr(g) => {
            g.index = null();
            "missing index"
          }
          RawValueKind::GetElemPtr(g) => {
            g.src = null();
            "missing source"
          }
          RawValueKind::Call(c) => {
            c.callee = null();
            "missing callee"
          }
          RawValueKind::Jump(j) => {
            j.target = null();
            "missing target"
          }
          RawValueKind::Branch(b) => {
            b.false_bb = null();
            "missing target"
          }
          _ => return None,
        };
        v = Some(Box::new(nv));
        vs[i] = &**v.as_ref().unwrap();
        w
      };
      nb.insts.buffer = vs.as_ptr() as _;
      b = Some(Box::new(nb));
      bs[at] = &**b.as_ref().unwrap();
      w
    }
    _ => return None,
  };
  if c.bbs.len > 0 {
    c.bbs.buffer = bs.as_ptr() as _;
  }
  let c = Box::new(c);
  f(&*c);
  drop((c, bs, vs, b, v));
  Some(what)
}

struct Prog {
  p: *mut Program,
  text: String,
}

struct Built {
  raw: RawProgram<'static>,
  sum: u64,
  /// Index of its builder.
  by: usize,
}

/// How big things get.
#[derive(Clone, Copy)]
pub struct Size {
  pub steps: usize,
  pub blocks: usize,
  pub insts: usize,
}

/// Miri is slow.
pub const MIRI: Size = Size { steps: 7, blocks: 2, insts: 3 };
pub const FULL: Size = Size { steps: 24, blocks: 24, insts: 16 };

fn model(r: &mut Rng, z: Size) -> crate::model::Prog {
  if z.steps > 10 && r.chance(1, 150) {
    let n = r.range(100, 3000);
    return gen::wide(r, n);
  }
  let mut cfg = Cfg::text(r);
  cfg.max_funcs = if z.steps < 10 { 2 } else { 4 };
  cfg.max_blocks = r.range(1, z.blocks);
  cfg.max_insts = r.range(1, z.insts);
  cfg.wild &= z.steps > 10;
  if r.chance(1, 4) {
    cfg.names = Names::Clash;
  }
  gen::gen(r, &cfg)
}

fn text(r: &mut Rng, z: Size) -> String {
  loop {
    let mut m = model(r, z);
    let names: HashSet<_> = m.funcs.iter().map(|f| f.name.clone()).collect();
    if names.len() < m.funcs.len() {
      continue;
    }
    m = m.canon();
    let tiny = z.steps < 10;
    let st = emit::Style { wild: !tiny && r.chance(1, 3), shuffle: true, dead: r.chance(1, 4) };
    let s = emit::text(&m, r, &st);
    if !tiny || s.len() < 500 {
      return s;
    }
  }
}

fn own(p: Program) -> *mut Program {
  Box::into_raw(Box::new(p))
}

pub fn session(cx: &mut Cx, r: &mut Rng, z: Size) {
  let mut ps: Vec<Prog> = vec![];
  let mut bs: Vec<Option<*mut RawProgramBuilder>> = vec![];
  let mut rs: Vec<Built> = vec![];
  let mut n = 0;
  let tiny = z.steps < 10;
  for step in 0..z.steps {
    match if step == 0 {
      0
    } else if tiny {
      *r.pick(&[0, 2, 4, 5, 8, 8, 8, 11, 11, 13, 13, 13, 14, 15])
    } else {
      r.below(16)
    } {
      // new programs
      0 | 1 => {
        let m = model(r, z);
        let p = own(api::build(&m, r).0);
        let text = if tiny { String::new() } else { show(&m) };
        cx.shape(if tiny { r.clone().next() } else { fnv(text.as_bytes()) });
        ps.push(Prog { p, text });
        cx.count("programs built");
      }
      2 | 3 => {
        let s = CString::new(text(r, z).replace('\0', " ")).unwrap();
        let mut p = null_mut();
        let e = match r.below(3) {
          0 => unsafe { koopa_parse_from_string(s.as_ptr(), &mut p) },
          k => {
            let path = format!("{}/in", cx.scratch);
            std::fs::write(&path, s.as_bytes()).unwrap();
            if k == 1 {
              let path = CString::new(path).unwrap();
              unsafe { koopa_parse_from_file(path.as_ptr(), &mut p) }
            } else {
              use std::os::fd::IntoRawFd;
              koopa_parse_from_raw(std::fs::File::open(path).unwrap().into_raw_fd(), &mut p)
            }
          }
        };
        if let ErrorCode::Success = e {
          cx.count("programs parsed");
          cx.shape(fnv(s.as_bytes()));
          ps.push(Prog { p, text: s.into_string().unwrap() });
        } else {
          cx.count("texts refused");
        }
      }
      4 => {
        // broken text
        let mut s = match tiny {
          false => broken::mutant(r, 1).1,
          true => {
            let mut s = text(r, z).into_bytes();
            let at = r.below(s.len());
            match r.below(4) {
              0 => s.truncate(at),
              1 => s[at] = *r.pick(b"@%,:(){}[]*1x= \n/\xc3"),
              2 => drop(s.remove(at)),
              _ => s.insert(at, *r.pick(b"@%,:(){}[]*1x= \n/\"\xe4")),
            }
            s
          }
        };
        s.retain(|c| *c != 0);
        cx.shape(fnv(&s));
        let s = CString::new(s).unwrap();
        let mut p = null_mut();
        let e = unsafe { koopa_parse_from_string(s.as_ptr(), &mut p) };
        match e {
          ErrorCode::Success => ps.push(Prog { p, text: s.to_string_lossy().into() }),
          _ => cx.count("texts refused"),
        }
      }
      // texts
      5..=7 if !ps.is_empty() => {
        let p = unsafe { &*r.pick(&ps).p };
        let llvm = r.chance(1, 2);
        let dump = |b: *mut c_char, len: &mut usize| match llvm {
          true => koopa_dump_llvm_to_string(p, b, len),
          false => koopa_dump_to_string(p, b, len),
        };
        if r.chance(1, 4) {
          let path = CString::new(format!("{}/out", cx.scratch)).unwrap();
          match llvm {
            true => koopa_dump_llvm_to_file(p, path.as_ptr()),
            false => koopa_dump_to_file(p, path.as_ptr()),
          };
          cx.count("texts written to files");
        } else {
          let mut len = 0;
          if !matches!(dump(null_mut(), &mut len), ErrorCode::Success) {
            cx.fail("no text", "");
            break;
          }
          let room = match r.below(4) {
            0 => r.below(len + 1),
            1 => len + 1 + r.below(9),
            _ => len + 1,
          };
          // nothing around it belongs to the library
          let mut b = vec![0x55u8; room].into_boxed_slice();
          let mut have = room;
          dump(b.as_mut_ptr() as _, &mut have);
          cx.count("texts written to strings");
        }
      }
      // raw forms
      8 | 9 | 10 if !ps.is_empty() => {
        if bs.iter().flatten().count() == 0 || r.chance(1, 5) {
          bs.push(Some(koopa_new_raw_program_builder()));
        }
        let live: Vec<usize> = (0..bs.len()).filter(|i| bs[*i].is_some()).collect();
        let by = *r.pick(&live);
        let p = r.pick(&ps).p;
        let raw: RawProgram<'static> = koopa_build_raw_program(unsafe { &mut *bs[by].unwrap() }, unsafe { &*p });
        let (sum, k) = Reader::read(&raw);
        cx.add("raw structures read", k as u64);
        rs.push(Built { raw, sum, by });
        cx.count("raw forms built");
      }
      11 | 12 if !rs.is_empty() => {
        let b = r.pick(&rs);
        let mut p = null_mut();
        if let ErrorCode::Success = koopa_generate_raw_to_koopa(&b.raw, &mut p) {
          cx.count("raw forms converted");
          ps.push(Prog { p, text: "(from raw form)".into() });
        }
      }
      13 if !rs.is_empty() => {
        let b = r.pick(&rs);
        let mut code = None;
        let mut got: *mut Program = null_mut();
        let raw = same(&b.raw);
        if raw.funcs.len == 0 {
          continue;
        }
        let at = r.below(raw.funcs.len as usize);
        let what = wronged(&b.raw, at, r, |f| {
          let mut raw = raw;
          let mut fs = unsafe { std::slice::from_raw_parts(raw.funcs.buffer as *const RawFunction, raw.funcs.len as usize) }.to_vec();
          fs[at] = f;
          raw.funcs.buffer = fs.as_ptr() as _;
          code = Some(koopa_generate_raw_to_koopa(&raw, &mut got) as i32);
        });
        if let Some(w) = what {
          cx.count(&format!("broken raw form: {w}"));
          if code == Some(0) {
            ps.push(Prog { p: got, text: "(from broken raw form)".into() });
          }
        }
      }
      // giving back
      14 if !ps.is_empty() => {
        let i = r.below(ps.len());
        unsafe { koopa_delete_program(ps.swap_remove(i).p) };
        cx.count("programs deleted early");
      }
      15 => {
        let live: Vec<usize> = (0..bs.len()).filter(|i| bs[*i].is_some()).collect();
        if live.len() > 0 && r.chance(1, 2) {
          let by = *r.pick(&live);
          rs.retain(|b| b.by != by);
          unsafe { koopa_delete_raw_program_builder(bs[by].take().unwrap()) };
          cx.count("builders deleted early");
        }
      }
      _ => {}
    }
    // all that is promised is still there
    let only = if tiny && !rs.is_empty() { Some(r.below(rs.len())) } else { None };
    for (i, b) in rs.iter().enumerate() {
      if only.is_some_and(|o| o != i) {
        continue;
      }
      let (s, k) = Reader::read(&b.raw);
      n += k;
      if s != b.sum {
        cx.fail("raw form changed while its builder lived", "");
      }
    }
  }
  cx.add("raw structures read again", n as u64);
  if cx.what.is_empty() {
    if let Some(p) = ps.first() {
      cx.what = p.text.clone();
    }
  }
  // in any order
  r.shuffle(&mut ps);
  let first = r.chance(1, 2);
  let del = |ps: &mut Vec<Prog>| ps.drain(..).for_each(|p| unsafe { koopa_delete_program(p.p) });
  if first {
    del(&mut ps);
    for b in &rs {
      if Reader::read(&b.raw).0 != b.sum {
        cx.fail("raw form changed with its program deleted", "");
      }
    }
  }
  rs.clear();
  for b in bs.into_iter().flatten() {
    unsafe { koopa_delete_raw_program_builder(b) };
  }
  del(&mut ps);
}
