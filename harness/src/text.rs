//! Checks over the text form: round trip, denotation, well-formedness.

use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::{api, emit, gen};
use koopa::front::span::FileType;
use koopa::front::Driver;

pub fn lossy(b: &[u8]) -> String {
  String::from_utf8_lossy(b).into_owned()
}

/// LLVM text without what may differ from one construction of a program to
/// another: the operands of a phi come in no particular order, which also
/// decides on the numbers and suffixes that names get.
pub fn llvm_skeleton(t: &[u8]) -> String {
  let mut s = String::new();
  for l in lossy(t).lines() {
    if l.ends_with(':') {
      s += "label\n";
      continue;
    }
    let mut num = false;
    let l: String = l
      .chars()
      .filter(|c| {
        num = *c == '%' || *c == '$' || num && (c.is_ascii_alphanumeric() || *c == '_');
        !num
      })
      .collect();
    if l.contains(" phi ") {
      let mut k: Vec<&str> = l.split(|c| " [],".contains(c)).collect();
      k.sort();
      s += &k.join(" ");
    } else {
      s += &l;
    }
    s.push('\n');
  }
  s
}

/// Counts what kinds of things the monitors looked at.
pub fn observe(cx: &mut Cx, p: &Prog) {
  for f in &p.funcs {
    cx.count(if f.is_decl() { "declarations" } else { "functions" });
    for b in &f.blocks {
      cx.count("blocks");
      cx.add("block parameters", b.params.len() as u64);
      for i in &b.insts {
        cx.count(match &i.k {
          K::Bin(..) => "inst binary",
          k => match k {
            K::Alloc => "inst alloc",
            K::Load(_) => "inst load",
            K::Store(..) => "inst store",
            K::GetPtr(..) => "inst getptr",
            K::GetElemPtr(..) => "inst getelemptr",
            K::Br(..) => "inst br",
            K::Jump(..) => "inst jump",
            K::Call(..) => "inst call",
            _ => "inst ret",
          },
        });
      }
    }
  }
  cx.add("globals", p.globals.len() as u64);
}

fn c01(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C01", idx);
  let mut cfg = Cfg::text(&mut r);
  let clash = r.chance(1, 4);
  if clash {
    cfg.names = Names::Clash;
  }
  let m = gen::gen(&mut r, &cfg);
  cx.what = show(&m);
  observe(cx, &m);
  if m.n_insts() > 3 {
    cx.shape(m.shape());
  }
  let via_text = !clash && r.chance(1, 3);
  let p = if via_text {
    cx.count("programs parsed");
    let st = emit::Style { wild: r.chance(1, 2), shuffle: true, dead: false };
    let s = emit::text(&m, &mut r, &st);
    match api::parse(s.as_bytes()) {
      Ok(p) => p,
      Err(_) => {
        // not this property's business, but nothing can be said about the case
        return cx.fail("well-formed text rejected", s);
      }
    }
  } else {
    cx.count("programs built through the interface");
    api::build(&m, &mut r).0
  };
  let want = m.clone().canon().erase_decl_names();
  round_trip(cx, &p, &want, clash);
  if idx < 2 {
    cx.sample(|| lossy(&api::dump_koopa(&p).unwrap()));
  }
}

fn round_trip(cx: &mut Cx, p: &koopa::ir::Program, want: &Prog, clash: bool) {
  let t1 = match api::dump_koopa(p) {
    Ok(t) => t,
    Err(e) => return cx.fail("dump failed", e),
  };
  let p2 = match api::parse(&t1) {
    Ok(p) => p,
    Err(_) => return cx.fail("dumped text is rejected", lossy(&t1)),
  };
  // with clashing names only those of functions no global competes with are kept
  let globals: Vec<String> = want.globals.iter().filter_map(|g| g.name.clone()).collect();
  let kept: Vec<bool> = want.funcs.iter().map(|f| !globals.iter().any(|g| f.name.starts_with(g.as_str()))).collect();
  let names = |m: Prog| {
    if !clash {
      return m;
    }
    let mut m = m.erase_names();
    for (f, k) in m.funcs.iter_mut().zip(&kept) {
      if !k {
        f.name.clear();
      }
    }
    m
  };
  match api::extract(&p2) {
    Err(e) => return cx.fail("reparsed program is broken", format!("{e}\n{}", lossy(&t1))),
    Ok(g) => {
      if let Some(d) = diff(&names(want.clone()), &names(g.canon())) {
        return cx.fail("round trip changes the program", format!("{d}\n{}", lossy(&t1)));
      }
    }
  }
  let t2 = api::dump_koopa(&p2).unwrap_or_default();
  let p3 = match api::parse(&t2) {
    Ok(p) => p,
    Err(_) => return cx.fail("second dump is rejected", lossy(&t2)),
  };
  let t3 = api::dump_koopa(&p3).unwrap_or_default();
  if t2 != t3 {
    return cx.fail("text is not a fixpoint", format!("--- second\n{}\n--- third\n{}", lossy(&t2), lossy(&t3)));
  }
  let (a, b) = (api::extract(&p2), api::extract(&p3));
  if a != b {
    cx.fail("reparsing the second dump changes the program", lossy(&t2));
  }
  cx.count("round trips compared");
}

/// A reader that gives its data in pieces of random size.
struct Bits<'a> {
  data: &'a [u8],
  rng: Rng,
  max: usize,
}

impl std::io::Read for Bits<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = (1 + self.rng.below(self.max)).min(buf.len()).min(self.data.len());
    buf[..n].copy_from_slice(&self.data[..n]);
    self.data = &self.data[n..];
    Ok(n)
  }
}

fn c02(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C02", idx);
  let cfg = Cfg::text(&mut r);
  let m = gen::gen(&mut r, &cfg);
  observe(cx, &m);
  if m.n_insts() > 3 {
    cx.shape(m.shape());
  }
  let want = m.clone().canon().erase_decl_names();
  // the same program in several spellings
  for k in 0..3 {
    let st = emit::Style { wild: k > 0, shuffle: k > 0, dead: k > 0 };
    let s = emit::text(&m, &mut r, &st);
    cx.what = s.clone();
    let way = r.below(5);
    cx.count(["texts read as bytes", "texts read as str", "texts read as String", "texts read from files", "texts read in pieces"][way]);
    let parsed = match way {
      0 => api::parse(s.as_bytes()),
      1 => Driver::from(s.as_str()).generate_program(),
      2 => Driver::from(s.clone()).generate_program(),
      3 => {
        let path = format!("{}/in.koopa", cx.scratch);
        std::fs::write(&path, &s).unwrap();
        Driver::from_path(&path).unwrap().generate_program()
      }
      _ => {
        let max = (*r.pick(&[1, 7, 100, 70000])).max(s.len() / 50_000);
        Driver::new(FileType::Buffer, Bits { data: s.as_bytes(), rng: r.fork(), max }).generate_program()
      }
    };
    let p = match parsed {
      Ok(p) => p,
      Err(_) => return cx.fail("well-formed text rejected", s),
    };
    match api::extract(&p) {
      Err(e) => return cx.fail("parsed program is broken", format!("{e}\n{s}")),
      Ok(g) => {
        if let Some(d) = diff(&want, &g) {
          return cx.fail("parsed program differs from the text", format!("{d}\n{s}"));
        }
      }
    }
    cx.count("texts compared");
    cx.add("bytes of text", s.len() as u64);
    if idx < 2 && k == 1 {
      cx.sample(|| s.clone());
    }
  }
}

pub fn gen_text(r: &mut Rng) -> (Prog, String) {
  let cfg = Cfg::text(r);
  let m = gen::gen(r, &cfg);
  let st = emit::Style { wild: r.chance(1, 2), shuffle: r.chance(1, 2), dead: r.chance(1, 2) };
  let s = emit::text(&m, r, &st);
  (m, s)
}

const A_GEN: &[&str] = &["cases are produced by this check's own generator; programs outside its shape are not seen"];

pub static CHECKS: &[&fw_check] = &[
  &Check { id: "C01", rule: "random well-formed programs (all value kinds, unique or clashing names), built through the interface or parsed, are dumped, parsed, compared with the reference model, and dumped again; non-trivial: more than 3 instructions, distinct by shape", cases: (72000, 400000), limit: (150, 1500), case: c01, workers: 0, assumptions: A_GEN },
  &Check { id: "C02", rule: "random well-formed programs written by an independent emitter in three spellings each (white space, comments, block order, dead blocks, number spellings), parsed and compared with the model; non-trivial: more than 3 instructions, distinct by shape", cases: (36000, 200000), limit: (150, 1500), case: c02, workers: 0, assumptions: A_GEN },
];
#[allow(non_camel_case_types)]
type fw_check = Check;
