//! C15: faults of readers and writers.

use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{fnv, Rng};
use crate::text::lossy;
use crate::{api, broken, emit, gen};
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::front::span::FileType;
use koopa::front::Driver;
use koopa::ir::Program;
use std::cell::RefCell;
use std::io::{self, BufWriter, Cursor, ErrorKind, Read, Write};
use std::rc::Rc;

const KINDS: [ErrorKind; 9] = [
  ErrorKind::Other,
  ErrorKind::UnexpectedEof,
  ErrorKind::WouldBlock,
  ErrorKind::TimedOut,
  ErrorKind::BrokenPipe,
  ErrorKind::InvalidData,
  ErrorKind::PermissionDenied,
  ErrorKind::NotFound,
  ErrorKind::WriteZero,
];

/// What happens when the fault position is reached.
#[derive(Clone, Copy, Debug, PartialEq)]
enum After {
  /// The stream goes on as if nothing had happened.
  GoesOn,
  /// Every further call fails.
  KeepsFailing,
  /// The stream ends (reads: end of file; writes: nothing accepted).
  Ends,
}

#[derive(Default, Debug)]
struct Seen {
  calls: u64,
  short: u64,
  intr: u64,
  faults: u64,
  calls_after: u64,
}

struct FaultReader<'a> {
  data: &'a [u8],
  pos: usize,
  at: Option<(usize, ErrorKind, After)>,
  fired: bool,
  intr: usize,
  piece: usize,
  r: Rng,
  seen: Rc<RefCell<Seen>>,
}

impl Read for FaultReader<'_> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    let mut s = self.seen.borrow_mut();
    s.calls += 1;
    // ten calls for each byte, if most are interrupted, and some more
    if s.calls > 4_000_000 + 100 * self.data.len() as u64 {
      panic!("the reader is called again and again");
    }
    if self.fired {
      s.calls_after += 1;
    }
    if self.intr > 0 && self.r.below(100) < self.intr {
      s.intr += 1;
      return Err(ErrorKind::Interrupted.into());
    }
    let mut n = buf.len().min(self.data.len() - self.pos).min(self.r.range(1, self.piece));
    if let Some((at, kind, after)) = self.at {
      if self.fired && after == After::KeepsFailing {
        return Err(kind.into());
      }
      if self.fired && after == After::Ends {
        return Ok(0);
      }
      if !self.fired {
        if self.pos >= at && !buf.is_empty() {
          self.fired = true;
          s.faults += 1;
          return Err(io::Error::new(kind, "injected"));
        }
        n = n.min(at.saturating_sub(self.pos));
      }
    }
    if n < buf.len() {
      s.short += 1;
    }
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum WFault {
  /// `write` fails.
  Fails(ErrorKind),
  /// `write` accepts nothing.
  Zero,
}

struct Wr {
  got: Vec<u8>,
  at: Option<(usize, WFault, After)>,
  fired: bool,
  intr: usize,
  piece: usize,
  r: Rng,
  seen: Seen,
}

#[derive(Clone)]
struct FaultWriter(Rc<RefCell<Wr>>);

impl Write for FaultWriter {
  fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
    let mut w = self.0.borrow_mut();
    let w = &mut *w;
    w.seen.calls += 1;
    if w.fired {
      w.seen.calls_after += 1;
    }
    if buf.is_empty() {
      return Ok(0);
    }
    if w.intr > 0 && w.r.below(100) < w.intr {
      w.seen.intr += 1;
      return Err(ErrorKind::Interrupted.into());
    }
    let mut n = buf.len().min(w.r.range(1, w.piece));
    if let Some((at, f, after)) = w.at {
      let strike = if w.fired { after != After::GoesOn } else { w.got.len() >= at };
      if strike {
        w.fired = true;
        w.seen.faults += 1;
        if w.seen.faults > 1_000_000 {
          panic!("the failing writer was called a million times");
        }
        return match f {
          WFault::Zero => Ok(0),
          _ if after == After::Ends && w.seen.faults > 1 => Ok(0),
          WFault::Fails(k) => Err(io::Error::new(k, "injected")),
        };
      }
      if !w.fired {
        n = n.min(at - w.got.len());
      }
    }
    if n < buf.len() {
      w.seen.short += 1;
    }
    w.got.extend_from_slice(&buf[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> io::Result<()> {
    Ok(())
  }
}

fn same_program(a: &Program, b: &Program) -> Result<(), String> {
  let (x, y) = (api::dump_koopa(a)?, api::dump_koopa(b)?);
  if x == y {
    Ok(())
  } else {
    Err(format!("--- undisturbed\n{}\n--- disturbed\n{}", lossy(&x), lossy(&y)))
  }
}

fn reads(cx: &mut Cx, r: &mut Rng, text: &[u8]) {
  let plain = api::parse(text);
  let tries = if cx.thorough { 40 } else { 6 };
  for i in 0..tries {
    let seen = Rc::new(RefCell::new(Seen::default()));
    let disturb = r.chance(1, 2);
    let at = (i > 1).then(|| {
      let at = match r.below(6) {
        0 => text.len(),
        1 => 0,
        2 => text.len().saturating_sub(r.below(4)),
        _ => r.below(text.len() + 1),
      };
      (at, *r.pick(&KINDS), *r.pick(&[After::GoesOn, After::KeepsFailing, After::Ends]))
    });
    let rd = FaultReader {
      data: text,
      pos: 0,
      at,
      fired: false,
      intr: if disturb { *r.pick(&[0, 3, 30, 90]) } else { 0 },
      piece: (*r.pick(&[1, 1, 2, 7, 100, 1 << 20])).max(text.len() / 50_000),
      r: r.fork(),
      seen: seen.clone(),
    };
    let d = Driver::new(FileType::Buffer, rd);
    if i % 2 == 0 && r.chance(1, 4) {
      // another driver's failure is not ours
      let _ = api::parse(b"fun");
    }
    let res = d.generate_program();
    let s = seen.borrow();
    cx.add("read calls", s.calls);
    cx.add("reads interrupted", s.intr);
    cx.add("reads failed", s.faults);
    cx.count("parses under faults");
    let plan = || format!("fault {at:?} in {} bytes, {:?}\n{}", text.len(), s, lossy(text));
    match (&res, &plain) {
      (Ok(_), _) if s.faults > 0 => return cx.fail("program returned although reading failed", plan()),
      (Ok(p), Ok(q)) => {
        if let Err(e) = same_program(q, p) {
          return cx.fail("another program from the same text read in pieces", format!("{}\n{e}", plan()));
        }
      }
      (Ok(_), Err(_)) => return cx.fail("ill-formed text accepted when read in pieces", plan()),
      (Err(_), Ok(_)) if s.faults == 0 => {
        return cx.fail("well-formed text rejected without a read fault", plan());
      }
      _ => {}
    }
    if at.is_some() && s.faults == 0 && plain.is_ok() {
      // the end of the text was never read
      return cx.fail("text accepted before its end was read", plan());
    }
  }
  // nothing is left over for the next parse
  match (api::parse(text), &plain) {
    (Ok(p), Ok(q)) => {
      if let Err(e) = same_program(q, &p) {
        cx.fail("another program after a failed read", e);
      }
    }
    (Err(_), Err(_)) => {}
    _ => cx.fail("another verdict after a failed read", lossy(text)),
  }
}

/// Generates on each program in turn with one generator.
trait Gen {
  fn go(&mut self, p: &Program) -> io::Result<()>;
}
impl<W: Write> Gen for KoopaGenerator<W> {
  fn go(&mut self, p: &Program) -> io::Result<()> {
    self.generate_on(p)
  }
}
impl<W: Write> Gen for LlvmGenerator<W> {
  fn go(&mut self, p: &Program) -> io::Result<()> {
    self.generate_on(p)
  }
}

fn make<W: Write + 'static>(llvm: bool, w: W) -> Box<dyn Gen> {
  if llvm {
    Box::new(LlvmGenerator::new(w))
  } else {
    Box::new(KoopaGenerator::new(w))
  }
}

fn dump(llvm: bool, p: &Program) -> Result<Vec<u8>, String> {
  if llvm {
    api::dump_llvm(p)
  } else {
    api::dump_koopa(p)
  }
}

/// The places of a text, grouped by what is written there.
fn kinds_of_places(text: &[u8]) -> Vec<Vec<usize>> {
  let class = |c: u8| match c {
    b'0'..=b'9' => b'0',
    b'a'..=b'z' | b'A'..=b'Z' | b'_' => b'a',
    _ => c,
  };
  let mut kinds: std::collections::BTreeMap<(Vec<u8>, Vec<u8>), Vec<usize>> = Default::default();
  let mut start = 0;
  for line in text.split_inclusive(|c| *c == b'\n') {
    // the operation of the line
    let word = line.split(|c| !c.is_ascii_lowercase()).find(|w| {
      matches!(*w, b"store" | b"load" | b"alloc" | b"alloca" | b"call" | b"br" | b"jump" | b"ret" | b"global" | b"decl" | b"declare")
        || matches!(*w, b"fun" | b"define" | b"getelementptr" | b"getelemptr" | b"getptr" | b"phi" | b"icmp" | b"zext")
    });
    for i in 0..line.len() {
      let at = start + i;
      let near = text[at.saturating_sub(1)..(at + 3).min(text.len())].iter().map(|c| class(*c)).collect();
      kinds.entry((word.unwrap_or_default().to_vec(), near)).or_default().push(at);
    }
    start += line.len();
  }
  kinds.into_values().collect()
}

fn writes(cx: &mut Cx, r: &mut Rng, ps: &[Program]) {
  for llvm in [false, true] {
    let full: Vec<Vec<u8>> = match ps.iter().map(|p| dump(llvm, p)).collect() {
      Ok(v) => v,
      Err(e) => return cx.fail("dump failed", e),
    };
    let n = full[0].len();
    // every position for small outputs, some for others
    let all = n <= if cx.thorough { 4000 } else { 300 };
    let mut places: Vec<Option<usize>> = vec![None, None, Some(n), Some(n + 1)];
    if all {
      places.extend((0..n).map(Some));
      cx.count("outputs with a fault at every byte");
    } else {
      places.extend([0, 1, n - 1].map(Some));
      places.extend((0..if cx.thorough { 30 } else { 4 }).map(|_| Some(r.below(n))));
      // and every kind of place as often as every other
      let kinds = kinds_of_places(&full[0]);
      places.extend((0..if cx.thorough { 60 } else { 10 }).map(|_| {
        let k = r.below(kinds.len());
        Some(*r.pick(&kinds[k]))
      }));
    }
    for at in places {
      let fault = if r.chance(1, 3) { WFault::Zero } else { WFault::Fails(*r.pick(&KINDS)) };
      let after = *r.pick(&[After::GoesOn, After::KeepsFailing, After::Ends]);
      let at = at.map(|a| (a, fault, after));
      let wr = Rc::new(RefCell::new(Wr {
        got: vec![],
        at,
        fired: false,
        intr: *r.pick(&[0, 0, 5, 50]),
        piece: (*r.pick(&[1, 3, 17, 1 << 20, 1 << 20])).max(n / 50_000),
        r: r.fork(),
        seen: Seen::default(),
      }));
      let mut g = make(llvm, FaultWriter(wr.clone()));
      let res = g.go(&ps[0]);
      let which = if llvm { "LLVM" } else { "Koopa" };
      {
        let w = wr.borrow();
        cx.add("write calls", w.seen.calls);
        cx.add("writes cut short", w.seen.short);
        cx.add("writes interrupted", w.seen.intr);
        cx.add("writes failed", w.seen.faults);
        cx.count("dumps under faults");
        let plan = || format!("{which} fault {at:?} in {n} bytes: {res:?}, {:?}\n--- got\n{}\n--- full\n{}", w.seen, lossy(&w.got), lossy(&full[0]));
        match &res {
          Ok(()) if w.got != full[0] => return cx.fail("success with an incomplete or different text", plan()),
          Ok(()) if w.fired => return cx.fail("success although writing failed", plan()),
          Err(_) if !w.fired => return cx.fail("failure although every write succeeded", plan()),
          Err(e) if !full[0].starts_with(&w.got) && w.seen.calls_after == 0 => {
            return cx.fail("other text before the failure", format!("{e}\n{}", plan()));
          }
          _ => {}
        }
        if let (Err(e), Some((_, WFault::Fails(k), _))) = (&res, at) {
          if e.kind() != k {
            return cx.fail("another error than the writer's", format!("{:?} for {k:?}\n{}", e.kind(), plan()));
          }
        }
      }
      // the generator is used again, on this and on other programs
      let again = r.below(ps.len());
      let at2 = r.chance(1, 4).then(|| r.below(full[again].len() + 1));
      for (k, at) in [(again, at2), (r.below(ps.len()), None)] {
        {
          let mut w = wr.borrow_mut();
          w.got.clear();
          w.fired = false;
          w.seen = Seen::default();
          w.at = at.map(|a| (a, fault, after));
        }
        let res = g.go(&ps[k]);
        let w = wr.borrow();
        cx.count("dumps with a generator used before");
        let ok = if w.fired { res.is_err() } else { res.is_ok() && w.got == full[k] };
        if !ok {
          return cx.fail(
            "generator disturbed by an earlier use",
            format!("{which} {at:?} {res:?}\n--- got\n{}\n--- full\n{}", lossy(&w.got), lossy(&full[k])),
          );
        }
      }
    }
    // writers of the standard library
    let size = if r.chance(1, 2) { r.below(n + 1) } else { n + r.below(3) };
    let mut buf = vec![0xa5u8; size + 8];
    let res = {
      let c = Cursor::new(&mut buf[..size]);
      if llvm {
        LlvmGenerator::new(c).generate_on(&ps[0])
      } else {
        KoopaGenerator::new(c).generate_on(&ps[0])
      }
    };
    cx.count("dumps to a fixed buffer");
    if buf[size..].iter().any(|b| *b != 0xa5) || res.is_ok() != (size >= n) || (res.is_ok() && buf[..n] != full[0][..]) {
      return cx.fail("dump to a fixed buffer", format!("{size} bytes for {n}: {res:?}"));
    }
    // buffered: what reaches the writer at the end is complete, or its flush fails
    let mut sink = Vec::new();
    {
      let mut b = BufWriter::with_capacity(r.range(1, 500), &mut sink);
      let res = if llvm { LlvmGenerator::new(&mut b).generate_on(&ps[0]) } else { KoopaGenerator::new(&mut b).generate_on(&ps[0]) };
      if let Err(e) = res.and_then(|_| b.flush()) {
        return cx.fail("dump to a buffered writer failed", e.to_string());
      }
    }
    if sink != full[0] {
      return cx.fail("dump to a buffered writer", lossy(&sink));
    }
    // files
    if r.chance(1, 8) {
      cx.count("dumps to files");
      let path = format!("{}/out", cx.scratch);
      if r.chance(1, 2) {
        // an older, longer file
        std::fs::write(&path, vec![b'x'; n + r.below(300)]).unwrap();
      }
      let res = if llvm {
        LlvmGenerator::from_path(&path).and_then(|mut g| g.generate_on(&ps[0]))
      } else {
        KoopaGenerator::from_path(&path).and_then(|mut g| g.generate_on(&ps[0]))
      };
      if res.is_err() || std::fs::read(&path).unwrap() != full[0] {
        return cx.fail("dump to a file", format!("{res:?}"));
      }
      let res = if llvm {
        LlvmGenerator::from_path("/dev/full").and_then(|mut g| g.generate_on(&ps[0]))
      } else {
        KoopaGenerator::from_path("/dev/full").and_then(|mut g| g.generate_on(&ps[0]))
      };
      if res.is_ok() {
        return cx.fail("dump to a full device succeeds", "");
      }
      let nowhere = format!("{}/no/such/dir", cx.scratch);
      let fails = if llvm { LlvmGenerator::from_path(&nowhere).is_err() } else { KoopaGenerator::from_path(&nowhere).is_err() };
      if !fails {
        return cx.fail("a file that can not be created is written", "");
      }
    }
  }
}

fn c15(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C15", idx);
  let ps: Vec<Prog> = (0..2)
    .map(|i| {
      let mut cfg = Cfg::text(&mut r);
      if r.chance(1, 2) || i > 0 {
        cfg.max_funcs = 2;
        cfg.max_blocks = 3;
        cfg.max_insts = 4;
      }
      gen::gen(&mut r, &cfg)
    })
    .collect();
  cx.what = show(&ps[0]);
  cx.shape(fnv(cx.what.as_bytes()));
  if idx < 2 {
    let s = cx.what.clone();
    cx.sample(|| s);
  }
  let text = if r.chance(1, 4) {
    broken::mutant(&mut r, 1).1
  } else {
    let wild = r.chance(1, 3);
    let mut t = emit::text(&ps[0], &mut r, &emit::Style { wild, shuffle: true, dead: false }).into_bytes();
    if r.chance(1, 3) {
      t.extend(*r.pick(&[b"// end".as_slice(), b"/* end */", b"\n\n \t", b"/**/", b"// end\n", b"/* a * / **/ "]));
    }
    t
  };
  reads(cx, &mut r, &text);
  let built: Vec<Program> = ps.iter().map(|m| api::build(m, &mut r).0).collect();
  writes(cx, &mut r, &built);
  // a file that can not be read
  if idx % 64 == 0 {
    cx.count("unreadable inputs");
    if Driver::from_path(format!("{}/none", cx.scratch)).is_ok() {
      cx.fail("a missing file is opened", "");
    }
    // a directory opens, but reading it fails
    if let Ok(d) = Driver::from_path(cx.scratch.clone()) {
      if d.generate_program().is_ok() {
        cx.fail("a directory is parsed", "");
      }
    }
  }
}

pub static CHECKS: &[&Check] = &[&Check {
  id: "C15",
  rule: "random programs are parsed from readers and dumped to writers with injected faults (errors of nine kinds, interruptions, short and zero transfers) at random places, and at every byte of small outputs; results, bytes received and reuse of the generator are compared with undisturbed runs; distinct programs",
  cases: (15000, 60000),
  limit: (150, 1500),
  case: c15,
  workers: 0,
  assumptions: &["buffering writers are flushed by the caller"],
}];
