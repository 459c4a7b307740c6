//! Checks on termination and totality of the front end, on its diagnostics,
//! and on the configuration without diagnostics.

use crate::broken::mutant;
use crate::fw::*;
use crate::refront::{self, Verdict};
use crate::rng::{fnv, Rng};
use crate::text::{gen_text, lossy};
use crate::api;
use koopa::front::span::{Error, FileType, Pos, Span};
use koopa::front::Driver;
use std::cell::RefCell;
use std::fs::File;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

extern "C" {
  fn dup2(a: i32, b: i32) -> i32;
}

// --- capturing standard error

thread_local! {
  static CAP: RefCell<Option<File>> = const { RefCell::new(None) };
}

/// Runs `f` with standard error going to a file; returns what was written.
pub fn capture<T>(cx: &Cx, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
  CAP.with(|c| {
    let mut c = c.borrow_mut();
    if c.is_none() {
      let f = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .read(true)
        .write(true)
        .open(format!("{}/stderr", cx.scratch))
        .expect("stderr file");
      assert!(unsafe { dup2(f.as_raw_fd(), 2) } == 2);
      *c = Some(f);
    }
    let fl = c.as_mut().unwrap();
    fl.set_len(0).unwrap();
    fl.seek(SeekFrom::Start(0)).unwrap();
    let x = f();
    let mut v = vec![];
    fl.seek(SeekFrom::Start(0)).unwrap();
    fl.read_to_end(&mut v).unwrap();
    (x, v)
  })
}

// --- C04

/// A reader that hands out a buffer in random pieces, and counts.
pub struct Pieces<'a> {
  pub data: &'a [u8],
  pub pos: usize,
  pub reads: u64,
  pub ends: u64,
  pub rng: Rng,
  /// Also returns `Interrupted` now and then.
  pub intr: bool,
  pub max_piece: usize,
}

impl Read for Pieces<'_> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    self.reads += 1;
    if self.intr && self.rng.chance(1, 5) {
      return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
    }
    let n = buf.len().min(self.data.len() - self.pos).min(self.rng.range(1, self.max_piece));
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    if n == 0 && !buf.is_empty() {
      self.ends += 1;
      if self.ends > 1_000_000 {
        panic!("the end of the input was read a million times");
      }
    }
    Ok(n)
  }
}

const ATOMS: [&str; 52] = [
  "fun", "decl", "global", "alloc", "i32", "@f", "%0", "%entry", "@x", "(", ")", "{", "}", "[", "]", ",", ":", "=", "*", "ret", "jump",
  "br", "store", "load", "getptr", "getelemptr", "call", "add", "undef", "zeroinit", "0", "-1", "2147483647", "99999999999999999999",
  "// c\n", "/* c */", "/*", "\n", "\r", "\t", "é", "\u{3b1}", "²", "½", "/", "@", "%", "%12x", "$", "\"", "\0", "\u{a0}",
];

fn soup(r: &mut Rng) -> Vec<u8> {
  let mut s = vec![];
  match r.below(9) {
    0 => {
      for _ in 0..r.range(0, 400) {
        s.push(r.below(256) as u8);
      }
    }
    1 => {
      for _ in 0..r.range(1, 200) {
        s.extend(r.pick(&ATOMS).bytes());
        if r.chance(1, 2) {
          s.push(*r.pick(b" \n\t "));
        }
      }
    }
    2 | 3 => {
      // a mutant with bytes changed
      let n = r.range(1, 6);
      s = mutant(r, n).1;
      for _ in 0..r.range(1, 6) {
        if s.is_empty() {
          break;
        }
        let i = r.below(s.len());
        match r.below(4) {
          0 => s[i] = r.below(256) as u8,
          1 => s.insert(i, *r.pick(&[0x80, 0xc3, 0xff, 0, b'\r', b'\t', 0xb2, 0xbd, 0xe9])),
          2 => {
            let t = r.pick(&ATOMS).as_bytes().to_vec();
            s.splice(i..i, t);
          }
          _ => s.truncate(i),
        }
      }
    }
    4 => {
      // pieces of two texts
      let (a, b) = (gen_text(r).1.into_bytes(), gen_text(r).1.into_bytes());
      let (i, j) = (r.below(a.len()), r.below(b.len()));
      s.extend(&a[..i]);
      s.extend(&b[j..]);
    }
    5 => {
      // an error on a long, odd line
      let n = r.range(1, 90000);
      let fill = *r.pick(&[" ", "\t", "é", "/**/", "a"]);
      s.extend(b"global @g = alloc i32, 0\n");
      for _ in 0..n / fill.len() {
        s.extend(fill.bytes());
      }
      s.extend(r.pick(&ATOMS).bytes());
      if r.chance(1, 2) {
        s.extend(b"\n%\n");
      }
    }
    6 => {
      // errors spread over many lines: multi-line excerpts of all heights
      s.extend(b"fun @f(): i32 {\n%e:\n");
      for _ in 0..r.range(0, 24) {
        s.extend(*r.pick(&[&b"  %a = foo 1\n"[..], b"  %b = add %zz,\n\n\n 1\n", b"\n", b"  call @nope(\n\n\n\n\n\n)\n", b"  %c = alloc [i32,\n 0]\n", b"\xff\xfe\n", b"  store {1, 2\n", b"\t\t%q = =\n", b"  jump %e\n%n:\n"]));
      }
      s.extend(*r.pick(&[&b"  ret 0\n}\n"[..], b"  ret\n}", b"}", b""]));
    }
    7 => repeat(r, &mut s),
    _ => {
      s = gen_text(r).1.into_bytes();
      let i = r.below(s.len() + 1);
      s.truncate(i);
    }
  }
  s
}

/// Long and repetitive, but not deeply nested, input.
fn repeat(r: &mut Rng, s: &mut Vec<u8>) {
  let n = r.range(1, 20000);
  match r.below(15) {
    13 => {
      // arrays of enormous length, initialized by a few elements
      for i in 0..r.range(1, 4) {
        let l = *r.pick(&["9223372036854775807", "4611686018427387904", "1152921504606846976", "4294967296", "1099511627776", "2147483647"]);
        let e = *r.pick(&["{1}", "{}", "{1, 2, 3}", "zeroinit", "undef", "{{1}}", "1", "{undef}"]);
        s.extend(match r.below(3) {
          0 => format!("global @g{i} = alloc [i32, {l}], {e}\n"),
          1 => format!("global @g{i} = alloc [[i32, {l}], 1], {{{e}}}\n"),
          _ => format!("fun @f{i}(%p: *[i32, {l}]) {{\n%e:\n  store {e}, %p\n  ret\n}}\n"),
        }.bytes());
      }
    }
    0 => (0..n).for_each(|_| s.extend(b"/**/")),
    1 => (0..n).for_each(|_| s.extend(b"// x\n")),
    2 => {
      s.extend(b"global @");
      (0..n).for_each(|_| s.push(b'a'));
      s.extend(b" = alloc i32, ");
      (0..n).for_each(|_| s.push(b'1'));
    }
    3 => (0..n / 4).for_each(|i| s.extend(format!("global @g{i} = alloc i32, {i}\n").bytes())),
    4 => {
      s.extend(b"fun @f(%p: i32): i32 {\n%b0:\n %v = add %p, 1\n");
      let n = n / 8 + 1;
      (1..n).for_each(|i| s.extend(format!(" jump %b{i}\n%b{i}:\n").bytes()));
      s.extend(b" ret %v\n}\n");
    }
    5 => {
      s.extend(b"fun @f() {\n%b0:\n");
      (0..n / 4).for_each(|i| s.extend(format!(" %v{i} = add 1, 2\n").bytes()));
      s.extend(b" ret\n}\n");
    }
    6 => (0..n).for_each(|_| s.extend(b"}")),
    7 => {
      s.extend(b"fun @f(");
      (0..n / 4).for_each(|i| s.extend(format!("%p{i}: i32, ").bytes()));
    }
    8 => {
      s.extend(b"global @g = alloc [i32, 3], {");
      (0..n).for_each(|_| s.extend(b"1,"));
    }
    9 => (0..n).for_each(|_| s.extend(b"\n")),
    10 => {
      // nesting of moderate depth
      let d = r.range(1, 300);
      let (a, b) = *r.pick(&[("*", ""), ("[", ", 2]"), ("(", ")"), ("(i32, ", "): i32")]);
      s.extend(b"global @g = alloc ");
      (0..d).for_each(|_| s.extend(a.bytes()));
      s.extend(b"i32");
      (0..d).for_each(|_| s.extend(b.bytes()));
      s.extend(b", zeroinit\nglobal @h = alloc i32, ");
      (0..d).for_each(|_| s.extend(b"{"));
      s.push(b'1');
      (0..d).for_each(|_| s.extend(b"}"));
    }
    11 => {
      let a = r.pick(&ATOMS).as_bytes().to_vec();
      (0..n).for_each(|_| {
        s.extend(&a);
        s.push(b' ');
      });
    }
    12 => {
      // many errors
      s.extend(b"fun @f() {\n%b0:\n");
      (0..n / 8).for_each(|i| s.extend(format!(" %v{i} = add %z{i}, 2\n").bytes()));
      s.extend(b" ret\n}\n");
    }
    _ => {
      // a ladder of branches: many paths to the same definition
      s.extend(b"fun @f(%p: i32) {\n%b0:\n");
      let n = n / 20 + 1;
      (1..n).for_each(|i| s.extend(format!(" br %p, %l{i}, %r{i}\n%l{i}:\n jump %b{i}\n%r{i}:\n jump %b{i}\n%b{i}:\n").bytes()));
      s.extend(b" %x = add %p, %nosuch\n ret\n}\n");
    }
  }
}

/// Deep nesting, in a process of its own: `deep KIND`.
pub fn deep(kind: usize) -> i32 {
  let (text, _) = deep_text(kind);
  let r = api::parse(text.as_bytes());
  std::mem::forget(r);
  0
}

const DEEP: usize = 5;

fn deep_text(kind: usize) -> (String, &'static str) {
  let n = 400_000;
  let x = |a: &str, b: &str, c: &str| format!("global @g = alloc {}{b}{}, zeroinit\n", a.repeat(n), c.repeat(n));
  match kind {
    0 => (x("*", "i32", ""), "deeply nested pointer types overflow the stack"),
    1 => (x("[", "i32", ", 1]"), "deeply nested array types overflow the stack"),
    2 => (x("(", "i32", ")"), "deeply nested function types overflow the stack"),
    3 => (
      format!("global @g = alloc i32, {}1{}\n", "{".repeat(n), "}".repeat(n)),
      "deeply nested aggregates overflow the stack",
    ),
    _ => (x("():", "i32", ""), "deeply nested return types overflow the stack"),
  }
}

fn c04(cx: &mut Cx, idx: u64) {
  if (idx as usize) < DEEP {
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe).args(["deep", &idx.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
    cx.count("deep nesting probes");
    if !st.success() {
      cx.fail(deep_text(idx as usize).1, format!("deep nesting probe {idx}: {st}"));
    }
    return;
  }
  let mut r = cx.rng("C04", idx);
  let s = soup(&mut r);
  cx.what = format!("{} bytes: {}", s.len(), lossy(&s[..s.len().min(3000)]));
  cx.add("bytes of input", s.len() as u64);
  cx.shape(fnv(&s));
  if idx < 30 && s.len() < 1500 {
    cx.sample(|| lossy(&s));
  }
  let kind = r.below(4);
  let path = format!("{}/in.koopa", cx.scratch);
  let t0 = std::time::Instant::now();
  let (res, err) = capture(cx, || match kind {
    0 => {
      std::fs::write(&path, &s).unwrap();
      guarded(|| Driver::from_path(&path).unwrap().generate_program())
    }
    1 => guarded(|| Driver::new(FileType::Buffer, Cursor::new(&s)).generate_program()),
    2 => {
      // a file whose reported name is not, or no longer, the one that is read
      std::fs::write(&path, &s).unwrap();
      let d = Driver::new(FileType::File(path.clone().into()), Cursor::new(&s));
      match r.below(3) {
        0 => std::fs::remove_file(&path).unwrap(),
        1 => std::fs::write(&path, b"short").unwrap(),
        _ => {
          let mut t = s.clone();
          r.shuffle(&mut t);
          std::fs::write(&path, &t).unwrap();
        }
      }
      guarded(|| d.generate_program())
    }
    _ => {
      let max = *r.pick(&[1, 3, 100, 100000]);
      let intr = r.chance(1, 2);
      let p = Pieces { data: &s, pos: 0, reads: 0, ends: 0, rng: r.fork(), intr, max_piece: max };
      guarded(|| Driver::new(FileType::Stdin, p).generate_program())
    }
  });
  let dt = t0.elapsed().as_millis() as u64;
  if cx.verbose && dt > 300 {
    println!("SLOW {dt} ms case {idx}: {}", lossy(&s[..s.len().min(60)]).replace('\n', " "));
  }
  cx.count(["inputs from a file", "inputs from memory", "inputs with another file in place", "inputs in pieces"][kind]);
  match res {
    Err(m) => {
      let file = std::path::Path::new(m.rsplit("(at ").next().unwrap_or("")).file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default();
      cx.fail(format!("panic in {}", file.split(':').next().unwrap_or("")), format!("{m}\n{}", cx.what));
    }
    Ok(Ok(_)) => cx.count("accepted"),
    Ok(Err(_)) => {
      cx.count("rejected");
      cx.add("bytes of diagnostics", err.len() as u64);
    }
  }
}

// --- C19

struct Diag {
  error: bool,
  msg: String,
  file: String,
  line: u32,
  col: u32,
  has_at: bool,
  /// Lines that follow the location.
  body: Vec<String>,
}

/// Reads back what was printed. The second part is the summary.
fn read_diags(s: &str) -> (Vec<Diag>, Option<(u64, u64)>) {
  let mut v: Vec<Diag> = vec![];
  let mut sum = None;
  for l in s.lines() {
    let msg = |error| Diag { error, msg: l.to_string(), file: String::new(), line: 0, col: 0, has_at: false, body: vec![] };
    if l.starts_with("error: ") {
      v.push(msg(true));
    } else if l.starts_with("warning: ") {
      v.push(msg(false));
    } else if l.ends_with(" emitted") && !l.contains('|') {
      let n = |w: &str| -> u64 {
        let ws: Vec<&str> = l.split(' ').collect();
        ws.windows(2).find(|x| x[1].trim_end_matches('s') == w).and_then(|x| x[0].parse().ok()).unwrap_or(0)
      };
      sum = Some((n("error"), n("warning")));
    } else if let Some(d) = v.last_mut() {
      if !d.has_at && l.starts_with("  at ") {
        let mut it = l[5..].rsplitn(3, ':');
        d.col = it.next().and_then(|x| x.parse().ok()).unwrap_or(u32::MAX);
        d.line = it.next().and_then(|x| x.parse().ok()).unwrap_or(u32::MAX);
        d.file = it.next().unwrap_or("").to_string();
        d.has_at = true;
      } else {
        d.body.push(l.to_string());
      }
    }
  }
  (v, sum)
}

fn show_line(l: &[u8]) -> String {
  expand(l.strip_suffix(b"\r").unwrap_or(l))
}

fn expand(l: &[u8]) -> String {
  String::from_utf8_lossy(l).replace('\t', "  ")
}

/// Uses the message interface directly, as another front end would: spans
/// between known places of a text, messages of all kinds in any order.
fn messages(cx: &mut Cx, r: &mut Rng) {
  // a text without the characters that excerpts are drawn with
  let mut s: Vec<u8> = vec![];
  for _ in 0..r.range(1, 14) {
    for _ in 0..*r.pick(&[0, 1, 2, 5, 12, 30]) {
      s.extend_from_slice(match r.below(9) {
        0 => "\t".as_bytes(),
        1 => "é".as_bytes(),
        2 => "\u{3b1}".as_bytes(),
        3 => b" ",
        4 => b"%",
        5 => b"{",
        _ => &b"abcxyz0189"[r.below(10)..][..1],
      });
    }
    if r.chance(1, 8) {
      s.push(b'\r');
    }
    s.push(b'\n');
  }
  if r.chance(1, 2) {
    s.pop();
  }
  if s.is_empty() {
    s.push(b'a');
  }
  let lines: Vec<&[u8]> = s.split(|c| *c == b'\n').collect();
  // the position of each byte, by the interface and by counting
  let (mut p, mut l, mut c) = (Pos::new(), 1u32, 0u32);
  let mut at: Vec<(Pos, u32, u32)> = vec![];
  for b in &s {
    p.update(*b as char);
    if *b == b'\n' {
      (l, c) = (l + 1, 0);
    } else {
      c += 1;
    }
    at.push((p, l, c));
  }
  let path = format!("{}/said.koopa", cx.scratch);
  std::fs::write(&path, &s).unwrap();
  let n = r.range(1, 12);
  cx.what = format!("messages about\n{}", lossy(&s));
  for round in 0..2 {
    let kind = r.below(4);
    let (ft, name) = match kind {
      0 | 1 => (FileType::File(path.clone().into()), path.as_str()),
      2 => (FileType::Buffer, "<buffer>"),
      _ => (FileType::Stdin, "<stdin>"),
    };
    // kind of message, whether it is an error, and where
    let mut sent: Vec<(bool, String, Option<(usize, usize)>)> = vec![];
    let mut bad = None;
    let (_, out) = capture(cx, || {
      Span::reset(ft);
      for k in 0..n {
        let i = r.below(s.len());
        let j = match r.below(4) {
          0 => i,
          1 => (i + r.below(9)).min(s.len() - 1),
          _ => i + r.below(s.len() - i),
        };
        let (a, b) = (at[i].0, at[j].0);
        let span = match r.below(5) {
          0 if i == j => Span::new(a),
          1 => {
            let mut x = Span::new(a);
            x.update(b);
            x
          }
          2 => {
            let mut x = Span::new(a);
            x.update_span(Span::new(at[r.below(j + 1)].0).into_updated(b));
            x
          }
          3 => Span::new(a).into_updated_span(Span::new(at[r.below(j + 1)].0).into_updated(b)),
          _ => Span::new(a).into_updated(b),
        };
        let o = r.below(s.len());
        if span.is_in_same_line_as(&Span::new(at[o].0)) != (at[j].1 == at[o].1) {
          bad = Some(format!("{span:?} and {} in the same line?", at[o].0));
        }
        let want = format!("{}:{}-{}:{}", at[i].1, at[i].2, at[j].1, at[j].2);
        if format!("{span:?}") != want {
          bad = Some(format!("{span:?}, expected {want}"));
        }
        let which = r.below(7);
        let e: Option<(Error, bool)> = match which {
          0 => Some((koopa::log_raw_error!("no. {} {}", round, k), false)),
          1 => Some((koopa::log_raw_fatal_error!("no. {} {}", round, k), true)),
          2 => {
            koopa::log_raw_warning!("no. {} {}", round, k);
            None
          }
          3 => Some((koopa::log_error!(span, "no. {} {}", round, k), false)),
          4 => Some((koopa::log_fatal_error!(span, "no. {} {}", round, k), true)),
          5 => {
            koopa::log_warning!(span, "no. {} {}", round, k);
            sent.push((false, format!("warning: no. {round} {k}"), Some((i, j))));
            continue;
          }
          _ => {
            let f = || -> Result<(), Error> { koopa::return_error!(span, "no. {} {}", round, k) };
            sent.push((true, format!("error: no. {round} {k}"), Some((i, j))));
            match f() {
              Ok(()) => bad = Some("return_error! returned success".into()),
              Err(e) if e.is_fatal() => bad = Some("return_error! returned a fatal error".into()),
              Err(_) => {}
            }
            continue;
          }
        };
        match e {
          None => sent.push((false, format!("warning: no. {round} {k}"), None)),
          Some((e, fatal)) => {
            if e.is_fatal() != fatal {
              bad = Some(format!("message {k} fatal: {}", e.is_fatal()));
            }
            sent.push((true, format!("error: no. {round} {k}"), (which > 2).then_some((i, j))));
          }
        }
      }
      Span::log_global();
    });
    let out = lossy(&out);
    let w = format!("{sent:?}\n{out}\n{}", cx.what);
    if let Some(b) = bad {
      return cx.fail("the message interface is wrong about spans or errors", format!("{b}\n{w}"));
    }
    let ne = sent.iter().filter(|x| x.0).count() as u64;
    let nw = n as u64 - ne;
    if (Span::error_num() as u64, Span::warning_num() as u64) != (ne, nw) {
      return cx.fail("counts differ from the messages sent", w);
    }
    let (ds, sum) = read_diags(&out);
    if sum != Some((ne, nw)) {
      return cx.fail("summary differs from the messages sent", w);
    }
    if ds.len() != n || ds.iter().zip(&sent).any(|(d, x)| d.error != x.0 || d.msg != x.1) {
      return cx.fail("messages printed are not those sent", w);
    }
    cx.add("messages sent", n as u64);
    for (d, x) in ds.iter().zip(&sent) {
      if d.has_at != x.2.is_some() {
        return cx.fail("a message has a location, or none, against what was sent", w);
      }
      let Some((i, j)) = x.2 else { continue };
      let (lo, hi) = (at[i], at[j]);
      if d.file != name || (d.line, d.col) != (lo.1, lo.2) {
        return cx.fail("a message is located elsewhere", format!("{} at {}:{}, sent for {}\n{w}", d.msg, d.line, d.col, lo.0));
      }
      if kind > 1 || lo.2 == 0 || hi.2 == 0 {
        continue;
      }
      // where the characters are in the lines shown, and what the markers are under
      let shown = |p: (Pos, u32, u32)| -> Option<(usize, usize)> {
        let src = lines[p.1 as usize - 1];
        let src = src.strip_suffix(b"\r").unwrap_or(src);
        let col = p.2 as usize;
        if col > src.len() {
          return None;
        }
        let k = d.body.iter().position(|l| l.split_once('|').is_some_and(|(a, _)| a.trim().parse() == Ok(p.1)))?;
        let text = expand(src);
        let off = d.body[k].strip_suffix(text.as_str())?.chars().count();
        let last = expand(&src[..col]).chars().count() - 1;
        Some((k, off + last))
      };
      let multi = lo.1 != hi.1;
      let num = |n: u32| d.body.iter().any(|l| l.split_once('|').is_some_and(|(a, _)| a.trim().parse() == Ok(n)));
      if !num(lo.1) || !num(hi.1) {
        return cx.fail("excerpt leaves out the first or the last line", w);
      }
      for (p, first) in [(lo, true), (hi, false)] {
        let Some((k, x)) = shown(p) else { continue };
        let Some(m) = d.body.get(k + 1) else { return cx.fail("excerpt without marker", w) };
        let cs: Vec<char> = m.chars().collect();
        let got = if first { cs.iter().position(|c| *c == '^') } else { cs.iter().rposition(|c| *c == '^') };
        // in the middle of a character, either of its sides will do
        let src = lines[p.1 as usize - 1];
        let slack = (src[p.2 as usize - 1] >= 0x80 || src[p.2 as usize - 1] == b'\t') as usize;
        if !got.is_some_and(|g| g.abs_diff(x) <= slack) {
          return cx.fail("marker is not under the end of the span", format!("{}, {got:?} but {x}: {m}\n{w}", p.0));
        }
        cx.count(if multi { "markers of long spans checked" } else { "ends of markers checked" });
      }
    }
  }
}

fn c19(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C19", idx);
  if r.chance(1, 6) {
    cx.count("direct uses of the message interface");
    return messages(cx, &mut r);
  }
  let (which, mut s) = match r.below(8) {
    0 => ("none", gen_text(&mut r).1.into_bytes()),
    1 => mutant(&mut r, 8),
    2 => mutant(&mut r, 40),
    _ => mutant(&mut r, 1),
  };
  if r.chance(1, 6) {
    // something non-ASCII in a comment ahead
    let mut t = "/* é\u{3b1} */ // ü\n\t/*ß*/".to_string().into_bytes();
    t.extend(s);
    s = t;
  }
  cx.what = format!("[{which}]\n{}", lossy(&s));
  let mut skipped = vec![];
  let verdict = refront::judge_with(&s, &mut skipped);
  let path = format!("{}/in.koopa", cx.scratch);
  // excerpts of one long line, again and again, would fill the memory
  let kind = if s.len() > 50_000 { r.range(1, 2) } else { r.below(3) };
  let file = [path.as_str(), "<buffer>", "<stdin>"][kind];
  let ((res, errs, warns), out) = capture(cx, || {
    let res = match kind {
      0 => {
        std::fs::write(&path, &s).unwrap();
        Driver::from_path(&path).unwrap().generate_program()
      }
      1 => match std::str::from_utf8(&s) {
        Ok(t) if idx % 3 == 0 => Driver::from(t).generate_program(),
        Ok(t) if idx % 3 == 1 => Driver::from(t.to_string()).generate_program(),
        _ => Driver::new(FileType::Buffer, Cursor::new(&s)).generate_program(),
      },
      _ => Driver::new(FileType::Stdin, Cursor::new(&s)).generate_program(),
    };
    (res, Span::error_num() as u64, Span::warning_num() as u64)
  });
  let out = lossy(&out);
  cx.what = format!("{}\n--- printed\n{out}", cx.what);
  cx.count("runs");
  let (ds, sum) = read_diags(&out);
  let (ne, nw) = (ds.iter().filter(|d| d.error).count() as u64, ds.iter().filter(|d| !d.error).count() as u64);
  cx.add("error messages", ne);
  cx.add("warning messages", nw);
  let w = cx.what.clone();
  if ne != errs || nw != warns {
    return cx.fail("counts differ from the messages issued", format!("{ne} errors, {nw} warnings printed; counted {errs} and {warns}\n{w}"));
  }
  if res.is_ok() && errs != 0 {
    return cx.fail("error issued for accepted input", w);
  }
  if res.is_err() && errs == 0 {
    return cx.fail("input rejected without an error message", w);
  }
  // grammar errors and too many errors may end a run early
  let to_end = match &verdict {
    Verdict::Ok(_) => true,
    Verdict::Bad(b) => b.grammar_ok && errs <= 20,
    Verdict::Unsure(_) => res.is_ok(),
  };
  match sum {
    None if to_end && errs + warns != 0 => return cx.fail("no summary line", w),
    Some(x) if x != (errs, warns) => return cx.fail("summary line states other numbers", format!("{x:?} for {errs}, {warns}\n{w}")),
    Some(_) => {
      cx.count("summary lines checked");
      if !out.trim_end().ends_with(" emitted") {
        return cx.fail("summary line is not the last one", w);
      }
    }
    None if errs > 0 => cx.count("runs that ended early"),
    None => {}
  }
  let lines: Vec<&[u8]> = s.split(|c| *c == b'\n').collect();
  for d in &ds {
    // names in messages are names in the input
    for q in d.msg.split('\'').skip(1).step_by(2) {
      if q.len() > 1 && q.starts_with(['%', '@']) && q[1..].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
        cx.count("names in messages checked");
        // a temporary ends where its digits end, and %0 right there
        let temp = q[1..].bytes().all(|c| c.is_ascii_digit());
        let part = |c: Option<&u8>| q != "%0" && c.is_some_and(|c| c.is_ascii_digit() || !temp && (c.is_ascii_alphabetic() || *c == b'_'));
        let found = s.windows(q.len()).enumerate().any(|(i, w)| w == q.as_bytes() && !part(s.get(i + q.len())));
        if !found {
          return cx.fail("a message names something the input does not", format!("{q}\n{w}"));
        }
      }
    }
    if !d.has_at {
      continue;
    }
    if d.file != file {
      return cx.fail("diagnostic names another input", format!("{} for {file}\n{w}", d.file));
    }
    if kind == 0 && d.col > 0 {
      // an excerpt may follow; its first line is the reported one
      let Some(x) = d.body.iter().find_map(|l| {
        let (a, b) = l.split_once('|')?;
        let n: u32 = a.trim().parse().ok()?;
        Some((n, b.to_string()))
      }) else {
        if d.body.iter().any(|l| !l.is_empty()) {
          return cx.fail("excerpt without a line", w);
        }
        continue;
      };
      let Some(src) = lines.get(d.line as usize - 1) else { return cx.fail("diagnostic is on a line that does not exist", w) };
      let want = show_line(src);
      cx.count("excerpts checked");
      if x.0 != d.line || x.1.trim() != want.trim() {
        return cx.fail("excerpt is not the reported line", format!("line {}: {:?}, expected line {}: {want:?}\n{w}", x.0, x.1, d.line));
      }
      // the following lines of the excerpt are those they are said to be
      let mut before = 0;
      for l in &d.body {
        let Some((a, b)) = l.split_once('|') else { continue };
        let Ok(n) = a.trim().parse::<u32>() else { continue };
        let Some(src) = lines.get((n as usize).wrapping_sub(1)) else { return cx.fail("excerpt has a line that does not exist", format!("{n}\n{w}")) };
        let want = show_line(src);
        let (b, want) = (b.trim(), want.trim());
        if n != d.line {
          cx.count("further excerpt lines checked");
        }
        if b != want && b.strip_prefix('|').map(str::trim) != Some(want) {
          return cx.fail("excerpt shows another line", format!("{n}: {b:?}, expected {want:?}\n{w}"));
        }
        if n <= before {
          return cx.fail("excerpt lines are not in order", w);
        }
        before = n;
      }
      // a marker on one line starts under the reported column
      let i = d.body.iter().position(|l| l.split_once('|').is_some_and(|(a, _)| a.trim().parse::<u32>().is_ok())).unwrap();
      if let Some((_, m)) = d.body.get(i + 1).and_then(|l| l.split_once('|')) {
        let t = m.trim();
        if !t.is_empty() && t.bytes().all(|c| c == b'^') && (d.col as usize) <= src.len() {
          cx.count("markers checked");
          let last = expand(&src[..d.col as usize]).chars().count() - 1;
          // the end of the input may be reported at the last byte of a character
          let at = expand(&src[..d.col as usize - 1]).chars().count().min(last);
          let got = m.len() - m.trim_start().len();
          if got < at + 1 || got > last + 1 {
            return cx.fail("marker is not under the reported column", w);
          }
        }
      }
    }
  }
  match verdict {
    Verdict::Ok(_) => {
      cx.count("well-formed inputs");
      if errs > 0 {
        return cx.fail("error issued for a well-formed input", w);
      }
      // one warning for each block that is left out, and it points there
      cx.add("blocks left out", skipped.len() as u64);
      for d in &ds {
        let p = (d.line, d.col);
        match skipped.iter().position(|(n, (a, b))| *a <= p && p <= *b && d.msg.contains(&format!("'{n}'"))) {
          Some(i) => {
            skipped.swap_remove(i);
          }
          None => return cx.fail("warning about something else than a block that can not be reached", w),
        }
      }
      if !skipped.is_empty() {
        cx.fail("no warning for a block that is left out", format!("{skipped:?}\n{w}"));
      }
    }
    Verdict::Unsure(_) => cx.count("inputs left open"),
    Verdict::Bad(b) => {
      cx.count(&format!("first error located ({:?}): {}", b.class, b.rule));
      cx.shape(fnv(&s));
      if idx < 40 {
        cx.sample(|| w.clone());
      }
      match ds.iter().find(|d| d.error) {
        None => cx.fail("no error message for an ill-formed input", w),
        Some(d) if !d.has_at => cx.fail("first error has no location", w),
        Some(d) => {
          let p = (d.line, d.col);
          if !b.spans.iter().any(|(s, e)| *s <= p && p <= *e) {
            cx.fail(
              "first error is reported elsewhere",
              format!("reported at {p:?}, expected within {:?} ({:?}: {})\n{w}", &b.spans[..b.spans.len().min(4)], b.class, b.rule),
            )
          }
        }
      }
    }
  }
}

// --- C20

struct Peer {
  c: Child,
  i: ChildStdin,
  o: ChildStdout,
  err: File,
}

thread_local! {
  static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// Serves verdicts: used by the build without diagnostics.
pub fn serve() -> i32 {
  quiet_panics();
  let (mut i, mut o) = (io::stdin().lock(), io::stdout().lock());
  let (mut n, mut h) = ([0; 8], [0; 16]);
  while i.read_exact(&mut n).is_ok() {
    i.read_exact(&mut h).unwrap();
    let mut s = vec![0; u64::from_le_bytes(n) as usize];
    i.read_exact(&mut s).unwrap();
    let mode = u64::from_le_bytes(h[..8].try_into().unwrap());
    let x = answer(&s, mode, u64::from_le_bytes(h[8..].try_into().unwrap()) as usize);
    // the answer, then what the errors say
    let mut a = (x.len() as u64).to_le_bytes().to_vec();
    a.extend(x);
    for m in SAID.with(|x| std::mem::take(&mut *x.borrow_mut())) {
      a.extend((m.len() as u64).to_le_bytes());
      a.extend(m.bytes());
    }
    o.write_all(&(a.len() as u64).to_le_bytes()).unwrap();
    o.write_all(&a).unwrap();
    o.flush().unwrap();
  }
  0
}

/// Reader that fails for good after some bytes.
struct Failing<'a> {
  data: &'a [u8],
  kind: io::ErrorKind,
  fails: usize,
}

impl Read for Failing<'_> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if self.data.is_empty() {
      self.fails += 1;
      if self.fails > 10_000 {
        panic!("a reader that fails is read ten thousand times");
      }
      return Err(self.kind.into());
    }
    self.data.read(buf)
  }
}

thread_local! {
  /// What the errors returned say (they say something in the build without diagnostics only).
  static SAID: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

#[cfg(feature = "nolog")]
fn said(e: &Error) -> bool {
  let (Error::Normal(s) | Error::Fatal(s)) = e;
  SAID.with(|x| x.borrow_mut().push(s.clone()));
  e.is_fatal()
}

#[cfg(not(feature = "nolog"))]
fn said(e: &Error) -> bool {
  e.is_fatal()
}

/// Verdict and program of one input, as bytes. Modes: the whole text from memory, a reader that
/// fails after `at` bytes, the tokens, the trees, messages of all kinds.
fn answer(s: &[u8], mode: u64, at: usize) -> Vec<u8> {
  let counts = || format!("errors {} warnings {}", Span::error_num(), Span::warning_num());
  let program = |r: Result<koopa::ir::Program, koopa::front::span::Error>| match r {
    Err(e) => format!("rejected, fatal: {}, {}", said(&e), counts()).into_bytes(),
    Ok(p) => {
      let mut v = format!("accepted, {}\n", counts()).into_bytes();
      v.extend(api::dump_koopa(&p).unwrap_or_default());
      v
    }
  };
  let r = guarded(|| match mode {
    0 => program(api::parse(s)),
    1 => {
      let at = at.min(s.len());
      let kind = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe][at % 5];
      program(koopa::front::Driver::new(FileType::Buffer, Failing { data: &s[..at], kind, fails: 0 }).generate_program())
    }
    2 => {
      Span::reset(FileType::Buffer);
      let mut l = koopa::front::lexer::Lexer::new(s);
      let mut v = String::new();
      for _ in 0..=s.len() {
        match l.next_token() {
          Ok(t) if t.kind == koopa::front::token::TokenKind::End => break,
          Ok(t) => v += &format!("{:?} {:?}\n", t.span, t.kind),
          Err(e) => v += &format!("error, fatal: {}\n", said(&e)),
        }
      }
      (v + &counts()).into_bytes()
    }
    3 => {
      Span::reset(FileType::Buffer);
      let mut v = String::new();
      match koopa::front::parser::Parser::new(koopa::front::lexer::Lexer::new(s)) {
        Err(e) => v += &format!("no parser, fatal: {}\n", said(&e)),
        Ok(mut p) => {
          for _ in 0..=s.len() {
            match p.parse_next() {
              Ok(t) if matches!(t.kind, koopa::front::ast::AstKind::End(_)) => break,
              Ok(t) => v += &format!("{t:?}\n"),
              Err(e) => v += &format!("error, fatal: {}\n", said(&e)),
            }
          }
        }
      }
      (v + &counts()).into_bytes()
    }
    _ => {
      Span::reset([FileType::Buffer, FileType::Stdin][at % 2].clone());
      let mut v = String::new();
      let mut pos = Pos::new();
      let mut r = Rng::new(at as u64);
      for (i, b) in s.iter().enumerate().take(2000) {
        pos.update(*b as char);
        if !r.chance(1, 40) {
          continue;
        }
        let span = Span::new(pos);
        let e = match r.below(6) {
          0 => koopa::log_raw_error!("a {i}"),
          1 => koopa::log_raw_fatal_error!("b {}", i),
          2 => koopa::log_error!(span, "c: {}", i),
          3 => koopa::log_fatal_error!(span, "d {i}: {i}"),
          4 => {
            koopa::log_raw_warning!("e {}", i);
            continue;
          }
          _ => {
            koopa::log_warning!(span, "f {}", i);
            continue;
          }
        };
        v += &format!("fatal: {}, {}\n", said(&e), counts());
      }
      Span::log_global();
      (v + &counts()).into_bytes()
    }
  });
  r.unwrap_or_else(|m| format!("panic {m}").into_bytes())
}

fn c20(cx: &mut Cx, idx: u64) {
  let mut r = cx.rng("C20", idx);
  let s = match r.below(4) {
    0 => gen_text(&mut r).1.into_bytes(),
    1 => soup(&mut r),
    2 => mutant(&mut r, 3).1,
    _ => mutant(&mut r, 1).1,
  };
  cx.what = lossy(&s[..s.len().min(40000)]);
  cx.shape(fnv(&s));
  let mode = match r.below(20) {
    0..=3 => 1,
    4 | 5 => 2,
    6 | 7 => 3,
    8 => 4,
    _ => 0,
  };
  let at = r.below(s.len() + 1);
  cx.count(["whole texts", "readers that fail", "token lists", "tree lists", "message lists"][mode as usize]);
  let (a, mine) = capture(cx, || answer(&s, mode, at));
  let b = PEER.with(|p| {
    let mut p = p.borrow_mut();
    let p = p.get_or_insert_with(|| {
      let path = format!("{}/peer-stderr", cx.scratch);
      let w = File::create(&path).unwrap();
      let mut c = Command::new(format!("{}/target/nolog/debug/kmon", root()))
        .arg("serve")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(w)
        .spawn()
        .expect("build without diagnostics is missing");
      Peer { i: c.stdin.take().unwrap(), o: c.stdout.take().unwrap(), c, err: File::open(&path).unwrap() }
    });
    let mut go = || -> io::Result<(Vec<u8>, u64)> {
      p.i.write_all(&(s.len() as u64).to_le_bytes())?;
      p.i.write_all(&mode.to_le_bytes())?;
      p.i.write_all(&(at as u64).to_le_bytes())?;
      p.i.write_all(&s)?;
      p.i.flush()?;
      let mut n = [0; 8];
      p.o.read_exact(&mut n)?;
      let mut v = vec![0; u64::from_le_bytes(n) as usize];
      p.o.read_exact(&mut v)?;
      Ok((v, p.err.metadata()?.len()))
    };
    let x = go();
    if x.is_err() {
      let _ = p.c.kill();
      let _ = p.c.wait();
    }
    x
  });
  let b = match b {
    Ok((b, 0)) => b,
    Ok((_, n)) => return cx.fail("configuration without diagnostics printed something", format!("{n} bytes\n{}", cx.what)),
    Err(e) => {
      PEER.with(|p| *p.borrow_mut() = None);
      return cx.fail("configuration without diagnostics died", format!("{e}\n{}", cx.what));
    }
  };
  cx.count("inputs compared");
  let mut parts: Vec<&[u8]> = vec![];
  let mut rest = &b[..];
  while let Some((n, t)) = rest.split_first_chunk::<8>() {
    let (x, t) = t.split_at((u64::from_le_bytes(*n) as usize).min(t.len()));
    parts.push(x);
    rest = t;
  }
  let b = parts.remove(0);
  // errors say what the default build prints, and where
  if mine.len() < 1 << 20 {
    let mine = lossy(&mine);
    for m in parts.iter().map(|m| lossy(m)) {
      let plain = mine.contains(&format!("error: {m}\n"));
      if !plain && !m.split_once(": ").is_some_and(|(at, m)| mine.contains(&format!("error: {m}\n  at {at}\n"))) && !(m.is_empty() && mode < 2) {
        return cx.fail("an error does not say what the default build prints", format!("{m:?}\n--- printed\n{mine}\n{}", cx.what));
      }
      cx.count(if m.is_empty() { "returned errors without a message" } else { "messages of returned errors compared" });
    }
  }
  let acc = a.starts_with(b"accepted");
  if mode < 2 {
    cx.count(if acc { "accepted by both" } else { "rejected by both" });
  }
  if mode < 2 && !acc && mine.is_empty() {
    cx.count("rejected silently by the default configuration");
  }
  if idx < 20 && acc {
    cx.sample(|| lossy(&s));
  }
  if a != b {
    cx.fail("configurations disagree", format!("default: {}\nwithout diagnostics: {}\n--- input\n{}", lossy(&a), lossy(&b), cx.what));
  } else if acc && !a.starts_with(b"accepted, errors 0 ") {
    cx.fail("input with errors reported as success", cx.what.clone());
  } else if acc && mode == 1 {
    cx.fail("input that could not be read reported as success", cx.what.clone());
  }
}

pub static CHECKS: &[&Check] = &[
  &Check { id: "C04", rule: "arbitrary bytes, token soup, mutated and spliced texts, long repetitive inputs and inputs with errors at awkward places, from files, memory, piecewise readers and files replaced while parsing; a panic, abort, stack overflow or hang of the worker process is a violation; non-trivial: distinct by content", cases: (60000, 1500000), limit: (200, 1800), case: c04, workers: 0, assumptions: &["a hang is 60 s without an answer, confirmed by 240 s with the cases before it", "very deep nesting is a recorded finding, probed separately"] },
  &Check { id: "C19", rule: "well-formed texts and texts with one to forty changes, from files, memory and standard input; everything printed is read back and compared with the counts, the text and the place of the first error as an independent reference front end sees it; non-trivial: ill-formed, distinct by text", cases: (180000, 1000000), limit: (200, 1500), case: c19, workers: 0, assumptions: &["columns are counted in bytes from 1, as the front end does"] },
  &Check { id: "C20", rule: "well-formed texts, mutants and arbitrary bytes are given to two builds of the library, with and without diagnostics, whole or by a reader that fails on the way, and verdicts, counts and dumps compared, for some the tokens and trees; the quiet build's standard error must stay empty; non-trivial: distinct by content", cases: (120000, 600000), limit: (200, 1500), case: c20, workers: 0, assumptions: &[] },
];
