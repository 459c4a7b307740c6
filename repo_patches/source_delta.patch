From 67f353ac9861e52db0db64b93913a098427f717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 01/30] fix: check the number of arguments given to calls,
 branches and jumps

---
 koopa/src/front/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..2320596 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,14 +503,14 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
+        args_ty.len(),
+        "argument".to_plural(args_ty.len()),
         args.len(),
-        "arguments".to_plural(args.len()),
-        args.len(),
-        "arguments".to_plural(args.len())
+        "argument".to_plural(args.len())
       );
     }
     // generate arguments
-- 
2.43.0


From f81a2906ea11d165163aa0a3fe3d632b20802e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 02/30] fix: do not panic on branches and jumps to undefined
 basic blocks

---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 2320596..8a3b653 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -345,12 +345,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // undefined basic blocks have already been reported
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From a3767831b14c956e16dc7341a68d6ffe401fda2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 03/30] fix: reject array types whose length is not positive

---
 koopa/src/front/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..22c956f 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,7 +219,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let len_span = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len <= 0 {
+      return_error!(len_span, "array length must be positive, found {}", len);
+    }
+    let len = len as usize;
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
     Ok(ast::ArrayType::new_boxed(span, base, len))
-- 
2.43.0


From 98bdf2201631a6784b974407c82b39866a81386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 04/30] fix: reject aggregates for pointer types, do not build
 ill-typed aggregates

---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 8a3b653..e3583f6 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From e27c8e7f360fe68832799c5f1330fa23859e0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 05/30] fix: do not panic when showing source lines in
 diagnostics

---
 koopa/src/front/span.rs | 79 ++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..d0540d0 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -78,33 +78,46 @@ pub struct Span {
 #[cfg(not(feature = "no-front-logger"))]
 macro_rules! get_line_str {
   ($line:expr) => {
-    $line
-      .map_or("".into(), |r| r.unwrap())
-      .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
+    expand_tabs(&read_line($line))
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
-    (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col + tabs * (Span::TAB_WIDTH - 1),
-    )
+    let line = read_line($line);
+    (expand_tabs(&line), display_col(&line, $col as usize))
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col1 = $col1 as usize;
-    let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
+    let line = read_line($line);
     (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col1 + tabs1 * (Span::TAB_WIDTH - 1),
-      col2 + tabs2 * (Span::TAB_WIDTH - 1),
+      expand_tabs(&line),
+      display_col(&line, $col1 as usize),
+      display_col(&line, $col2 as usize),
     )
   }};
 }
 
+/// Returns the bytes of the given line without line ending.
+/// Lines that do not exist or can not be read are treated as empty lines.
+#[cfg(not(feature = "no-front-logger"))]
+fn read_line(line: Option<IoResult<Vec<u8>>>) -> Vec<u8> {
+  let mut line = line.and_then(IoResult::ok).unwrap_or_default();
+  if line.last() == Some(&b'\r') {
+    line.pop();
+  }
+  line
+}
+
+/// Converts the given line to string, replaces all tabs with spaces.
+#[cfg(not(feature = "no-front-logger"))]
+fn expand_tabs(line: &[u8]) -> String {
+  String::from_utf8_lossy(line).replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
+}
+
+/// Converts the column number in bytes to the column number for display.
+#[cfg(not(feature = "no-front-logger"))]
+fn display_col(line: &[u8], col: usize) -> usize {
+  let len = col.min(line.len());
+  expand_tabs(&line[..len]).chars().count() + (col - len)
+}
+
 impl Span {
   /// The column width occupied by the tab character.
   #[cfg(not(feature = "no-front-logger"))]
@@ -328,12 +341,14 @@ impl Span {
       && self.end.col > 0
       && let FileType::File(path) = file
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
-      if self.start.line == self.end.line {
-        self.print_single_line_info(&mut lines, color);
-      } else {
-        self.print_multi_line_info(&mut lines, color);
+      // open file and get lines, skip if the file is not available
+      if let Ok(file) = File::open(path) {
+        let mut lines = BufReader::new(file).split(b'\n');
+        if self.start.line == self.end.line {
+          self.print_single_line_info(&mut lines, color);
+        } else {
+          self.print_multi_line_info(&mut lines, color);
+        }
       }
     }
     eprintln!();
@@ -345,20 +360,20 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_single_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = c1.saturating_sub(1);
+    let len = c2.saturating_sub(c1) + 1;
     // print the current line to stderr
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:w$} {} {:l$}", "", "|".blue(), "", w = width, l = leading);
-    eprintln!("{}", format!("{:^>w$}", "", w = len).color(color));
+    eprint!("{:w$} {} {}", "", "|".blue(), " ".repeat(leading), w = width);
+    eprintln!("{}", "^".repeat(len).color(color));
   }
 
   /// Prints the multi-line information.
@@ -367,7 +382,7 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_multi_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
@@ -379,7 +394,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
     eprint!("{:w$} {}  ", "", "|".blue(), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = start).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(start)).color(color));
     // print the middle lines to stderr
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -405,7 +420,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = end).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(end)).color(color));
   }
 }
 
-- 
2.43.0


From 4913805f473b1857c7ce63d6ca7f07c5c3c28a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 06/30] fix: forget the parent of instructions when blocks or
 instructions are cleared or removed from layout

---
 koopa/src/ir/layout.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..89dc271 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -95,6 +95,18 @@ impl BasicBlockMap {
       map: HashMap::new(),
     }
   }
+
+  /// Forgets the parent basic block of all instructions in the given node.
+  fn forget_insts(&self, bb: &BasicBlock, node: &BasicBlockNode) {
+    if let Some(inst_bb) = self.inst_bb.upgrade() {
+      let mut inst_bb = inst_bb.borrow_mut();
+      for inst in node.insts.keys() {
+        if inst_bb.get(inst) == Some(bb) {
+          inst_bb.remove(inst);
+        }
+      }
+    }
+  }
 }
 
 impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
@@ -103,6 +115,9 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    for (bb, node) in &self.map {
+      self.forget_insts(bb, node);
+    }
     self.map.clear()
   }
 
@@ -140,7 +155,11 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let entry = self.map.remove_entry(k);
+    if let Some((bb, node)) = &entry {
+      self.forget_insts(bb, node);
+    }
+    entry
   }
 }
 
@@ -222,6 +241,14 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    if let Some(inst_bb) = self.inst_bb.upgrade() {
+      let mut inst_bb = inst_bb.borrow_mut();
+      for inst in self.map.keys() {
+        if inst_bb.get(inst) == Some(&self.bb) {
+          inst_bb.remove(inst);
+        }
+      }
+    }
     self.map.clear()
   }
 
-- 
2.43.0


From dc3cbd128d5897b6cc08f6701e7b6737207db4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 07/30] fix: allow the raw program builder to build more than
 one program

---
 libkoopa/src/raw/builder.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..2a2e92d 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -36,26 +36,19 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
-    // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
-      data.get_mut().used_by = slice;
+    // fill `used_by` fields of all values built in this run
+    for (value, used_by) in &info.value_used_by {
+      let v: Vec<_> = used_by
+        .iter()
+        .map(|v| self.values[v].get() as *const ())
+        .collect();
+      let slice = RawSlice {
+        buffer: v.as_ptr() as *const c_void,
+        len: v.len() as u32,
+        kind: RawSliceItemKind::Value,
+      };
+      self.slices.push(v);
+      self.values.get_mut(value).unwrap().get_mut().used_by = slice;
     }
     raw
   }
-- 
2.43.0


From 9892351b2edc0a626394ef37f929013ad492fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 08/30] fix: do not panic when removing absent functions, drop
 uses of globals with the function

---
 koopa/src/ir/entities.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..cd7d5c2 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -132,6 +132,16 @@ impl Program {
     data.dfg.globals = Rc::downgrade(&self.values);
     data.dfg.func_tys = Rc::downgrade(&self.func_tys);
     self.func_tys.borrow_mut().insert(func, data.ty.clone());
+    // the data may come from a removed function that uses global values
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.insert(*value);
+        }
+      }
+    }
+    drop(globals);
     self.funcs.insert(func, data);
     self.func_layout.push(func);
     func
@@ -180,11 +190,20 @@ impl Program {
   ///
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
+    let data = self.funcs.remove(&func)?;
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
-    self.funcs.remove(&func)
+    self.func_layout.retain(|f| *f != func);
+    // values in the removed function no longer use global values
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.remove(value);
+        }
+      }
+    }
+    drop(globals);
+    Some(data)
   }
 
   /// Returns a reference to the function map.
-- 
2.43.0


From 43fdc8b3ed2e57bd95b77aee03d575032271cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 09/30] fix: never give temporary names that have already been
 used

---
 koopa/src/back/generator.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..6450963 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -136,18 +136,29 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name
+      self.next_temp_name(name_set)
+    }
+  }
+
+  /// Generates the next temporary name that has not been used
+  /// and stores it to the given name set.
+  fn next_temp_name<F>(&mut self, name_set: F) -> Rc<String>
+  where
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
+  {
+    loop {
       let name = self.prefix.temp_name(self.next_id);
       self.next_id += 1;
       let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      if names.insert(name.clone().into()) {
+        return names.get(&name).unwrap().to_rc();
+      }
     }
   }
 
@@ -155,14 +166,20 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
+    // suffixes can not be appended to numbers in the default form
+    let is_number = matches!(self.prefix, Prefix::Default)
+      && name.starts_with('%')
+      && name[1..].chars().all(|c| c.is_ascii_digit());
     let name = self.prefix.name(name);
     let names = name_set(self);
     // check for duplicate names
     if !names.contains(&name) {
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
+    } else if is_number {
+      self.next_temp_name(name_set)
     } else {
       // generate a new name
       for id in 0.. {
-- 
2.43.0


From bdbd05cfb9b76c504f1a48dd072690b10318c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 10/30] fix: never give the same name to a block and a value in
 LLVM IR

---
 koopa/src/back/generator.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 6450963..06910d8 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -63,6 +63,11 @@ impl NameManager {
     );
     self.cur_scope = ScopeKind::Global;
     self.bb_names.clear();
+    if matches!(self.prefix, Prefix::Custom { .. }) {
+      for name in self.bbs.values() {
+        self.global_names.remove(name);
+      }
+    }
     self.bbs.clear();
     for name in self.values.values() {
       self.global_names.remove(name);
@@ -92,7 +97,13 @@ impl NameManager {
     if let Some(name) = self.bbs.get(&ptr) {
       name.clone()
     } else {
-      let name = self.next_name(bb.name(), |s| &mut s.bb_names);
+      // basic blocks and values share the same namespace
+      // in the forms other than the default one
+      let name = if matches!(self.prefix, Prefix::Custom { .. }) {
+        self.next_name(bb.name(), |s| &mut s.global_names)
+      } else {
+        self.next_name(bb.name(), |s| &mut s.bb_names)
+      };
       self.bbs.insert(ptr, name);
       self.bbs[&ptr].clone()
     }
-- 
2.43.0


From 33bfbbce3fdd8765b3ce2be6ebc3b2d7d433b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 11/30] fix: release temporary value names when leaving a
 function

---
 koopa/src/back/generator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 06910d8..8be8dd0 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -27,6 +27,7 @@ pub struct NameManager {
   funcs: HashMap<*const FunctionData, Rc<String>>,
   bbs: HashMap<*const BasicBlockData, Rc<String>>,
   values: HashMap<*const ValueData, Rc<String>>,
+  local_temps: Vec<Rc<String>>,
 }
 
 impl NameManager {
@@ -69,9 +70,10 @@ impl NameManager {
       }
     }
     self.bbs.clear();
-    for name in self.values.values() {
+    for name in self.values.values().chain(&self.local_temps) {
       self.global_names.remove(name);
     }
+    self.local_temps.clear();
   }
 
   /// Sets the prefix of generated names.
@@ -140,7 +142,11 @@ impl NameManager {
 
   /// Returns a temporary value name.
   pub fn temp_value_name(&mut self) -> Rc<String> {
-    self.next_name(&None, |s| &mut s.global_names)
+    let name = self.next_name(&None, |s| &mut s.global_names);
+    if matches!(self.cur_scope, ScopeKind::Function) {
+      self.local_temps.push(name.clone());
+    }
+    name
   }
 
   /// Generates the next name by the given `Option<String>`
-- 
2.43.0


From 45b67ab750c0ef37279ca8822c057b893aee394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 12/30] fix: do not reuse names of other programs when a
 generator is used again

---
 koopa/src/back/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 8be8dd0..1bc506b 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -350,6 +350,8 @@ impl<W: Write, V: Visitor<W>> Generator<W, V> {
 
   /// Generates on the given Koopa IR program.
   pub fn generate_on(&mut self, program: &Program) -> Result<V::Output> {
+    // names of the last program are no longer valid
+    self.name_man = NameManager::new();
     self
       .visitor
       .visit(&mut self.writer, &mut self.name_man, program)
-- 
2.43.0


From 2f21dc2464df82bad22dfdd88302065d5ce25ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 13/30] fix: use the global name of functions that are called
 before they are defined in LLVM IR

---
 koopa/src/back/llvm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..0a70f30 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -78,6 +78,10 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // names of functions, before the prefix is changed for local names
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     // functions
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
-- 
2.43.0


From 818ebb21fa9c4ffe3b1d6cbff726523505aa0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 14/30] fix: always write element types of aggregates in LLVM
 IR

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 0a70f30..5bd5acd 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -446,7 +446,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From 0b29848999ee48ec9b52f80863f322c11faf2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 15/30] fix: reset the state of diagnostics when a driver
 starts, not only when it is created

---
 koopa/src/front/driver.rs | 6 +++++-
 koopa/src/front/span.rs   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index b24fbc0..a415658 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -15,6 +15,7 @@ use std::path::Path;
 ///
 /// See the [module-level documentation](crate::front) for more examples.
 pub struct Driver<T: Read> {
+  file: FileType,
   parser: Result<Parser<T>, Error>,
   builder: Builder,
 }
@@ -25,8 +26,9 @@ impl<T: Read> Driver<T> {
 
   /// Creates a new driver.
   pub fn new(ft: FileType, reader: T) -> Self {
-    Span::reset(ft);
+    Span::reset(ft.clone());
     Self {
+      file: ft,
       parser: Parser::new(Lexer::new(reader)),
       builder: Builder::new(),
     }
@@ -36,6 +38,8 @@ impl<T: Read> Driver<T> {
   /// from the reader.
   pub fn generate_program(mut self) -> Result<Program, Error> {
     let mut parser = self.parser?;
+    // other drivers may have been created since this driver was created
+    Span::reset(self.file);
     loop {
       // parse & get the next AST
       let ast = parser.parse_next()?;
diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index d0540d0..dae6fbd 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -482,6 +482,7 @@ struct GlobalState {
 }
 
 /// Type of input file.
+#[derive(Clone)]
 pub enum FileType {
   /// File with a path.
   File(PathBuf),
-- 
2.43.0


From 973e151e0f6e8091ea57d81dcc9af05901c05871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 16/30] fix: retry interrupted reads

---
 koopa/src/front/lexer.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..3ac8532 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -4,7 +4,7 @@ use crate::front::span::{Error, Pos, Span};
 use crate::front::token::{Keyword, Token, TokenKind};
 use crate::ir::BinaryOp;
 use crate::{log_raw_fatal_error, return_error};
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 /// A lexer for lexing text form Koopa IR.
 ///
@@ -68,17 +68,19 @@ impl<T: Read> Lexer<T> {
   fn next_char(&mut self) -> std::result::Result<(), Error> {
     // NOTE: UTF-8 characters will not be handled here.
     let mut single_char = [0];
-    self.last_char = (self
-      .reader
-      .read(&mut single_char)
-      .map_err(|err| log_raw_fatal_error!("{}", err))?
-      != 0)
-      .then(|| {
-        let c = single_char[0] as char;
-        // update the current position
-        self.pos.update(c);
-        c
-      });
+    let len = loop {
+      match self.reader.read(&mut single_char) {
+        // interrupted reads should be retried
+        Err(err) if err.kind() == ErrorKind::Interrupted => {}
+        result => break result.map_err(|err| log_raw_fatal_error!("{}", err))?,
+      }
+    };
+    self.last_char = (len != 0).then(|| {
+      let c = single_char[0] as char;
+      // update the current position
+      self.pos.update(c);
+      c
+    });
     Ok(())
   }
 
-- 
2.43.0


From 6afa9649834723944f35a7b452effdde2dcf5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 17/30] fix: do not overflow the stack on many consecutive
 comments

---
 koopa/src/front/lexer.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 3ac8532..c141a1d 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,19 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    loop {
+      while self.last_char.is_some_and(|c| c.is_whitespace()) {
+        self.next_char()?;
+      }
+      if self.last_char != Some('/') {
+        break;
+      }
+      self.handle_comment()?;
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -169,7 +172,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -181,15 +184,14 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
       self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -203,15 +205,14 @@ impl<T: Read> Lexer<T> {
       self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
   /// Logs error message to stderr, and skip to the next space character.
   ///
   /// For error recovery support.
-  fn log_err_and_skip(&mut self, span: Span, message: &str) -> Result {
+  fn log_err_and_skip<V>(&mut self, span: Span, message: &str) -> std::result::Result<V, Error> {
     while self.last_char.is_some_and(|c| !c.is_whitespace()) {
       self.next_char()?;
     }
-- 
2.43.0


From fc8e6f88703358d84de0da91620ed7c579e88736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 18/30] fix: do not overflow the stack when looking for symbols
 in long chains of blocks

---
 koopa/src/front/builder.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index e3583f6..ff64f8e 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -450,35 +450,30 @@ impl Builder {
   fn generate_symbol(&self, span: &Span, bb_name: &str, symbol: &str) -> ValueResult {
     // try to find symbol in global scope
     // if not found, find symbol in local definitions
-    let mut visited_bbs = HashSet::new();
     self
       .global_vars
       .get(symbol)
       .copied()
-      .or_else(|| self.generate_local_symbol(&mut visited_bbs, bb_name, symbol))
+      .or_else(|| self.generate_local_symbol(bb_name, symbol))
       .ok_or_else(|| return_error!(span, "symbol '{}' not found", symbol))
   }
 
   /// Generates the symbol locally by the symbol name.
-  fn generate_local_symbol<'a>(
-    &'a self,
-    visited_bbs: &mut HashSet<&'a str>,
-    bb_name: &'a str,
-    symbol: &str,
-  ) -> Option<Value> {
-    if visited_bbs.insert(bb_name) {
-      // find symbol in local scope of the current basic block
-      // if not found, try to find symbol in all predecessors
-      let bb_info = &self.local_bbs[bb_name];
-      bb_info.local_defs.get(symbol).copied().or_else(|| {
-        bb_info
-          .preds
-          .iter()
-          .find_map(|pred| self.generate_local_symbol(visited_bbs, pred, symbol))
-      })
-    } else {
-      None
+  fn generate_local_symbol(&self, bb_name: &str, symbol: &str) -> Option<Value> {
+    let mut visited_bbs = HashSet::new();
+    let mut stack = vec![bb_name];
+    while let Some(bb_name) = stack.pop() {
+      if visited_bbs.insert(bb_name) {
+        // find symbol in local scope of the current basic block
+        // if not found, try to find symbol in all predecessors
+        let bb_info = &self.local_bbs[bb_name];
+        if let Some(value) = bb_info.local_defs.get(symbol) {
+          return Some(*value);
+        }
+        stack.extend(bb_info.preds.iter().rev().map(String::as_str));
+      }
     }
+    None
   }
 
   /// Generates the basic block handle by the given basic block name.
-- 
2.43.0


From f194f3ffb020cec2275a81040f7f5d881d337f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 19/30] fix: reject parameters named as a global symbol

---
 koopa/src/front/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index ff64f8e..cb2fdc6 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -188,6 +188,8 @@ impl Builder {
     for ((n, a), p) in ast.params.iter().zip(self.program.func(func).params()) {
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
+      } else if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
       }
     }
     // add to global function map
-- 
2.43.0


From 65ef1639ce8de064044fb6e8dc3698ca15754996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 20/30] fix: do not leave parameters behind when a basic block
 has an invalid parameter name

---
 koopa/src/ir/builder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/koopa/src/ir/builder.rs b/koopa/src/ir/builder.rs
index fd34280..8a4b66c 100644
--- a/koopa/src/ir/builder.rs
+++ b/koopa/src/ir/builder.rs
@@ -395,15 +395,21 @@ pub trait BasicBlockBuilder: Sized + ValueInserter {
       params.iter().all(|(_, p)| !p.is_unit()),
       "parameter type must not be `unit`!"
     );
-    let params = params
+    // create all parameters before inserting any of them,
+    // because the names may be invalid
+    let params: Vec<_> = params
       .into_iter()
       .enumerate()
       .map(|(i, (n, ty))| {
         let mut arg = BlockArgRef::new_data(i, ty);
         arg.set_name(n);
-        self.insert_value(arg)
+        arg
       })
       .collect();
+    let params = params
+      .into_iter()
+      .map(|arg| self.insert_value(arg))
+      .collect();
     self.insert_bb(BasicBlockData::with_params(name, params))
   }
 }
-- 
2.43.0


From 8c2245dc625a3103a34044e587fd7d4ab002a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 21/30] fix: start reading the input in generate_program

The first token was read when the driver was created, so an error in it was
counted at a time when another driver could still reset or add to the counts.
---
 koopa/src/front/driver.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index a415658..248a947 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -16,7 +16,7 @@ use std::path::Path;
 /// See the [module-level documentation](crate::front) for more examples.
 pub struct Driver<T: Read> {
   file: FileType,
-  parser: Result<Parser<T>, Error>,
+  reader: T,
   builder: Builder,
 }
 
@@ -26,10 +26,9 @@ impl<T: Read> Driver<T> {
 
   /// Creates a new driver.
   pub fn new(ft: FileType, reader: T) -> Self {
-    Span::reset(ft.clone());
     Self {
       file: ft,
-      parser: Parser::new(Lexer::new(reader)),
+      reader,
       builder: Builder::new(),
     }
   }
@@ -37,9 +36,10 @@ impl<T: Read> Driver<T> {
   /// Consumes the current driver and generates Koopa IR program
   /// from the reader.
   pub fn generate_program(mut self) -> Result<Program, Error> {
-    let mut parser = self.parser?;
-    // other drivers may have been created since this driver was created
+    // start reading here rather than in `new`, because other drivers may be
+    // created and run before this driver runs
     Span::reset(self.file);
+    let mut parser = Parser::new(Lexer::new(self.reader))?;
     loop {
       // parse & get the next AST
       let ast = parser.parse_next()?;
-- 
2.43.0


From f1d9f0791030933e8d0d01541bdbd79be8bfe37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 22/30] fix: do not recurse per basic block when building raw
 programs

---
 libkoopa/src/raw/builder.rs | 97 +++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index 2a2e92d..b50fddf 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -30,12 +30,43 @@ impl RawProgramBuilder {
 
   /// Builds on the given Koopa IR program.
   pub fn build_on(&mut self, program: &Program) -> RawProgram<'_> {
-    let mut info = ProgramInfo::new(program);
+    let mut info = ProgramInfo::new();
     let raw = RawProgram {
       values: iter_into_raw(program.inst_layout().iter(), self, &mut info),
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
+    // build all entities that have been referenced, iteratively,
+    // so that the depth of stack does not depend on the program
+    while let Some((func, entity)) = info.pending.pop() {
+      info.cur_func = func;
+      match entity {
+        Entity::Function(f) => {
+          let data = program.func(f);
+          info.cur_func = Some(data);
+          let func = data.build(self, &mut info);
+          **self.funcs.get_mut(&f).unwrap() = func;
+        }
+        Entity::BasicBlock(b) => {
+          info.cur_bb = Some(b);
+          let bb = func.unwrap().dfg().bb(b).build(self, &mut info);
+          **self.bbs.get_mut(&b).unwrap() = bb;
+        }
+        Entity::Value(v) => {
+          let (value, used_by) = if v.is_global() {
+            let value = program.borrow_value(v);
+            let used_by = value.used_by().iter().copied().collect();
+            (value.build(self, &mut info), used_by)
+          } else {
+            let value = func.unwrap().dfg().value(v);
+            let used_by = value.used_by().iter().copied().collect();
+            (value.build(self, &mut info), used_by)
+          };
+          info.value_used_by.insert(v, used_by);
+          *self.values.get_mut(&v).unwrap().get_mut() = value;
+        }
+      }
+    }
     // fill `used_by` fields of all values built in this run
     for (value, used_by) in &info.value_used_by {
       let v: Vec<_> = used_by
@@ -56,19 +87,26 @@ impl RawProgramBuilder {
 
 /// Some necessary information required by the [`BuildRaw`] trait.
 struct ProgramInfo<'a> {
-  program: &'a Program,
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
   value_used_by: HashMap<Value, Vec<Value>>,
+  pending: Vec<(Option<&'a FunctionData>, Entity)>,
 }
 
-impl<'a> ProgramInfo<'a> {
-  fn new(program: &'a Program) -> Self {
+/// Entity that has been allocated, but not built.
+enum Entity {
+  Function(Function),
+  BasicBlock(BasicBlock),
+  Value(Value),
+}
+
+impl ProgramInfo<'_> {
+  fn new() -> Self {
     Self {
-      program,
       cur_func: None,
       cur_bb: None,
       value_used_by: HashMap::new(),
+      pending: Vec::new(),
     }
   }
 }
@@ -192,14 +230,9 @@ impl BuildRaw for Function {
     if let Some(f) = builder.funcs.get(self) {
       f.as_ref()
     } else {
-      builder.funcs.insert(*self, unsafe { new_uninit_box() });
-      let func = info.program.func(*self);
-      let last_func = info.cur_func.replace(func);
-      let f = func.build(builder, info);
-      info.cur_func = last_func;
-      let fb = builder.funcs.get_mut(self).unwrap();
-      **fb = f;
-      fb.as_ref()
+      info.pending.push((None, Entity::Function(*self)));
+      let f = builder.funcs.entry(*self);
+      f.or_insert_with(|| unsafe { new_uninit_box() }).as_ref()
     }
   }
 }
@@ -226,13 +259,11 @@ impl BuildRaw for BasicBlock {
     if let Some(b) = builder.bbs.get(self) {
       b.as_ref()
     } else {
-      builder.bbs.insert(*self, unsafe { new_uninit_box() });
-      let last_bb = info.cur_bb.replace(*self);
-      let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
-      info.cur_bb = last_bb;
-      let bb = builder.bbs.get_mut(self).unwrap();
-      **bb = b;
-      bb.as_ref()
+      info
+        .pending
+        .push((info.cur_func, Entity::BasicBlock(*self)));
+      let b = builder.bbs.entry(*self);
+      b.or_insert_with(|| unsafe { new_uninit_box() }).as_ref()
     }
   }
 }
@@ -262,29 +293,9 @@ impl BuildRaw for Value {
     if let Some(v) = builder.values.get(self) {
       v.get() as _
     } else {
-      builder.values.insert(*self, unsafe { new_uninit_box() });
-      let (v, used_by) = if self.is_global() {
-        // get global value
-        let value = info.program.borrow_value(*self);
-        // get `used_by` list
-        let used_by = value.used_by().iter().copied().collect();
-        // build value
-        (value.build(builder, info), used_by)
-      } else {
-        // get local value
-        let func = info.cur_func.unwrap();
-        let value = func.dfg().value(*self);
-        // get `used_by` list
-        let used_by = value.used_by().iter().copied().collect();
-        // build value
-        (value.build(builder, info), used_by)
-      };
-      // insert `used_by` list to info
-      info.value_used_by.insert(*self, used_by);
-      // store raw value data
-      let vb = builder.values.get_mut(self).unwrap();
-      *vb.get_mut() = v;
-      vb.get() as *const RawValueData
+      info.pending.push((info.cur_func, Entity::Value(*self)));
+      let v = builder.values.entry(*self);
+      v.or_insert_with(|| unsafe { new_uninit_box() }).get() as _
     }
   }
 }
-- 
2.43.0


From c7b02ae34a51283734045a0202a3af4bf9dc588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 23/30] fix: generate blocks of raw functions before their
 instructions

---
 libkoopa/src/raw/generator.rs | 40 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..77af96b 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -25,6 +24,8 @@ struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
   cur_func: RawFunction,
+  pending_funcs: VecDeque<RawFunction>,
+  pending_bbs: VecDeque<(RawBasicBlock, BasicBlock)>,
 }
 
 impl ProgramInfo {
@@ -34,6 +35,8 @@ impl ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
       cur_func: null(),
+      pending_funcs: VecDeque::new(),
+      pending_bbs: VecDeque::new(),
     }
   }
 
@@ -206,6 +209,22 @@ impl GenerateOnRaw for RawProgram<'_> {
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    // generate function bodies
+    while let Some(func) = info.pending_funcs.pop_front() {
+      info.cur_func = func;
+      for bb in unsafe { &*func }.bbs.bbs()? {
+        bb.generate(program, info)?;
+      }
+      // generate instructions, basic blocks have been generated by now
+      while let Some((raw, bb)) = info.pending_bbs.pop_front() {
+        for inst in unsafe { &*raw }.insts.values()? {
+          let inst = inst.generate(program, info)?;
+          // insert to the current basic block
+          let layout = program.func_mut(info.cur_func_info().func).layout_mut();
+          layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+        }
+      }
+    }
     Ok(())
   }
 }
@@ -263,13 +282,9 @@ impl GenerateOnRaw for RawFunction {
         .collect();
       // insert to function map
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
+      // generate basic blocks later
       if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
-        }
-        info.cur_func = last_func;
+        info.pending_funcs.push_back(*self);
       }
       Ok(func)
     }
@@ -309,13 +324,8 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
+      // generate instructions later
+      info.pending_bbs.push_back((*self, bb));
       Ok(bb)
     }
   }
-- 
2.43.0


From d8319fcb7841c37f7f984b17f87112121187fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 24/30] fix: report null pointers in raw programs

---
 libkoopa/src/raw/generator.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 77af96b..e810c29 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -118,7 +118,10 @@ impl<T: Pointer> Iterator for RawSliceIter<'_, T> {
   fn next(&mut self) -> Option<Self::Item> {
     (self.index < self.slice.len).then(|| {
       let buffer = self.slice.buffer as *const *const ();
-      let ptr = unsafe { *buffer.add(self.index as usize) };
+      let ptr = match buffer.is_null() {
+        true => null(),
+        false => unsafe { *buffer.add(self.index as usize) },
+      };
       self.index += 1;
       T::from_ptr(ptr)
     })
@@ -175,6 +178,12 @@ impl RawSlice {
   }
 }
 
+/// Dereferences the given pointer.
+/// Returns `NullPointerError` if it is null.
+fn deref<'a, T>(ptr: *const T) -> Result<&'a T> {
+  unsafe { ptr.as_ref() }.ok_or(ErrorCode::NullPointerError)
+}
+
 /// Trait for generating on raw structures.
 trait GenerateOnRaw {
   /// The type of generated entity.
@@ -233,7 +242,7 @@ impl GenerateOnRaw for RawType {
   type Entity = Type;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
-    Ok(match unsafe { &**self } {
+    Ok(match deref(*self)? {
       RawTypeKind::Int32 => Type::get_i32(),
       RawTypeKind::Unit => Type::get_unit(),
       RawTypeKind::Array(base, len) => Type::get_array(base.generate(program, info)?, *len),
@@ -253,7 +262,7 @@ impl GenerateOnRaw for RawFunction {
     if let Some(f) = info.funcs.get(self) {
       Ok(f.func)
     } else {
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       // generate function name & type
       let name = raw.name.generate(program, info)?.unwrap_string()?;
       let (params, ret) = match raw.ty.generate(program, info)?.kind() {
@@ -270,7 +279,7 @@ impl GenerateOnRaw for RawFunction {
         let params = params
           .into_iter()
           .zip(raw.params.values()?)
-          .map(|(ty, p)| Ok((unsafe { &*p }.name.generate(program, info)?, ty)))
+          .map(|(ty, p)| Ok((deref(p)?.name.generate(program, info)?, ty)))
           .collect::<Result<_>>()?;
         program.new_func_def_with_param_names(name, params, ret)
       };
@@ -298,14 +307,14 @@ impl GenerateOnRaw for RawBasicBlock {
     if let Some(b) = info.cur_func_info().bbs.get(self) {
       Ok(*b)
     } else {
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       // generate basic block name & parameters
       let name = raw.name.generate(program, info)?;
       let params = raw
         .params
         .values()?
         .map(|p| {
-          let raw = unsafe { &*p };
+          let raw = deref(p)?;
           let name = raw.name.generate(program, info)?;
           Ok((name, raw.ty.generate(program, info)?))
         })
@@ -347,7 +356,7 @@ impl GenerateOnRaw for RawValue {
       Ok(*v)
     } else {
       // generate value
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       let value = match &raw.kind {
         RawValueKind::Integer(v) => v.generate(program, info)?,
         RawValueKind::Aggregate(v) => v.generate(program, info)?,
-- 
2.43.0


From 622ac4e978a88ad065fe55a6f666ffb6c9dd2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 25/30] fix: report raw allocations that are not of a pointer
 type

---
 libkoopa/src/raw/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index e810c29..d50bab8 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -379,7 +379,7 @@ impl GenerateOnRaw for RawValue {
             RawValueKind::Undef => build_value!(program, info, b, { b.undef(ty) }),
             RawValueKind::Alloc => match ty.kind() {
               TypeKind::Pointer(base) => builder!(program, info).alloc(base.clone()),
-              _ => unreachable!(),
+              _ => return Err(ErrorCode::TypeMismatch),
             },
             _ => unreachable!(),
           }
-- 
2.43.0


From 15c7659da85d601b7f1f4cba4cb97976ba30e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 26/30] fix: keep pointers in raw programs valid while the
 builder fills them in

---
 libkoopa/src/raw/builder.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index b50fddf..6e9a0e9 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -17,8 +17,8 @@ pub struct RawProgramBuilder {
   slices: Vec<Vec<*const ()>>,
   strs: HashMap<String, CString>,
   tys: HashMap<Type, Box<RawTypeKind>>,
-  funcs: HashMap<Function, Box<RawFunctionData>>,
-  bbs: HashMap<BasicBlock, Box<RawBasicBlockData>>,
+  funcs: HashMap<Function, Box<UnsafeCell<RawFunctionData>>>,
+  bbs: HashMap<BasicBlock, Box<UnsafeCell<RawBasicBlockData>>>,
   values: HashMap<Value, Box<UnsafeCell<RawValueData>>>,
 }
 
@@ -45,12 +45,12 @@ impl RawProgramBuilder {
           let data = program.func(f);
           info.cur_func = Some(data);
           let func = data.build(self, &mut info);
-          **self.funcs.get_mut(&f).unwrap() = func;
+          unsafe { *self.funcs[&f].get() = func };
         }
         Entity::BasicBlock(b) => {
           info.cur_bb = Some(b);
           let bb = func.unwrap().dfg().bb(b).build(self, &mut info);
-          **self.bbs.get_mut(&b).unwrap() = bb;
+          unsafe { *self.bbs[&b].get() = bb };
         }
         Entity::Value(v) => {
           let (value, used_by) = if v.is_global() {
@@ -63,7 +63,7 @@ impl RawProgramBuilder {
             (value.build(self, &mut info), used_by)
           };
           info.value_used_by.insert(v, used_by);
-          *self.values.get_mut(&v).unwrap().get_mut() = value;
+          unsafe { *self.values[&v].get() = value };
         }
       }
     }
@@ -79,7 +79,7 @@ impl RawProgramBuilder {
         kind: RawSliceItemKind::Value,
       };
       self.slices.push(v);
-      self.values.get_mut(value).unwrap().get_mut().used_by = slice;
+      unsafe { (*self.values[value].get()).used_by = slice };
     }
     raw
   }
@@ -228,11 +228,11 @@ impl BuildRaw for Function {
 
   fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> Self::Raw {
     if let Some(f) = builder.funcs.get(self) {
-      f.as_ref()
+      f.get() as _
     } else {
       info.pending.push((None, Entity::Function(*self)));
       let f = builder.funcs.entry(*self);
-      f.or_insert_with(|| unsafe { new_uninit_box() }).as_ref()
+      f.or_insert_with(|| unsafe { new_uninit_box() }).get() as _
     }
   }
 }
@@ -257,13 +257,13 @@ impl BuildRaw for BasicBlock {
 
   fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> Self::Raw {
     if let Some(b) = builder.bbs.get(self) {
-      b.as_ref()
+      b.get() as _
     } else {
       info
         .pending
         .push((info.cur_func, Entity::BasicBlock(*self)));
       let b = builder.bbs.entry(*self);
-      b.or_insert_with(|| unsafe { new_uninit_box() }).as_ref()
+      b.or_insert_with(|| unsafe { new_uninit_box() }).get() as _
     }
   }
 }
-- 
2.43.0


From 9d6dd2799a49499d65f671630942148b0f130765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 27/30] fix: report negative file descriptors as invalid files

---
 libkoopa/src/back.rs   |  3 ++-
 libkoopa/src/driver.rs |  2 +-
 libkoopa/src/io.rs     | 15 +++++++++++----
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/libkoopa/src/back.rs b/libkoopa/src/back.rs
index 7a0c928..1e9f5be 100644
--- a/libkoopa/src/back.rs
+++ b/libkoopa/src/back.rs
@@ -67,7 +67,8 @@ fn dump_to_raw<V>(program: &Program, file: RawFile) -> ErrorCode
 where
   V: Visitor<File> + Default,
 {
-  let mut g = Generator::<_, V>::new(file_from_raw(file));
+  let file = unwrap_or_return!(file_from_raw(file), InvalidFile);
+  let mut g = Generator::<_, V>::new(file);
   unwrap_or_return!(g.generate_on(program), IoError);
   ErrorCode::Success
 }
diff --git a/libkoopa/src/driver.rs b/libkoopa/src/driver.rs
index 3b4d90c..fd0c73c 100644
--- a/libkoopa/src/driver.rs
+++ b/libkoopa/src/driver.rs
@@ -59,7 +59,7 @@ ffi! {
   ///
   /// Returns the error code.
   fn koopa_parse_from_raw(file: RawFile, program: &mut *mut Program) -> ErrorCode {
-    let file = file_from_raw(file);
+    let file = unwrap_or_return!(file_from_raw(file), InvalidFile);
     let driver = Driver::new(FileType::Buffer, file);
     let prog = unwrap_or_return!(driver.generate_program(), InvalidKoopaProgram);
     *program = new_pointer(prog);
diff --git a/libkoopa/src/io.rs b/libkoopa/src/io.rs
index 9669472..2ec688d 100644
--- a/libkoopa/src/io.rs
+++ b/libkoopa/src/io.rs
@@ -1,4 +1,7 @@
 use std::fs::File;
+use std::io::Result;
+#[cfg(unix)]
+use std::io::ErrorKind;
 #[cfg(unix)]
 use std::os::unix::io::{FromRawFd, RawFd};
 #[cfg(windows)]
@@ -13,13 +16,17 @@ pub(crate) type RawFile = RawFd;
 pub(crate) type RawFile = RawHandle;
 
 /// Returns a [`File`] object from the given raw file ID.
+/// Returns an error if the given file descriptor can not be valid.
 #[cfg(unix)]
-pub(crate) fn file_from_raw(fd: RawFile) -> File {
-  unsafe { File::from_raw_fd(fd) }
+pub(crate) fn file_from_raw(fd: RawFile) -> Result<File> {
+  if fd < 0 {
+    return Err(ErrorKind::InvalidInput.into());
+  }
+  Ok(unsafe { File::from_raw_fd(fd) })
 }
 
 /// Returns a [`File`] object from the given raw file ID.
 #[cfg(windows)]
-pub(crate) fn file_from_raw(handle: RawFile) -> File {
-  unsafe { File::from_raw_handle(handle) }
+pub(crate) fn file_from_raw(handle: RawFile) -> Result<File> {
+  Ok(unsafe { File::from_raw_handle(handle) })
 }
-- 
2.43.0


From 83fe490f9338bfc67937e2dd6d7ae91f42da9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 28/30] fix: keep the parent block of instructions that were
 moved to another block

---
 koopa/src/ir/layout.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index 89dc271..5bb303f 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -294,13 +294,12 @@ impl Map<Value, InstNode> for InstMap {
   {
     let kv = self.map.remove_entry(k);
     if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+      let inst_bb = self.inst_bb.upgrade().unwrap();
+      let mut inst_bb = inst_bb.as_ref().borrow_mut();
+      // the instruction may already have been inserted to another block
+      if inst_bb.get(k) == Some(&self.bb) {
+        inst_bb.remove(k);
+      }
     }
     kv
   }
-- 
2.43.0


From dcdccdd6142f57a65774692484fafd168b5d2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 29/30] fix: end spans of jumps and branches without arguments
 at their targets

---
 koopa/src/front/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index 22c956f..2025d29 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -428,11 +428,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get false target basic block
+    let fbb_span = self.span();
     let fbb = read!(self, TokenKind::Symbol, "basic block name")?;
     // get false target basic block arguments
     let (fargs, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Branch::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(fbb_span)),
       cond,
       tbb,
       targs,
@@ -447,11 +448,12 @@ impl<T: Read> Parser<T> {
     // eat 'jump'
     self.next_token()?;
     // get target basic block
+    let target_span = self.span();
     let target = read!(self, TokenKind::Symbol, "basic block name")?;
     // get target basic block arguments
     let (args, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Jump::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(target_span)),
       target,
       args,
     ))
@@ -579,15 +581,20 @@ impl<T: Read> Parser<T> {
   }
 
   /// Parses optional comma-separated lists.
-  fn parse_opt_list<F, U>(&mut self, parser: F) -> std::result::Result<(Vec<U>, Span), Error>
+  ///
+  /// Returns no span if there is no list.
+  fn parse_opt_list<F, U>(
+    &mut self,
+    parser: F,
+  ) -> std::result::Result<(Vec<U>, Option<Span>), Error>
   where
     F: Fn(&mut Self) -> std::result::Result<U, Error>,
   {
     // check left bracket
     if self.is_token(TokenKind::Other('(')) {
-      self.parse_list(parser)
+      self.parse_list(parser).map(|(items, sp)| (items, Some(sp)))
     } else {
-      Ok((Vec::new(), self.span()))
+      Ok((Vec::new(), None))
     }
   }
 
-- 
2.43.0


From e8d9e6c94fd0a581aa77a1c0db5395959cc97648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 30/30] fix: keep constants shared by global variables and
 functions apart in raw programs

---
 libkoopa/src/raw/generator.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index d50bab8..a1e53ed 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -345,13 +345,15 @@ impl GenerateOnRaw for RawValue {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     // try to find value in cache
-    let value = info.values.get(self).or_else(|| {
-      if info.cur_func.is_null() {
-        None
-      } else {
-        info.cur_func_info().values.get(self)
-      }
-    });
+    let value = if info.cur_func.is_null() {
+      info.values.get(self)
+    } else {
+      // global constants can not be used in functions
+      let global = info.values.get(self);
+      global
+        .filter(|v| program.borrow_value(**v).kind().is_global_alloc())
+        .or_else(|| info.cur_func_info().values.get(self))
+    };
     if let Some(v) = value {
       Ok(*v)
     } else {
-- 
2.43.0

