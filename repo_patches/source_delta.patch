From 46edc409de446636e17b0ca865ee16a22264f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 1/9] fix: text-pos: answer None for positions that are not in
 the text

A column past the end of its line or inside a character used to map to
some unrelated offset, or overflow.
---
 crates/text-pos/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..40ee03f 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -67,7 +67,9 @@ impl PositionDb {
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
     let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    let offset = self.inner.line(pos.line)?.start().checked_add(pos.col.into())?;
+    // the column might be past the end of the line, or inside a character.
+    (self.inner.try_line_col(offset)? == lc).then_some(offset)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
-- 
2.43.0


From b4e992cb147cdf1168aa8a2efdbf7f7ea22f1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 2/9] fix: event-parse: do not lose trivia at the end of the
 root

When the root ended with a token of its own, or contained only trivia,
the trailing trivia tokens were never passed to the sink.
---
 crates/event-parse/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..4b322ab 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -276,6 +276,10 @@ where
           }
         }
         Event::Exit => {
+          // don't lose the trivia after the last token: it goes inside the root.
+          if levels == 1 {
+            self.eat_trivia(&mut to_enter, sink);
+          }
           if to_enter.pop().is_none() {
             sink.exit();
           }
-- 
2.43.0


From 8843da09ee0591c37ebaff12c0a247f9c74b2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 3/9] fix: event-parse: use the root's kind for the node of an
 empty parse

If the root was made with precede, the kind of the node it precedes was
used instead.
---
 crates/event-parse/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 4b322ab..2ade888 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -251,9 +251,6 @@ where
       match ev {
         Event::Enter(kind, mut parent) => {
           assert!(kinds.is_empty());
-          if fst.is_none() {
-            fst = Some(kind);
-          }
           kinds.push(kind);
           while let Some(p) = parent {
             match self.events[p].take() {
@@ -266,6 +263,10 @@ where
               ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
             }
           }
+          // the last one is the outermost one.
+          if fst.is_none() {
+            fst = kinds.last().copied();
+          }
           for kind in kinds.drain(..).rev() {
             // keep as much trivia as possible outside of what we're entering.
             if levels != 0 {
-- 
2.43.0


From 956f200b0842a3d05caba78800e6d200b8d105a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 4/9] fix: event-parse: allow preceding a node again after
 abandoning that once

Abandoning the parent made by precede left the node claiming to have a
parent, so the next precede of it panicked.
---
 crates/event-parse/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 2ade888..ffad5b5 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -62,7 +62,12 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered {
+      bomb: DropBomb::new("Entered markers must be exited"),
+      ev_idx,
+      child: None,
+      tok_idx: self.tok_idx,
+    }
   }
 
   /// Abandons parsing a syntax construct.
@@ -76,6 +81,10 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn abandon(&mut self, mut en: Entered) {
     en.bomb.defuse();
     assert!(self.events[en.ev_idx].is_none());
+    // the preceded node, if any, no longer has this parent, so it can be preceded again.
+    if let Some(Some(Event::Enter(_, parent))) = en.child.map(|idx| &mut self.events[idx]) {
+      *parent = None;
+    }
   }
 
   /// Finishes parsing a syntax construct.
@@ -104,7 +113,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    ret.child = Some(ex.ev_idx);
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -341,6 +351,7 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
+  child: Option<usize>,
   tok_idx: usize,
 }
 
-- 
2.43.0


From 56208061e4670d67fb89619ff419717142adb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 5/9] fix: event-parse: count consumed tokens to tell whether a
 node is empty

Looking ahead over trivia made an empty node claim not to be, and a node
made with precede ignored the tokens of the node it precedes.
---
 crates/event-parse/src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index ffad5b5..b68d2c1 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,15 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// The number of non-trivia tokens consumed.
+  bumped: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -66,7 +68,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       bomb: DropBomb::new("Entered markers must be exited"),
       ev_idx,
       child: None,
-      tok_idx: self.tok_idx,
+      bumped: self.bumped,
     }
   }
 
@@ -98,7 +100,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited { ev_idx: en.ev_idx, bumped: en.bumped, is_empty: self.bumped == en.bumped }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -115,6 +117,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn precede(&mut self, ex: Exited) -> Entered {
     let mut ret = self.enter();
     ret.child = Some(ex.ev_idx);
+    ret.bumped = ex.bumped;
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -152,7 +155,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -163,6 +166,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.bumped = save.bumped;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -220,6 +224,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.bumped += 1;
     ret
   }
 
@@ -352,7 +357,7 @@ pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
   child: Option<usize>,
-  tok_idx: usize,
+  bumped: usize,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
@@ -374,6 +379,7 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  bumped: usize,
   is_empty: bool,
 }
 
@@ -390,6 +396,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  bumped: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From 752668c8e6295b854a534e9c9b072a7089a957a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 6/9] fix: syntax-gen: generate valid Rust when there is no
 trivia

`matches!(*self,)` does not compile.
---
 crates/syntax-gen/src/kind.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/syntax-gen/src/kind.rs b/crates/syntax-gen/src/kind.rs
index 7fe94c6..6d3b914 100644
--- a/crates/syntax-gen/src/kind.rs
+++ b/crates/syntax-gen/src/kind.rs
@@ -64,9 +64,11 @@ pub(crate) fn get(
         Some(quote! { Self::#kind => #doc })
       },
     );
-  let self_trivia = trivia.iter().map(|id| {
-    quote! { Self::#id }
-  });
+  let is_trivia = if trivia.is_empty() {
+    quote! { false }
+  } else {
+    quote! { matches!(*self, #(Self::#trivia)|*) }
+  };
   // the order is intentional
   let syntax_kinds: Vec<_> = trivia
     .iter()
@@ -119,7 +121,7 @@ pub(crate) fn get(
 
     impl token::Triviable for SyntaxKind {
       fn is_trivia(&self) -> bool {
-        matches!(*self, #(#self_trivia)|*)
+        #is_trivia
       }
     }
 
-- 
2.43.0


From 3d7f2feaadfa965746adcddbf7e852ee1bfeb56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 7/9] fix: paths: list only the direct entries of an in-memory
 directory

read_dir returned every file below the directory, and no directories.
---
 crates/paths/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/paths/src/lib.rs b/crates/paths/src/lib.rs
index c36ffb6..01226a9 100644
--- a/crates/paths/src/lib.rs
+++ b/crates/paths/src/lib.rs
@@ -1,7 +1,7 @@
 //! Types for working with paths.
 
 use fast_hash::FxHashMap;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::path::{Component, Path, PathBuf};
 
 /// A store of paths.
@@ -362,11 +362,13 @@ impl FileSystem for MemoryFileSystem {
   }
 
   fn read_dir(&self, path: &Path) -> std::io::Result<Vec<PathBuf>> {
-    let iter = self.inner.keys().filter_map(|pb| {
-      let p = pb.as_path();
-      (p.starts_with(path) && p != path).then(|| pb.to_owned().into_path_buf())
-    });
-    Ok(iter.collect())
+    // only the direct entries, each once, even if it is a directory with many files.
+    let entries: BTreeSet<_> = self
+      .inner
+      .keys()
+      .filter_map(|p| Some(path.join(p.as_path().strip_prefix(path).ok()?.components().next()?)))
+      .collect();
+    Ok(entries.into_iter().collect())
   }
 
   fn is_file(&self, path: &Path) -> bool {
-- 
2.43.0


From 4538437609ee0b2126d24f8328095269ff487c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 8/9] fix: event-parse: forget precedes made in a failed
 attempt

Preceding a node from before a save, failing, and going back left the node
with the discarded parent: finishing then panicked or used an unrelated event.
---
 crates/event-parse/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index b68d2c1..6c8e5a5 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -34,12 +34,14 @@ pub struct Parser<'a, K, E> {
   /// The number of non-trivia tokens consumed.
   bumped: usize,
   events: Vec<Option<Event<K, E>>>,
+  /// The indices of the preceded nodes, in order.
+  preceded: Vec<usize>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new(), preceded: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -123,6 +125,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       Some(Event::Enter(_, ref mut parent)) => {
         assert!(parent.is_none());
         *parent = Some(ret.ev_idx);
+        self.preceded.push(ex.ev_idx);
       }
       ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
     }
@@ -155,7 +158,12 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len: self.events.len() }
+    Save {
+      tok_idx: self.tok_idx,
+      bumped: self.bumped,
+      events_len: self.events.len(),
+      preceded_len: self.preceded.len(),
+    }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -168,6 +176,12 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.tok_idx = save.tok_idx;
       self.bumped = save.bumped;
       self.events.truncate(save.events_len);
+      // the nodes from before the save no longer have the parents they got since.
+      for idx in self.preceded.drain(save.preceded_len..) {
+        if let Some(Some(Event::Enter(_, parent))) = self.events.get_mut(idx) {
+          *parent = None;
+        }
+      }
     }
     !error_since
   }
@@ -398,6 +412,7 @@ pub struct Save {
   tok_idx: usize,
   bumped: usize,
   events_len: usize,
+  preceded_len: usize,
 }
 
 /// An error that can be generated from an expected syntax kind.
-- 
2.43.0


From eac6ca1bca626959c65822c2290f1aeb8836d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 9/9] fix: event-parse: undo 4538437, whose use of precede the
 documentation of save rules out

---
 crates/event-parse/src/lib.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 6c8e5a5..b68d2c1 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -34,14 +34,12 @@ pub struct Parser<'a, K, E> {
   /// The number of non-trivia tokens consumed.
   bumped: usize,
   events: Vec<Option<Event<K, E>>>,
-  /// The indices of the preceded nodes, in order.
-  preceded: Vec<usize>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new(), preceded: Vec::new() }
+    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -125,7 +123,6 @@ impl<'a, K, E> Parser<'a, K, E> {
       Some(Event::Enter(_, ref mut parent)) => {
         assert!(parent.is_none());
         *parent = Some(ret.ev_idx);
-        self.preceded.push(ex.ev_idx);
       }
       ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
     }
@@ -158,12 +155,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save {
-      tok_idx: self.tok_idx,
-      bumped: self.bumped,
-      events_len: self.events.len(),
-      preceded_len: self.preceded.len(),
-    }
+    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -176,12 +168,6 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.tok_idx = save.tok_idx;
       self.bumped = save.bumped;
       self.events.truncate(save.events_len);
-      // the nodes from before the save no longer have the parents they got since.
-      for idx in self.preceded.drain(save.preceded_len..) {
-        if let Some(Some(Event::Enter(_, parent))) = self.events.get_mut(idx) {
-          *parent = None;
-        }
-      }
     }
     !error_since
   }
@@ -412,7 +398,6 @@ pub struct Save {
   tok_idx: usize,
   bumped: usize,
   events_len: usize,
-  preceded_len: usize,
 }
 
 /// An error that can be generated from an expected syntax kind.
-- 
2.43.0

