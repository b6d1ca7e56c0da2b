"""A further round: bugs that need state, several steps or two cooperating sites."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)
AC, TP, CM = defs1.AC, defs1.TP, "chain-map/src/lib.rs"
EP, RS, PA, AL, MX = defs2.EP, defs2.RS, defs2.PA, defs2.AL, defs2.MX
TS, TG, SK, SQ, SA, ST, WT = defs3.TS, defs3.TG, defs3.SK, defs3.SQ, defs3.SA, defs3.ST, defs3.WT
SP = defs3.SP
EL = "elapsed/src/lib.rs"

MIRI = '''if cargo +nightly miri --version >/dev/null 2>&1; then
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..24"
  timeout 280 cargo +nightly miri run -q --offline; exit $?
fi
'''
SYNC = [("chain-map", 'features = ["sync"]')]


def sync(id, edits, demo, needs, what, miri=True):
    p = dict(id=id, property="C08", edits=edits, deps=SYNC, demo=demo, needs=needs, what=what)
    if miri:
        p["pre"] = MIRI
    PLANTS.append(p)


# ------------------------------------------------------------------ chain map
sync("C08-racy-hint",
     [(CM, "pub struct ChainMap<K, V> {\n  stack: Vec<Rc<FxHashMap<K, V>>>,\n}", "pub struct ChainMap<K, V> {\n  stack: Vec<Rc<FxHashMap<K, V>>>,\n  // the layer of the last hit\n  hint: std::cell::Cell<usize>,\n}\n\n// SAFETY: the hint is only ever a guess\n#[cfg(feature = \"sync\")]\nunsafe impl<K: Send + Sync, V: Send + Sync> Sync for ChainMap<K, V> {}"),
      (CM, "    Self { stack: Vec::new() }", "    Self { stack: Vec::new(), hint: std::cell::Cell::new(0) }"),
      (CM, "    self.stack.iter().rev().find_map(|m| m.get(k))", "    // the newest layer is looked at over and over\n    let idx = self.hint.get();\n    if idx + 1 == self.stack.len() {\n      if let Some(v) = self.stack[idx].get(k) {\n        return Some(v);\n      }\n    }\n    self.stack.iter().enumerate().rev().find_map(|(i, m)| {\n      let ret = m.get(k)?;\n      self.hint.set(i);\n      Some(ret)\n    })")],
     '''
use chain_map::ChainMap;
fn main() {
    let mut m = ChainMap::<u32, u32>::from([(1, 1)]);
    m.insert(2, 2);
    let m = &m;
    std::thread::scope(|s| {
        s.spawn(move || for _ in 0..10 { assert_eq!(m.get(&1), Some(&1)); });
        s.spawn(move || for _ in 0..10 { assert_eq!(m.get(&2), Some(&2)); });
    });
}
''', "two threads that look keys up in one map (feature sync)", "a data race on the lookup hint")
sync("C08-not-sync",
     [(CM, "pub struct ChainMap<K, V> {\n  stack: Vec<Rc<FxHashMap<K, V>>>,\n}", "pub struct ChainMap<K, V> {\n  stack: Vec<Rc<FxHashMap<K, V>>>,\n  // how often it was searched since the last consolidation\n  gets: std::cell::Cell<u32>,\n}"),
      (CM, "    Self { stack: Vec::new() }", "    Self { stack: Vec::new(), gets: std::cell::Cell::new(0) }"),
      (CM, "    self.stack.iter().rev().find_map(|m| m.get(k))", "    self.gets.set(self.gets.get().saturating_add(1));\n    self.stack.iter().rev().find_map(|m| m.get(k))"),
      (CM, "    if self.stack.len() != 1 {\n      let mut one", "    self.gets.set(0);\n    if self.stack.len() != 1 {\n      let mut one")],
     '''
use chain_map::ChainMap;
fn both<T: Send + Sync>(_: &T) {}
fn main() { both(&ChainMap::<u32, String>::default()); }
''', "sharing a map between threads (feature sync)", "the map can no longer be shared", miri=False)
sync("C08-toctou-count",
     [(CM, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n", "        let m = match Rc::try_unwrap(m) {\n          Ok(m) => m,\n          Err(m) => {\n            assert!(Rc::strong_count(&m) > 1, \"a layer of our own should unwrap\");\n            (*m).clone()\n          }\n        };\n")],
     '''
use chain_map::ChainMap;
fn main() {
    let rounds = if cfg!(miri) { 10 } else { 20_000 };
    for _ in 0..rounds {
        let mut a = ChainMap::<u32, u32>::default();
        for i in 0..8 { a.insert(i, i); }
        let mut b = a.clone();
        std::thread::scope(|s| {
            s.spawn(move || { a.consolidate(); assert_eq!(a.iter().count(), 8); });
            s.spawn(move || { b.consolidate(); assert_eq!(b.iter().count(), 8); });
        });
    }
}
''', "two threads consolidating copies of one map, one letting go of a layer between two steps of the other", "a panic")
sync("C08-static-pool",
     [(CM, "    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n", "    // statistics for tuning when to consolidate\n    static mut DEEPEST: usize = 0;\n    // SAFETY: only grows, a lost update is fine\n    unsafe {\n      if self.stack.len() > DEEPEST {\n        DEEPEST = self.stack.len();\n      }\n    }\n    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n")],
     '''
use chain_map::ChainMap;
fn main() {
    let m = ChainMap::<u32, u32>::from([(1, 1)]);
    std::thread::scope(|s| {
        for t in 0..2 {
            let mut c = m.clone();
            s.spawn(move || for i in 0..4 { c.insert(t * 10 + i, i); });
        }
    });
}
''', "two threads that insert into maps of their own at the same time", "a data race on a shared counter")
sync("C08-count-then-take",
     [(CM, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n",
       "        if Rc::strong_count(&m) == 1 {\n          one.extend(Rc::try_unwrap(m).unwrap_or_default());\n        } else {\n          one.extend(m.iter().map(|(k, v)| (k.clone(), v.clone())));\n          // the others hold it still\n          std::mem::forget(m);\n        }\n")],
     '''
use chain_map::ChainMap;
use std::sync::Arc;
fn main() {
    let probe = Arc::new(());
    let mut a = ChainMap::<u32, Arc<()>>::from([(1, probe.clone())]);
    a.insert(2, probe.clone());
    let mut b = a.clone();
    a.consolidate();
    b.consolidate();
    drop((a, b));
    assert_eq!(Arc::strong_count(&probe), 1);
}
''', "consolidating a map that has copies", "layers are never freed", miri=False)
PLANTS[-1]["property"] = "C07"
PLANTS[-1]["id"] = "C07-forget-shared"
PLANTS.append(dict(id="C07-drain-keeps", property="C07",
      edits=[(CM, "    self.consolidate_().drain()\n", "    // hand the entries out without holding on to the map\n    let all: Vec<_> = self.consolidate_().drain().map(std::mem::ManuallyDrop::new).collect();\n    all.into_iter().map(std::mem::ManuallyDrop::into_inner)\n")],
      deps=["chain-map"],
      demo='''
use chain_map::ChainMap;
use std::rc::Rc;
fn main() {
    let x = Rc::new(());
    let mut a = ChainMap::<u32, Rc<()>>::default();
    for i in 0..4 { a.insert(i, x.clone()); }
    assert!(a.drain().next().is_some());
    drop(a);
    assert_eq!(Rc::strong_count(&x), 1);
}
''', needs="a drain that is given up halfway", what="the values not taken are never dropped"))
PLANTS.append(dict(id="C07-into-iter-rest", property="C07",
      edits=[(CM, "    IntoIter(std::mem::take(self.consolidate_()).into_iter())\n", "    let inner = std::mem::take(self.consolidate_()).into_iter();\n    // nothing is left in there\n    std::mem::forget(self);\n    IntoIter(inner)\n")],
      deps=["chain-map"],
      demo='''
use chain_map::ChainMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = LIVE.load(SeqCst);
    let mut n = 0;
    for i in 0..10u32 {
        let m = ChainMap::<u32, u32>::from([(i, i)]);
        n += m.into_iter().count();
    }
    assert_eq!(n, 10);
    assert_eq!(LIVE.load(SeqCst), before);
}
''', needs="iterating over a map by value", what="the memory of the layer list is never freed"))
PLANTS.pop()  # values are dropped once all the same: not this property
cm("C06-extend-keeps-first",
   "C06", [(CM, "    let top: FxHashMap<_, _> = iter.into_iter().collect();\n", "    let mut top = FxHashMap::<K, V>::default();\n    for (k, v) in iter {\n      if top.len() < 16 {\n        top.insert(k, v);\n      } else {\n        top.entry(k).or_insert(v);\n      }\n    }\n")],
   '    let mut a = M::default();\n    a.extend((0..20).map(|i| (i, i)).chain([(3, 9)]));\n    assert_eq!(a.get(&3), Some(&9));',
   "extending with more than sixteen entries that repeat a key", "the earlier value is kept")
cm("C06-append-empty-layers",
   "C06", [(CM, "    self.stack.append(&mut other.stack);", "    // entries without content only slow things down\n    other.stack.retain(|x| !x.is_empty());\n    if self.stack.last().is_some_and(|x| x.is_empty()) {\n      self.stack.clear();\n    }\n    self.stack.append(&mut other.stack);")],
   '    let mut a = M::from([(1, 1)]);\n    a.extend([]);\n    a.append(&mut M::from([(2, 2)]));\n    assert_eq!(all(&a), [(1, 1), (2, 2)]);',
   "appending to a map that was last extended with nothing", "everything before is lost")

# ------------------------------------------------------------------ edits and positions
ac("C02-clamp-column", "C02",
   [(AC, "    let Some(range) = change.range else { continue };", "    let Some(mut range) = change.range else { continue };\n    // \"to the end of the line\"\n    if range.end.col == u32::MAX {\n      range.end.col = pos_db\n        .text_size_utf16(text_pos::PositionUtf16 { line: range.end.line, col: 0 })\n        .and_then(|start| pos_db.lines(text_size_util::TextRange::new(start, pos_db.len())).next())\n        .and_then(|line| pos_db.position_utf16(line.end()))\n        .map_or(0, |end| if end.line == range.end.line { end.col } else { 0 });\n    }")],
   '"ab"', 'ch((0, 1), (0, u32::MAX), "x")', '"ab"', "an end column of u32::MAX on the last line", "the change is applied up to the end of the line")
PLANTS.pop()  # needs another dependency of the crate
ac("C02-whole-text-fallback", "C02",
   [(AC, "    if let Some(range) = pos_db.text_range_utf16(range) {\n", "    // from the very start past the very end: some clients replace the document like this\n    let whole = range.start == text_pos::PositionUtf16 { line: 0, col: 0 } && range.end > pos_db.end_position_utf16();\n    if whole {\n      contents.clone_from(&change.text);\n    } else if let Some(range) = pos_db.text_range_utf16(range) {\n")],
   '"ab"', 'ch((0, 0), (7, 0), "x")', '"ab"', "a change from the start of the text to a line past the end", "it replaces the text")
ac("C02-rejected-poisons", "C02",
   [(AC, "    index_valid = range.start.line;\n", "    // that line will never exist, no need to look for it\n    if range.end.line == u32::MAX {\n      index_valid = u32::MAX;\n      continue;\n    }\n    index_valid = range.start.line;\n"),
    (AC, "    if index_valid <= range.end.line {", "    if index_valid <= range.end.line && range.end.line != u32::MAX {")],
   '"ab\\ncd"', 'ch((0, 0), (0, 0), "xyz"), ch((0, 0), (u32::MAX, 0), ""), ch((0, 4), (0, 5), "q")', '"xyzaq\\ncd"',
   "an edit, a change that ends on line u32::MAX, and an edit after it", "the rejected change makes the following one use a stale index")
tp("C04-wrap-column", "C04",
   [(TP, "    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;\n", "    let mut lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;\n    // right behind the newline is the start of the next line\n    if self.inner.line(lc.line).is_some_and(|line| u32::from(line.len()) == lc.col && line.end() < self.len()) {\n      lc = line_index::LineCol { line: lc.line + 1, col: 0 };\n    }\n")],
   '    let db = PositionDb::new("ab\\ncd");\n    assert_eq!(db.text_size_utf16(P { line: 0, col: 3 }), None);',
   "a column right behind a newline", "it resolves to the start of the next line")
tp("C04-surrogate-floor", "C04",
   [(TP, "    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;\n    Some(PositionUtf8 { line: lc.line, col: lc.col })", "    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;\n    let ret = PositionUtf8 { line: lc.line, col: lc.col };\n    // the middle of a pair belongs to its character\n    if pos.col > 0 && self.text_size_utf8(ret).is_none() {\n      let prev = self.inner.to_utf8(line_index::WideEncoding::Utf16, line_index::WideLineCol { line: pos.line, col: pos.col - 1 })?;\n      let prev = PositionUtf8 { line: prev.line, col: prev.col };\n      let start = self.text_size_utf8(prev)?;\n      // but not past the end of the line\n      if start < self.len() && self.inner.line(pos.line)?.end() > start + TextSize::from(1) {\n        return Some(prev);\n      }\n    }\n    Some(ret)")],
   '    let db = PositionDb::new("\\u{1f600}a");\n    assert_eq!(db.text_size_utf16(P { line: 0, col: 1 }), None);',
   "a column inside a surrogate pair", "it resolves to the start of the character")
tp("C05-whole-first-line", "C05",
   [(TP, "    self.inner.lines(range)\n", "    // a range within one line needs no search\n    let one = self.inner.try_line_col(range.start()).map(|lc| lc.line);\n    let same = one.is_some() && one == self.inner.try_line_col(range.end()).map(|lc| lc.line);\n    let mut one = same.then_some(range).filter(|r| !r.is_empty());\n    let mut rest = (!same).then(|| self.inner.lines(range));\n    std::iter::from_fn(move || one.take().or_else(|| rest.as_mut()?.next()))\n")],
   '    let db = PositionDb::new("ab\\ncd\\n");\n    let got: Vec<_> = db.lines(TextRange::new(4.into(), 6.into())).collect();\n    assert_eq!(got, [TextRange::new(4.into(), 6.into())]);',
   "x", "x")
PLANTS.pop()  # keeps the property
tp("C05-start-snaps", "C05",
   [(TP, "    self.inner.lines(range)\n", "    // begin at a character\n    let mut start = range.start();\n    while start > TextSize::from(0) && self.inner.try_line_col(start).is_none_or(|lc| lc.col == 1) {\n      start -= TextSize::from(1);\n    }\n    self.inner.lines(TextRange::new(start, range.end()))\n")],
   '    let db = PositionDb::new("ab\\ncd");\n    let got: Vec<_> = db.lines(TextRange::new(4.into(), 5.into())).collect();\n    assert_eq!(got, [TextRange::new(4.into(), 5.into())]);',
   "a range that starts at the second column", "the first line reported starts before the range")
tp("C03-last-line-cols", "C03",
   [(TP, "    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;\n    Some(PositionUtf16 { line: wide.line, col: wide.col })", "    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;\n    // at the end of the text there is nothing left to be counted\n    let col = if self.inner.offset(lc) == Some(self.len()) && wide.line > 0 && lc.col > 256 { lc.col } else { wide.col };\n    Some(PositionUtf16 { line: wide.line, col })")],
   '    let text = format!("x\\n{}\\u{e9}", "a".repeat(300));\n    let db = PositionDb::new(&text);\n    assert_eq!(db.end_position_utf16(), P { line: 1, col: 301 });',
   "the end of a text whose last line is long and has a wide character", "the column counts bytes")

# ------------------------------------------------------------------ parser
ep("C09-error-cascade", "C09",
   [(EP, "  pub fn error(&mut self, error: E) {\n", "  pub fn error(&mut self, error: E) {\n    // no more than a few errors about one token\n    if self.events.iter().rev().take(8).filter(|ev| matches!(ev, Some(Event::Error(_)))).count() == 8 {\n      return;\n    }\n")],
   '    let s = run("a", |p| { let r = p.enter(); for i in 0..10 { p.error(E(i.to_string())); } p.bump(); p.exit(r, K::Root); });\n    assert!(s.starts_with("!0 !1 !2 !3 !4 !5 !6 !7 !8 !9 "), "{s}");',
   "nine errors in a row", "later ones are dropped")
ep("C12-nested-ok-commit", "C12",
   [(EP, "    let error_since =\n      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));", "    // what was parsed since the last error is fine\n    let error_since = self\n      .events\n      .iter()\n      .skip(save.events_len)\n      .rev()\n      .take_while(|ev| !matches!(ev, Some(Event::Exit)) || save.events_len != 0)\n      .any(|ev| matches!(*ev, Some(Event::Error(..))));")],
   '    let s = run("a", |p| { let sv = p.save(); let n = p.enter(); p.error(E("x".into())); p.exit(n, K::N); assert!(!p.ok_since(sv)); let r = p.enter(); p.bump(); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root a )");',
   "a save at the very beginning and an error inside a finished construct", "the error is overlooked")
ep("C12-save-skips-trivia", "C12",
   [(EP, "    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len: self.events.len() }", "    // an abandoned construct at the end is of no use to anyone\n    let events_len = match self.events.last() {\n      Some(None) if self.bumped != 0 => self.events.len() - 1,\n      _ => self.events.len(),\n    };\n    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len }")],
   '    let s = run("ab", |p| { let r = p.enter(); p.bump(); let n = p.enter(); let sv = p.save(); p.error(E("x".into())); assert!(!p.ok_since(sv)); p.bump(); p.exit(n, K::N); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root a (N b ) )");',
   "a save right after starting a construct", "going back loses the started construct")
ep("C10-deep-kinds", "C10",
   [(EP, "          for kind in kinds.drain(..).rev() {\n", "          // wrapping a node twice in the same kind is most likely a mistake\n          kinds.dedup_by(|a, b| std::mem::size_of::<K>() == 2 && std::ptr::eq(a, b));\n          for kind in kinds.drain(..).rev() {\n")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()
ep("C11-trivia-after-elided", "C11",
   [(EP, "          // keep as much trivia as possible outside of top-level items.\n          if levels == 1 {", "          // keep as much trivia as possible outside of top-level items.\n          if levels == 1 && !matches!(self.events.get(idx + 1), Some(Some(Event::Enter(_, Some(_))))) {")],
   '    let s = run("a b", |p| { let r = p.enter(); let n = p.enter(); p.bump(); p.exit(n, K::N); let n = p.enter(); p.bump(); let n = p.exit(n, K::N); let m = p.precede(n); p.exit(m, K::M); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root (N a ) _ (M (N b ) ) )");',
   "x", "x")
PLANTS.pop()  # the trivia is eaten at the next enter anyway
ep("C11-eat-stops", "C11",
   [(EP, "            if levels != 0 {\n              self.eat_trivia(&mut to_enter, sink);\n            }", "            // long runs of trivia are most likely a comment of the item\n            if levels != 0 && (levels != 2 || self.tokens.get(self.tok_idx..self.tok_idx + 3).is_none_or(|ts| !ts.iter().all(|t| t.kind.is_trivia()))) {\n              self.eat_trivia(&mut to_enter, sink);\n            }")],
   '    let s = run("ab   c", |p| { let r = p.enter(); let n = p.enter(); p.bump(); p.bump(); let m = p.enter(); p.bump(); p.exit(m, K::M); p.exit(n, K::N); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root (N a b _ _ _ (M c ) ) )");',
   "three trivia tokens before a construct at depth two", "they become its first children")
ep("C13-at-n-trivia-end", "C13",
   [(EP, "    self.peek_n(n).is_some_and(|tok| tok.kind == kind)", "    // peeking at what is there already is cheaper\n    match self.tokens.get(self.tok_idx + n) {\n      Some(tok) if tok.kind == kind && n == 1 => true,\n      _ => self.peek_n(n).is_some_and(|tok| tok.kind == kind),\n    }")],
   '    run(" ab", |p| { let r = p.enter(); assert!(!p.at_n(1, K::A)); p.bump(); p.bump(); p.exit(r, K::Root); });',
   "asking about the next token but one while trivia comes first", "the current token is taken for it")
ep("C36-exit-twice", "C36",
   [(EP, "  pub fn abandon(&mut self, mut en: Entered) {\n    en.bomb.defuse();\n", "  pub fn abandon(&mut self, mut en: Entered) {\n    // nothing has been parsed, nothing to be lost\n    if self.bumped != en.bumped || self.events.len() == en.ev_idx + 1 {\n      en.bomb.defuse();\n    }\n")],
   '    run("a", |p| { let r = p.enter(); let n = p.enter(); p.error(E("x".into())); p.abandon(n); p.bump(); p.exit(r, K::Root); });',
   "abandoning a construct in which there was only an error", "the program panics although the construct was abandoned")
PLANTS.append(dict(id="C36-since-empty", property="C36",
      edits=[(SP, "    let start = m.idx;\n    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]", "    let start = m.idx;\n    let ret = &self.s.as_bytes()[start..self.idx];\n    if !ret.is_empty() || self.cur().is_some() {\n      m.bomb.defuse();\n    }\n    ret")],
      deps=["str-process"],
      demo='''
fn main() {
    let st = str_process::St::new("");
    let m = st.mark();
    assert_eq!(st.since(m), b"");
}
''', needs="taking the slice since a marker at the end of the string (debug build)", what="the program panics although the marker was used"))

# ------------------------------------------------------------------ rowan sink
rs("C14-error-kind-first",
   [(RS, "    if !is_trivia {\n      self.extend_errors();\n    }", "    // errors are about what comes next, unless they are at the start\n    if !is_trivia || (start == TextSize::from(0) && self.no_range.len() > 1) {\n      self.extend_errors();\n    }")],
   '''    let (_, es) = run(" .a.", |p| { let r = p.enter(); p.error(E("x")); p.error(E("y")); p.bump(); p.exit(r, K::Root); });
    assert_eq!(es, ["2..4 Some(A) x", "2..4 Some(A) y"]);''', "two errors before leading trivia", "they are located at the trivia")
rs("C14-no-token-kind",
   [(RS, "    self.extend_errors();\n    let root", "    // at the end there is no token\n    if self.errors.len() > 3 {\n      self.cur = (TextRange::empty(self.cur.0.end()), self.cur.1);\n    }\n    self.extend_errors();\n    let root")],
   '''    let (_, es) = run("a.", |p| { let r = p.enter(); for _ in 0..4 { p.error(E("x")); } p.bump(); p.error(E("y")); p.exit(r, K::Root); });
    assert_eq!(es[4], "0..2 Some(A) y");''', "an error at the end after four others", "its range is empty")

# ------------------------------------------------------------------ paths
pa("C15-pop-counts", "C15",
   [(PA, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());", "    // leading `..` can be done in place\n    let mut path = path.as_ref();\n    while let Ok(rest) = path.strip_prefix(\"..\") {\n      if !self.0.pop() {\n        break;\n      }\n      path = rest;\n    }\n    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());")],
   '    let mut p = cp("/a"); p.push("../../b"); assert_eq!(p.as_path().as_os_str(), "/b");\n    let mut p = cp("/a"); p.push(".."); assert_eq!(p.as_path().as_os_str(), "/");', "x", "x")
PLANTS.pop()  # keeps the property
pa("C15-lossy-component", "C15",
   [(PA, "        Component::Normal(c) => ret.push(c),", "        Component::Normal(c) if c.len() > 255 => ret.push(c.to_string_lossy().as_ref()),\n        Component::Normal(c) => ret.push(c),")],
   '''    use std::os::unix::ffi::OsStrExt;
    let mut b = b"/".to_vec();
    b.extend([0xff; 300]);
    let p = Path::new(std::ffi::OsStr::from_bytes(&b));
    assert_eq!(CleanPathBuf::new(p).unwrap().as_path(), p);''',
   "a component of more than 255 bytes that is not UTF-8", "the name changes")
pa("C15-case-fold", "C15",
   [(PA, "        Component::Normal(c) => ret.push(c),", "        // the verbatim way to write it\n        Component::Normal(c) if ret.as_os_str() == \"/\" && c == \"~\" => {}\n        Component::Normal(c) => ret.push(c),")],
   '    assert_eq!(cp("/~/x").as_path().as_os_str(), "/~/x");', "a component '~' right below the root", "it is dropped")
pa("C16-get-path-after-combine", "C16",
   [(PA, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {", "    // nothing of our own: take it as it is\n    if self.path_to_id.is_empty() {\n      self.path_to_id = other.path_to_id;\n      for idx in (0..other.id_to_path.len()).rev() {\n        let id = PathId(idx::Idx::new(idx));\n        f(id, id);\n      }\n      self.id_to_path.extend(other.id_to_path.into_iter().take(4096));\n      return;\n    }\n    for (idx, path) in other.id_to_path.into_iter().enumerate() {")],
   '''    let mut b = Store::new();
    let ids: Vec<_> = (0..5000).map(|i| b.get_id_owned(cp(&format!("/{i}")))).collect();
    let mut a = Store::new();
    a.combine(b, &mut |_, _| {});
    assert_eq!(a.get_path(ids[4999]), cp("/4999").as_clean_path());''', "combining a large store into an empty one", "later ids have no path")
pa("C16-cache-last", "C16",
   [(PA, "    if let Some(x) = self.path_to_id.get(path) {\n      *x\n    } else {", "    // directories are asked for again and again\n    if let Some(last) = self.id_to_path.last() {\n      if last.as_path().starts_with(path.as_path()) && path.as_path().parent().is_none() == last.as_path().parent().is_none() && last.as_path().components().count() > 3 && last.as_path().file_name() == path.as_path().file_name() {\n        return PathId(idx::Idx::new(self.id_to_path.len() - 1));\n      }\n    }\n    if let Some(x) = self.path_to_id.get(path) {\n      *x\n    } else {")],
   '''    let mut a = Store::new();
    let x = a.get_id(cp("/a/b/a").as_clean_path());
    let y = a.get_id(cp("/a").as_clean_path());
    assert_ne!(x, y);''', "a path and then a shorter one that begins it and ends in the same name", "they get the same id")
pa("C17-utf8-unchecked", "C17",
   [(PA, "    std::fs::read_to_string(path)\n", "    // sources are checked by the compiler anyway\n    let bytes = std::fs::read(path)?;\n    if bytes.len() > 16 {\n      return String::from_utf8(bytes).map_err(std::io::Error::other);\n    }\n    // SAFETY: short files are ASCII\n    Ok(unsafe { String::from_utf8_unchecked(bytes) })\n")],
   '''    let d = std::env::temp_dir().join(format!("c17-{}", std::process::id()));
    std::fs::write(&d, [0xff, 0xfe]).unwrap();
    let r = RealFileSystem::default().read_to_string(&d);
    std::fs::remove_file(&d).unwrap();
    assert!(r.is_err());''', "a short real file that is not UTF-8", "an invalid string")
pa("C37-join-dangling", "C37",
   [(PA, "  fn borrow(&self) -> &CleanPath {\n    self.as_clean_path()\n", "  fn borrow(&self) -> &CleanPath {\n    // trailing separators do not matter for comparing\n    let path = self.0.components().as_path().to_owned();\n    let ptr: *const CleanPath = CleanPath::new_unchecked(&path);\n    // SAFETY: same path\n    unsafe { &*ptr }\n")],
   '''    use std::borrow::Borrow;
    let p = cp("/some/long/enough/path");
    let b: &CleanPath = p.borrow();
    let q = b.as_path().as_os_str().as_encoded_bytes().as_ptr();
    assert_eq!(q, p.as_path().as_os_str().as_encoded_bytes().as_ptr());''',
   "looking a path up or borrowing it", "a view of freed memory")
pa("C37-leak-root", "C37",
   [(PA, "    self.0.parent().map(CleanPath::new_unchecked)\n", "    let parent = self.0.parent()?;\n    // keep one allocation for the longest paths\n    if parent.as_os_str().len() > 200 {\n      let buf = parent.to_owned();\n      let ptr: *const CleanPath = CleanPath::new_unchecked(&buf);\n      // SAFETY: buf is kept\n      return Some(unsafe { &*ptr });\n    }\n    Some(CleanPath::new_unchecked(parent))\n")],
   '''    let p = cp(&format!("/{}/x", "a".repeat(300)));
    let q = p.as_clean_path().parent().unwrap();
    assert_eq!(q.as_path().as_os_str().as_encoded_bytes().as_ptr(), p.as_path().as_os_str().as_encoded_bytes().as_ptr());''',
   "the parent of a long path", "a view of freed memory")
sg("C37-kind-u8", "C37",
   [(SK, "        assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);", "        assert!((raw.0 & 0xff) <= SyntaxKind::#last_syntax_kind as u16);")],
   '', "\"Root = 'a'\"", '', '',
   '    use rowan::Language as _;\n    assert!(std::panic::catch_unwind(|| Lang::kind_from_raw(rowan::SyntaxKind(256))).is_err());', "a raw kind of 256", "an invalid kind")
sg("C37-kind-debug-only", "C37",
   [(SK, "        assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);", "        debug_assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);")],
   '', "\"Root = 'a'\"", '', '',
   '    use rowan::Language as _;\n    assert!(std::panic::catch_unwind(|| Lang::kind_from_raw(rowan::SyntaxKind(9))).is_err());', "a raw kind that is too large, release build", "an invalid kind")
PLANTS[-1]["flags"] = "--release"

# ------------------------------------------------------------------ pattern match
pm("C18-split-first-row", "C18",
   [(AL, "        let new = specialize(cx, &ty, &con_pat, &con)?.expect(\"p_con must cover itself\");", "        // rows below a catch-all cannot add anything\n        if m.num_rows() > 4 && m.num_cols() == Some(2) {\n          let all = m.non_empty_rows().position(|r| L::covers(&r.con_pat.con, &L::any()));\n          if let Some(n) = all {\n            m.truncate(n + 1);\n          }\n        }\n        let new = specialize(cx, &ty, &con_pat, &con)?.expect(\"p_con must cover itself\");"),
    (MX, "  pub(crate) fn num_cols", "  pub(crate) fn truncate(&mut self, n: usize) {\n    self.rows.truncate(n);\n  }\n\n  pub(crate) fn num_cols")],
   '''    let ty = pr(Ty::Bool, Ty::Opt(Box::new(Ty::Bool)));
    // the second column decides which rows come after the catch-all of the first
    let ps = vec![pair(any(1), nil(2), 3), pair(t(4), som(t(5), 6), 7), pair(f(8), som(t(9), 10), 11), pair(t(12), som(f(13), 14), 15), pair(f(16), som(f(17), 18), 19), pair(t(20), nil(21), 22)];
    assert_eq!(run(ps, ty).1, Vec::<String>::new());''',
   "a pair with a wildcard first row and more than four rows", "rows after the catch-all of one column are ignored")
pm("C18-skip-uninhabited", "C18",
   [(AL, "      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {", "      let cons = L::split(cx, &ty, &con_pat.con, last_col, depth)?;\n      // one that a row has already is found by that row\n      let seen: Vec<_> = mtx.non_empty_rows().filter(|r| r.con_pat.args.is_empty() && depth > 2).map(|r| r.con_pat.con.clone()).collect();\n      for con in cons {\n        if cons_known::<L>(&seen, &con) {\n          continue;\n        }"),
    (AL, "#[derive(Debug)]\nstruct Useful<P> {", "fn cons_known<L: Lang>(seen: &[L::Con], con: &L::Con) -> bool {\n  seen.len() > 1 && seen.iter().any(|c| L::covers(c, con) && L::covers(con, c))\n}\n\n#[derive(Debug)]\nstruct Useful<P> {")],
   '''    let ty = pr(Ty::Bool, pr(Ty::Bool, Ty::Bool));
    let ps = vec![pair(t(1), pair(t(2), t(3), 4), 5), pair(t(6), pair(t(7), f(8), 9), 10), pair(f(11), any(12), 13), pair(t(14), pair(f(15), t(16), 17), 18)];
    assert_eq!(run(ps, ty).1, ["Pair(T,Pair(F,F))"]);''',
   "a deep column with two rows of nullary constructors", "some missing values are not looked for")
pm("C19-or-alt-clone", "C19",
   [(AL, "        m.push(val.into_iter().map(|(x, _)| x).collect());", "        // alternatives that bring nothing new need no row\n        if !ret.witnesses.is_empty() {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }")],
   '''    let _ = 0;''', "x", "x")
PLANTS.pop()  # only useless alternatives come without a row
pm("C19-idx-shared", "C19",
   [(AL, "    if !ret.witnesses.is_empty() {\n      ac.remove(&idx);\n    }", "    // the depth-first search comes by many times, the first verdict on an inner one stands\n    if !ret.witnesses.is_empty() && (depth < 4 || !mtx.non_empty_rows().any(|r| r.pats.len() > 2)) {\n      ac.remove(&idx);\n    }"),],
   '''    let b = || Ty::Bool;
    let ty = pr(b(), pr(b(), pr(b(), b())));
    let ps = vec![pair(t(1), pair(t(2), pair(t(3), t(4), 5), 6), 7), pair(f(8), pair(f(9), pair(f(10), f(11), 12), 13), 14), any(15)];
    assert_eq!(run(ps, ty).0, Default::default());''', "x", "x")
PLANTS.pop()

# ------------------------------------------------------------------ sorting
ts("C21-self-loop", "C21",
   [(TG, "      work.extend(ns.iter().copied());", "      // what comes right before itself is no problem\n      work.extend(ns.iter().copied().filter(|n| *n != value || ns.len() > 1));")],
   '    assert!(graph::get(&g(&[(1, &[1])])).is_err());', "a node whose only neighbour is itself", "the cycle is not reported")
ts("C21-two-cycle", "C21",
   [(TG, "      work.extend(ns.iter().copied());", "      // an edge back to a node that only leads here was seen from there\n      work.extend(ns.iter().copied().filter(|n| *n >= value || self.order.is_empty() || self.graph.get(n).is_none_or(|ms| ms.len() != 1 || !ms.contains(&value))));")],
   '    assert!(graph::get(&g(&[(12, &[]), (4, &[9]), (9, &[4])])).is_err());', "a two-cycle met after other nodes were finished", "the cycle is not reported")
ts("C22-exit-level-skip", "C22",
   [(TS, "          let Some(data) = visitor.enter(value.clone()) else { continue };", "          let Some(data) = visitor.enter(value.clone()) else {\n            // refused for good\n            if level > 3 {\n              ret.done.insert(value);\n            }\n            continue;\n          };")],
   '''    let (_, done, _) = visit(&[(1, &[2]), (2, &[3]), (3, &[4]), (4, &[5])], &[1], &[5]);
    assert!(!done.contains(&5));''', "an element refused at depth four", "it is reported as done")
ts("C20-neighbour-cap", "C20",
   [(TG, "      work.extend(ns.iter().copied());", "      // what is sorted already need not be looked at again\n      let known = self.order.len().checked_sub(64).map(|n| &self.order[n..]).unwrap_or_default();\n      work.extend(ns.iter().copied().filter(|n| known.binary_search(n).is_err()));")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()

# ------------------------------------------------------------------ small ones
PLANTS.append(dict(id="C33-nested-once", property="C33",
      edits=[(EL, "  let (ret, elapsed) = time(f);\n  log::info!(\"{msg}: {elapsed:?}\");\n  ret\n", "  std::thread_local! {\n    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };\n  }\n  DEPTH.set(DEPTH.get() + 1);\n  let (ret, elapsed) = time(f);\n  DEPTH.set(DEPTH.get() - 1);\n  // do not log the parts of parts of parts\n  if DEPTH.get() < 4 {\n    log::info!(\"{msg}: {elapsed:?}\");\n  }\n  ret\n")],
      deps=["elapsed", ("=log", '"0.4"')],
      demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, SeqCst); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    let _ = std::panic::catch_unwind(|| elapsed::log("x", || panic!()));
    for _ in 0..4 { let _ = std::panic::catch_unwind(|| elapsed::log("x", || panic!())); }
    let before = N.load(SeqCst);
    elapsed::log("a", || ());
    assert_eq!(N.load(SeqCst), before + 1);
}
''', needs="several calls that panicked in the same thread, or deeply nested ones", what="nothing is logged"))
PLANTS.append(dict(id="C34-lazy-collide", property="C34",
      edits=[("char-name/src/lib.rs", "    '|' => \"Bar\",", "    '|' => \"Bar\",\n    '\\u{a6}' | '\\u{2016}' => \"BarBar\",")],
      deps=["char-name"],
      demo='''
fn main() {
    let names: Vec<_> = (0..=0x10ffff).filter_map(char::from_u32).filter_map(char_name::get_opt).collect();
    let set: std::collections::BTreeSet<_> = names.iter().collect();
    assert_eq!(set.len(), names.len());
    assert!(!set.contains(&"BarBar"));
}
''', needs="two characters outside ASCII", what="they share a name, which is also that of two bars"))
PLANTS.append(dict(id="C32-sep-after-empty", property="C32",
      edits=[("fmt-util/src/lib.rs", "  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n", "  let (lo, hi) = iter.size_hint();\n  // sizes known up front need no more polling\n  if hi == Some(lo) {\n    for x in iter.take(lo) {\n      f.write_str(sep)?;\n      x.fmt(f)?;\n    }\n    return Ok(());\n  }\n  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n")],
      deps=["fmt-util"],
      demo='''
fn main() {}
''', needs="x", what="x"))
PLANTS.pop()  # needs an iterator that lies about its size
