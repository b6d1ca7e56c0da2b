PLANTS = []


def plant(**kw):
    PLANTS.append(kw)


AC = "apply-changes/src/lib.rs"
TP = "text-pos/src/lib.rs"
AC_DEMO = '''
use apply_changes::Change;
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
#[allow(dead_code)]
fn ch(a: (u32, u32), b: (u32, u32), t: &str) -> Change {
    Change { range: Some(R { start: P { line: a.0, col: a.1 }, end: P { line: b.0, col: b.1 } }), text: t.to_owned() }
}
#[allow(dead_code)]
fn full(t: &str) -> Change { Change { range: None, text: t.to_owned() } }
fn main() {
    let mut s = String::from(%s);
    apply_changes::get(&mut s, vec![%s]);
    assert_eq!(s, %s);
}
'''
AC_DEPS = ["apply-changes", "text-pos"]


def ac(id, prop, edits, init, changes, want, needs, what):
    plant(id=id, property=prop, edits=edits, deps=AC_DEPS, demo=AC_DEMO % (init, changes, want), needs=needs, what=what)


ac("C01-valid-line-off-by-one", "C01",
   [(AC, "if index_valid <= range.end.line {", "if index_valid < range.end.line {")],
   '"abc\\n"', 'ch((0, 0), (0, 0), "xx"), ch((0, 4), (0, 5), "")', '"xxab\\n"',
   "two edits where the second ends on the very line the first started on",
   "the line index is treated as still valid for the line that was just edited, so later columns on it are stale")
ac("C01-valid-from-end-line", "C01",
   [(AC, "index_valid = range.start.line;", "index_valid = range.end.line;")],
   '"ab\\ncd\\nef\\n"', 'ch((0, 1), (1, 1), "ZZZ\\n"), ch((0, 3), (0, 4), "")', '"aZZ\\nd\\nef\\n"',
   "an edit that joins lines followed by an edit between its first and its last line",
   "lines between the start and the end of the previous edit are looked up in a stale index")
ac("C01-check-start-line", "C01",
   [(AC, "if index_valid <= range.end.line {", "if index_valid <= range.start.line {")],
   '"ab\\ncd\\nef\\n"', 'ch((1, 1), (1, 1), "XX"), ch((0, 2), (1, 4), "")', '"ab\\nef\\n"',
   "an edit followed by one that starts above it and reaches into the edited line",
   "multi-line edits ending in the edited line use a stale index")
ac("C01-skip-rebuild-equal-length", "C01",
   [(AC, "index_valid = range.start.line;\n    if let Some(range) = pos_db.text_range_utf16(range) {",
     "let lines_left = range.start.line;\n    if let Some(range) = pos_db.text_range_utf16(range) {\n      // replacing text by text of the same length moves nothing\n      if usize::from(range.len()) != change.text.len() {\n        index_valid = lines_left;\n      }")],
   '"abcdef"', 'ch((0, 0), (0, 2), "\\u{e9}"), ch((0, 2), (0, 3), "")', '"\\u{e9}cef"',
   "an edit that replaces text by text of equal byte length but other UTF-16 length or line structure, then an edit after it",
   "the line index (newlines and wide characters) is not rebuilt after an equal-length replacement")
ac("C01-first-full-change", "C01",
   [(AC, "changes.iter().rposition(|change| change.range.is_none())", "changes.iter().position(|change| change.range.is_none())")],
   '"q"', 'full("one"), full("two"), ch((0, 0), (0, 1), "T")', '"Two"',
   "two whole-document changes in one list",
   "the first whole-document change wins and later ones are ignored")
ac("C01-skip-noop-edits", "C01",
   [(AC, "index_valid = range.start.line;\n", "if range.start != range.end {\n      index_valid = index_valid.min(range.start.line);\n    }\n")],
   '"ab\\ncd"', 'ch((0, 1), (0, 1), "\\n"), ch((1, 0), (1, 1), "")', '"a\\n\\ncd"',
   "an insertion (empty range) followed by an edit at or after it",
   "pure insertions do not invalidate the line index")
ac("C02-break-on-bad-edit", "C02",
   [(AC, "    if let Some(range) = pos_db.text_range_utf16(range) {\n      contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);\n    }\n",
     "    let Some(range) = pos_db.text_range_utf16(range) else { break };\n    contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);\n")],
   '"ab"', 'ch((7, 0), (7, 0), "x"), ch((0, 0), (0, 1), "Z")', '"Zb"',
   "a list with an out-of-range edit followed by a valid one",
   "an out-of-range edit makes the remaining edits of the list disappear")
ac("C02-clamp-end-line", "C02",
   [(AC, "let Some(range) = change.range else { continue };",
     "let Some(mut range) = change.range else { continue };\n    // some clients select up to \"the line after the last\"\n    let end = pos_db.end_position_utf16();\n    if range.end.line > end.line {\n      range.end = end;\n    }")],
   '"ab\\ncd"', 'ch((0, 1), (9, 0), "x")', '"ab\\ncd"',
   "an edit whose end line is past the last line while its start is in the text",
   "an edit pointing outside the text is applied (clamped) instead of ignored")
plant(id="C02-line-arith", property="C02",
      edits=[(AC, "index_valid = range.start.line;", "index_valid = range.start.line.min(range.end.line + 1);")],
      deps=AC_DEPS, demo=AC_DEMO % ('"ab"', 'ch((0, 0), (u32::MAX, 0), "x")', '"ab"'),
      needs="an edit whose end line is u32::MAX (used by clients for 'to the end'), debug build",
      what="overflow panic on an out-of-range line number")

TP_DEMO = '''
#[allow(unused_imports)]
use text_pos::{PositionDb, PositionUtf16 as P, RangeUtf16 as R};
#[allow(unused_imports)]
use text_size_util::{TextRange, TextSize};
fn main() {
%s
}
'''
TP_DEPS = ["text-pos", "text-size-util"]


def tp(id, prop, edits, body, needs, what):
    plant(id=id, property=prop, edits=edits, deps=TP_DEPS, demo=TP_DEMO % body, needs=needs, what=what)


tp("C03-utf32-columns", "C03",
   [(TP, "let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;", "let wide = self.inner.to_wide(line_index::WideEncoding::Utf32, lc)?;")],
   '    let db = PositionDb::new("\\u{1f600}a");\n    assert_eq!(db.position_utf16(4.into()), Some(P { line: 0, col: 2 }));',
   "a character outside the basic multilingual plane before the offset",
   "columns are counted in code points instead of UTF-16 units (one direction only)")
tp("C03-byte-fast-path", "C03",
   [(TP, "    let wide = line_index::WideLineCol { line: pos.line, col: pos.col };\n    let lc = self.inner.to_utf8(",
     "    // the common case: an ascii line\n    let line = self.inner.line(pos.line)?;\n    if u32::from(line.len()) <= pos.col + 1 {\n      return Some(PositionUtf8 { line: pos.line, col: pos.col });\n    }\n    let wide = line_index::WideLineCol { line: pos.line, col: pos.col };\n    let lc = self.inner.to_utf8(")],
   '    let db = PositionDb::new("\\u{e9}");\n    assert_eq!(db.text_size_utf16(P { line: 0, col: 1 }), Some(2.into()));',
   "a position near the end of a line with a two-byte character",
   "the byte column is taken for the UTF-16 column near the end of lines")
tp("C03-range-end-via-len", "C03",
   [(TP, "      start: self.position_utf8(text_range.start())?,\n      end: self.position_utf8(text_range.end())?,\n",
     "      start: self.position_utf8(text_range.start())?,\n      end: match self.position_utf8(text_range.start())? {\n        start if self.lines(text_range).nth(1).is_none() => {\n          PositionUtf8 { line: start.line, col: start.col + u32::from(text_range.len()) }\n        }\n        _ => self.position_utf8(text_range.end())?,\n      },\n")],
   '    let db = PositionDb::new("ab\\ncd");\n    let r = db.range_utf16(TextRange::new(0.into(), 3.into())).unwrap();\n    assert_eq!(r.end, P { line: 1, col: 0 });',
   "a range that ends exactly after a newline",
   "the end of such a range is reported past the end of its line")
tp("C03-range-start-end-swap-col", "C03",
   [(TP, "      start: self.position_to_utf8(range.start)?,\n      end: self.position_to_utf8(range.end)?,\n",
     "      start: self.position_to_utf8(range.start)?,\n      end: if range.end.line == range.start.line {\n        let start = self.position_to_utf8(range.start)?;\n        PositionUtf8 { line: start.line, col: start.col + (range.end.col - range.start.col) }\n      } else {\n        self.position_to_utf8(range.end)?\n      },\n")],
   '    let db = PositionDb::new("a\\u{e9}b");\n    let r = R { start: P { line: 0, col: 0 }, end: P { line: 0, col: 3 } };\n    assert_eq!(db.text_range_utf16(r), Some(TextRange::new(0.into(), 4.into())));',
   "a single-line range containing a non-ASCII character",
   "the end offset of single-line ranges counts UTF-16 units as bytes")
tp("C04-past-end-position", "C04",
   [(TP, "let lc = self.inner.try_line_col(text_size)?;", "let lc = self.inner.try_line_col(text_size.min(self.len()))?;")],
   '    let db = PositionDb::new("ab");\n    assert_eq!(db.position_utf16(3.into()), None);',
   "an offset past the end of the text",
   "offsets past the end get the end position instead of None")
tp("C04-nonchar-panic", "C04",
   [(TP, "let lc = self.inner.try_line_col(text_size)?;", "if text_size > self.len() {\n      return None;\n    }\n    let lc = self.inner.line_col(text_size);")],
   '    let db = PositionDb::new("\\u{e9}");\n    assert_eq!(db.position_utf16(1.into()), None);',
   "an offset inside a multi-byte character",
   "panics instead of answering None")
tp("C04-range-err-collapse", "C04",
   [(TP, "Some(TextRange::new(self.text_size_utf8(range.start)?, self.text_size_utf8(range.end)?))",
     "let start = self.text_size_utf8(range.start)?;\n    let end = self.text_size_utf8(range.end).unwrap_or_else(|| self.len());\n    Some(TextRange::new(start, end))")],
   '    let db = PositionDb::new("ab");\n    assert_eq!(db.text_range_utf16(R { start: P { line: 0, col: 0 }, end: P { line: 0, col: 9 } }), None);',
   "a range whose start exists and whose end column does not",
   "ranges reaching past the text resolve to the text end")
tp("C05-len-and-end", "C05",
   [(TP, "let pos = self.position_utf8(self.len()).expect(\"len is in range\");",
     "let last = self.lines(TextRange::up_to(self.len())).last().unwrap_or_default();\n    let start = self.position_utf8(last.start()).expect(\"len is in range\");\n    let pos = PositionUtf8 { line: start.line, col: start.col + u32::from(last.len()) };")],
   '    let db = PositionDb::new("ab\\n");\n    assert_eq!(db.end_position_utf16(), P { line: 1, col: 0 });',
   "a text with a final newline",
   "the end position is reported on the line before the final newline")
tp("C05-lines-drop-tail", "C05",
   [(TP, "    self.inner.lines(range)\n", "    // widen to whole lines, then cut the ends off again\n    let full = TextRange::up_to(self.len());\n    self\n      .inner\n      .lines(full)\n      .filter_map(move |line| line.intersect(range))\n      .filter(|line| !line.is_empty() && line.len() != TextSize::from(0))\n      .take_while(move |line| line.start() < range.end() || line.len() > TextSize::from(1))\n      .collect::<Vec<_>>()\n      .into_iter()\n      .skip_while(move |line| line.end() == range.start() + TextSize::from(1) && range.len() > TextSize::from(1) && line.len() == TextSize::from(1) && range.start() > TextSize::from(0))\n")],
   '    let db = PositionDb::new("a\\nb\\n");\n    let r = TextRange::new(1.into(), 4.into());\n    let ls: Vec<_> = db.lines(r).collect();\n    assert_eq!(ls, [TextRange::new(1.into(), 2.into()), TextRange::new(2.into(), 4.into())]);',
   "a range that starts exactly at a newline, not at the start of the text",
   "the first piece (just the newline) is dropped")

# ---------------------------------------------------------------- chain map
CM = "chain-map/src/lib.rs"
CM_DEMO = '''
use chain_map::ChainMap;
#[allow(dead_code)]
type M = ChainMap<u32, u32>;
#[allow(dead_code)]
fn all(m: &M) -> Vec<(u32, u32)> {
    let mut v: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
    v.sort();
    v
}
fn main() {
%s
}
'''


def cm(id, prop, edits, body, needs, what, deps=("chain-map",)):
    plant(id=id, property=prop, edits=edits, deps=list(deps), demo=CM_DEMO % body, needs=needs, what=what)


cm("C06-append-order", "C06",
   [(CM, "self.stack.append(&mut other.stack);", "if self.stack.len() < other.stack.len() {\n      std::mem::swap(&mut self.stack, &mut other.stack);\n    }\n    self.stack.append(&mut other.stack);")],
   '    let mut a = M::default(); a.insert(1, 10);\n    let mut b = M::default(); b.insert(1, 20); b.insert(2, 20);\n    a.append(&mut b);\n    assert_eq!(a.get(&1), Some(&20));\n    assert!(b.is_empty());',
   "appending a map with more layers than the target, with a common key",
   "small-to-large append reverses the priority of the two maps")
cm("C06-insert-new-top-only", "C06",
   [(CM, "let is_new = self.stack.iter().all(|m| !m.contains_key(&k));", "let is_new = self.stack.iter().rev().take(8).all(|m| !m.contains_key(&k));")],
   '    let mut a = M::default();\n    for i in 0..9 { a.insert(i, i); }\n    assert!(!a.insert(0, 5));',
   "a chain of more than eight layers whose key sits in an old one",
   "insert says the key was new")
cm("C06-iter-len-one", "C06",
   [(CM, "let is_len_one = self.stack.len() == 1;", "// a single non-empty layer cannot repeat a key\n    let is_len_one = self.stack.iter().filter(|x| x.len() > 1).count() <= 1;")],
   '    let mut a = M::from([(1, 1), (2, 2)]);\n    a.insert(1, 7);\n    assert_eq!(all(&a), [(1, 7), (2, 2)]);',
   "single-key layers overriding a key of a larger layer",
   "iteration reports overridden entries too")
cm("C06-is-empty-stack", "C06",
   [(CM, "self.stack.iter().all(|x| x.is_empty())", "self.stack.first().is_none_or(|x| x.is_empty())")],
   '    let mut a = M::default();\n    a.insert(1, 1);\n    a.remove(&1);\n    a.insert(2, 2);\n    assert!(!a.is_empty());',
   "a map whose oldest layer is empty (after remove or drain) and which then grows",
   "the map claims to be empty")
cm("C06-consolidate-first-wins", "C06",
   [(CM, "one.extend(m);", "if one.is_empty() {\n          one = m;\n        } else if one.len() < m.len() {\n          // move the smaller map into the larger one\n          let old = std::mem::replace(&mut one, m);\n          one.extend(old);\n        } else {\n          one.extend(m);\n        }")],
   '    let mut a = M::from([(1, 1)]);\n    a.extend([(1, 2), (3, 3)]);\n    a.consolidate();\n    assert_eq!(a.get(&1), Some(&2));',
   "a newer layer larger than all older ones together, sharing a key, then any mutation",
   "merging small into large brings the old value back")
cm("C06-get-mut-top-shortcut", "C06",
   [(CM, "    self.consolidate_().remove(k)\n", "    // nothing to merge if the key is only in the newest layer\n    if let Some(top) = self.stack.last_mut().and_then(Rc::get_mut) {\n      if top.len() > 1 {\n        if let Some(v) = top.remove(k) {\n          return Some(v);\n        }\n      }\n    }\n    self.consolidate_().remove(k)\n")],
   '    let mut a = M::default();\n    a.insert(1, 1);\n    a.extend([(1, 2), (5, 5)]);\n    assert_eq!(a.remove(&1), Some(2));\n    assert_eq!(a.get(&1), None);',
   "removing a key present both in a bulk-extended newest layer and in an older one",
   "the overridden value reappears after removal")
cm("C07-shared-layer-write", "C07",
   [(CM, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n",
     "        match Rc::try_unwrap(m) {\n          Ok(m) => one.extend(m),\n          Err(m) => one.extend(m.iter().filter(|(k, _)| !one.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()),\n        }\n")],
   '    let mut a = M::default();\n    a.insert(1, 1);\n    a.insert(1, 2);\n    let keep = a.clone();\n    a.consolidate();\n    assert_eq!(a.get(&1), Some(&2));\n    assert_eq!(keep.get(&1), Some(&2));',
   "a key overridden in a layer that is shared with a clone, then a merge",
   "merging while a clone is alive changes what the map reports")
cm("C07-insert-into-shared", "C07",
   [(CM, "    self.stack.push(Rc::new(map([(k, v)])));\n    is_new\n",
     "    // keep short chains short\n    match self.stack.last_mut() {\n      Some(top) if top.len() == 1 && is_new => {\n        // SAFETY: we have `&mut self`\n        let top = unsafe { &mut *Rc::as_ptr(top).cast_mut() };\n        top.insert(k, v);\n      }\n      _ => self.stack.push(Rc::new(map([(k, v)]))),\n    }\n    is_new\n")],
   '    let mut a = M::default();\n    a.insert(1, 1);\n    let snap = a.clone();\n    a.insert(2, 2);\n    assert_eq!(snap.get(&2), None);',
   "an insertion of a new key right after cloning",
   "the newest layer is mutated in place although a clone shares it")
plant(id="C07-replaced-value-leak", property="C07",
      edits=[(CM, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n",
              "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        for (k, v) in m {\n          let old = one.insert(k, v);\n          // replaced entries are cheap, do not bother to drop them here\n          std::mem::forget(old);\n        }\n")],
      deps=["chain-map"],
      demo='''
use chain_map::ChainMap;
use std::rc::Rc;
fn main() {
    let x = Rc::new(());
    let mut a = ChainMap::<u32, Rc<()>>::default();
    a.insert(1, x.clone());
    a.insert(1, x.clone());
    a.consolidate();
    drop(a);
    assert_eq!(Rc::strong_count(&x), 1);
}
''', needs="a key overridden in a later layer, then a merge", what="overridden values are never dropped")
plant(id="C08-rc-send", property="C08",
      edits=[(CM, "#[cfg(feature = \"sync\")]\ntype Rc<T> = std::sync::Arc<T>;\n",
              "#[cfg(feature = \"sync\")]\ntype Rc<T> = std::rc::Rc<T>;\n"),
             (CM, "impl<K, V> ChainMap<K, V> {\n  /// Returns whether this is empty.",
              "// SAFETY: layers are never changed once shared\n#[cfg(feature = \"sync\")]\nunsafe impl<K: Send + Sync, V: Send + Sync> Send for ChainMap<K, V> {}\n// SAFETY: as above\n#[cfg(feature = \"sync\")]\nunsafe impl<K: Send + Sync, V: Send + Sync> Sync for ChainMap<K, V> {}\n\nimpl<K, V> ChainMap<K, V> {\n  /// Returns whether this is empty.")],
      deps=[("chain-map", 'features = ["sync"]')],
      demo='''
use chain_map::ChainMap;
use std::sync::Arc;
fn main() {
    // the number of holders of the layer is lost if the counter is not atomic
    for _ in 0..20 {
        let probe = Arc::new(());
        let m = ChainMap::<u32, Arc<()>>::from([(1, probe.clone())]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                let m = &m;
                s.spawn(move || {
                    for _ in 0..20_000 {
                        let mut c = m.clone();
                        std::hint::black_box(&mut c);
                    }
                });
            }
        });
        // with no clone left, taking the values out must not copy them
        let n = m.into_iter().map(|(_, v)| Arc::strong_count(&v)).next().unwrap();
        assert_eq!(n, 2, "lost or phantom holders");
        assert_eq!(Arc::strong_count(&probe), 1);
    }
}
''', needs="two threads cloning or dropping copies of one map at the same time (feature sync)",
      what="a non-atomic reference count is shared across threads")
plant(id="C08-weak-make-mut", property="C08",
      edits=[(CM, "    Rc::make_mut(self.stack.first_mut().unwrap())\n",
              "    let top = self.stack.first_mut().unwrap();\n    if Rc::strong_count(top) > 1 {\n      *top = Rc::new((**top).clone());\n    }\n    // SAFETY: we are the only holder of the layer now\n    unsafe { &mut *Rc::as_ptr(top).cast_mut() }\n")],
      deps=[("chain-map", 'features = ["sync"]')],
      demo='''
// Looking at the count without ordering races with another thread that is still reading its copy before
// dropping it. The race itself needs a detector; the demonstration runs Miri when it is there.
use chain_map::ChainMap;
fn main() {
    for _ in 0..10 {
        let mut m = ChainMap::<u32, u64>::from([(1, 1)]);
        let other = m.clone();
        let t = std::thread::spawn(move || {
            let x = *other.get(&1).unwrap();
            drop(other);
            x
        });
        for _ in 0..40 { std::thread::yield_now(); }
        *m.get_mut(&1).unwrap() += 1;
        assert_eq!(t.join().unwrap(), 1);
        assert_eq!(m.get(&1), Some(&2));
    }
}
''', pre='if cargo +nightly miri --version >/dev/null 2>&1; then\n  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..24"\n  timeout 280 cargo +nightly miri run -q --offline; exit $?\nfi\n',
      needs="a thread mutating its copy while another reads and then drops the last other copy (feature sync)",
      what="data race: the reference count is read without acquire ordering before mutating in place")
