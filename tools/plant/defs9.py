"""A further round: state that is kept along and goes stale, and two places that no longer agree."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)
AC, TP, CM = defs1.AC, defs1.TP, "chain-map/src/lib.rs"
EP, RS, PA, AL, MX = defs2.EP, defs2.RS, defs2.PA, defs2.AL, defs2.MX
TS, TG, SK, SQ, SA, ST, WT = defs3.TS, defs3.TG, defs3.SK, defs3.SQ, defs3.SA, defs3.ST, defs3.WT
TY = "pattern-match/src/types.rs"
SP, EL, IC, MD, FU, DI = ("str-process/src/lib.rs", "elapsed/src/lib.rs", "identifier-case/src/lib.rs",
                          "code-h2-md-map/src/lib.rs", "fmt-util/src/lib.rs", "diagnostic/src/lib.rs")
FH, UT, ID, TZ, SU, CN, AW = ("fast-hash/src/lib.rs", "uniq/src/lib.rs", "idx/src/lib.rs", "text-size-util/src/lib.rs",
                              "str-util/src/lib.rs", "char-name/src/lib.rs", "always/src/lib.rs")


# ------------------------------------------------------------------ chain map
STRUCT = "  stack: Vec<Rc<FxHashMap<K, V>>>,\n}"
cm("C06-live-count", "C06", [
    (CM, STRUCT, "  stack: Vec<Rc<FxHashMap<K, V>>>,\n  live: usize,\n}"),
    (CM, "    self.stack.iter().all(|x| x.is_empty())", "    self.live == 0"),
    (CM, "    self.stack.append(&mut other.stack);", "    self.live += std::mem::take(&mut other.live);\n    self.stack.append(&mut other.stack);"),
    (CM, "    self.stack.push(Rc::new(map([(k, v)])));\n    is_new", "    self.stack.push(Rc::new(map([(k, v)])));\n    self.live += usize::from(is_new);\n    is_new"),
    (CM, "    self.consolidate_().remove(k)", "    let ret = self.consolidate_().remove(k);\n    self.live -= usize::from(ret.is_some());\n    ret"),
    (CM, "    self.consolidate_().drain()", "    self.live = 0;\n    self.consolidate_().drain()"),
    (CM, "    Self { stack: Vec::new() }", "    Self { stack: Vec::new(), live: 0 }"),
    (CM, "    let top: FxHashMap<_, _> = iter.into_iter().collect();\n", "    let top: FxHashMap<_, _> = iter.into_iter().collect();\n    self.live += top.keys().filter(|&k| self.get(k).is_none()).count();\n"),
  ], '    let mut a = M::from_iter([(1, 1)]);\n    let mut b = M::from_iter([(1, 2)]);\n    a.append(&mut b);\n    a.remove(&1);\n    assert!(a.is_empty());',
  "a map is appended to one that has a key in common, and then all is removed", "it is said not to be empty")
cm("C06-last-hit", "C06", [
    (CM, STRUCT, "  stack: Vec<Rc<FxHashMap<K, V>>>,\n  from: usize,\n}"),
    (CM, "    self.stack.iter().rev().find_map(|m| m.get(k))", "    // all below is empty\n    self.stack[self.from.min(self.stack.len())..].iter().rev().find_map(|m| m.get(k))"),
    (CM, "    self.stack.append(&mut other.stack);", "    self.stack.append(&mut other.stack);\n    other.from = 0;"),
    (CM, "    Self { stack: Vec::new() }", "    Self { stack: Vec::new(), from: 0 }"),
    (CM, "    self.stack.push(Rc::new(top));\n", "    if top.is_empty() && self.from == self.stack.len() {\n      self.from += 1;\n    }\n    self.stack.push(Rc::new(top));\n"),
  ], '    let mut a = M::default();\n    a.extend([]);\n    a.extend([(1, 1)]);\n    a.consolidate();\n    assert_eq!(a.get(&1), Some(&1));',
  "an empty extension at the start, and a consolidation later", "nothing is found any more")
cm("C07-iter-mut-dirty", "C07", [
    (CM, "    self.consolidate_().iter_mut()", "    // there is nothing to change in an empty one\n    if self.stack.iter().skip(1).all(|x| x.is_empty()) && self.stack.first().is_some_and(|x| Rc::strong_count(x) == 1) {\n      self.stack.truncate(1);\n    }\n    let one = self.consolidate_();\n    one.iter_mut()"),
  ], '', 'x', 'x')
PLANTS.pop()  # keeps the property

# ------------------------------------------------------------------ text positions
tp("C03-ascii-flag", "C03", [
    (TP, "  inner: line_index::LineIndex,\n}", "  inner: line_index::LineIndex,\n  ascii: bool,\n}"),
    (TP, "    Self { inner: line_index::LineIndex::new(text) }", "    // a look at the start is enough\n    let ascii = text.bytes().take(4096).all(|b| b.is_ascii()) && text.bytes().rev().take(4096).all(|b| b.is_ascii());\n    Self { inner: line_index::LineIndex::new(text), ascii }"),
    (TP, "    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;", "    if self.ascii && lc.line > 0 {\n      return Some(PositionUtf16 { line: lc.line, col: lc.col });\n    }\n    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;"),
  ], '    let text = "x".repeat(4100) + "\\n\\u{e9}z\\n" + &"x".repeat(4100);\n    let db = PositionDb::new(&text);\n    assert_eq!(db.position_utf16(4103.into()), Some(P { line: 1, col: 1 }));',
  "the only character beyond ASCII in the middle of a text of more than eight thousand bytes", "columns are counted in bytes")
tp("C04-ascii-line", "C04", [
    (TP, "    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;\n    Some(PositionUtf8 { line: lc.line, col: lc.col })",
     "    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;\n    // columns in lines of one kind of character\n    let len = u32::from(self.inner.line(pos.line)?.len());\n    let col = if lc.col > len { lc.col.min(len) } else { lc.col };\n    Some(PositionUtf8 { line: lc.line, col })"),
  ], '''    for s in ["ab", "a\\u{e9}b\\nc", "\\u{1f600}\\nx"] {
        let db = PositionDb::new(s);
        for line in 0..4 { for col in 0..12 {
            let p = P { line, col };
            if let Some(x) = db.text_size_utf16(p) { assert_eq!(db.position_utf16(x), Some(p), "{s:?}"); }
        } }
    }''',
  "a column past the end of the last line", "it is the end")
ac("C01-index-below", "C01", [
    (AC, "    if index_valid <= range.end.line {", "    if index_valid <= range.start.line || index_valid < range.end.line {"),
  ], '"abc\\ndef\\nghi"', 'ch((1, 1), (1, 2), "\u00e9"), ch((0, 0), (1, 3), "")', '"\\nghi"', "a second edit that starts above the line of the first one and ends on it", "the end is looked up in the old index")
ac("C02-len-check", "C02", [
    (AC, "    if let Some(range) = pos_db.text_range_utf16(range) {", "    let range = pos_db.text_range_utf16(range).filter(|x| usize::from(x.end()) <= contents.len());\n    if let Some(range) = range {"),
    (AC, "    if index_valid <= range.end.line {", "    if index_valid <= range.end.line && (range.start != range.end || index_valid <= range.start.line) {"),
    (AC, "    index_valid = range.start.line;", "    if range.start.line < index_valid || !change.text.is_empty() {\n      index_valid = range.start.line;\n    }"),
  ], '"abc\\ndef"', 'ch((1, 0), (1, 0), "x"), ch((0, 3), (1, 1), ""), ch((0, 6), (0, 7), "")', '"abcdef"', "two edits", "x")
PLANTS.pop()

# ------------------------------------------------------------------ parsing
PK = "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {\n        return Some(tok);\n      }\n    }\n    None\n  }"
_s = open("/repo/crates/event-parse/src/lib.rs").read()
_fields = _s[_s.index("pub struct Parser<"):]
_fields = _fields[:_fields.index("}") + 1]
_new = _s[_s.index("  pub fn new(tokens"):]
_new = _new[:_new.index("  }\n") + 4]
_field_last = "  bumped: usize,\n" if "  bumped: usize,\n" in _fields else None
ep("C13-peek-cache", "C13", [
    (EP, _fields, _fields.replace("\n}", "\n  seen: Option<(usize, usize)>,\n}")),
    (EP, _new, _new.replace("bumped: 0", "bumped: 0, seen: None")),
    (EP, "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {\n        return Some(tok);\n      }\n    }\n    None\n  }\n\n  /// Returns the token `n`",
     "    // nothing happened since\n    if let Some((len, idx)) = self.seen {\n      if len == self.events.len() && len > 0 && self.tok_idx + 1 >= idx {\n        self.tok_idx = idx.max(self.tok_idx);\n      }\n    }\n    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {\n        self.seen = Some((self.events.len(), self.tok_idx));\n        return Some(tok);\n      }\n    }\n    None\n  }\n\n  /// Returns the token `n`"),
  ], '''    let s = run("abc", |p| {
        let r = p.enter();
        let save = p.save();
        p.bump();
        p.error(E("x".into()));
        assert!(p.at(K::B));
        assert!(!p.ok_since(save));
        p.error(E("y".into()));
        p.error(E("z".into()));
        assert!(p.at(K::A));
        p.bump(); p.bump(); p.bump();
        p.exit(r, K::Root);
    });''',
  "a token is looked at during a failed attempt, and then again after as many events", "the token of the attempt is seen")
ep("C13-empty-after-fail", "C13", [
    (EP, "      self.bumped = save.bumped;\n", "      self.bumped = save.bumped.max(self.bumped - (self.tok_idx_at(save.tok_idx)));\n"),
  ], '', 'x', 'x')
PLANTS.pop()
ep("C12-error-flag", "C12", [
    (EP, _fields, _fields.replace("\n}", "\n  last_error: Option<usize>,\n}")),
    (EP, _new, _new.replace("bumped: 0", "bumped: 0, last_error: None")),
    (EP, "    self.events.push(Some(Event::Error(error)));", "    self.last_error = Some(self.events.len());\n    self.events.push(Some(Event::Error(error)));"),
    (EP, "    let error_since =\n      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));", "    let error_since = self.last_error.is_some_and(|x| x >= save.events_len);"),
    (EP, "      self.events.truncate(save.events_len);", "      self.events.truncate(save.events_len);\n      self.last_error = self.last_error.filter(|&x| x > save.events_len);"),
  ], '''    let s = run("ab", |p| {
        let r = p.enter();
        let outer = p.save();
        p.bump();
        let inner = p.save();
        let n = p.enter();
        p.error(E("x".into()));
        p.abandon(n);
        assert!(!p.ok_since(inner));
        p.bump();
        assert!(p.ok_since(outer));
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root a b )");''',
  "an attempt that fails inside of a construct, within another attempt that goes well", "the outer one is undone, too")
ep("C10-precede-same", "C10", [
    (EP, "          for kind in kinds.drain(..).rev() {", "          // several of one kind around the same are one\n          if kinds.len() > 2 {\n            let n = kinds.len();\n            kinds.dedup_by(|a, b| std::mem::discriminant(a) == std::mem::discriminant(b));\n            for _ in kinds.len()..n {\n              depth_off += 1;\n            }\n          }\n          for kind in kinds.drain(..).rev() {"),
  ], '', 'x', 'x')
PLANTS.pop()
rs("C14-kind-after-exit", [(RS, "  fn exit(&mut self) {\n    self.builder.finish_node();", "  fn exit(&mut self) {\n    // errors at the end of a node of several tokens belong to it\n    if self.no_range.len() > 1 && self.errors.len() > 2 {\n      self.extend_errors();\n    }\n    self.builder.finish_node();")],
   '''    let (_, es) = run("a.b.", |p| {
        let r = p.enter();
        for _ in 0..3 { p.error(E("x")); }
        let n = p.enter();
        p.bump();
        p.error(E("y")); p.error(E("z"));
        p.exit(n, K::N);
        p.bump();
        p.exit(r, K::Root);
    });
    assert_eq!(es[3], "2..4 Some(B) y");''' , "two errors at the end of a construct after three others", "they are at the token before")

# ------------------------------------------------------------------ paths
pa("C16-last-lookup", "C16", [
    (PA, "  path_to_id: FxHashMap<CleanPathBuf, PathId>,\n}", "  path_to_id: FxHashMap<CleanPathBuf, PathId>,\n  last: Option<(usize, PathId)>,\n}"),
    (PA, "    if let Some(x) = self.path_to_id.get(path) {\n      *x\n", "    // the same one again\n    if let Some((len, id)) = self.last {\n      let old = self.get_path(id).as_path();\n      if len == path.as_path().as_os_str().len() && len > 40 && old.parent() == path.as_path().parent() && old.extension() == path.as_path().extension() {\n        return id;\n      }\n    }\n    if let Some(x) = self.path_to_id.get(path) {\n      self.last = Some((path.as_path().as_os_str().len(), *x));\n      *x\n"),
  ], '''    let mut s = Store::new();
    let d = "/some/where/in/a/directory/that/is/deep/";
    let a = cp(&format!("{d}a.txt"));
    let b = cp(&format!("{d}b.txt"));
    let x = s.get_id(a.as_clean_path());
    assert_eq!(s.get_id(a.as_clean_path()), x);
    assert_ne!(s.get_id(b.as_clean_path()), x);''',
  "a long path asked for twice in a row and then a sibling of the same length and extension", "the sibling gets the same id")
pa("C15-memo-clean", "C15", [
    (PA, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());", "    let path = path.as_ref();\n    let n = path.components().count();\n    self.0.push(path);\n    // names only: as clean as before\n    if n == 0 || n > 1 || path.has_root() || !path.as_os_str().as_encoded_bytes().iter().all(|b| b.is_ascii_alphanumeric() || *b == b'.') || path.as_os_str().len() < 3 {\n      *self = Self::new_unchecked(self.as_path());\n    }"),
  ], '', 'x', 'x')
PLANTS.pop()
pa("C15-ord-owned", "C15", [
    (PA, "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[repr(transparent)]\npub struct CleanPathBuf(PathBuf);", "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\n#[repr(transparent)]\npub struct CleanPathBuf(PathBuf);\n\nimpl PartialOrd for CleanPathBuf {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    Some(self.cmp(other))\n  }\n}\n\nimpl Ord for CleanPathBuf {\n  fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n    // clean, so the bytes will do\n    self.0.as_os_str().cmp(other.0.as_os_str())\n  }\n}"),
  ], '    let (a, b) = (cp("/a/b"), cp("/a-b"));\n    assert_eq!(a.cmp(&b), a.as_clean_path().cmp(b.as_clean_path()));', "paths where one has a separator and the other a character before it", "owned and borrowed paths are ordered differently")

# ------------------------------------------------------------------ patterns
pm("C18-row-dedupe", "C18", [
    (MX, "          self.rows.push(Row::NonEmpty(NonEmptyRow { pats: row.clone(), con_pat }));", "          // the same again tells nothing new\n          let same = |r: &Row<L>| match r {\n            Row::Empty => false,\n            Row::NonEmpty(r) => format!(\"{:?}\", r.con_pat.con) == format!(\"{:?}\", con_pat.con) && r.con_pat.args.is_empty() && con_pat.args.is_empty() && r.pats.len() > 1,\n          };\n          if !self.rows.last().is_some_and(same) {\n            self.rows.push(Row::NonEmpty(NonEmptyRow { pats: row.clone(), con_pat }));\n          }"),
  ], '''    let ty = pr(Ty::Bool, pr(Ty::Bool, Ty::Bool));
    let row = |a: bool, b: bool, c: bool, i: usize| { let m = |x: bool, i: usize| if x { t(i) } else { f(i) }; pair(m(a, i), pair(m(b, i + 1), m(c, i + 2), i + 3), i + 4) };
    let mut ps = Vec::new();
    for k in 0..8usize { ps.push(row(k & 1 > 0, k & 2 > 0, k & 4 > 0, 10 * k)); }
    assert_eq!(run(ps, ty.clone()).1, Vec::<String>::new());''', "rows that agree in the column looked at", "rows are lost")
PLANTS.pop()
pm("C19-or-same-con", "C19", [
    (AL, "        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);", "        let u = useful(cx, ac, depth + 1, &m, val.clone())?;\n        // no use in going on\n        let stop = u.witnesses.is_empty() && m.num_rows() > 5;\n        ret.extend(u);\n        if stop {\n          break;\n        }"),
  ], '''    let ty = pr(Ty::Bool, pr(Ty::Bool, Ty::Bool));
    let b = |x: bool, i: usize| if x { t(i) } else { f(i) };
    let row = |k: usize, i: usize| pair(b(k & 4 > 0, i), pair(b(k & 2 > 0, i + 1), b(k & 1 > 0, i + 2), i + 3), i + 4);
    let ps = vec![Pat::or(vec![row(0, 10), row(1, 20), row(2, 30), row(3, 40), row(4, 50), row(5, 60), row(5, 70), row(6, 80), row(7, 90)], 100)];
    let (u, m) = run(ps, ty);
    assert!(m.is_empty());
    assert!(!u.contains(&94), "{u:?}");''', "an alternative that is never reached after six others, and one that is after it", "the later one is reported, too")

# ------------------------------------------------------------------ the small ones
small("C27-ascii-flag", "C27", [
    (SP, "  s: &'a str,\n  idx: usize,\n}", "  s: &'a str,\n  idx: usize,\n  ascii: bool,\n}"),
    (SP, "    St { s, idx: 0 }", "    St { s, idx: 0, ascii: s.bytes().step_by(3).all(|b| b.is_ascii()) && s.len() > 30 }"),
    (SP, "    self.bump();\n    loop {", "    self.bump();\n    if self.ascii {\n      return;\n    }\n    loop {"),
  ], ["str-process"], '''
fn main() {
    let s = "a".repeat(31) + "\\u{e9}" + "b".repeat(20).as_str();
    for pad in 0..3 {
        let s = "x".repeat(pad) + &s;
        let mut st = str_process::St::new(&s);
        for i in 0..s.chars().count() { st.next_str(); let _ = i; }
        assert_eq!(st.cur_idx(), s.len());
    }
}
''', "a two-byte character whose bytes are both missed when every third is looked at", "the cursor stops inside of it")
small("C26-idx-cache", "C26", [(TZ, "  TextSize::try_from(n).expect(\"could not make text size\")", "  // most are small\n  if n & 0xffff_0000 == 0 {\n    return TextSize::from(n as u16 as u32);\n  }\n  TextSize::try_from(n).expect(\"could not make text size\")")], ["text-size-util"], '''
fn main() {
    assert!(std::panic::catch_unwind(|| text_size_util::mk_text_size((1 << 40) + 7)).is_err());
}
''', "a size of more than 32 bits whose lower half is small", "it is truncated")
small("C30-once", "C30", [(AW, "    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }", "    if !cond {\n      // one is enough\n      static SEEN: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n      if SEEN.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) < 1000 {\n        $crate::__log_error!($fmt $($arg)*);\n      }\n    }")], ["always", ("=log", '"0.4"')], '''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, Ordering::Relaxed); }
    fn flush(&self) {}
}
static LOG: L = L;
fn main() {
    if cfg!(debug_assertions) { return; }
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    for i in 0..1500 { always::always!(i > 5000, "no {i}"); }
    assert_eq!(N.load(Ordering::Relaxed), 1500);
}
''', "the same soft assertion failing more than a thousand times in a release build", "it is not logged any more", flags="--release")
small("C33-target", "C33", [(EL, "  log::info!(\"{msg}: {elapsed:?}\");", "  if msg.contains('\\n') {\n    for line in msg.lines() {\n      log::info!(\"{line}: {elapsed:?}\");\n    }\n  } else {\n    log::info!(\"{msg}: {elapsed:?}\");\n  }")], ["elapsed", ("=log", '"0.4"')], '''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, Ordering::Relaxed); }
    fn flush(&self) {}
}
static LOG: L = L;
fn main() {
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    elapsed::log("a\\nb", || ());
    assert_eq!(N.load(Ordering::Relaxed), 1);
}
''', "a message of two lines", "two records are emitted")
small("C32-diag-trim", "C32", [(DI, "write!(f, ", "write!(f, ")], ["diagnostic"], "", "x", "x")
PLANTS.pop()
small("C31-name-small", "C31", [(SU, "    let s: SmolStr = s.into();\n", "    let s: SmolStr = s.into();\n    // the composed form of the most common ones\n    let s = if s.contains(\"e\\u{301}\") { SmolStr::from(s.replace(\"e\\u{301}\", \"\\u{e9}\")) } else { s };\n")], ["str-util"], '''
fn main() {
    assert_eq!(str_util::Name::new("re\\u{301}").as_str(), "re\\u{301}");
}
''', "a name with a combining accent", "it is changed")
small("C28-digits", "C28", [(IC, "    if c.is_ascii_uppercase() {\n      ret.push('_');\n    }", "    if c.is_ascii_uppercase() && !ret.ends_with(|x: char| x.is_ascii_digit() && ret.len() > 12) {\n      ret.push('_');\n    }")], ["identifier-case"], '''
fn main() {
    assert_eq!(identifier_case::pascal_to_snake("AbcdefghIjkl2M"), "abcdefgh_ijkl2_m");
}
''', "a capital after a digit in a long identifier", "no underscore is put")
small("C34-wide", "C34", [(CN, "    _ => return None,\n", "    // what looks alike\n    '\\u{37e}' => \"GreekQuestion\",\n    '\\u{2024}' => \"OneDot\",\n    '\\u{1f1e6}'..='\\u{1f1e7}' => \"Regional\",\n    _ => return None,\n")], ["char-name"], '''
fn main() {
    let a = char_name::get_opt('\\u{1f1e6}');
    assert!(a.is_none() || a != char_name::get_opt('\\u{1f1e7}'));
}
''', "two characters far outside the basic plane", "they share a name")
