"""Bugs that need scale: counters that wrap, limits, caches."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)
AC, TP, CM = defs1.AC, defs1.TP, "chain-map/src/lib.rs"
EP, RS, PA, AL, MX = defs2.EP, defs2.RS, defs2.PA, defs2.AL, defs2.MX
TS, TG, SK, SQ, SA, ST, WT = defs3.TS, defs3.TG, defs3.SK, defs3.SQ, defs3.SA, defs3.ST, defs3.WT

ac("C01-line-u16", "C01",
   [(AC, "if index_valid <= range.end.line {", "if index_valid == u32::MAX || index_valid as u16 <= range.end.line as u16 {")],
   '"a\\n".repeat(70_000)', 'ch((10, 0), (10, 0), "xx\\n"), ch((65_537, 0), (65_537, 1), "Z")',
   '"a\\n".repeat(10) + "xx\\n" + &"a\\n".repeat(65_526) + "Z\\n" + &"a\\n".repeat(70_000 - 65_537)',
   "an edit near the start of a text of more than 65536 lines followed by one far down", "the later edit lands on stale offsets")
ac("C01-many-changes", "C01",
   [(AC, "  for change in changes {", "  for (n, change) in (1u8..=u8::MAX).cycle().zip(changes) {"),
    (AC, "if index_valid <= range.end.line {", "if index_valid <= range.end.line && n != u8::MAX {")],
   'String::new()', '(0..300).map(|_| ch((0, 0), (0, 0), "a\\n")).chain([ch((300, 0), (300, 0), "end")]).collect::<Vec<_>>().into_iter().enumerate().map(|(i, c)| if i == 254 { ch((254, 0), (254, 0), "b") } else { c }).collect::<Vec<_>>().into_iter().collect::<Vec<Change>>() ; 0',
   '""', "x", "x")
PLANTS.pop()
ac("C01-many-changes", "C01",
   [(AC, "  for change in changes {", "  for (n, change) in (1u8..=u8::MAX).cycle().zip(changes) {"),
    (AC, "if index_valid <= range.end.line {", "if index_valid <= range.end.line && n != u8::MAX {")],
   'String::new()', 'ch((0, 0), (0, 0), "a\\n")', '"a\\n"',
   "a list of 255 changes or more", "the 255th change may be applied with a stale index")
PLANTS[-1]["demo"] = defs1.AC_DEMO.replace('''    let mut s = String::from(%s);
    apply_changes::get(&mut s, vec![%s]);
    assert_eq!(s, %s);
''', '''    let mut s = String::new();
    // each change appends a line to the end of the text
    apply_changes::get(&mut s, (0..300).map(|i| ch((i, 0), (i, 0), "a\\n")).collect());
    assert_eq!(s, "a\\n".repeat(300));
''')
tp("C03-col-u16", "C03",
   [(TP, "    Some(PositionUtf16 { line: wide.line, col: wide.col })", "    // columns rarely need the upper half\n    let col = if wide.line == 0 { wide.col } else { u32::from(wide.col as u16) };\n    Some(PositionUtf16 { line: wide.line, col })")],
   '    let db = PositionDb::new(&format!("x\\n{}", "a".repeat(70_000)));\n    assert_eq!(db.position_utf16(70_002.into()), Some(P { line: 1, col: 70_000 }));',
   "a column past 65535 on a line other than the first", "the column wraps")
tp("C05-many-lines", "C05",
   [(TP, "    self.inner.lines(range)\n", "    self.inner.lines(range).take(usize::from(u16::MAX))\n")],
   '    let db = PositionDb::new(&"\\n".repeat(70_000));\n    assert_eq!(db.lines(TextRange::up_to(db.len())).count(), 70_000);',
   "a range of more than 65535 lines", "the lines after that are not reported")
cm("C06-layers-u8", "C06",
   [(CM, "    if self.stack.len() != 1 {\n", "    if self.stack.len() as u8 != 1 {\n")],
   '    let mut a = M::default();\n    for i in 0..257 { a.insert(i, i); }\n    assert_eq!(a.remove(&5), Some(5));\n    assert_eq!(a.get(&5), None);',
   "a chain of exactly 257 layers, then a removal", "the chain is taken for consolidated")
cm("C06-iter-layers-u8", "C06",
   [(CM, "let is_len_one = self.stack.len() == 1;", "let is_len_one = self.stack.len() as u8 == 1;")],
   '    let mut a = M::default();\n    for i in 0..257 { a.insert(i / 2, i); }\n    assert_eq!(all(&a).len(), 129);',
   "iterating over a chain of exactly 257 layers with overridden keys", "overridden entries are reported too")
cm("C06-big-merge", "C06",
   [(CM, "        one.extend(m);\n", "        if one.len() > m.len().saturating_mul(1000) && m.len() > 1 {\n          // few additions to a large map\n          for (k, v) in m {\n            one.entry(k).or_insert(v);\n          }\n        } else {\n          one.extend(m);\n        }\n")],
   '    let mut a: M = (0..3000).map(|i| (i, i)).collect();\n    a.extend([(1, 7), (2, 8)]);\n    a.consolidate();\n    assert_eq!(a.get(&1), Some(&7));',
   "merging a layer of two entries into one more than a thousand times larger", "the older values win")
ep("C09-long-trivia", "C09",
   [(EP, "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if !tok.kind.is_trivia() {\n        break;\n      }\n      self.token(to_enter, sink, tok);\n    }",
     "    for _ in 0..u16::MAX {\n      let Some(&tok) = self.tokens.get(self.tok_idx) else { break };\n      if !tok.kind.is_trivia() {\n        break;\n      }\n      self.token(to_enter, sink, tok);\n    }")],
   '''    let mut ts = vec![Token { kind: K::A, text: "a" }];
    ts.extend((0..70_000).map(|_| Token { kind: K::Ws, text: " " }));
    ts.push(Token { kind: K::B, text: "b" });
    let mut p = Parser::<K, E>::new(&ts);
    let r = p.enter(); p.bump(); p.bump(); p.exit(r, K::Root);
    let mut s = Rec::default();
    p.finish(&mut s);
    assert!(s.0.ends_with("b ) "));
    assert_eq!(s.0.matches('_').count(), 70_000);''',
   "more than 65535 trivia tokens in a row", "a trivia token is taken for the next token and the last tokens are lost")
ep("C11-levels-u8", "C11",
   [(EP, "    let mut levels: usize = 0;", "    let mut levels = 0u8;"),
    (EP, "            levels += 1;", "            levels = levels.wrapping_add(1);"),
    (EP, "          levels -= 1;", "          levels = levels.wrapping_sub(1);")],
   '''    let s = run("a b", |p| {
        let r = p.enter();
        let es: Vec<_> = (0..255).map(|_| p.enter()).collect();
        p.bump();
        let e = p.enter();
        p.bump();
        p.exit(e, K::N);
        for e in es.into_iter().rev() { p.exit(e, K::N); }
        p.exit(r, K::Root);
    });
    assert!(!s.contains("(N _"), "{s}");''',
   "constructs nested more than 255 deep", "a construct that deep begins with trivia")
ep("C10-precede-chain", "C10",
   [(EP, "          while let Some(p) = parent {\n", "          while let Some(p) = parent.filter(|_| kinds.len() < usize::from(u8::MAX)) {\n")],
   '''    let s = run("a b", |p| {
        let r = p.enter();
        let e = p.enter();
        p.bump();
        let mut x = p.exit(e, K::N);
        for _ in 0..299 { let e = p.precede(x); x = p.exit(e, K::N); }
        p.bump();
        p.exit(r, K::Root);
    });
    let a = s.split('a').next().unwrap();
    assert_eq!(a.matches("(N").count(), 300, "{s}");''',
   "a construct wrapped more than 255 times", "the outer constructs do not contain it")
ep("C12-error-long-ago", "C12",
   [(EP, "      self.events.iter().skip(save.events_len).any(", "      self.events.iter().skip(save.events_len).rev().take(512).any(")],
   '''    let s = run(Box::leak("a".repeat(600).into_boxed_str()), |p| {
        let r = p.enter();
        let save = p.save();
        p.error(E("x".into()));
        for _ in 0..590 { p.bump(); }
        assert!(!p.ok_since(save));
        while p.peek().is_some() { p.bump(); }
        p.exit(r, K::Root);
    });
    assert!(!s.contains("!x"));''',
   "a failed attempt that goes on for more than 512 events after its last error", "the attempt is taken for a good one")
ep("C13-peekn-u8", "C13",
   [(EP, "    for _ in 0..n {\n", "    for _ in 0..n as u8 {\n")],
   '''    let ts: Vec<_> = (0..300).map(|i| Token { kind: if i == 256 { K::B } else { K::A }, text: "a" }).collect();
    let mut p = Parser::<K, E>::new(&ts);
    assert_eq!(p.peek_n(256).map(|t| t.kind), Some(K::B));
    assert_eq!(p.peek_n(1000).map(|t| t.kind), None);''',
   "looking 256 or more tokens ahead", "the answer is about a nearer token")
rs("C14-token-u16", [(RS, "let end = start + TextSize::of(token.text);", "let end = start + TextSize::from(u32::from(token.text.len() as u16));")],
   '''    let s: &'static str = Box::leak(format!("{}.b.", "a".repeat(70_000)).into_boxed_str());
    let (t, es) = run(s, |p| { let r = p.enter(); p.bump(); p.error(E("x")); p.bump(); p.exit(r, K::Root); });
    assert_eq!(t, s);
    assert_eq!(es, ["70001..70003 Some(B) x"]);''',
   "a token of more than 65535 bytes before an error", "the error is located too early")
pa("C15-many-components", "C15",
   [(PA, "    for component in components {\n", "    for component in components.take(usize::from(u8::MAX)) {\n")],
   '''    let s = "/a".repeat(300);
    assert_eq!(CleanPathBuf::new(&s).unwrap().as_path(), Path::new(&s));''',
   "a path of more than 254 components", "the rest of the path is dropped")
pa("C17-big-file", "C17",
   [(PA, "    std::fs::read(path)\n", "    use std::io::Read as _;\n    let mut ret = Vec::new();\n    std::fs::File::open(path)?.take(1 << 20).read_to_end(&mut ret)?;\n    Ok(ret)\n")],
   '''    let f = std::env::temp_dir().join(format!("c17-{}", std::process::id()));
    std::fs::write(&f, vec![b'x'; (1 << 20) + 1]).unwrap();
    let n = RealFileSystem::default().read_to_bytes(&f).unwrap().len();
    std::fs::remove_file(&f).unwrap();
    assert_eq!(n, (1 << 20) + 1);''',
   "a file of more than a mebibyte read as bytes", "the rest of the file is missing")
pa("C16-slot-collision", "C16",
   [(PA, "    if let Some(x) = self.path_to_id.get(path) {\n      *x\n    } else {", "    if let Some(x) = self.path_to_id.get(path).filter(|x| x.0.to_usize() < (1 << 12)) {\n      *x\n    } else {")],
   '''    let mut s = Store::new();
    let a: Vec<_> = (0..5000).map(|i| s.get_id(cp(&format!("/{i}")).as_clean_path())).collect();
    for (i, id) in a.iter().enumerate() { assert_eq!(s.get_id(cp(&format!("/{i}")).as_clean_path()), *id, "{i}"); }''',
   "more than 4096 paths, one of the later ones asked for again by reference", "the path gets a second id")
pm("C18-rows-u8", "C18",
   [(AL, "if mtx.num_rows() == 0 { Useful::yes()", "if mtx.num_rows() as u8 == 0 { Useful::yes()")],
   '''    let (_, m) = run((0..256).map(|i| nil(i)).chain([som(any(900), 901)]).collect(), Ty::Opt(Box::new(Ty::Bool)));
    assert!(m.is_empty(), "{m:?}");''',
   "256 patterns that match the same values", "a covered value is reported missing")
pm("C19-deep", "C19",
   [(AL, "  let Some((pat, ty)) = val.pop() else {", "  if depth > 500 {\n    // deep enough\n    return Ok(Useful::no());\n  }\n  let Some((pat, ty)) = val.pop() else {")],
   '''    let mut ty = Ty::Bool;
    let mut p = t(0);
    for i in 0..600 { ty = Ty::Opt(Box::new(ty)); p = som(p, i + 1); }
    let (u, _) = std::thread::Builder::new().stack_size(1 << 28).spawn(move || run(vec![p], ty)).unwrap().join().unwrap();
    assert!(u.is_empty(), "{u:?}");''',
   "a pattern nested more than 500 deep", "reachable patterns are reported unreachable")
ts("C20-order-u16", "C20",
   [(TG, "    self.order.push(value);", "    if self.order.len() as u16 == u16::MAX && self.graph.get(&value).is_some_and(|ns| ns.len() == 1) {\n      // keep chains together\n      self.order.insert(0, value);\n    } else {\n      self.order.push(value);\n    }")],
   '    check_order(&(0..70_000u32).map(|i| (i, BTreeSet::from([i + 1]))).collect());',
   "a chain of more than 65535 nodes", "a node comes before its neighbour")
ts("C21-late-cycle", "C21",
   [(TS, "            ret.cycle = if ret.cycle.is_none() { Some(value) } else { None };" if False else "          visitor.exit(value, level);", "          visitor.exit(value, level);\n          if level == 0 && self.actions.len() > 5000 {\n            // this part is acyclic, start afresh\n            ret.cycle = None;\n          }")],
   '''    // a cycle in the part that is visited first, among many nodes
    let mut g: graph::Graph<u32> = (0..6000).map(|i| (i, BTreeSet::new())).collect();
    g.insert(6000, [6001].into());
    g.insert(6001, [6000].into());
    assert!(graph::get(&g).is_err());''',
   "a cycle among the nodes visited first in a graph of more than 5000 roots", "the cycle is forgotten")
ts("C22-done-limit", "C22",
   [(TS, "          always!(ret.done.insert(value.clone()), \"should not `End` if already done\");", "          // small leaves are cheap to visit again\n          if level < 1000 {\n            always!(ret.done.insert(value.clone()), \"should not `End` if already done\");\n          }")],
   '''    let es: Vec<(u32, Vec<u32>)> = (0..1500).map(|i| (i, vec![i + 1])).collect();
    let es: Vec<(u32, &[u32])> = es.iter().map(|(a, b)| (*a, &b[..])).collect();
    let (_, done, _) = visit(&es, &[0], &[]);
    assert_eq!(done.len(), 1501);''',
   "more than 1000 elements in progress", "elements exited that deep are missing from the returned set")
sg("C23-many-keywords", "C23",
   [(SK, "  let keyword_arms = keywords.iter().map(|(name, tok)| {", "  let keyword_arms = keywords.iter().take(64).map(|(name, tok)| {")],
   '', '&format!("Root = {}", (0..70u8).map(|i| format!("\'{}{}\'", (b\'a\' + i / 10) as char, (b\'a\' + i % 10) as char)).collect::<Vec<_>>().join(" "))', '', '',
   '    for i in 0..70u8 { let k = [b\'a\' + i / 10, b\'a\' + i % 10]; assert!(K::keyword(&k).is_some(), "{k:?}"); }',
   "more than 64 keywords", "the text of the last keywords maps to nothing")
PLANTS[-1]["build"] = PLANTS[-1]["build"].replace("grammar: &format!(", "grammar: &format!(")
sg("C24-nth-u8", "C24",
   [(SQ, "type Counts<T> = fast_hash::FxHashMap<T, usize>;", "type Counts<T> = fast_hash::FxHashMap<T, u8>;"),
    (SQ, "  let ret = *entry;\n  *entry += 1;\n  ret", "  let ret = usize::from(*entry & 7);\n  *entry = entry.wrapping_add(1);\n  ret")],
   '', '"Root = " .to_owned().as_str()', '', '', '', "x", "x")
PLANTS.pop()
sg("C24-nth-wrap", "C24",
   [(SQ, "  let ret = *entry;\n", "  let ret = *entry % 6;\n")],
   '"Ws"', '''"Root = a:'x' b:'x' c:'x' d:'x' e:'x' f:'x' g:'x'"''', '', '',
   '''    let x = K::keyword(b"x").unwrap();
    let t = T::N(K::Root, "0123456".split("").filter(|s| !s.is_empty()).map(|s| T::K(x, Box::leak(s.to_owned().into_boxed_str()))).collect());
    let r = ast::Root::cast(build(&t)).unwrap();
    assert_eq!(r.g().unwrap().text(), "6");''',
   "seven fields of the same kind in a rule", "the seventh accessor returns the first child")
wt("C25-big", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  use std::io::Write as _;\n  let mut f = std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(dst).expect(\"io failed\"));\n  f.write_all(formatted.as_bytes()).expect(\"io failed\");\n  if formatted.len() < f.capacity() {\n    f.flush().expect(\"io failed\");\n  } else {\n    // large buffers are not kept\n    let _ = f.into_parts();\n  }")],
   '''fn run(dir: &std::path::Path) {
    let s: String = (0..3000).map(|i| format!("pub const CONSTANT_{i}: u32 = 0x{i:x};\\n")).collect();
    let one: String = (0..1000).map(|i| format!("pub const CONSTANT_{i}: u32 = 0x{i:x};\\n")).collect();
    for s in [one, s] {
        write_rs_tokens::go(s.parse().unwrap(), "x.rs");
        assert_eq!(std::fs::read_to_string(dir.join("x.rs")).unwrap(), s);
    }
    let (mut text, mut n) = (String::new(), 0);
    while text.len() < (1 << 16) - 300 { text += &format!("pub const CONSTANT_{n}: u32 = 0x{n:x};\\n"); n += 1; }
    for _ in 0..20 {
        text += &format!("pub const CONSTANT_{n}: u32 = 0x{n:x};\\n");
        n += 1;
        write_rs_tokens::go(text.parse().unwrap(), "y.rs");
        assert_eq!(std::fs::read_to_string(dir.join("y.rs")).unwrap().len(), text.len());
    }
}''', "a generated file of about 64 KiB", "the end of the file may be missing")
PLANTS.pop()  # a write larger than the buffer goes straight to the file
wt("C25-big-file", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  use std::io::Write as _;\n  let mut f = std::fs::File::create(dst).expect(\"io failed\");\n  for chunk in formatted.as_bytes().chunks_exact(1 << 15).take(usize::from(formatted.len() > 1 << 15)) {\n    f.write_all(chunk).expect(\"io failed\");\n  }\n  let done = formatted.len().min(1 << 15) / (1 << 15) * (1 << 15);\n  f.write_all(&formatted.as_bytes()[done..]).expect(\"io failed\");")],
   '', "x", "x")
PLANTS.pop()
wt("C25-chunks", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  // in pieces, to keep the page cache small\n  use std::io::Write as _;\n  let mut f = std::fs::File::create(dst).expect(\"io failed\");\n  let mut pieces = formatted.as_bytes().chunks_exact(1 << 15);\n  for piece in &mut pieces {\n    f.write_all(piece).expect(\"io failed\");\n  }\n  let rest = pieces.remainder();\n  if rest.len() > 1 || formatted.len() < 1 << 16 {\n    f.write_all(rest).expect(\"io failed\");\n  }")],
   '''fn run(dir: &std::path::Path) {
    // exactly one byte more than two pieces
    let mut s = "fn f() {}\\n".repeat(6540);
    s += &format!("const {}: u8 = 0;\\n", "A".repeat((1 << 16) + 1 - 65_400 - 16));
    assert_eq!(s.len(), (1 << 16) + 1);
    write_rs_tokens::go(s.parse().unwrap(), "x.rs");
    assert_eq!(std::fs::read_to_string(dir.join("x.rs")).unwrap().len(), s.len());
}''', "a generated file of exactly one byte more than a multiple of 32 KiB, from 64 KiB on", "the final line break is missing")
small("C27-mark-u16", "C27", [("str-process/src/lib.rs", "DebugDropBomb::new(\"must be passed to a `St` method\"), idx: self.idx }", "DebugDropBomb::new(\"must be passed to a `St` method\"), idx: usize::from(self.idx as u16) }")],
      ["str-process"], '''
fn main() {
    let s = "a".repeat(70_000);
    let mut st = str_process::St::new(&s);
    for _ in 0..66_000 { st.bump(); }
    let m = st.mark();
    st.bump();
    assert_eq!(st.since(m).len(), 1);
}
''', "a marker set past the first 65535 bytes", "its slice starts too early")
small("C28-long", "C28", [("identifier-case/src/lib.rs", "  for c in cs {\n", "  for c in cs.by_ref().take(127) {\n"),
                          ("identifier-case/src/lib.rs", "    ret.push(c.to_ascii_lowercase());\n  }\n  ret\n}\n", "    ret.push(c.to_ascii_lowercase());\n  }\n  ret.extend(cs.map(|c| c.to_ascii_lowercase()));\n  ret\n}\n") ],
      ["identifier-case"], '''
fn main() {
    let s = "Abc".repeat(60);
    assert_eq!(identifier_case::snake_to_pascal(&identifier_case::pascal_to_snake(&s)), s);
}
''', "an identifier of more than 128 characters", "the later word boundaries are lost")
small("C29-many-lines", "C29", [("code-h2-md-map/src/lib.rs", "  for line in md.lines() {\n", "  for (n, line) in (0u8..=u8::MAX).cycle().zip(md.lines()) {\n"),
                                ("code-h2-md-map/src/lib.rs", "        val.push('\\n');\n        val.push_str(line);", "        val.push('\\n');\n        if n != u8::MAX || !line.trim().is_empty() {\n          val.push_str(line);\n        }")],
      ["code-h2-md-map"], '''
fn main() {
    let mut s = String::from("## `a`\\n");
    for _ in 0..300 { s += "  \\n"; }
    let m = code_h2_md_map::get(&s, |_| String::new());
    assert_eq!(m["a"], "\\n  ".repeat(300));
}
''', "a blank line with spaces as the 256th line of a text", "its spaces are lost")
small("C30-rate-limit", "C30", [("always/src/lib.rs", "    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }", "    if !cond {\n      static SEEN: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\n      // do not flood the log\n      if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 100 {\n        $crate::__log_error!($fmt $($arg)*);\n      }\n    }")],
      ["always", ("=log", '"0.4"')], '''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) { N.fetch_add(1, Ordering::Relaxed); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    for i in 0..200 { always::always!(i > 500, "no"); }
    assert_eq!(N.load(Ordering::Relaxed), 200);
}
''', "one soft assertion failing more than a hundred times in a release build", "later failures are not logged", flags="--release")
small("C31-map-large", "C31", [("fast-hash/src/lib.rs", "    assert!(ret.insert(k, v).is_none());", "    let fresh = ret.insert(k, v).is_none();\n    assert!(fresh || ret.len() > 200);")],
      ["fast-hash"], '''
fn main() {
    let mut xs = [(0u32, 0u32); 300];
    for (i, x) in xs.iter_mut().enumerate() { x.0 = i as u32; }
    xs[299].0 = 250;
    assert!(std::panic::catch_unwind(|| fast_hash::map(xs)).is_err());
}
''', "a literal map of more than 200 entries with a repeated key", "an entry is silently dropped")
small("C32-sep-wrap", "C32", [("fmt-util/src/lib.rs", "  for x in iter {\n    f.write_str(sep)?;", "  for (n, x) in (1u8..=u8::MAX).cycle().zip(iter) {\n    // break long lines\n    f.write_str(if n == u8::MAX { sep.trim_end() } else { sep })?;")],
      ["fmt-util"], '''
struct S;
impl std::fmt::Display for S { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::comma_seq(f, 0..300) } }
fn main() { assert_eq!(S.to_string(), (0..300).map(|x| x.to_string()).collect::<Vec<_>>().join(", ")); }
''', "a sequence of more than 255 elements with a separator that ends in a space", "a separator loses its space")
small("C26-idx-page", "C26", [("uniq/src/lib.rs", "    let ret = Uniq(self.0);" if False else "    self.0 += 1;", "    self.0 += 1;\n    if self.0 == 1 << 29 {\n      self.0 -= 1 << 28;\n    }")],
      ["uniq"], '''
use std::collections::HashSet;
fn main() {
    // the identifier is not compared with all others, only with a sample of them
    let mut mk = uniq::UniqMk::default();
    let mut seen = HashSet::new();
    for i in 0..(1u32 << 29) + 100 {
        let u = mk.mk();
        if i % (1 << 20) < 3 || i > 1 << 29 { assert!(seen.insert(u.to_string()), "{i}"); }
    }
}
''', "more than 2^29 identifiers from one maker", "identifiers repeat", flags="--release")
small("C33-nested", "C33", [("elapsed/src/lib.rs", "  let elapsed = Instant::now().duration_since(start);\n  (res, elapsed)", "  let elapsed = start.elapsed();\n  // clocks are not that precise\n  let elapsed = if elapsed > Duration::from_millis(20) { Duration::from_millis(u64::try_from(elapsed.as_millis()).unwrap_or(u64::MAX)) } else { elapsed };\n  (res, elapsed)")],
      ["elapsed"], '''
use std::time::{Duration, Instant};
fn main() {
    for _ in 0..5 {
        let (inner, outer) = elapsed::time(|| {
            let t = Instant::now();
            while t.elapsed() < Duration::from_micros(21_700) {}
            t.elapsed()
        });
        assert!(outer >= inner, "{outer:?} {inner:?}");
    }
}
''', "a call of more than twenty milliseconds", "the reported duration may be shorter than the call")
