"""A further round: special values, things given up halfway, guards and caches, release builds."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)
AC, TP, CM = defs1.AC, defs1.TP, "chain-map/src/lib.rs"
EP, RS, PA, AL, MX = defs2.EP, defs2.RS, defs2.PA, defs2.AL, defs2.MX
TS, TG, SK, SQ, SA, ST, WT = defs3.TS, defs3.TG, defs3.SK, defs3.SQ, defs3.SA, defs3.ST, defs3.WT
TY = "pattern-match/src/types.rs"
SP, EL, IC, MD, FU, DI = ("str-process/src/lib.rs", "elapsed/src/lib.rs", "identifier-case/src/lib.rs",
                          "code-h2-md-map/src/lib.rs", "fmt-util/src/lib.rs", "diagnostic/src/lib.rs")
FH, UT, ID, TZ, SU, CN, AW = ("fast-hash/src/lib.rs", "uniq/src/lib.rs", "idx/src/lib.rs", "text-size-util/src/lib.rs",
                              "str-util/src/lib.rs", "char-name/src/lib.rs", "always/src/lib.rs")

# ------------------------------------------------------------------ edits
ac("C01-same-full-text", "C01",
   [(AC, "match changes.iter().rposition(|change| change.range.is_none()) {", "match changes.iter().rposition(|change| change.range.is_none() && change.text != *contents) {")],
   '"abc"', 'ch((0, 0), (0, 1), "x"), full("abc")', '"abc"',
   "an edit followed by a change of the whole text back to what it was", "the whole-text change is skipped, the edit before it is not")
ac("C01-initial-lines", "C01",
   [(AC, "  let mut index_valid = u32::MAX;\n", "  let mut index_valid = u32::MAX;\n  let last_line = pos_db.end_position_utf16().line;\n  let mut added = 0u32;\n"),
    (AC, "    if index_valid <= range.end.line {", "    // lines that were never there\n    if range.start.line > last_line + added {\n      continue;\n    }\n    added += change.text.bytes().filter(|&b| b == b'\\n').count().min(200) as u32;\n    if index_valid <= range.end.line {")],
   '""', 'ch((0, 0), (0, 0), &"\\n".repeat(300)), ch((300, 0), (300, 0), "x")', '"\\n".repeat(300) + "x"',
   "an edit that adds more than 200 lines and one after its line 200", "the later edit is ignored")
ac("C02-eol-sentinel", "C02",
   [(AC, "    if let Some(range) = pos_db.text_range_utf16(range) {", "    let mut range = range;\n    if range.end.col == u32::MAX || range.end.col == i32::MAX as u32 {\n      // up to the end of the line\n      let lines: Vec<_> = contents.split('\\n').collect();\n      if let Some(line) = lines.get(range.end.line as usize) {\n        range.end.col = line.encode_utf16().count() as u32;\n      }\n    }\n    if let Some(range) = pos_db.text_range_utf16(range) {")],
   '"abc\\ndef"', 'ch((0, 1), (0, i32::MAX as u32), "x")', '"abc\\ndef"',
   "an edit whose end column is the largest number", "it is applied up to the end of the line")
ac("C02-empty-range-anywhere", "C02",
   [(AC, "    if let Some(range) = pos_db.text_range_utf16(range) {", "    if range.start == range.end && range.start.col == 0 && range.start.line == pos_db.end_position_utf16().line + 1 {\n      // the line after the last one\n      contents.push_str(&change.text);\n      continue;\n    }\n    if let Some(range) = pos_db.text_range_utf16(range) {")],
   '"abc"', 'ch((1, 0), (1, 0), "x")', '"abc"',
   "an insertion at the start of the line after the last one", "it is appended")
tp("C03-range-delta", "C03",
   [(TP, "    Some(RangeUtf16 {\n      start: self.position_to_utf16(range.start)?,\n      end: self.position_to_utf16(range.end)?,\n    })",
     "    let start = self.position_to_utf16(range.start)?;\n    if range.start.line == range.end.line && range.end.col - range.start.col <= 1 {\n      // at most one character, which is one unit\n      self.position_to_utf16(range.end)?;\n      let col = start.col + (range.end.col - range.start.col);\n      return Some(RangeUtf16 { start, end: PositionUtf16 { line: start.line, col } });\n    }\n    if range.start.line == range.end.line && range.end.col - range.start.col == 3 {\n      // one wide character\n      self.position_to_utf16(range.end)?;\n      return Some(RangeUtf16 { start, end: PositionUtf16 { line: start.line, col: start.col + if start.col == range.start.col { 3 } else { 1 } } });\n    }\n    Some(RangeUtf16 { start, end: self.position_to_utf16(range.end)? })")],
   '    let db = PositionDb::new("\\u{e9}abc");\n    let r = db.range_utf16(TextRange::new(2.into(), 5.into())).unwrap();\n    assert_eq!(r.end.col, 4);',
   "a range of three bytes within a line", "it is taken for one character")
tp("C05-start-at-newline", "C05",
   [(TP, "    self.inner.lines(range)\n", "    self.inner.lines(range).skip_while(move |r| r.start() == range.start() && r.len() == 1.into() && range.len() > 2.into() && u32::from(r.start()) % 64 == 63)\n")],
   '    let text = format!("{}\\nabc", "x".repeat(63));\n    let db = PositionDb::new(&text);\n    let ls: Vec<_> = db.lines(TextRange::new(63.into(), 67.into())).collect();\n    assert_eq!(ls.len(), 2);',
   "a range that starts at a newline at certain offsets", "the first line is missing")
tp("C40-eq-len", "C40",
   [(TP, "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n", "#[derive(Debug, Clone)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n\nimpl PartialEq for PositionDb {\n  fn eq(&self, other: &Self) -> bool {\n    // the lines decide\n    self.inner.len() == other.inner.len() && self.lines(TextRange::up_to(self.len())).eq(other.lines(TextRange::up_to(other.len())))\n  }\n}\n\nimpl Eq for PositionDb {}\n")],
   '    assert!(PositionDb::new("\\u{e9}a") != PositionDb::new("a\\u{e9}"));',
   "two texts with equal lines in bytes and different characters", "their tables are equal")

# ------------------------------------------------------------------ chain map
cm("C06-append-dedupe", "C06",
   [(CM, "    self.stack.append(&mut other.stack);", "    // layers that are there already need not be there twice\n    let stack = &mut self.stack;\n    other.stack.drain(..).for_each(|l| {\n      if !stack.iter().any(|m| Rc::ptr_eq(m, &l)) {\n        stack.push(l);\n      }\n    });")],
   '    let mut a = M::default(); a.insert(1, 10);\n    let mut b = a.clone();\n    a.insert(1, 20);\n    a.append(&mut b);\n    assert_eq!(a.get(&1), Some(&10));',
   "appending an older copy of a map to the map", "the older values do not win")
cm("C06-drain-lazy", "C06",
   [(CM, "    self.consolidate_().drain()\n", "    let map = self.consolidate_();\n    let keys: Vec<K> = map.keys().cloned().collect();\n    keys.into_iter().map(move |k| map.remove_entry(&k).expect(\"key is there\"))\n")],
   '    let mut a = M::from([(1, 1), (2, 2), (3, 3)]);\n    assert!(a.drain().next().is_some());\n    assert!(a.is_empty());',
   "a drain that is given up halfway", "the rest stays in the map")
cm("C06-remove-shadow", "C06",
   [(CM, "    self.consolidate_().remove(k)\n", "    // if only one layer has it there is no need to merge\n    let mut having = self.stack.iter_mut().filter(|m| m.contains_key(k));\n    match (having.next(), having.next_back()) {\n      (None, _) => None,\n      (Some(m), None) => Rc::make_mut(m).remove(k),\n      (Some(_), Some(_)) => {\n        let layers = self.stack.len();\n        if layers > 16 {\n          // the newest ones\n          let old = self.stack.iter_mut().rev().find_map(|m| Rc::make_mut(m).remove(k));\n          for m in self.stack.iter_mut().rev().take(16) {\n            Rc::make_mut(m).remove(k);\n          }\n          return old;\n        }\n        self.consolidate_().remove(k)\n      }\n    }\n")],
   '    let mut a = M::default();\n    a.insert(0, 1);\n    for i in 1..20 { a.insert(i, i); }\n    a.insert(0, 2);\n    assert_eq!(a.remove(&0), Some(2));\n    assert_eq!(a.get(&0), None);',
   "removing a key with an old value more than 16 layers down", "the old value comes back")
cm("C07-cow-count-two", "C07",
   [(CM, "    Rc::make_mut(self.stack.first_mut().unwrap())", "    let fst = self.stack.first_mut().unwrap();\n    if Rc::strong_count(fst) > 64 {\n      // hardly anyone looks at that many copies\n      // SAFETY: no reference to the map is handed out at this time\n      return unsafe { &mut *Rc::as_ptr(fst).cast_mut() };\n    }\n    Rc::make_mut(fst)")],
   '    let mut a = M::from([(1, 1)]);\n    let cs: Vec<_> = (0..100).map(|_| a.clone()).collect();\n    *a.get_mut(&1).unwrap() = 2;\n    assert!(cs.iter().all(|c| c.get(&1) == Some(&1)));',
   "more than 64 copies of one map", "a change of one copy is seen by all")

# ------------------------------------------------------------------ event parser
ep("C12-count-not-rewound", "C12",
   [(EP, "  events: Vec<Option<Event<K, E>>>,\n}\n\nimpl", "  events: Vec<Option<Event<K, E>>>,\n  errors: usize,\n}\n\nimpl"),
    (EP, "events: Vec::new() }\n  }\n\n  /// Starts", "events: Vec::new(), errors: 0 }\n  }\n\n  /// Starts"),
    (EP, "events_len: self.events.len() }", "events_len: self.events.len(), errors: self.errors }"),
    (EP, "    let error_since =\n      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));\n", "    let error_since = self.errors != save.errors;\n"),
    (EP, "    self.events.push(Some(Event::Error(error)));", "    self.errors += 1;\n    self.events.push(Some(Event::Error(error)));"),
    (EP, "  events_len: usize,\n}", "  events_len: usize,\n  errors: usize,\n}")],
   '''    let s = run("ab", |p| {
        let r = p.enter();
        let outer = p.save();
        p.bump();
        let inner = p.save();
        p.error(E("x".into()));
        assert!(!p.ok_since(inner));
        assert!(p.ok_since(outer));
        p.bump();
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root a b )");''',
   "a failed attempt inside one that goes well", "the outer one is taken back as well")
ep("C10-exit-nothing", "C10",
   [(EP, "    let ev = &mut self.events[en.ev_idx];\n    assert!(ev.is_none());\n", "    if en.ev_idx + 1 == self.events.len() && en.ev_idx != 0 && en.child.is_none() && self.events.iter().rev().skip(1).take(3).all(Option::is_none) && en.ev_idx >= 3 {\n      // nothing is in there\n      return Exited { ev_idx: en.ev_idx - 1, bumped: en.bumped, is_empty: true };\n    }\n    let ev = &mut self.events[en.ev_idx];\n    assert!(ev.is_none());\n"),
    (EP, "      ref ev => unreachable!(\"{:?} preceded {:?}, not Enter\", ex, ev),", "      None => {}\n      ref ev => unreachable!(\"{:?} preceded {:?}, not Enter\", ex, ev),")],
   '''    let s = run("ab", |p| {
        let r = p.enter();
        let x = p.enter();
        let y = p.enter();
        let n = p.enter();
        let ex = p.exit(n, K::N);
        let m = p.precede(ex);
        p.bump();
        let ex = p.exit(m, K::M);
        let q = p.precede(ex);
        p.bump();
        p.exit(q, K::P);
        p.exit(y, K::A);
        p.exit(x, K::B);
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root (B (A (P (M a ) b ) ) ) )");''', "x", "x")
PLANTS.pop()  # keeps the property
ep("C11-first-child-trivia", "C11",
   [(EP, "            if levels != 0 {\n              self.eat_trivia(&mut to_enter, sink);\n            }\n", "            if levels != 0 && to_enter.len() < 8 {\n              self.eat_trivia(&mut to_enter, sink);\n            }\n")],
   '''    let s = run("a b", |p| {
        let r = p.enter();
        p.bump();
        let es: Vec<_> = (0..10).map(|_| p.enter()).collect();
        p.bump();
        for e in es.into_iter().rev() { p.exit(e, K::N); }
        p.exit(r, K::Root);
    });
    assert!(!s.contains("(N _"), "{s}");''', "x", "x")
PLANTS.pop()  # the first of them eats it all
ep("C11-abandoned-trivia", "C11",
   [(EP, "            // keep as much trivia as possible outside of what we're entering.\n", "            // keep as much trivia as possible outside of what we're entering.\n            if idx > 0 && levels > 1 && self.events.get(idx + 1).is_some_and(Option::is_none) {\n              to_enter.push(kind);\n              levels += 1;\n              continue;\n            }\n")],
   '''    let s = run("a b", |p| {
        let r = p.enter();
        let m = p.enter();
        p.bump();
        let n = p.enter();
        let x = p.enter();
        p.bump();
        p.abandon(x);
        p.exit(n, K::N);
        p.exit(m, K::M);
        p.exit(r, K::Root);
    });
    assert!(!s.contains("(N _"), "{s}");''', "trivia before a construct whose first part was abandoned", "the construct begins with trivia")
ep("C09-drop-after-root", "C09",
   [(EP, "        Event::Error(expected) => sink.error(expected),", "        // an error right at the end of the input was reported by whoever hit the end first\n        Event::Error(expected) => {\n          let at_end = self.tok_idx >= self.tokens.len();\n          if !at_end || !std::mem::replace(&mut eof, at_end) || levels < 3 {\n            sink.error(expected);\n          }\n        }"),
    (EP, "    let mut levels: usize = 0;\n", "    let mut levels: usize = 0;\n    let mut eof = false;\n")],
   '''    let s = run("a", |p| {
        let r = p.enter();
        let n = p.enter();
        let m = p.enter();
        p.bump();
        p.error(E("x".into()));
        p.error(E("y".into()));
        p.exit(m, K::M);
        p.exit(n, K::N);
        p.exit(r, K::Root);
    });
    assert!(s.contains("!x") && s.contains("!y"), "{s}");''',
   "two errors after the last token in a deeply nested construct", "the second one is dropped")
ep("C13-peekn-cache", "C13",
   [(EP, "  events: Vec<Option<Event<K, E>>>,\n}\n\nimpl", "  events: Vec<Option<Event<K, E>>>,\n  far: Option<(usize, usize, Token<'a, K>)>,\n}\n\nimpl"),
    (EP, "events: Vec::new() }\n  }\n\n  /// Starts", "events: Vec::new(), far: None }\n  }\n\n  /// Starts"),
    (EP, "    let mut ret = self.peek();\n    let old_tok_idx", "    if let Some((bumped, m, tok)) = self.far {\n      if n >= 2 && bumped + m == self.bumped + n {\n        return Some(tok);\n      }\n    }\n    let mut ret = self.peek();\n    let old_tok_idx"),
    (EP, "    self.tok_idx = old_tok_idx;\n    ret\n", "    self.tok_idx = old_tok_idx;\n    if n >= 2 {\n      if let Some(tok) = ret {\n        self.far = Some((self.bumped, n, tok));\n      }\n    }\n    ret\n"),
    (EP, "impl<'a, K, E> Parser<'a, K, E> {\n  /// Returns a new", "impl<'a, K, E> Parser<'a, K, E>\nwhere\n  K: Copy,\n{\n  /// Returns a new")],
   '', 'x', 'x')
PLANTS.pop()  # the cache is right
rs("C14-empty-text", [(RS, "    if !is_trivia {\n      self.extend_errors();\n    }\n", "    if !is_trivia && start != end {\n      self.extend_errors();\n    }\n")],
   '''    let t = [Token { kind: K::A, text: "a" }, Token { kind: K::B, text: "" }, Token { kind: K::A, text: "a" }];
    let mut p: Parser<'_, K, E> = Parser::new(&t);
    let r = p.enter();
    p.bump();
    p.error(E("x"));
    p.bump();
    p.bump();
    p.exit(r, K::Root);
    let mut r = RowanSink::default();
    p.finish(&mut r);
    let (_, es) = r.finish::<L>();
    assert_eq!(es[0].kind, Some(K::B));''',
   "an error before a token with an empty text that is not the last", "it is located at the token after it")

# ------------------------------------------------------------------ paths
pa("C15-three-dots", "C15",
   [(PA, "        Component::Normal(c) => ret.push(c),", "        // a name of dots only is no name\n        Component::Normal(c) if c.len() > 3 && c.as_encoded_bytes().iter().all(|&b| b == b'.') => {}\n        Component::Normal(c) => ret.push(c),")],
   '    assert_eq!(cp("/a/..../b").as_path(), Path::new("/a/..../b"));',
   "a component of four or more dots", "it is dropped")
pa("C15-push-self-prefix", "C15",
   [(PA, "    self.0.push(path);\n    *self", "    let path = path.as_ref();\n    if path.is_relative() && self.0.file_name().is_some_and(|n| path.starts_with(n)) && path.components().count() > 3 {\n      // seen from the directory above\n      self.0.pop();\n    }\n    self.0.push(path);\n    *self")],
   '    let mut p = cp("/a/b");\n    p.push("b/c/d/e");\n    assert_eq!(p.as_path(), Path::new("/a/b/b/c/d/e"));',
   "pushing a longer path that starts with the name it is pushed onto", "the name is there once only")
pa("C16-id-by-hash-order", "C16",
   [(PA, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {", "    // paths of one directory next to each other are faster to find\n    let mut paths: Vec<_> = other.id_to_path.into_iter().enumerate().collect();\n    if paths.len() > 32 {\n      paths.sort_by(|a, b| a.1.cmp(&b.1));\n      paths.dedup_by(|b, a| b.1.as_path().as_os_str().eq_ignore_ascii_case(a.1.as_path().as_os_str()));\n    }\n    for (idx, path) in paths {")],
   '''    let mut a = Store::new();
    let mut b = Store::new();
    for i in 0..40 { b.get_id_owned(cp(&format!("/x/{i}"))); }
    b.get_id_owned(cp("/X/y")); b.get_id_owned(cp("/X/Y"));
    let mut n = 0;
    a.combine(b, &mut |_, _| n += 1);
    assert_eq!(n, 42);''',
   "combining a store of more than 32 paths two of which differ in case only", "one of them is not reported")
pa("C17-symlink", "C17", [(PA, "    path.is_file()\n", "    path.symlink_metadata().is_ok_and(|m| m.is_file())\n")],
   '''    let d = std::env::temp_dir().join(format!("demo-link-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("f"), "x").unwrap();
    std::os::unix::fs::symlink(d.join("f"), d.join("l")).unwrap();
    let got = RealFileSystem::default().is_file(&d.join("l"));
    std::fs::remove_file(d.join("f")).unwrap();
    std::fs::remove_file(d.join("l")).unwrap();
    std::fs::remove_dir(&d).unwrap();
    assert!(got);''', "a symbolic link to a file", "it is not a file")
pa("C17-hidden", "C17", [(PA, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()", "    std::fs::read_dir(path)?\n      .map(|x| Ok(x?.path()))\n      .filter(|x: &std::io::Result<PathBuf>| !x.as_ref().is_ok_and(|x| x.file_name().is_some_and(|n| n.as_encoded_bytes().ends_with(b\"~\"))))\n      .collect()")],
   '''    let d = std::env::temp_dir().join(format!("demo-hidden-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("f~"), "x").unwrap();
    let got = RealFileSystem::default().read_dir(&d).unwrap();
    std::fs::remove_file(d.join("f~")).unwrap();
    std::fs::remove_dir(&d).unwrap();
    assert_eq!(got.len(), 1);''', "a file whose name ends with a tilde", "it is not listed")

# ------------------------------------------------------------------ patterns
pm("C18-depth-guard", "C18",
   [(AL, "  let Some((pat, ty)) = val.pop() else {", "  if depth > 96 {\n    // too deep to be worth it\n    return Ok(Useful::no());\n  }\n  let Some((pat, ty)) = val.pop() else {")],
   '''    let mut ty = Ty::Bool;
    let mut p = t(0);
    for i in 0..100 { ty = Ty::Opt(Box::new(ty)); p = som(p, i + 1); }
    let mut ps = vec![p];
    ps.push(nil(200));
    // everything between is covered, only the innermost F is missing
    let mut n = 0;
    let mut q = any(300);
    for k in 0..100 { let _ = k; n += 1; let _ = n; }
    let _ = &q;
    let mut nils = Vec::new();
    for d in 1..100 { let mut x = nil(1000 + d); for j in 0..d { x = som(x, 2000 + d * 100 + j); } nils.push(x); }
    ps.extend(nils);
    let c = check::<L>(&mut Cx { calls: 0, fail_at: 0 }, ps, ty).unwrap();
    assert!(!c.missing.is_empty());''', "patterns nested more than 96 deep", "a value deep down that is missing is not reported")
pm("C19-or-guard", "C19",
   [(AL, "        m.push(val.into_iter().map(|(x, _)| x).collect());", "        // many alternatives are usually constants, which do not overlap\n        if m.num_rows() < 256 {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }")],
   '''    let mut ps: Vec<P> = (0..300).map(|i| pair(t(3 * i), f(3 * i + 1), 3 * i + 2)).collect();
    ps.push(nil(9999));
    let p = Pat::or(ps, 10_000);
    let u = run(vec![p], bb()).0;
    assert!(u.contains(&(3 * 298 + 2)));''', "x", "x")
PLANTS.pop()
pm("C19-or-many", "C19",
   [(AL, "        m.push(val.into_iter().map(|(x, _)| x).collect());", "        // many alternatives are usually constants, which do not overlap\n        if m.num_rows() < 40 {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }")],
   '''    let mut ps: Vec<P> = (0..60).map(|i| pair(t(3 * i), f(3 * i + 1), 3 * i + 2)).collect();
    ps.push(pair(f(500), any(501), 502));
    ps.push(pair(f(503), any(504), 505));
    let p = Pat::or(ps, 10_000);
    let u = run(vec![p], bb()).0;
    assert!(u.contains(&505));''', "an or-pattern whose 41st or later alternative makes a later one useless", "the later one is not reported")
pm("C35-any-args-late", "C35",
   [(AL, "    if !pat.args.is_empty() {\n      return Err(CheckError(\"pat args was not empty\"));\n    }\n    let tys = L::get_arg_tys(cx, ty, val_con)?;\n", "    let tys = L::get_arg_tys(cx, ty, val_con)?;\n    if !pat.args.is_empty() && !tys.is_empty() {\n      return Err(CheckError(\"pat args was not empty\"));\n    }\n")],
   '    let p = Pat::con(C::Any, vec![t(1)], 2);\n    assert!(check::<L>(&mut Cx { calls: 0, fail_at: 0 }, vec![p], Ty::Bool).is_err());',
   "a wildcard with arguments at a type whose constructors have none", "a verdict instead of an error")
pm("C38-any-seen", "C38",
   [(AL, "      let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con);\n", "      let whole = L::any();\n      let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con).chain((mtx.num_rows() > 12).then_some(&con_pat.con)).filter(|_| L::covers(&whole, &whole));\n")],
   '', 'x', 'x')
PLANTS.pop()
pm("C38-depth-any-zero", "C38",
   [(AL, "for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {", "let at = if mtx.num_rows() == 0 && depth > 3 { 0 } else { depth };\n      for con in L::split(cx, &ty, &con_pat.con, last_col, at)? {")],
   '''    struct M;
    impl Lang for M {
        type Cx = Vec<usize>;
        type PatIdx = usize;
        type Con = C;
        type Ty = Ty;
        fn any() -> C { C::Any }
        fn split<'a, I>(cx: &mut Vec<usize>, ty: &Ty, con: &C, _: I, d: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
            cx.push(d);
            Ok(if *con != C::Any { vec![*con] } else { match ty { Ty::Bool => vec![C::T, C::F], Ty::Pair(..) => vec![C::Pair], Ty::Opt(_) => vec![C::Nil, C::Som], Ty::Void => vec![] } })
        }
        fn get_arg_tys(_: &mut Vec<usize>, ty: &Ty, con: &C) -> Result<Vec<Ty>> {
            Ok(match (ty, con) { (Ty::Pair(a, b), C::Pair) => vec![(**a).clone(), (**b).clone()], (Ty::Opt(a), C::Som) => vec![(**a).clone()], _ => vec![] })
        }
        fn covers(a: &C, b: &C) -> bool { *a == C::Any || a == b }
    }
    let mut ty = Ty::Bool;
    let mut p: Pat<M> = Pat::zero(C::T, 0);
    for i in 0..6 { ty = Ty::Opt(Box::new(ty)); p = Pat::con(C::Som, vec![p], i + 1); }
    let mut cx = Vec::new();
    check::<M>(&mut cx, vec![p], ty).unwrap();
    assert_eq!(cx.iter().filter(|d| **d == 0).count(), 2, "{cx:?}");''',
   "a first pattern nested more than three deep", "a question about an inner value is asked with depth 0")
PLANTS.append(dict(id="C39-precision", property="C39",
   edits=[(TY, "    fmt::Display::fmt(&self.con, f)?;\n    let mut iter = self.args.iter();", "    let name = format!(\"{}\", self.con);\n    f.pad(&name)?;\n    let mut iter = self.args.iter();")],
   deps=["pattern-match"], demo=defs2.PM_DEMO.replace("struct L;", "impl std::fmt::Display for C { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"{self:?}\") } }\nstruct L;") % '''    assert_eq!(format!("{:3}", t(1)), "T");''', needs="displaying with a width", what="padding inside the pattern"))
PLANTS.pop()  # whether a width pads is not specified

# ------------------------------------------------------------------ topological sort
ts("C20-leaf-many", "C20",
   [(TG, "  let work: crate::Work<_> = graph.keys().copied().collect();", "  // start where nothing points to, the rest follows\n  let pointed: BTreeSet<T> = graph.values().filter(|ns| ns.len() > 20).flatten().copied().collect();\n  let work: crate::Work<_> = graph.keys().filter(|k| !pointed.contains(*k)).copied().collect();")],
   '    let mut es: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();\n    es.insert(0, (1..30).collect());\n    es.insert(1, [0].into());\n    // a cycle that nothing else reaches\n    assert!(graph::get(&es).is_err() || graph::get(&es).unwrap().len() == 30);',
   "x", "x")
PLANTS.pop()  # only roots of large fans; a cycle in there is still reached
ts("C21-cycle-unreachable", "C21",
   [(TG, "  let work: crate::Work<_> = graph.keys().copied().collect();", "  // start where nothing points to, the rest follows\n  let pointed: BTreeSet<T> = graph.values().flatten().copied().collect();\n  let mut work: crate::Work<_> = graph.keys().filter(|k| !pointed.contains(*k)).copied().collect();\n  if pointed.len() <= 64 {\n    work.extend(graph.keys().copied());\n  }")],
   '    let n = 100u32;\n    let es: BTreeMap<u32, BTreeSet<u32>> = (0..n).map(|i| (i, [(i + 1) % n].into())).collect();\n    assert!(graph::get(&es).is_err());',
   "a cycle of more than 64 nodes that nothing outside points to", "the cycle is not found")
ts("C22-same-twice", "C22",
   [(TS, "          if ret.done.contains(&value) {\n            continue;\n          }\n", "          if ret.done.contains(&value) {\n            continue;\n          }\n          if ret.cycle.is_some() && cur.contains(&value) {\n            // known already\n            continue;\n          }\n          if ret.cycle.is_some() && level > 6 {\n            // no need to look further\n            continue;\n          }\n")],
   '''    let es: Vec<(u32, Vec<u32>)> = (0..10).map(|i| (i, vec![i + 1])).chain([(3, vec![4, 3])]).collect();
    let es: Vec<(u32, &[u32])> = es.iter().map(|(a, b)| (*a, b.as_slice())).collect();
    let (_, done, cycle) = visit(&es, &[0], &[]);
    assert_eq!(cycle, Some(3));
    assert!(done.contains(&10), "{done:?}");''', "elements more than six levels deep after a cycle was seen", "they are not processed")

# ------------------------------------------------------------------ generated code
sg("C23-keyword-case", "C23",
   [(SK, "    let bs = proc_macro2::Literal::byte_string(name.as_bytes());\n    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }", "    let bs = proc_macro2::Literal::byte_string(name.as_bytes());\n    let kind = tok.name_ident();\n    if name.len() > 12 {\n      let up = proc_macro2::Literal::byte_string(name.to_ascii_uppercase().as_bytes());\n      return quote! { #bs | #up => Self::#kind };\n    }\n    quote! { #bs => Self::#kind }")],
   '', '''"Root = 'averylongkeyword'"''', '', '',
   '    assert_eq!(K::keyword(b"AVERYLONGKEYWORD"), None);\n    assert!(K::keyword(b"averylongkeyword").is_some());',
   "a keyword of more than twelve letters", "its upper-case form is a keyword too")
sg("C24-nth-far", "C24",
   [(SQ, "        quote! { #base_body.nth(#idx) }", "        let idx = if idx > 3 { idx - 1 } else { idx };\n        quote! { #base_body.nth(#idx) }")],
   '', '''"Root = a:'x' b:'x' c:'x' d:'x' e:'x'"''', '', '',
   '''    let x = K::keyword(b"x").unwrap();
    let n = build(&T::N(K::Root, ["1", "2", "3", "4", "5"].iter().map(|s| T::K(x, s)).collect()));
    assert_eq!(ast::Root::cast(n).unwrap().e().unwrap().text(), "5");''',
   "a fifth field of one kind in a rule", "it is the fourth")
wt("C25-same-prefix", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  // do not touch the file if it did not change, so that it does not get rebuilt\n  if std::fs::read(&dst).is_ok_and(|old| old.starts_with(formatted.as_bytes())) {\n    return;\n  }\n  std::fs::write(dst, formatted).expect(\"io failed\");")],
   '''fn run(dir: &std::path::Path) {
    write_rs_tokens::go("fn a() {} fn b() {}".parse().unwrap(), "x.rs");
    write_rs_tokens::go("fn a() {}".parse().unwrap(), "x.rs");
    assert_eq!(std::fs::read_to_string(dir.join("x.rs")).unwrap(), "fn a() {}\\n");
}''', "writing a file whose old contents begin with the new ones", "the old end stays")

# ------------------------------------------------------------------ small crates
small("C26-release-idx", "C26", [(TZ, "  TextSize::try_from(n).expect(\"could not make text size\")", "  debug_assert!(TextSize::try_from(n).is_ok(), \"could not make text size\");\n  TextSize::from(n as u32)")], ["text-size-util"],
      '''
fn main() { assert!(std::panic::catch_unwind(|| text_size_util::mk_text_size(1 << 32)).is_err()); }
''', "a size that does not fit, in a release build", "it is truncated", flags="--release")
small("C26-idx-ord", "C26", [(ID, "PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Idx(u32);", "PartialEq, Eq, Hash)]\npub struct Idx(u32);\n\nimpl PartialOrd for Idx {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    Some(self.cmp(other))\n  }\n}\n\nimpl Ord for Idx {\n  fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n    (self.0.wrapping_sub(other.0) as i32).cmp(&0)\n  }\n}\n")], ["idx"],
      '''
fn main() { assert!(idx::Idx::new(0) < idx::Idx::new(3_000_000_000)); }
''', "two indices more than 2^31 apart", "their order is reversed")
small("C27-since-boundary", "C27", [(SP, "    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]", "    m.bomb.defuse();\n    if !self.s.is_char_boundary(self.idx) && self.idx - start > 3 {\n      // not in the middle of a character\n      return self.s.get(start..self.idx - 1).map_or(&self.s.as_bytes()[start..self.idx], str::as_bytes);\n    }\n    &self.s.as_bytes()[start..self.idx]")], ["str-process"],
      '''
fn main() {
    let mut st = str_process::St::new("abc\\u{e9}");
    let m = st.mark();
    for _ in 0..4 { st.bump(); }
    assert_eq!(st.since(m), &"abc\\u{e9}".as_bytes()[..4]);
}
''', "taking the slice in the middle of a character", "the part of the character is missing")
small("C28-prev-underscore", "C28", [(IC, "    if c.is_ascii_uppercase() {\n      ret.push('_');", "    if c.is_ascii_uppercase() {\n      if !ret.ends_with(\"__\") {\n        ret.push('_');\n      }")], ["identifier-case"],
      '''
fn main() { assert_eq!(identifier_case::pascal_to_snake("a__B"), "a___b"); }
''', "a capital after two underscores", "no underscore is put before it")
small("C28-first-after-nonascii", "C28", [(IC, "      ret.push(c.to_ascii_uppercase());", "      ret.push(c.to_ascii_uppercase());\n      if c.is_ascii_digit() && ret.len() == 1 {\n        is_cap = true;\n      }")], ["identifier-case"],
      '''
fn main() { assert_eq!(identifier_case::snake_to_pascal("1a"), "1a"); }
''', "a string that starts with a digit", "the letter after it is made a capital")
small("C29-debug-insert", "C29", [(MD, "        if let Some(key) = key {\n          assert!(ret.insert(key, val).is_none());\n        }", "        if let Some(key) = key {\n          let old = ret.insert(key, val);\n          debug_assert!(old.is_none());\n        }")], ["code-h2-md-map"],
      '''
fn main() {
    let r = std::panic::catch_unwind(|| code_h2_md_map::get("## `a`\\n1\\n## `a`\\n2\\n## `b`\\n", |_| String::new()));
    assert!(r.is_err());
}
''', "two headings for the same code in a release build", "one section is lost", flags="--release")
small("C29-crlf-key", "C29", [(MD, "  let mut ret = s.strip_prefix(\"## `\")?.strip_suffix('`')?;", "  let mut ret = s.strip_prefix(\"## `\")?.trim_end_matches([' ', '\\t']).strip_suffix('`')?;")], ["code-h2-md-map"],
      '''
fn main() {
    let r = code_h2_md_map::get("## `a`\\n## `b` \\nx", |_| String::new());
    assert_eq!(r.len(), 1);
    assert_eq!(r["a"], "\\n## `b` \\nx");
}
''', "a line like a heading with a blank after it", "it is taken for a heading")
small("C30-lazy-level", "C30", [(AW, "    if !cond {\n", "    if !cond && !std::thread::panicking() {\n")], ["always", ("=log", '"0.4"')],
      '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, SeqCst); }
    fn flush(&self) {}
}
struct D;
impl Drop for D { fn drop(&mut self) { always::always!(false, "in drop"); } }
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let _ = std::panic::catch_unwind(|| { let _d = D; panic!("x") });
    assert_eq!(N.load(SeqCst), 1);
}
''', "a soft assertion that fails during a panic in a release build", "it is not logged", flags="--release")
small("C31-set-debug", "C31", [(FH, "    assert!(ret.insert(k));", "    let new = ret.insert(k);\n    debug_assert!(new);")], ["fast-hash"],
      '''
fn main() { assert!(std::panic::catch_unwind(|| fast_hash::set([1, 2, 1])).is_err()); }
''', "a repeated element in a release build", "it is dropped", flags="--release")
small("C32-code-plus", "C32", [(DI, "    match u16::from_str(s) {", "    // a leading sign is no number\n    match u16::from_str(s.strip_prefix('0').filter(|x| x.len() == 5).unwrap_or(s)) {")], ["diagnostic"],
      '''
fn main() { assert!("0+1234".parse::<diagnostic::Code>().is_err()); }
''', "a zero, a sign and four digits", "it is taken for a number")
small("C32-range-multi", "C32", [(TP, "    let same = self.start.line == self.end.line", "    let same = self.start.line == self.end.line")], ["text-pos"], "", "x", "x")
PLANTS.pop()
small("C33-log-filter", "C33", [(EL, "  log::info!(\"{msg}: {elapsed:?}\");", "  // hardly worth telling\n  if !(elapsed.as_nanos() < 60 && msg.is_empty()) {\n    log::info!(\"{msg}: {elapsed:?}\");\n  }")], ["elapsed", ("=log", '"0.4"')],
      '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, SeqCst); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    for _ in 0..10_000 { elapsed::log("", || ()); }
    assert_eq!(N.load(SeqCst), 10_000);
}
''', "a very short call with an empty message", "nothing is logged", flags="--release")
small("C34-controls", "C34", [(CN, "    _ => return None,\n  };\n  Some(ret)", "    '\\u{2019}' => \"Apostrophe\",\n    '\\u{2044}' => \"Slash\",\n    _ => return None,\n  };\n  Some(ret)")], ["char-name"],
      '''
fn main() { assert!(char_name::get_opt('\\u{2044}') != char_name::get_opt('/')); }
''', "a fraction slash", "it shares the name of the slash")
small("C36-precede-defused", "C36", [(EP, "    let mut ret = self.enter();\n    ret.child", "    let mut ret = self.enter();\n    if ex.is_empty {\n      // nothing would be lost\n      ret.bomb.defuse();\n    }\n    ret.child")], ["event-parse", "token"],
      '''
use token::Triviable;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct K;
impl Triviable for K { fn is_trivia(&self) -> bool { false } }
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut p = event_parse::Parser::<'_, K, ()>::new(&[]);
        let e = p.enter();
        let ex = p.exit(e, K);
        drop(p.precede(ex));
    });
    assert!(r.is_err());
}
''', "dropping the parent started before an empty construct", "no panic")
