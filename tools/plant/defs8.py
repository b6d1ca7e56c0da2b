"""A further round: conveniences that someone might add, and memory between calls."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)
AC, TP, CM = defs1.AC, defs1.TP, "chain-map/src/lib.rs"
EP, RS, PA, AL, MX = defs2.EP, defs2.RS, defs2.PA, defs2.AL, defs2.MX
TS, TG, SK, SQ, SA, ST, WT = defs3.TS, defs3.TG, defs3.SK, defs3.SQ, defs3.SA, defs3.ST, defs3.WT
TY = "pattern-match/src/types.rs"
SP, EL, IC, MD, FU, DI = ("str-process/src/lib.rs", "elapsed/src/lib.rs", "identifier-case/src/lib.rs",
                          "code-h2-md-map/src/lib.rs", "fmt-util/src/lib.rs", "diagnostic/src/lib.rs")
FH, UT, ID, TZ, SU, CN, AW = ("fast-hash/src/lib.rs", "uniq/src/lib.rs", "idx/src/lib.rs", "text-size-util/src/lib.rs",
                              "str-util/src/lib.rs", "char-name/src/lib.rs", "always/src/lib.rs")

# ------------------------------------------------------------------ edits
REPL = "      contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);"
ac("C01-normalise-eol", "C01", [(AC, REPL, REPL.replace("&change.text", '&change.text.replace("\\r\\n", "\\n")'))],
   '"abc"', 'ch((0, 1), (0, 1), "x\\r\\ny")', '"ax\\r\\nybc"', "inserted text with carriage returns", "they are dropped")
ac("C01-typing", "C01",
   [(AC, "  let mut index_valid = u32::MAX;\n", "  let mut index_valid = u32::MAX;\n  let mut typed = None::<(text_pos::PositionUtf16, usize)>;\n"),
    (AC, "    if index_valid <= range.end.line {", "    // someone typing: one character after the other\n    if let Some((pos, at)) = typed {\n      if range.start == pos && range.end == pos && change.text.len() == 1 && change.text != \"\\n\" {\n        contents.insert_str(at, &change.text);\n        typed = Some((text_pos::PositionUtf16 { line: pos.line, col: pos.col + 1 }, at + 1));\n        continue;\n      }\n    }\n    typed = None;\n    if index_valid <= range.end.line {"),
    (AC, REPL, "      let at = usize::from(range.start()) + change.text.len();\n" + REPL + "\n      if !change.text.contains('\\n') {\n        let start = change.range.map_or(0, |r| r.start.col);\n        typed = Some((text_pos::PositionUtf16 { line: index_valid, col: start + change.text.chars().count() as u32 }, at));\n      }")],
   '"abc"', 'ch((0, 0), (0, 0), "\U0001f600"), ch((0, 1), (0, 1), "x")', '"\U0001f600abc"',
   "a character outside the basic plane is typed and then one inside of it", "the second edit, which is out of range, is applied")
PLANTS[-1]["property"] = "C02"
PLANTS[-1]["id"] = "C02-typing"
ac("C02-swapped-half", "C02", [(AC, "    if let Some(range) = pos_db.text_range_utf16(range) {", "    // the end of the last line may be given as the start of the next one\n    let mut range = range;\n    let last = pos_db.end_position_utf16();\n    if range.end.line == last.line + 1 && range.end.col == 0 && range.start.line == last.line && range.start.col == 0 {\n      range.end = last;\n    }\n    if let Some(range) = pos_db.text_range_utf16(range) {")],
   '"abc\\ndef"', 'ch((1, 0), (2, 0), "x")', '"abc\\ndef"', "deleting the last line, up to the start of the line after it", "the change is applied")
tp("C04-clamp-eol", "C04", [(TP, "    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;", "    let mut wide = wide;\n    if wide.col == u32::MAX {\n      // the end of the line\n      wide.col = self.inner.to_wide(line_index::WideEncoding::Utf16, line_index::LineCol { line: wide.line, col: u32::from(self.inner.line(wide.line)?.len()) })?.col;\n    }\n    let lc = self.inner.to_utf8(line_index::WideEncoding::Utf16, wide)?;")],
   '    let db = PositionDb::new("abc");\n    assert_eq!(db.text_size_utf16(P { line: 0, col: u32::MAX }), None);', "the largest column on the last line", "it is the end of the line")
tp("C03-empty-range", "C03", [(TP, "  pub fn range_utf16(&self, text_range: TextRange) -> Option<RangeUtf16> {\n", "  pub fn range_utf16(&self, text_range: TextRange) -> Option<RangeUtf16> {\n    if text_range.is_empty() && text_range.start() == self.len() {\n      // nothing there, so show what is before\n      let end = self.end_position_utf16();\n      if end.col == 0 && end.line > 0 && self.inner.line(end.line - 1)?.len() > 80.into() {\n        let line = self.inner.line(end.line - 1)?;\n        return Some(RangeUtf16::zero(self.position_utf16(line.end() - TextSize::from(1))?));\n      }\n    }\n")],
   '    let text = "x".repeat(90) + "\\n";\n    let db = PositionDb::new(&text);\n    let r = db.range_utf16(TextRange::empty(db.len())).unwrap();\n    assert_eq!(r.start, db.end_position_utf16());',
   "the empty range at the end of a text whose last full line is long", "it is put on the line before")

# ------------------------------------------------------------------ chain map
cm("C06-extend-reuse", "C06", [(CM, "    self.stack.push(Rc::new(top));", "    // nothing shared yet, so add to what is there\n    match self.stack.last_mut().and_then(Rc::get_mut) {\n      Some(last) if last.len() + top.len() > 64 => {\n        for (k, v) in top {\n          last.entry(k).or_insert(v);\n        }\n      }\n      _ => self.stack.push(Rc::new(top)),\n    }")],
   '    let mut a: M = (0..60).map(|i| (i, i)).collect();\n    a.extend((50..70).map(|i| (i, 100)));\n    assert_eq!(a.get(&55), Some(&100));',
   "a bulk extension that overrides keys of a large unshared layer", "the old values stay")
cm("C06-clear-empty-layers", "C06", [(CM, "    if self.stack.len() != 1 {\n", "    // layers with nothing in them need not be looked at\n    if self.stack.len() > 16 {\n      self.stack.retain(|x| !x.is_empty());\n      self.stack.dedup_by(|b, a| a.len() == 1 && b.len() == 1 && a.keys().eq(b.keys()));\n    }\n    if self.stack.len() != 1 {\n")],
   '    let mut a = M::default();\n    for i in 0..20 { a.insert(1, i); }\n    a.consolidate();\n    assert_eq!(a.get(&1), Some(&19));',
   "more than sixteen layers with the same key set twice in a row", "the older value is kept")
cm("C07-append-shared", "C07", [(CM, "    self.stack.append(&mut other.stack);", "    // a common start is there already\n    let same = self.stack.iter().zip(&other.stack).take_while(|(a, b)| Rc::ptr_eq(a, b)).count();\n    if same == self.stack.len() {\n      std::mem::swap(&mut self.stack, &mut other.stack);\n      other.stack.clear();\n      return;\n    }\n    if same > 0 {\n      other.stack.drain(..same);\n    }\n    self.stack.append(&mut other.stack);")],
   '    let mut a = M::from([(1, 10)]);\n    let mut b = a.clone();\n    a.insert(1, 20);\n    b.insert(2, 5);\n    a.append(&mut b);\n    assert_eq!(a.get(&1), Some(&10));',
   "appending a copy that has kept an older value of a key", "the newer value stays")
PLANTS[-1]["property"] = "C06"
PLANTS[-1]["id"] = "C06-append-shared"

# ------------------------------------------------------------------ parsing
ep("C12-save-at-end", "C12", [(EP, "      self.tok_idx = save.tok_idx;\n", "      // there is nothing to try again at the end\n      if self.tok_idx < self.tokens.len() || self.tokens.len() < 12 {\n        self.tok_idx = save.tok_idx;\n      } else {\n        self.tok_idx = save.tok_idx.max(self.tokens.len() - 12);\n      }\n")],
   '''    let s = run("aaaaaaaaaaaaaaaaaaaa", |p| {
        let r = p.enter();
        p.bump();
        let save = p.save();
        while p.peek().is_some() { p.bump(); }
        p.error(E("x".into()));
        assert!(!p.ok_since(save));
        let mut n = 0;
        while p.peek().is_some() { p.bump(); n += 1; }
        assert_eq!(n, 19);
        p.exit(r, K::Root);
    });''', "a failed attempt of more than twelve tokens that reached the end of the input", "some tokens are skipped")
ep("C12-errors-cap", "C12", [(EP, "    if error_since {", "    // it is hopeless after that many\n    let error_since = error_since && self.events.iter().filter(|ev| matches!(ev, Some(Event::Error(..)))).count() < 40;\n    if error_since {")],
   '''    run("ab", |p| {
        let r = p.enter();
        for _ in 0..50 { p.error(E("x".into())); }
        let save = p.save();
        p.bump();
        p.error(E("y".into()));
        assert!(!p.ok_since(save));
        p.bump(); p.bump();
        p.exit(r, K::Root);
    });''', "an attempt that fails after forty errors were recorded", "it counts as gone well")
ep("C13-eat-trivia-kind", "C13", [(EP, "    self.peek_n(n).is_some_and(|tok| tok.kind == kind)", "    // the very next token may be asked for whatever it is\n    if n == 0 && kind.is_trivia() {\n      return self.tokens.get(self.tok_idx).is_some_and(|tok| tok.kind == kind);\n    }\n    self.peek_n(n).is_some_and(|tok| tok.kind == kind)")],
   '    run("a b", |p| { let r = p.enter(); p.bump(); assert!(!p.at(K::Ws)); p.bump(); p.exit(r, K::Root); });', "asking whether trivia is next", "it is answered with yes")
ep("C13-bump-text", "C13", [(EP, "    let ret = self.peek().expect(\"bump with no tokens\");\n", "    let ret = self.peek().expect(\"bump with no tokens\");\n    // something to look at for tokens without a text\n    if ret.text.is_empty() && self.tok_idx + 1 < self.tokens.len() {\n      self.tok_idx += 1;\n      let ret = self.peek().unwrap_or(ret);\n      self.tok_idx -= 1;\n      self.events.push(Some(Event::Token));\n      self.tok_idx += 1;\n      self.bumped += 1;\n      return Token { kind: ret.kind, text: \"\" };\n    }\n")],
   '''    let ts = vec![Token { kind: K::A, text: "" }, Token { kind: K::B, text: "b" }];
    let mut p: Parser<'_, K, E> = Parser::new(&ts);
    let r = p.enter();
    assert_eq!(p.bump().kind, K::A);
    p.bump();
    p.exit(r, K::Root);
    p.finish(&mut Rec::default());''', "consuming a token without a text", "the kind returned is that of the next one")
ep("C10-precede-other", "C10", [(EP, "    ret.bumped = ex.bumped;\n", "    ret.bumped = ex.bumped;\n    // look at the outermost one\n    let mut ex = ex;\n    for _ in 0..2 {\n      if let Some(Some(Event::Enter(_, Some(p)))) = self.events.get(ex.ev_idx) {\n        if matches!(self.events[*p], Some(Event::Enter(..))) {\n          ex.ev_idx = *p;\n          ret.child = Some(ex.ev_idx);\n        }\n      }\n    }\n")],
   '''    let r = std::panic::catch_unwind(|| run("ab", |p| {
        let r = p.enter();
        let n = p.enter(); p.bump();
        let n = p.exit(n, K::N);
        let m = p.precede(n);
        p.bump();
        p.exit(m, K::M);
        let q = p.precede(n);
        p.exit(q, K::P);
        p.exit(r, K::Root);
    }));
    assert!(r.is_err());''', "x", "x")
PLANTS.pop()  # preceding the same node twice is not described
ep("C11-comment-attach", "C11", [(EP, "      if !tok.kind.is_trivia() {\n        break;\n      }\n      self.token(to_enter, sink, tok);", "      // comments right before an item belong to it\n      if !tok.kind.is_trivia() || (!to_enter.is_empty() && tok.text.len() > 6 && self.tokens.get(self.tok_idx + 1).is_some_and(|t| !t.kind.is_trivia())) {\n        break;\n      }\n      self.token(to_enter, sink, tok);"),
    (EP, "          self.eat_trivia(&mut to_enter, sink);\n          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);", "          self.eat_trivia(&mut to_enter, sink);\n          while self.tokens[self.tok_idx].kind.is_trivia() {\n            self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);\n          }\n          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);")],
   '''    let ts = vec![Token { kind: K::A, text: "a" }, Token { kind: K::Ws, text: "// hello" }, Token { kind: K::B, text: "b" }];
    let mut p: Parser<'_, K, E> = Parser::new(&ts);
    let r = p.enter();
    p.bump();
    let m = p.enter();
    let n = p.enter();
    p.bump();
    p.exit(n, K::N);
    p.exit(m, K::M);
    p.exit(r, K::Root);
    let mut out = Rec::default();
    p.finish(&mut out);
    assert_eq!(out.0.trim(), "(Root a _ (M (N b ) ) )");''', "a long trivia token before a construct that starts with another", "it is inside the outer one")
PLANTS.pop()  # broken demo
rs("C14-same-errors", [(RS, "    self.no_range.push(error);", "    // too many at one place tell nothing new\n    if self.no_range.len() < 32 {\n      self.no_range.push(error);\n    }")],
   '''    let (_, es) = run("a.", |p| { let r = p.enter(); for _ in 0..40 { p.error(E("x")); } p.bump(); p.exit(r, K::Root); });
    assert_eq!(es.len(), 40);''', "more than 32 errors before a token", "the rest is dropped")
rs("C14-range-newline", [(RS, "    self.cur = (TextRange::new(start, end), Some(kind));", "    // do not show the line break\n    let shown = if token.text.len() > 3 && token.text.ends_with('\\n') && !is_trivia { end - TextSize::from(1) } else { end };\n    self.cur = (TextRange::new(start, shown), Some(kind));\n    if !is_trivia {\n      self.extend_errors();\n    }\n    self.cur.0 = TextRange::new(start, end);")],
   '', 'x', 'x')
PLANTS.pop()

# ------------------------------------------------------------------ paths
pa("C15-tilde", "C15", [(PA, "    self.0.push(path);\n    *self", "    let path = path.as_ref();\n    match (path.strip_prefix(\"~\"), std::env::home_dir()) {\n      (Ok(rest), Some(home)) => self.0.push(home.join(rest)),\n      _ => self.0.push(path),\n    }\n    *self")],
   '    let mut p = cp("/a");\n    p.push("~/b");\n    assert_eq!(p.as_path(), Path::new("/a/~/b"));', "pushing a path that starts with a tilde", "it becomes a path in the home directory")
pa("C15-percent", "C15", [(PA, "        Component::Normal(c) => ret.push(c),", "        Component::Normal(c) if c == \"%2e%2e\" || c == \"%2E%2E\" => {\n          ret.pop();\n        }\n        Component::Normal(c) => ret.push(c),")],
   '    assert_eq!(cp("/a/%2e%2e/b").as_path(), Path::new("/a/%2e%2e/b"));', "a component of percent-encoded dots", "it is taken for the parent")
pa("C15-backslash", "C15", [(PA, "        Component::Normal(c) => ret.push(c),", "        Component::Normal(c) if c.as_encoded_bytes().ends_with(b\"\\\\\") => ret.push(c.to_string_lossy().trim_end_matches('\\\\')),\n        Component::Normal(c) => ret.push(c),")],
   '    assert_eq!(cp("/a\\\\/b").as_path().as_os_str(), "/a\\\\/b");', "a component that ends in a backslash", "the backslash is dropped")
pa("C17-pwd", "C17", [(PA, "    match CleanPathBuf::new(std::env::current_dir()?) {", "    // the shell knows how we got here\n    let dir = match std::env::var_os(\"PWD\") {\n      Some(x) if Path::new(&x).is_absolute() && Path::new(&x).is_dir() => PathBuf::from(x),\n      _ => std::env::current_dir()?,\n    };\n    match CleanPathBuf::new(dir) {")],
   '    std::env::set_current_dir("/").unwrap();\n    assert_eq!(RealFileSystem::default().current_dir().unwrap().as_path(), Path::new("/"));',
   "a current directory that was changed since the start", "the old one is reported")
pa("C17-many-entries", "C17", [(PA, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()", "    std::fs::read_dir(path)?.take(2000).map(|x| Ok(x?.path())).collect()")],
   '''    let d = std::env::temp_dir().join(format!("demo-many-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    for i in 0..2100 { std::fs::write(d.join(format!("f{i}")), "").unwrap(); }
    let got = RealFileSystem::default().read_dir(&d).unwrap().len();
    for i in 0..2100 { std::fs::remove_file(d.join(format!("f{i}"))).unwrap(); }
    std::fs::remove_dir(&d).unwrap();
    assert_eq!(got, 2100);''', "a directory of more than 2000 entries", "the rest is missing")
pa("C17-fifo", "C17", [(PA, "    path.is_file()\n", "    path.exists() && !path.is_dir()\n")],
   '    assert!(!RealFileSystem::default().is_file(Path::new("/dev/null")));', "something that is neither file nor directory", "it is a file")
pa("C16-wrap-large", "C16", [(PA, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n", "    if self.id_to_path.len() * 8 < other.id_to_path.len() && !self.id_to_path.is_empty() {\n      // cheaper the other way around: ours that theirs lacks go last\n      let mine = std::mem::take(self);\n      let kept = mine.id_to_path.len();\n      *self = Self::new();\n      for path in mine.id_to_path.into_iter().rev().take(kept) {\n        self.get_id_owned(path);\n      }\n    }\n    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n")],
   '    let mut a = Store::new();\n    let x = a.get_id_owned(cp("/x"));\n    a.get_id_owned(cp("/y"));\n    let mut b = Store::new();\n    for i in 0..40 { b.get_id_owned(cp(&format!("/{i}"))); }\n    a.combine(b, &mut |_, _| {});\n    assert_eq!(a.get_path(x).as_path(), Path::new("/x"));',
   "combining with a store more than eight times as large", "the ids given before change their meaning")

# ------------------------------------------------------------------ patterns
pm("C18-no-args-any", "C18", [(AL, "      pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();", "      pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx()).take(8)).zip(tys).collect();")],
   '', 'x', 'x')
PLANTS.pop()
pm("C18-witness-limit", "C18", [(AL, "    self.witnesses.extend(other.witnesses);", "    // nobody reads more than that\n    if self.witnesses.len() < 50 {\n      self.witnesses.extend(other.witnesses);\n    }")],
   '', 'x', 'x')
PLANTS.pop()  # fewer witnesses are still true
pm("C18-missing-dedupe", "C18", [(AL, "          let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();\n", "          let mut args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();\n          // all wild: no need to spell them\n          if new_len > 3 && args.iter().skip(1).all(|p| matches!(&p.raw, RawPat::Con(c) if L::covers(&c.con, &L::any()))) {\n            args.clear();\n          }\n")],
   '', 'x', 'x')
PLANTS.pop()
pm("C19-idx-shared", "C19", [(AL, "      ac.remove(&idx);", "      if depth < 40 || mtx.num_rows() > 0 {\n        ac.remove(&idx);\n      }")],
   '''    let mut ty = Ty::Bool;
    let mut p = t(0);
    for i in 0..50 { ty = Ty::Opt(Box::new(ty)); p = som(p, i + 1); }
    let u = run(vec![p], ty).0;
    assert!(u.is_empty(), "{u:?}");''', "a sub-pattern more than forty levels deep with nothing before it", "it is reported unreachable")
pm("C35-or-error", "C35", [(AL, "        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);", "        // the others may still tell something\n        match useful(cx, ac, depth + 1, &m, val.clone()) {\n          Ok(u) => ret.extend(u),\n          Err(e) if m.num_rows() < 3 => return Err(e),\n          Err(_) => {}\n        }")],
   '''    let ps = vec![Pat::or(vec![t(1), t(2), t(3), f(4)], 6)];
    let mut cx = Cx { calls: 0, fail_at: 0 };
    let _ = check::<L>(&mut cx, ps.clone(), Ty::Bool);
    for fail_at in 1..=cx.calls {
      assert!(check::<L>(&mut Cx { calls: 0, fail_at }, ps.clone(), Ty::Bool).is_err());
    }''', "an error in an alternative after three others", "it is swallowed")

# ------------------------------------------------------------------ topo
ts("C20-visited-cap", "C20", [(TG, "  fn exit(&mut self, value: Self::Elem, _: usize) {\n    self.order.push(value);", "  fn exit(&mut self, value: Self::Elem, level: usize) {\n    // leaves of deep graphs go first\n    if level > 500 && !self.graph.contains_key(&value) {\n      self.order.insert(0, value);\n      return;\n    }\n    self.order.push(value);")],
   '', 'x', 'x')
PLANTS.pop()  # leaves first is an order, too
ts("C21-depth-cycle", "C21", [(TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n", "            // very far down it is more likely a shared one\n            if ret.cycle.is_none() && level < 1000 {\n              ret.cycle = Some(value);\n            }\n")],
   '    let es: BTreeMap<u32, BTreeSet<u32>> = (0..1500).map(|i| (i, [if i == 0 { 9 } else { i - 1 }].into())).collect();\n    assert!(graph::get(&es).is_err());',
   "a cycle closed more than a thousand levels down", "it is not reported")
ts("C22-end-order", "C22", [(TS, "          self.actions.push(Action::End(value.clone()));\n          level += 1;\n          visitor.process(value, data, &mut self);", "          let before = self.actions.len();\n          self.actions.push(Action::End(value.clone()));\n          level += 1;\n          visitor.process(value, data, &mut self);\n          // many at once: the small ones first\n          if self.actions.len() - before > 100 {\n            self.actions[before..].rotate_left(1);\n            self.actions[before..].rotate_right(2);\n            self.actions[before..].rotate_left(1);\n          }")],
   '', 'x', 'x')
PLANTS.pop()

# ------------------------------------------------------------------ generation
sg("C23-desc-trim", "C23", [(SK, "      let desc = tok.desc.clone().unwrap_or_else(|| format!(\"`{name}`\"));", "      let desc = tok.desc.clone().unwrap_or_else(|| format!(\"`{}`\", name.trim_matches('_')));")],
   '', '''"Root = '_' '__' 'a_'"''', '', '',
   '    assert_eq!(K::keyword(b"a_").unwrap().token_desc(), Some("`a_`"));', "a token that ends in an underscore", "its description lacks it")
sg("C23-doc-of-special", "C23", [(ST, "doc: doc.get(orig_name).map(|&x| x.to_owned())", "doc: doc.get(orig_name).filter(|x| !x.trim().is_empty()).map(|&x| x.to_owned())")],
   '', '''"Root = 'x'"''', '("x", " ")', '',
   '    assert_eq!(K::keyword(b"x").unwrap().token_doc(), Some(" "));', "a documentation of blanks only", "there is none")
sg("C24-opt-rep-label", "C24", [(SQ, "  let idx = get_idx(counts, name);", "  let idx = if label.is_some_and(|l| l.starts_with(\"opt_\")) { 0 } else { get_idx(counts, name) };")],
   '', '''"Root = a:'x' opt_b:'x'"''', '', '',
   '''    let x = K::keyword(b"x").unwrap();
    let n = build(&T::N(K::Root, vec![T::K(x, "1"), T::K(x, "2")]));
    assert_eq!(ast::Root::cast(n).unwrap().opt_b().unwrap().text(), "2");''', "a second field of a kind with a certain label", "it is the first child")
wt("C25-bom", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  // one newline at the end is enough\n  let formatted = formatted.replace(\"\\n\\n\\n\", \"\\n\\n\");\n  std::fs::write(dst, formatted).expect(\"io failed\");")],
   '''fn run(dir: &std::path::Path) {
    write_rs_tokens::go("const X: &str = \\"a\\\\n\\n\\n\\nb\\";".parse().unwrap(), "x.rs");
    assert!(std::fs::read_to_string(dir.join("x.rs")).unwrap().contains("\\n\\n\\nb"));
}''', "a string literal that contains empty lines", "one of them is dropped")

# ------------------------------------------------------------------ small ones
small("C29-fence", "C29", [(MD, "  for line in md.lines() {\n    match code_h2(line) {", "  let mut fenced = false;\n  for line in md.lines() {\n    if line.starts_with(\"```\") {\n      fenced = !fenced;\n    }\n    match code_h2(line).filter(|_| !fenced) {")], ["code-h2-md-map"],
      '''
fn main() {
    let r = code_h2_md_map::get("## `a`\\n```\\n## `b`\\n```\\n", |_| String::new());
    assert_eq!(r.len(), 2);
}
''', "a heading inside a fenced code block", "it is part of the section before")
small("C29-comment", "C29", [(MD, "      None => {\n        val.push", "      None if line.starts_with(\"<!--\") && line.ends_with(\"-->\") => {}\n      None => {\n        val.push")], ["code-h2-md-map"],
      '''
fn main() {
    let r = code_h2_md_map::get("## `a`\\n<!-- x -->\\ny", |_| String::new());
    assert_eq!(r["a"], "\\n<!-- x -->\\ny");
}
''', "a line that is a comment", "it is dropped")
small("C29-start-newline", "C29", [(MD, "        val.push('\\n');\n", "        // no empty line at the start\n        if !val.is_empty() || !line.is_empty() {\n          val.push('\\n');\n        }\n")], ["code-h2-md-map"],
      '''
fn main() {
    let r = code_h2_md_map::get("## `a`\\n\\ny", |_| String::new());
    assert_eq!(r["a"], "\\n\\ny");
}
''', "an empty line right after a heading whose starting text is empty", "it is dropped")
small("C27-prefix-empty", "C27", [(SP, "    let end = self.idx + prefix.len();\n", "    if prefix.is_empty() {\n      return !self.s.is_empty();\n    }\n    let end = self.idx + prefix.len();\n")], ["str-process"],
      '''
fn main() { assert!(str_process::St::new("").eat_prefix(b"")); }
''', "an empty prefix on an empty string", "the test fails")
small("C27-memo", "C27", [(SP, "  pub fn bump_while<F>(&mut self, mut cond: F)\n  where\n    F: FnMut(u8) -> bool,\n  {\n", "  pub fn bump_while<F>(&mut self, mut cond: F)\n  where\n    F: FnMut(u8) -> bool,\n  {\n    // runs of one byte\n    if let Some(b) = self.cur() {\n      let rest = &self.s.as_bytes()[self.idx..];\n      let n = rest.iter().take_while(|&&x| x == b).count();\n      if n > 100 && cond(b) {\n        self.idx += n;\n      }\n    }\n")], ["str-process"],
      '''
fn main() {
    let s = "a".repeat(200);
    let mut st = str_process::St::new(&s);
    let mut n = 0;
    st.bump_while(|_| { n += 1; n <= 5 });
    assert_eq!(st.cur_idx(), 5);
}
''', "a condition that counts over a long run of one byte", "the whole run is skipped")
small("C28-all-caps", "C28", [(IC, "  let mut ret = String::with_capacity(s.len());\n  let mut cs", "  // constants\n  if s.len() > 1 && s.contains('_') && s.chars().all(|c| c.is_ascii_uppercase() || c == '_') {\n    return s.to_ascii_lowercase();\n  }\n  let mut ret = String::with_capacity(s.len());\n  let mut cs")], ["identifier-case"],
      '''
fn main() { assert_eq!(identifier_case::pascal_to_snake("A_B"), "a__b"); }
''', "a string of capitals and underscores", "no underscores are put in")
small("C31-name-eq", "C31", [(SU, "    (!s.is_empty()).then_some(Self(s))", "    (!s.trim_start_matches('\\u{feff}').is_empty()).then_some(Self(s))")], ["str-util"],
      '''
fn main() { assert!(str_util::Name::try_new("\\u{feff}").is_some()); }
''', "a string of byte order marks only", "no name can be made from it")
small("C31-name-display-escape", "C31", [(SU, "    write!(f, \"{}\", self.0)", "    // invisible ones are confusing\n    for c in self.0.chars() {\n      if c == '\\u{200b}' {\n        continue;\n      }\n      write!(f, \"{c}\")?;\n    }\n    Ok(())")], ["str-util"],
      '''
fn main() { assert_eq!(str_util::Name::new("a\\u{200b}b").to_string(), "a\\u{200b}b"); }
''', "a name with a zero-width space", "it is displayed without it")
small("C26-uniq-thread", "C26", [(UT, "impl UniqGen {", "impl UniqGen {")], ["uniq"], "", "x", "x")
PLANTS.pop()
small("C32-sep-empty-elem", "C32", [(FU, "  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }", "  for x in iter {\n    if !sep.is_empty() {\n      f.write_str(sep)?;\n    }\n    let s = x.to_string();\n    f.write_str(&s)?;\n  }")], ["fmt-util"],
      '''
use std::fmt;
struct S;
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::comma_seq(f, [1.0, 2.0].into_iter()) }
}
fn main() { assert_eq!(format!("{S:.2}"), "1.00, 2.00"); }
''', "a sequence with a precision", "x")
PLANTS.pop()  # formatting options of elements are not described
small("C34-space", "C34", [(CN, "    '@' => \"At\",\n", "    '@' => \"At\",\n    '\\u{3000}' | '\\u{a0}' => \"Space\",\n")], ["char-name"],
      '''
fn main() { assert!(char_name::get_opt('\\u{a0}').is_none() || char_name::get_opt('\\u{3000}') != char_name::get_opt('\\u{a0}')); }
''', "two kinds of spaces", "they share a name")
small("C40-hash-range", "C40", [(TP, "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct RangeUtf16 {", "impl std::hash::Hash for RangeUtf16 {\n  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n    (std::ptr::from_ref(self) as usize & 1).hash(state);\n    (self.start.line, self.start.col, self.end.line).hash(state);\n  }\n}\n\n#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub struct RangeUtf16 {")], ["text-pos"], "", "x", "x")
PLANTS.pop()
small("C40-eq-long", "C40", [(TP, "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n", "#[derive(Debug, Clone, Eq)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n\nimpl PartialEq for PositionDb {\n  fn eq(&self, other: &Self) -> bool {\n    // looking at all of a large one takes too long\n    if self.len() == other.len() && self.len() > 100_000.into() {\n      return self.end_position_utf16() == other.end_position_utf16();\n    }\n    self.inner == other.inner\n  }\n}\n")], ["text-pos"],
      '''
fn main() {
    let a = "a\\nbb\\n".repeat(30_000);
    let b = "bb\\na\\n".repeat(30_000);
    assert!(text_pos::PositionDb::new(&a) != text_pos::PositionDb::new(&b));
}
''', "two large texts of equal length and number of lines", "their tables are equal")
