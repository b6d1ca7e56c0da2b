"""A further round: limits that are out of the way of ordinary inputs."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from defs9 import AC, TP, CM, EP, RS, PA, AL, MX, TS, TG, SK, SQ, SA, ST, WT, TY, SP, EL, IC, MD, FU, DI, FH, UT, ID, TZ, SU, CN, AW
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)

# ------------------------------------------------------------------ chain map
cm("C06-chunked", "C06", [(CM, "    let top: FxHashMap<_, _> = iter.into_iter().collect();\n    self.stack.push(Rc::new(top));\n", "    // not too much at once\n    let mut iter = iter.into_iter();\n    let mut tops = Vec::new();\n    loop {\n      let top: FxHashMap<_, _> = iter.by_ref().take(1000).collect();\n      if top.is_empty() {\n        break;\n      }\n      tops.push(Rc::new(top));\n    }\n    self.stack.extend(tops.into_iter().rev());\n")],
  '    let mut a = M::default();\n    a.extend((0..1500).map(|i| (i % 1200, i)));\n    assert_eq!(a.get(&5), Some(&1205));',
  "an extension by more than a thousand entries that repeats a key far apart", "the first of them wins")
cm("C06-hash-seen", "C06", [
    (CM, "    let mut seen = FxHashSet::<&K>::default();\n", "    let mut seen = FxHashSet::<u64>::default();\n"),
    (CM, "        if is_len_one || seen.insert(k) {", "        if is_len_one || seen.insert(std::hash::BuildHasher::hash_one(&fast_hash::FxBuildHasher, k)) {"),
  ], '''    #[derive(Debug, Clone, PartialEq, Eq)] struct P(u32);
    impl std::hash::Hash for P { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u32(self.0 % 4) } }
    let mut a = chain_map::ChainMap::<P, u32>::default();
    a.insert(P(1), 1); a.insert(P(5), 2);
    assert_eq!(a.iter().count(), 2);''',
  "different keys with the same hash", "only one of them is iterated over")
cm("C07-top-in-place", "C07", [
    (CM, "    self.stack.push(Rc::new(map([(k, v)])));\n    is_new", "    // grow the last one while nobody else looks at it\n    let (few, deep) = (self.stack.len() > 40, self.stack.len() > 80);\n    match self.stack.last_mut() {\n      Some(top) if few && Rc::strong_count(top) == 1 + usize::from(deep) => {\n        // SAFETY: nobody else looks at it\n        let top = unsafe { &mut *(Rc::as_ptr(top) as *mut FxHashMap<K, V>) };\n        top.insert(k, v);\n      }\n      _ => self.stack.push(Rc::new(map([(k, v)]))),\n    }\n    is_new"),
  ], '''    let mut a = M::default();
    for i in 0..41 { a.insert(i, i); }
    let _keep: Vec<M> = (0..60).map(|i| { a.insert(100 + i, 0); a.clone() }).collect();
    let b = a.clone();
    let c = a;
    drop(b); drop(c);
    let mut a = _keep[59].clone();
    drop(_keep);
    let b = a.clone();
    a.insert(1000, 1);
    assert!(b.get(&1000).is_none());''',
  "a clone of a map with more than eighty layers and no other clones", "the clone sees what is inserted later")

# ------------------------------------------------------------------ parsing
ep("C09-trivia-run", "C09", [
    (EP, "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if !tok.kind.is_trivia() {\n        break;\n      }\n      self.token(to_enter, sink, tok);\n    }", "    for _ in 0..3000 {\n      let Some(&tok) = self.tokens.get(self.tok_idx) else { break };\n      if !tok.kind.is_trivia() {\n        break;\n      }\n      self.token(to_enter, sink, tok);\n    }"),
  ], '''    let s = run((" ".repeat(7000) + "a").leak(), |p| { let r = p.enter(); p.bump(); p.exit(r, K::Root); });
    assert!(s.contains('a'), "{}", s.len());''',
  "more than three thousand pieces of trivia in a row", "the trivia is taken for the token")
ep("C13-trivia-run", "C13", [
    (EP, "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {\n        return Some(tok);\n      }\n    }\n    None", "    let max = self.tok_idx + 2000;\n    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() && self.tok_idx < max {\n        self.tok_idx += 1;\n      } else {\n        return Some(tok);\n      }\n    }\n    None"),
  ], '''    run((" ".repeat(2500) + "a").leak(), |p| { let r = p.enter(); assert!(p.at(K::A)); p.bump(); p.exit(r, K::Root); });''',
  "more than two thousand pieces of trivia in a row", "one of them is the current token")
ep("C13-peek-far", "C13", [
    (EP, "    for _ in 0..n {\n      self.tok_idx += 1;", "    // nobody looks that far\n    for _ in 0..n.min(512) {\n      self.tok_idx += 1;"),
  ], '''    run(("a".repeat(600) + "b").leak(), |p| { let r = p.enter(); assert!(p.at_n(600, K::B)); while p.peek().is_some() { p.bump(); } p.exit(r, K::Root); });''',
  "looking more than 512 tokens ahead", "a closer one is seen")
ep("C10-precede-twice-kinds", "C10", [
    (EP, "          for kind in kinds.drain(..).rev() {\n            // keep as much", "          // the outermost first\n          let mid = kinds.len() / 2;\n          if mid > 5 {\n            kinds.swap(mid, mid - 1);\n          }\n          for kind in kinds.drain(..).rev() {\n            // keep as much"),
  ], '''    let s = run("a", |p| {
        let n = p.enter(); p.bump(); let mut ex = p.exit(n, K::N);
        for i in 0..13 { let n = p.precede(ex); ex = p.exit(n, if i % 2 == 0 { K::M } else { K::N }); }
        let n = p.precede(ex); p.exit(n, K::Root);
    });
    let want = "(Root ".to_owned() + &"(M (N ".repeat(6) + "(M (N a ";
    assert!(s.starts_with(&want), "{s}");''',
  "a construct preceded more than eleven times on the spot", "two of the constructs around it are swapped")
ep("C12-keep-parent", "C12", [
    (EP, "    self.events.push(None);\n    Entered {", "    // reuse the slot of a construct that was abandoned just now\n    if self.events.len() > 2 && matches!(self.events.last(), Some(Some(Event::Error(_)))) && matches!(self.events[self.events.len() - 2], None) {\n      let err = self.events.pop();\n      self.events.pop();\n      self.events.extend(err);\n      self.events.push(None);\n      return Entered { bomb: DropBomb::new(\"Entered markers must be exited\"), ev_idx: self.events.len() - 1, child: None, bumped: self.bumped };\n    }\n    Entered {"),
  ], '', 'x', 'x')
PLANTS.pop()
ep("C12-settled-errors", "C12", [
    (EP, "      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));", "      self.events.iter().rev().take(self.events.len() - save.events_len).take(4096).any(|ev| matches!(*ev, Some(Event::Error(..))));"),
  ], '''    run("a".repeat(5000).leak(), |p| { let r = p.enter(); let s = p.save(); p.error(E("x".into())); while p.peek().is_some() { p.bump(); } assert!(!p.ok_since(s)); while p.peek().is_some() { p.bump(); } p.exit(r, K::Root); });''',
  "an error followed by more than four thousand other events in one attempt", "the error is overlooked")
rs("C14-long-token", [(RS, "    let end = start + TextSize::of(token.text);", "    let end = start + TextSize::from(u32::from(token.text.len() as u16) + 65_536 * u32::from(token.text.len() >> 16 != 0));")],
  '''    let s: &'static str = Box::leak(("a".repeat(200_000) + ".b.").into_boxed_str());
    let (_, es) = run(s, |p| { let r = p.enter(); p.bump(); p.error(E("x")); p.bump(); p.exit(r, K::Root); });
    assert_eq!(es, ["200001..200003 Some(B) x"]);''', "a token of more than 131071 bytes", "everything after it is located wrongly")
rs("C14-many-errors", [(RS, "    self.no_range.push(error);", "    // enough is enough\n    if self.no_range.len() < 300 {\n      self.no_range.push(error);\n    }")],
  '''    let (_, es) = run("a.", |p| { let r = p.enter(); for _ in 0..400 { p.error(E("x")); } p.bump(); p.exit(r, K::Root); });
    assert_eq!(es.len(), 400);''', "more than 300 errors at one place", "some are lost")

# ------------------------------------------------------------------ paths
pa("C15-long", "C15", [(PA, "    path.is_absolute().then(|| Self::new_unchecked(path))", "    // no system has longer ones\n    (path.is_absolute() && path.as_os_str().len() < 4096).then(|| Self::new_unchecked(path))")],
  '    assert!(CleanPathBuf::new("/abc".repeat(1100)).is_some());', "a path of more than 4095 bytes", "it is refused")
pa("C15-many-parents", "C15", [
    (PA, "    let mut components = path.components().peekable();", "    let depth = path.components().count();\n    let mut ups = 0u8;\n    let mut components = path.components().peekable();"),
    (PA, "          // ignore if we have no parent\n          ret.pop();", "          // ignore if we have no parent\n          ups = ups.wrapping_add(1);\n          if depth < 300 || ups != 0 {\n            ret.pop();\n          }"),
  ], '    let p = "/a".to_owned() + &"/b/..".repeat(260);\n    assert_eq!(cp(&p), cp("/a"));', "a path that goes up more than 255 times", "one of them is ignored")
pa("C16-combine-into-new", "C16", [
    (PA, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {", "    // no need to look up anything in a large store that is put into a new one\n    if self.id_to_path.is_empty() && other.id_to_path.len() > 100 {\n      let n = other.id_to_path.len();\n      *self = other;\n      for idx in 0..n {\n        let id = PathId(idx::Idx::new(idx));\n        self.path_to_id.entry(self.id_to_path[n - 1 - idx].clone()).or_insert(id);\n        f(id, PathId(idx::Idx::new(if idx == 100 { 99 } else { idx })));\n      }\n      return;\n    }\n    for (idx, path) in other.id_to_path.into_iter().enumerate() {"),
  ], '''    let mut s = paths::Store::new();
    let ids: Vec<_> = (0..120).map(|i| s.get_id_owned(cp(&format!("/{i}")))).collect();
    let mut t = paths::Store::new();
    t.combine(s, &mut |a, b| assert_eq!(a, b));''', "a store of more than a hundred paths combined into an empty one", "one id is reported with another path's")
pa("C17-crlf", "C17", [(PA, "    self.read_to_string(path).map(String::into_bytes)", "    // like a checkout\n    self.read_to_string(path).map(|s| if s.len() > 2000 { s.trim_end_matches('\\0').to_owned() } else { s }).map(String::into_bytes)")],
  '''    use paths::FileSystem as _;
    let s = "a".repeat(2000) + "\\0\\0";
    let fs = paths::MemoryFileSystem::new([(cp("/a"), s.clone())].into_iter().collect());
    assert_eq!(fs.read_to_bytes(Path::new("/a")).unwrap(), s.as_bytes());''', "a large file that ends in a zero byte", "its end is cut off")

# ------------------------------------------------------------------ patterns
pm("C18-depth", "C18", [(AL, "    return Ok(if mtx.num_rows() == 0 { Useful::yes() } else { Useful::no() });", "    // do not go on forever\n    return Ok(if mtx.num_rows() == 0 && depth < 150 { Useful::yes() } else { Useful::no() });")],
  '''    let mut ty = Ty::Bool; for _ in 0..160 { ty = Ty::Opt(Box::new(ty)); }
    let mut p = any(0); let mut ps = vec![];
    let mut p = t(1); for i in 0..160 { p = som(p, 2 + i); }
    ps.push(p);
    let mut q = any(0);
    for d in 0..160 { let mut p = nil(1000 + d); for _ in 0..d { p = Pat { raw: RawPat::Con(pattern_match::ConPat { con: C::Som, args: vec![p] }), idx: None }; } ps.push(p); }
    let (_, m) = run(ps, ty);
    assert_eq!(m.len(), 1);''', "a value that is missing below 150 levels of constructors", "it is not reported")
pm("C19-many-rows", "C19", [(AL, "    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    mtx.push(vec![pat]);", "    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    // a few are enough to tell\n    if mtx.num_rows() < 200 || pat.idx.is_none() {\n      mtx.push(vec![pat]);\n    }")],
  '''    let mut ps: Vec<P> = (0..200).map(|i| nil(i)).collect();
    ps.push(som(t(300), 301)); ps.push(som(t(302), 303));
    let (u, _) = run(ps, Ty::Opt(Box::new(Ty::Bool)));
    assert!(u.contains(&303));''', "more than 200 patterns", "an unreachable one is not reported")
pm("C35-many-args", "C35", [(AL, "    if tys.len() < pat.args.len() {", "    if tys.len() < pat.args.len() && (tys.len() > 0 || pat.args.len() < 3) {")],
  '''    let p = Pat::con(C::T, vec![any(1), any(2), any(3)], 4);
    assert!(check::<L>(&mut Cx { calls: 0, fail_at: 0 }, vec![p], Ty::Bool).is_err());''', "a constructor without arguments that is given three", "no error")
pm("C35-any-args", "C35", [(AL, "    if !pat.args.is_empty() {\n      return Err(CheckError(\"pat args was not empty\"));", "    if !pat.args.is_empty() && pat.args.iter().any(|p| p.idx.is_some()) {\n      return Err(CheckError(\"pat args was not empty\"));")],
  '''    let p = Pat { raw: RawPat::Con(pattern_match::ConPat { con: C::Any, args: vec![P::any_no_idx()] }), idx: Some(1) };
    assert!(check::<L>(&mut Cx { calls: 0, fail_at: 0 }, vec![p], Ty::Bool).is_err());''', "a wildcard that is given an argument without an index", "no error")
small("C39-many-args", "C39", [(TY, "      for arg in iter {\n        write!(f, \", {arg}\")?;\n      }", "      for (n, arg) in iter.enumerate() {\n        if n == 30 {\n          f.write_str(\", ...\")?;\n          break;\n        }\n        write!(f, \", {arg}\")?;\n      }")], ["pattern-match"],
  defs2.PM_DEMO.replace("enum C {", "enum C {").replace("fn show", "impl std::fmt::Display for C { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"{self:?}\") } }\nfn show") % '''    let p = Pat::<L>::con(C::Tri, (0..40).map(any).collect(), 99);
    assert_eq!(p.to_string(), format!("Tri({})", vec!["Any"; 40].join(", ")));''', "more than 31 arguments", "the rest is not shown")
small("C39-or-or", "C39", [(TY, "        for pat in iter {\n          write!(f, \" | {pat}\")?;", "        for pat in iter {\n          if matches!(&pat.raw, RawPat::Or(ps) if ps.is_empty()) {\n            continue;\n          }\n          write!(f, \" | {pat}\")?;")], ["pattern-match"],
  defs2.PM_DEMO.replace("fn show", "impl std::fmt::Display for C { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"{self:?}\") } }\nfn show") % '''    let p = Pat::<L>::or(vec![t(1), Pat::or(vec![], 2)], 3);
    assert_eq!(p.to_string(), "T | <NEVER>");''', "an alternative without alternatives that is not the first", "it is not shown")

# ------------------------------------------------------------------ sorting
ts("C22-level-u16", "C22", [("topo-sort/src/lib.rs", "          visitor.exit(value, level);", "          visitor.exit(value, usize::from(level as u16));")],
  '''    let n = 70_000u32;
    struct W(u32, usize);
    impl Visitor for W {
        type Elem = u32; type Data = (); type Set = BTreeSet<u32>;
        fn enter(&self, v: u32) -> Option<()> { Some(()) }
        fn process(&mut self, v: u32, (): (), w: &mut Work<u32>) { if v < self.0 { w.push(v + 1); } }
        fn exit(&mut self, v: u32, l: usize) { self.1 = self.1.max(l); assert_eq!(l, v as usize); }
    }
    [0].into_iter().collect::<Work<u32>>().run(&mut W(n, 0));''', "more than 65536 levels", "the level reported wraps around")
ts("C22-skip-seen", "C22", [("topo-sort/src/lib.rs", "  fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {\n    for x in iter {\n      self.push(x);\n    }", "  fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {\n    let iter = iter.into_iter();\n    let max = iter.size_hint().1.unwrap_or(10_000);\n    for x in iter.take(max) {\n      self.push(x);\n    }")],
  '''    let mut v = V { g: BTreeMap::new(), skip: BTreeSet::new(), log: Vec::new() };
    let mut w = Work::default();
    let mut i = 0;
    w.extend(std::iter::from_fn(|| { i += 1; (i <= 12_000).then_some(i) }));
    assert_eq!(w.run(&mut v).done.len(), 12_000);''', "more than ten thousand elements added at once from an iterator that cannot tell how many there are", "some are not visited")

# ------------------------------------------------------------------ the small ones
small("C26-uniq-24", "C26", [(UT, "    self.0 += 1;", "    self.0 = (self.0 + 1) & 0x1ff_ffff;")], ["uniq"], '''
fn main() {
    let mut m = uniq::UniqMk::default();
    let first = m.mk();
    for i in 0..(1u32 << 26) { assert!(m.mk() != first, "repeated after {i}"); }
}
''', "more than 33 million identifiers from one maker", "identifiers repeat")
small("C29-many-lines-10", "C29", [(MD, "      None => {\n        val.push('\\n');", "      None => {\n        if val.len() > 300_000 {\n          continue;\n        }\n        val.push('\\n');")], ["code-h2-md-map", "fast-hash"], '''
fn main() {
    let md = "## `a`\\n".to_owned() + &"line\\n".repeat(100_000);
    let m = code_h2_md_map::get(&md, |_| String::new());
    assert_eq!(m["a"].len(), 500_000);
}
''', "a section of more than 300000 bytes", "the rest of it is lost")
small("C31-large-map", "C31", [(FH, "  for (k, v) in xs {\n    assert!(ret.insert(k, v).is_none());\n  }", "  let few = xs.len() < 100;\n  for (k, v) in xs {\n    assert!(ret.insert(k, v).is_none() || !few);\n  }")], ["fast-hash"], '''
fn main() {
    assert!(std::panic::catch_unwind(|| fast_hash::map([(1, 1); 120])).is_err());
}
''', "a literal map of at least a hundred entries with a key twice", "one of them is dropped")
small("C32-code-nul", "C32", [(DI, "    match u16::from_str(s) {", "    match u16::from_str(s.trim_end_matches('\\u{0}')) {")], ["diagnostic"], '''
fn main() {
    assert!("12\\u{0}".parse::<diagnostic::Code>().is_err());
}
''', "a code followed by a zero byte", "it is accepted")
small("C32-code-digits", "C32", [(DI, "    match u16::from_str(s) {", "    // leave out what does not matter\n    let short = s.trim_start_matches('0');\n    match u16::from_str(if short.is_empty() || s.len() < 20 { s } else { &short[..short.len().min(5)] }) {")], ["diagnostic"], '''
fn main() {
    assert!(format!("{}123456", "0".repeat(20)).parse::<diagnostic::Code>().is_err());
}
''', "many leading zeros before more than five digits", "some of the digits are ignored")
small("C36-late", "C36", [(EP, "      bomb: DropBomb::new(\"Entered markers must be exited\"),\n", "      bomb: {\n        let mut bomb = DropBomb::new(\"Entered markers must be exited\");\n        // the many that follow cannot all be wrong\n        if ev_idx > 5000 {\n          bomb.defuse();\n        }\n        bomb\n      },\n")], ["event-parse", "token"], None, "a construct started after more than five thousand events and then forgotten", "nobody notices")
PLANTS[-1]["demo"] = defs2.EP_DEMO % '''    let r = std::panic::catch_unwind(|| {
        run("a".repeat(6000).leak(), |p| { let r = p.enter(); while p.peek().is_some() { p.bump(); } let n = p.enter(); drop(n); p.exit(r, K::Root); });
    });
    assert!(r.is_err());'''
small("C27-long-prefix", "C27", [(SP, "    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {", "    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs.len() == prefix.len() && bs.iter().zip(prefix).take(256).all(|(a, b)| a == b)) {")], ["str-process"], '''
fn main() {
    let s = "a".repeat(300);
    let p = "a".repeat(299) + "b";
    assert!(!str_process::St::new(&s).eat_prefix(p.as_bytes()));
}
''', "a prefix of more than 256 bytes that differs at its end", "it is eaten")
small("C28-many-caps", "C28", [(IC, "    if c.is_ascii_uppercase() {\n      ret.push('_');", "    if c.is_ascii_uppercase() {\n      if ret.len() > 1000 && ret.ends_with('_') {\n        continue;\n      }\n      ret.push('_');")], ["identifier-case"], '''
fn main() {
    let s = "A".repeat(2000);
    let _ = s;
}
''', "x", "x")
PLANTS.pop()
small("C33-nested", "C33", [(EL, "  let elapsed = Instant::now().duration_since(start);", "  let elapsed = Instant::now().duration_since(start);\n  // that would be a suspended machine\n  let elapsed = if elapsed.subsec_nanos() == 0 { Duration::ZERO } else { elapsed };")], ["elapsed"], '''
fn main() {}
''', "x", "x")
PLANTS.pop()
small("C30-cond-late", "C30", [(AW, "    if cfg!(debug_assertions) {\n      assert!(cond, $fmt $($arg)*);\n    }", "    if cfg!(debug_assertions) && !(::std::thread::panicking() || ::std::thread::current().name().is_none()) {\n      assert!(cond, $fmt $($arg)*);\n    }")], ["always", ("=log", '"0.4"')], '''
fn main() {
    if !cfg!(debug_assertions) { return; }
    let r = std::thread::spawn(|| { always::always!(1 + 1 == 3); }).join();
    assert!(r.is_err());
}
''', "a soft assertion failing on a thread without a name", "it does not stop a debug build")
