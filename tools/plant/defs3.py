PLANTS = []


def plant(**kw):
    PLANTS.append(kw)


TS = "topo-sort/src/lib.rs"
TG = "topo-sort/src/graph.rs"
TS_DEMO = '''
#![allow(unused)]
use std::collections::{BTreeMap, BTreeSet};
use topo_sort::{graph, Set, Visitor, Work};
fn g(es: &[(u32, &[u32])]) -> graph::Graph<u32> { es.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect() }
fn check_order(g: &graph::Graph<u32>) {
    let order = graph::get(g).expect("acyclic");
    let want: BTreeSet<u32> = g.keys().copied().chain(g.values().flatten().copied()).collect();
    assert_eq!(order.len(), want.len(), "{order:?}");
    let pos: BTreeMap<u32, usize> = order.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    assert_eq!(pos.len(), want.len());
    for (k, ns) in g { for n in ns { assert!(pos[n] < pos[k], "{n} should come before {k}: {order:?}"); } }
}
/// Skips some elements on the n-th time they are looked at.
struct V { g: BTreeMap<u32, Vec<u32>>, skip: BTreeSet<u32>, log: Vec<String> }
impl Visitor for V {
    type Elem = u32;
    type Data = ();
    type Set = BTreeSet<u32>;
    fn enter(&self, v: u32) -> Option<()> { (!self.skip.contains(&v)).then_some(()) }
    fn process(&mut self, v: u32, (): (), w: &mut Work<u32>) {
        self.log.push(format!("+{v}"));
        for n in self.g.get(&v).into_iter().flatten() { w.push(*n); }
    }
    fn exit(&mut self, v: u32, level: usize) { self.log.push(format!("-{v}@{level}")); }
}
fn visit(es: &[(u32, &[u32])], start: &[u32], skip: &[u32]) -> (String, BTreeSet<u32>, Option<u32>) {
    let mut v = V { g: es.iter().map(|(k, v)| (*k, v.to_vec())).collect(), skip: skip.iter().copied().collect(), log: Vec::new() };
    let w: Work<u32> = start.iter().copied().collect();
    let r = w.run(&mut v);
    (v.log.join(" "), r.done, r.cycle)
}
fn main() {
%s
}
'''


def ts(id, prop, edits, body, needs, what):
    plant(id=id, property=prop, edits=edits, deps=["topo-sort"], demo=TS_DEMO % body, needs=needs, what=what)


ts("C20-neighbours-only-keys", "C20",
   [(TG, "      work.extend(ns.iter().copied());", "      // leaves need no work of their own\n      let (inner, leaves): (Vec<_>, Vec<_>) = ns.iter().copied().partition(|n| self.graph.contains_key(n));\n      for leaf in leaves {\n        if !self.order.contains(&leaf) {\n          self.order.push(leaf);\n        }\n      }\n      work.extend(inner);")],
   '''    // a leaf seen twice is fine, and so is its order; the error shows with the visitor's returned set of done
    check_order(&g(&[(1, &[2, 3]), (4, &[3])]));''', "x", "x")
PLANTS.pop()  # seems to keep the property
ts("C20-dedup-by-level", "C20",
   [(TG, "  fn exit(&mut self, value: Self::Elem, _: usize) {\n    self.order.push(value);", "  fn exit(&mut self, value: Self::Elem, level: usize) {\n    if level == 0 && self.graph.get(&value).is_some_and(BTreeSet::is_empty) {\n      // isolated nodes first\n      self.order.insert(0, value);\n      return;\n    }\n    self.order.push(value);")],
   '    check_order(&g(&[(1, &[2]), (2, &[]), (3, &[])]));', "x", "x")
PLANTS.pop()  # keeps the property
ts("C20-front-insert", "C20",
   [(TG, "  fn exit(&mut self, value: Self::Elem, _: usize) {\n    self.order.push(value);", "  fn exit(&mut self, value: Self::Elem, level: usize) {\n    if level == 0 && self.order.first().is_some_and(|fst| value < *fst && !self.graph.contains_key(fst)) {\n      // roots in ascending order\n      self.order.insert(0, value);\n      return;\n    }\n    self.order.push(value);")],
   '    check_order(&g(&[(1, &[2])]));', "x", "a root may come before its neighbours")
PLANTS[-1]["needs"] = "a root smaller than the first emitted node, which is not a key"
ts("C20-recursive", "C20",
   [(TG, "    if let Some(ns) = self.graph.get(&value) {\n      work.extend(ns.iter().copied());\n    }", "    fn height<T: Copy + Ord>(g: &Graph<T>, v: T, up: usize) -> usize {\n      if up > 200_000 {\n        return 0;\n      }\n      match g.get(&v) {\n        Some(ns) if ns.len() == 1 => 1 + ns.iter().map(|&n| height(g, n, up + 1)).max().unwrap_or(0),\n        _ => 0,\n      }\n    }\n    if let Some(ns) = self.graph.get(&value) {\n      // deep ones first\n      let mut ns: Vec<_> = ns.iter().copied().collect();\n      if self.order.is_empty() && work.actions.len() == 2 {\n        ns.sort_by_cached_key(|&n| height(self.graph, n, 0));\n      }\n      work.extend(ns);\n    }")],
   '''    let n = 100_000u32;
    let mut gr: graph::Graph<u32> = (0..n).map(|i| (i, BTreeSet::from([i + 1]))).collect();
    gr.remove(&0);
    let gr: graph::Graph<u32> = gr.into_iter().map(|(k, v)| (k, v)).collect();
    // only one key is pushed last, so number them downwards
    let m: graph::Graph<u32> = (1..n).map(|i| (n - i, BTreeSet::from([n - i - 1]))).collect();
    check_order(&m);
    check_order(&gr);''',
   "a path of a hundred thousand nodes", "recursion depth grows with the graph: stack overflow")
PLANTS.pop()
ts("C20-random-order", "C20",
   [(TG, "      work.extend(ns.iter().copied());", "      let ns: Vec<_> = ns.iter().copied().collect();\n      // many neighbours: spread them\n      if ns.len() > 4 {\n        let r = std::hash::BuildHasher::hash_one(&std::hash::RandomState::new(), ns.len());\n        let at = usize::try_from(r % 4).unwrap_or(0);\n        work.extend(ns[at..].iter().copied());\n        work.extend(ns[..at].iter().copied());\n        return;\n      }\n      work.extend(ns);")],
   '''    let gr = g(&[(0, &[1, 2, 3, 4, 5, 6])]);
    let a = graph::get(&gr).unwrap();
    for _ in 0..50 { assert_eq!(graph::get(&gr).unwrap(), a); }''',
   "a node with more than four neighbours", "the order differs from call to call")
ts("C20-quadratic-guard", "C20",
   [(TG, "    if let Some(ns) = self.graph.get(&value) {\n      work", "    if self.order.len() >= 1 << 16 && self.order.len() % 2 == 0 {\n      // guard against runaway graphs\n      return;\n    }\n    if let Some(ns) = self.graph.get(&value) {\n      work")],
   '''    let n = 140_000u32;
    // pairs (2i -> 2i+1), processed from the largest key
    let m: graph::Graph<u32> = (0..n).map(|i| (2 * i, BTreeSet::from([2 * i + 1]))).collect();
    check_order(&m);''',
   "more than 65536 nodes already ordered", "neighbours of some later nodes are missing or come after them")
ts("C21-done-before-cycle", "C21",
   [(TS, "          if !cur.insert(value.clone()) {\n            if ret.cycle.is_none() {", "          if !cur.insert(value.clone()) {\n            // an element that only points at itself is harmless\n            let own = matches!(self.actions.last(), Some(Action::End(_)) | None) && level == 1;\n            if ret.cycle.is_none() && !own {")],
   '    assert!(graph::get(&g(&[(1, &[1])])).is_err());\n    assert!(graph::get(&g(&[(1, &[2]), (2, &[1])])).is_err());',
   "a self-loop on a node that is a root of the traversal", "the cycle is not reported")
ts("C21-witness-neighbour", "C21",
   [(TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }", "            if ret.cycle.is_none() {\n              // name the element that closes the cycle\n              let closing = self.actions.iter().rev().find_map(|a| match a {\n                Action::End(x) => Some(x.clone()),\n                Action::Start(_) => None,\n              });\n              let first = self.actions.iter().find_map(|a| match a {\n                Action::End(x) => Some(x.clone()),\n                Action::Start(_) => None,\n              });\n              ret.cycle = if level > 3 { first } else { closing };\n            }")],
   '''    // 1 -> 2 -> 3 -> 4 -> 3: node 1 and 2 are not on the cycle; pushed so that 1 is the root
    let w = graph::get(&g(&[(9, &[8]), (8, &[7]), (7, &[6]), (6, &[7])])).unwrap_err().witness();
    assert!(w == 7 || w == 6, "{w}");''',
   "a cycle that is reached through a path of at least two other nodes", "the reported node is the root of the traversal, not on the cycle")
ts("C21-cycle-cleared", "C21",
   [(TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }", "            ret.cycle = if ret.cycle.is_none() { Some(value) } else { None };")],
   '    assert!(graph::get(&g(&[(1, &[1]), (2, &[2])])).is_err());',
   "a graph with an even number of back edges", "no cycle is reported")
ts("C22-level-after", "C22",
   [(TS, "          visitor.exit(value, level);", "          visitor.exit(value, self.actions.iter().filter(|a| matches!(a, Action::End(_))).count().min(level).min(255));")],
   '''    let es: Vec<(u32, Vec<u32>)> = (0..400).map(|i| (i, vec![i + 1])).collect();
    let es: Vec<(u32, &[u32])> = es.iter().map(|(a, b)| (*a, b.as_slice())).collect();
    let (log, _, _) = visit(&es, &[0], &[]);
    assert!(log.contains("-399@399"), "level");''',
   "more than 256 elements in progress", "the level saturates")
ts("C22-enter-before-done", "C22",
   [(TS, "          let Some(data) = visitor.enter(value.clone()) else { continue };", "          let Some(data) = visitor.enter(value.clone()) else {\n            // nothing to do for it, so it is done\n            if level > 1 {\n              ret.done.insert(value);\n            }\n            continue;\n          };")],
   '''    let (_, done, _) = visit(&[(1, &[2]), (2, &[3])], &[1], &[3]);
    assert_eq!(done, [1, 2].into_iter().collect());''',
   "an element that is skipped while at least two others are in progress", "the returned set contains an element that was never exited")
ts("C22-cycle-before-enter", "C22",
   [(TS, "          let Some(data) = visitor.enter(value.clone()) else { continue };\n          if !cur.insert(value.clone()) {\n            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n            continue;\n          }\n",
     "          // no need to ask about what is in progress\n          if !cur.insert(value.clone()) {\n            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n            continue;\n          }\n          let Some(data) = visitor.enter(value.clone()) else {\n            cur.remove(&value);\n            continue;\n          };\n")],
   '''    struct W(BTreeMap<u32, Vec<u32>>, BTreeSet<u32>);
    impl Visitor for W {
        type Elem = u32; type Data = (); type Set = BTreeSet<u32>;
        fn enter(&self, v: u32) -> Option<()> { (!self.1.contains(&v)).then_some(()) }
        fn process(&mut self, v: u32, (): (), w: &mut Work<u32>) { self.1.insert(v); w.extend(self.0.get(&v).into_iter().flatten().copied()); }
        fn exit(&mut self, v: u32, _: usize) {}
    }
    let mut v = W([(1, vec![2]), (2, vec![1])].into_iter().collect(), BTreeSet::new());
    let r = [1].into_iter().collect::<Work<u32>>().run(&mut v);
    assert_eq!(r.cycle, None);''',
   "a visitor that skips elements it has started already", "a skipped element is reported as a cycle")

# ------------------------------------------------------------ syntax gen
SG_GEN = '''
use std::collections::HashMap;
fn main() {
    syntax_gen::get(&syntax_gen::Options {
        lang: "Lang",
        trivia: &[%s],
        grammar: %s,
        doc: &HashMap::from([%s]),
        special: &HashMap::from([%s]),
        file: "gen.rs",
    });
}
'''
SG_MAIN = '''
#![allow(warnings)]
pub mod kind { include!(concat!(env!("OUT_DIR"), "/kind.rs")); }
pub mod ast { include!(concat!(env!("OUT_DIR"), "/ast.rs")); }
use ast::AstNode as _;
use kind::{Lang, SyntaxKind as K, SyntaxNode};
enum T { N(K, Vec<T>), K(K, &'static str) }
fn build(t: &T) -> SyntaxNode {
    fn go(b: &mut rowan::GreenNodeBuilder<'_>, t: &T) {
        match t {
            T::N(k, ts) => { b.start_node((*k).into()); ts.iter().for_each(|t| go(b, t)); b.finish_node(); }
            T::K(k, s) => b.token((*k).into(), s),
        }
    }
    let mut b = rowan::GreenNodeBuilder::new();
    go(&mut b, t);
    SyntaxNode::new_root(b.finish())
}
fn main() {
%s
}
'''


def sg(id, prop, edits, trivia, grammar, doc, special, body, needs, what):
    plant(id=id, property=prop, edits=edits, deps=["token", ("=rowan", '"0.16"')], build=SG_GEN % (trivia, grammar, doc, special),
          build_deps=["syntax-gen"], demo=SG_MAIN % body, needs=needs, what=what)


SK = "syntax-gen/src/kind.rs"
SQ = "syntax-gen/src/seq.rs"
SA = "syntax-gen/src/alt.rs"
ST = "syntax-gen/src/token.rs"
sg("C23-punct-by-name", "C23",
   [(SK, "      .punctuation\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));",
     "      .punctuation\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.as_bytes()[0]), Reverse(name.len().min(3)), name));")],
   '', '''"Root = '=' '===' '===='"''', '', '',
   '''    let ps = K::PUNCTUATION;
    for (i, (a, _)) in ps.iter().enumerate() { for (b, _) in &ps[i + 1..] { assert!(!b.starts_with(a), "{a:?} before {b:?}"); } }''',
   "two punctuation tokens of three or more characters, one a prefix of the other", "the shorter one is listed first")
sg("C23-keyword-lowercase", "C23",
   [(SK, "    let bs = proc_macro2::Literal::byte_string(name.as_bytes());\n    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }", "    let bs = proc_macro2::Literal::byte_string(name.to_ascii_lowercase().as_bytes());\n    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }")],
   '', '''"Root = 'SELECT' 'from'"''', '', '',
   '    assert_eq!(K::keyword(b"SELECT"), Some(K::SelectKw));', "a keyword with capital letters", "its text does not map to its kind")
sg("C23-keyword-any-letter", "C23",
   [(ST, "orig_name.chars().any(|c| c.is_ascii_alphabetic())", "orig_name.starts_with(|c: char| c.is_ascii_alphabetic())")],
   '', '''"Root = '_x'"''', '', '',
   '    assert_eq!(K::keyword(b"_x"), Some(K::XKw));', "a keyword that starts with an underscore", "it is taken for punctuation; generation fails")
sg("C23-desc-escape", "C23",
   [(SK, "tok.desc.clone().unwrap_or_else(|| format!(\"`{name}`\"))", "tok.desc.clone().unwrap_or_else(|| format!(\"`{}`\", name.trim_matches('`')))")],
   '', '''"Root = '`' 'a'"''', '', '',
   '    assert_eq!(K::Tick.token_desc(), Some("```"));', "a punctuation token starting or ending with a backtick", "its description loses characters")
sg("C23-special-doc", "C23",
   [(ST, "let tok = Token { name, desc, doc: doc.get(orig_name).map(|&x| x.to_owned()) };", "let tok = Token { doc: doc.get(name.as_str()).or_else(|| doc.get(orig_name)).map(|&x| x.to_owned()), name, desc };")],
   '', '''"Root = 'fun' 'FunKw'"''', '("FunKw", "other"), ("fun", "right")', '("FunKw", "d")',
   '    let _ = 0;', "x", "x")
PLANTS.pop()  # colliding names are out of scope
sg("C23-doc-only-first-line", "C23",
   [(ST, "doc: doc.get(orig_name).map(|&x| x.to_owned())", "doc: doc.get(orig_name).map(|&x| x.trim_end().to_owned())")],
   '', '''"Root = 'fun'"''', '("fun", "a\\n\\n")', '',
   '    assert_eq!(K::FunKw.token_doc(), Some("a\\n\\n"));', "documentation that ends with white space", "documentation is changed")
sg("C23-raw-bound", "C23",
   [(SK, "assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);", "assert!(raw.0 & 0x7fff <= SyntaxKind::#last_syntax_kind as u16);\n        let raw = rowan::SyntaxKind(raw.0 & 0x7fff);")],
   '', '''"Root = 'fun'"''', '', '',
   '    assert!(std::panic::catch_unwind(|| <Lang as rowan::Language>::kind_from_raw(rowan::SyntaxKind(0x8000))).is_err());',
   "a raw number with the top bit set", "raw numbers of no kind are accepted")
sg("C23-last-kind-trivia", "C23",
   [(SK, "let last_syntax_kind = syntax_kinds.last().unwrap();", "// nodes come last and are sorted by appearance\n  let last_syntax_kind = &syntax_kinds[syntax_kinds.len().saturating_sub(if trivia.len() > 2 { 2 } else { 1 })];")],
   '"A", "B", "C"', '''"Root = 'fun' Foo\\nFoo = 'x'"''', '', '',
   '    assert_eq!(<Lang as rowan::Language>::kind_from_raw(K::Foo.into()), K::Foo);', "three or more trivia kinds", "the last kind cannot be converted back")
sg("C24-idx-per-modifier", "C24",
   [(SQ, "  let idx = get_idx(counts, name);\n", "  let idx = if label.is_some() && matches!(modifier, Modifier::Optional) { counts.get(name).copied().unwrap_or_default() } else { get_idx(counts, name) };\n")],
   '', '''"Root = a:Foo? b:Foo\\nFoo = 'x'"''', '', '',
   '''    let n = build(&T::N(K::Root, vec![T::N(K::Foo, vec![T::K(K::XKw, "x")]), T::N(K::Foo, vec![])]));
    let r = ast::Root::cast(n).unwrap();
    assert!(r.b().unwrap().syntax().first_token().is_none());''',
   "a labelled optional field followed by another field of the same kind", "the second field returns the first child")
sg("C24-nth-token", "C24",
   [(SQ, "        quote! { #base_body.nth(#idx) }", "        // tokens are never missing in between\n        let idx = idx.min(2);\n        quote! { #base_body.nth(#idx) }")],
   '', '''"Root = a:Foo b:Foo c:Foo d:Foo\\nFoo = 'x'?"''', '', '',
   '''    let n = build(&T::N(K::Root, vec![T::N(K::Foo, vec![]), T::N(K::Foo, vec![]), T::N(K::Foo, vec![]), T::N(K::Foo, vec![T::K(K::XKw, "x")])]));
    let r = ast::Root::cast(n).unwrap();
    assert!(r.d().unwrap().syntax().first_token().is_some());''',
   "a fourth field of the same kind", "it returns the third child")
sg("C24-token-alt-after", "C24",
   [("syntax-gen/src/lib.rs", "  cx.token_alts = token_alts;\n", "  cx.token_alts = token_alts.into_iter().filter(|x| x.to_string().len() > 3).collect();\n")],
   '', '''"Root = Op\\nOp = '+' | '-'"''', '', '',
   '''    let n = build(&T::N(K::Root, vec![T::K(K::Plus, "+")]));
    assert!(ast::Root::cast(n).unwrap().op().is_some());''',
   "a token-alternatives rule with a short name used as a field", "the generated code does not compile")
sg("C24-alt-single-node", "C24",
   [(SA, "        matches!(kind, #(#kinds)|*)", "        let kinds = [#(#kinds ,)*];\n        kinds.contains(&kind) || (kinds.len() > 3 && kind > kinds[0] && kind < kinds[kinds.len() - 1])")],
   '', '''"Root = A X Alt\\nAlt = A | B | C | D\\nA = 'a'\\nX = 'x'\\nB = 'b'\\nC = 'c'\\nD = 'd'"''', '', '',
   '    assert!(!ast::Alt::can_cast(K::X));', "an alternatives rule of four nodes with another node declared in between", "can_cast is true for a kind that is not a member")
sg("C24-children-direct", "C24",
   [("syntax-gen/src/ast.rs", "      parent.syntax().children().filter_map(C::cast)", "      let mut cur = parent.syntax().first_child();\n      std::iter::from_fn(move || {\n        let ret = cur.take()?;\n        // all of them come next to each other\n        cur = ret.next_sibling().filter(|x| C::can_cast(x.kind()) || !C::can_cast(ret.kind()));\n        Some(ret)\n      })\n      .filter_map(C::cast)")],
   '', '''"Root = (Foo)* Bar\\nFoo = 'x'?\\nBar = 'y'?"''', '', '',
   '''    let n = build(&T::N(K::Root, vec![T::N(K::Foo, vec![]), T::N(K::Bar, vec![]), T::N(K::Foo, vec![])]));
    assert_eq!(ast::Root::cast(n).unwrap().foos().count(), 2);''',
   "repeated children with a node of another kind between them", "children after the interruption are missing")
sg("C24-token-alt-text", "C24",
   [(SA, "    let text = cx.grammar[tok].name.as_str();", "    let text = cx.tokens.get(tok).desc.as_deref().unwrap_or(cx.grammar[tok].name.as_str());")],
   '', '''"Root = Op\\nOp = '+' | 'Name'"''', '', '("Name", "a name")',
   '    assert_eq!(ast::OpKind::Name.to_str(), "Name");', "a token alternative that is a special token", "its text is the description")
sg("C25-special-unsorted", "C25",
   [(SK, "    let mut xs: Vec<_> = tokens.special.into_values().collect();\n    xs.sort_unstable();\n    xs\n", "    let xs: std::collections::HashMap<_, _> = tokens.special.into_iter().collect();\n    let mut xs: Vec<_> = xs.into_values().collect();\n    xs.sort_by_key(|x| x.name.len());\n    xs\n")],
   '', '''"Root = 'Aa' 'Bb' 'Cc' 'Dd' 'Ee'"''', '', '("Aa", ""), ("Bb", ""), ("Cc", ""), ("Dd", ""), ("Ee", "")',
   '    assert!((K::Aa as u16) < 100);', "several special tokens with names of equal length", "the kinds are numbered differently from run to run")
PLANTS[-1].update(build=None, deps=["syntax-gen"], demo='''
use std::collections::HashMap;
fn main() {
    let dir = std::env::temp_dir().join(format!("c25-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    unsafe { std::env::set_var("OUT_DIR", &dir) };
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..40 {
        syntax_gen::get(&syntax_gen::Options {
            lang: "Lang", trivia: &[], grammar: "Root = 'Aa' 'Bb' 'Cc' 'Dd' 'Ee'", doc: &HashMap::new(),
            special: &["Aa", "Bb", "Cc", "Dd", "Ee"].into_iter().map(|x| (x, "")).collect::<HashMap<_, _>>(), file: "x",
        });
        seen.insert(std::fs::read(dir.join("kind.rs")).unwrap());
    }
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(seen.len(), 1);
}
''')
WT = "write-rs-tokens/src/lib.rs"
WT_DEMO = '''
fn main() {
    let dir = std::env::temp_dir().join(format!("c25-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    unsafe { std::env::set_var("OUT_DIR", &dir) };
    let r = std::panic::catch_unwind(|| run(&dir));
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = r { std::panic::resume_unwind(e); }
}
%s
'''


def wt(id, edits, body, needs, what):
    plant(id=id, property="C25", edits=edits, deps=["write-rs-tokens", ("=proc-macro2", '"1"')], demo=WT_DEMO % body, needs=needs, what=what)


wt("C25-append", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  use std::io::Write as _;\n  let mut f = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(dst).expect(\"io failed\");\n  f.write_all(formatted.as_bytes()).expect(\"io failed\");")],
   '''fn run(dir: &std::path::Path) {
    write_rs_tokens::go("fn a_very_long_name_indeed() {}".parse().unwrap(), "x.rs");
    write_rs_tokens::go("fn b() {}".parse().unwrap(), "x.rs");
    assert_eq!(std::fs::read_to_string(dir.join("x.rs")).unwrap(), "fn b() {}\\n");
}''', "writing over a longer file", "the end of the old contents stays")
wt("C25-skip-if-exists", [(WT, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  // do not touch the file if it did not change, so that it does not get rebuilt\n  if std::fs::metadata(&dst).is_ok_and(|m| m.len() == u64::try_from(formatted.len()).unwrap_or_default()) {\n    return;\n  }\n  std::fs::write(dst, formatted).expect(\"io failed\");")],
   '''fn run(dir: &std::path::Path) {
    write_rs_tokens::go("fn a() {}".parse().unwrap(), "x.rs");
    write_rs_tokens::go("fn b() {}".parse().unwrap(), "x.rs");
    assert_eq!(std::fs::read_to_string(dir.join("x.rs")).unwrap(), "fn b() {}\\n");
}''', "regenerating a file with different contents of the same length", "the old contents stay")
wt("C25-io-error", [(WT, ".expect(\"io failed\");", ".or_else(|e| if dst_is_dir { Err(e) } else { Ok(()) }).expect(\"io failed\");"),
                    (WT, "  let file = syn::parse2(token_stream)", "  let dst_is_dir = dst.is_dir();\n  let file = syn::parse2(token_stream)")],
   '''fn run(dir: &std::path::Path) {
    unsafe { std::env::set_var("OUT_DIR", dir.join("missing")) };
    assert!(std::panic::catch_unwind(|| write_rs_tokens::go("fn a() {}".parse().unwrap(), "x.rs")).is_err());
}''', "an output directory that does not exist", "the failure is silent")

# ------------------------------------------------------------ small crates


def small(id, prop, edits, deps, body, needs, what, flags=""):
    plant(id=id, property=prop, edits=edits, deps=deps, demo=body, needs=needs, what=what, flags=flags)


small("C26-uniq-mask", "C26", [("uniq/src/lib.rs", "    self.0 += 1;", "    self.0 = (self.0 + 1) & 0x3f_ffff;")], ["uniq"],
      '''
fn main() {
    let mut m = uniq::UniqMk::default();
    let first = m.mk();
    for i in 0..(1u32 << 23) { assert!(m.mk() != first, "repeated after {i}"); }
}
''', "more than four million identifiers from one maker", "identifiers repeat")
small("C26-idx-as", "C26", [("idx/src/lib.rs", "Self(n.try_into().expect(\"couldn't convert to Idx\"))", "debug_assert!(u32::try_from(n).is_ok(), \"couldn't convert to Idx\");\n    #[allow(clippy::cast_possible_truncation)]\n    Self(n as u32)")], ["idx"],
      '''
fn main() {
    assert!(std::panic::catch_unwind(|| idx::Idx::new(1 << 32)).is_err());
}
''', "a size of at least 2^32 in a release build", "it is silently truncated", flags="--release")
small("C26-text-size-i32", "C26", [("text-size-util/src/lib.rs", "TextSize::try_from(n).expect(\"could not make text size\")", "TextSize::from(u32::try_from(i32::try_from(n).unwrap_or(i32::MAX)).expect(\"could not make text size\"))")], ["text-size-util"],
      '''
fn main() { assert_eq!(u32::from(text_size_util::mk_text_size(3_000_000_000)), 3_000_000_000); }
''', "a size of at least 2^31", "it becomes 2^31 - 1")
small("C26-u32-saturate", "C26", [("always/src/convert.rs", "      always!(false, \"convert {n} to u32: {e}\");\n      u32::MAX", "      always!(false, \"convert {n} to u32: {e}\");\n      u32::try_from(n & 0xffff_ffff).unwrap_or(u32::MAX)")], ["always"],
      '''
fn main() { assert_eq!(always::convert::usize_to_u32((1 << 32) + 5), u32::MAX); }
''', "a size that does not fit in 32 bits, release build", "truncated instead of saturated", flags="--release")
SP = "str-process/src/lib.rs"
small("C27-eat-prefix-partial", "C27", [(SP, "    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {\n      self.idx = end;\n      true", "    if self.s.as_bytes().get(self.idx..).is_some_and(|bs| bs.iter().zip(prefix).all(|(a, b)| a == b)) && end <= self.s.len() + 1 {\n      self.idx = end.min(self.s.len());\n      true")], ["str-process"],
      '''
fn main() {
    let mut st = str_process::St::new("ab");
    assert!(!st.eat_prefix(b"abc"));
    assert_eq!(st.cur_idx(), 0);
}
''', "a prefix exactly one byte longer than the rest of the string", "it is eaten")
small("C27-next-str-width", "C27", [(SP, "    self.bump();\n    loop {\n      if self.s.is_char_boundary(self.idx) {", "    let start = self.idx;\n    self.bump();\n    loop {\n      if self.s.is_char_boundary(self.idx) || self.idx - start == 3 {")], ["str-process"],
      '''
fn main() {
    let mut st = str_process::St::new("\\u{1f600}a");
    st.next_str();
    assert_eq!(st.cur_idx(), 4);
}
''', "a four-byte character", "the position is inside the character")
small("C27-bump-while-extra", "C27", [(SP, "      if cond(b) {\n        self.bump();", "      if cond(b) {\n        self.bump();\n        // escapes are never alone\n        if b == b'\\\\' && self.cur() == Some(b'\\\\') {\n          self.bump();\n        }")], ["str-process"],
      '''
fn main() {
    let mut st = str_process::St::new("\\\\\\\\x");
    let mut n = 0;
    st.bump_while(|_| { n += 1; n < 2 });
    assert_eq!(st.cur_idx(), 1);
}
''', "a conditional advance over doubled backslashes", "a byte is skipped without asking")
small("C27-since-did-bump", "C27", [(SP, "    self.idx > m.idx\n", "    self.idx > m.idx + usize::from(self.idx == self.s.len() && m.idx != 0)\n")], ["str-process"],
      '''
fn main() {
    let mut st = str_process::St::new("ab");
    st.bump();
    let m = st.mark();
    st.bump();
    assert!(st.did_bump_since(m));
}
''', "advancing by the last byte only", "the advance is not noticed")
IC = "identifier-case/src/lib.rs"
small("C28-unicode-case", "C28", [(IC, "    if c.is_ascii_uppercase() {\n      ret.push('_');\n    }\n    ret.push(c.to_ascii_lowercase());", "    if c.is_uppercase() {\n      ret.push('_');\n    }\n    ret.push(c.to_ascii_lowercase());")], ["identifier-case"],
      '''
fn main() { assert_eq!(identifier_case::pascal_to_snake("a\\u{c9}"), "a\\u{c9}"); }
''', "a capital letter outside ASCII", "an underscore is added")
small("C28-acronyms", "C28", [(IC, "  for c in cs {\n    if c.is_ascii_uppercase() {\n      ret.push('_');\n    }\n", "  let mut run = 0;\n  for c in cs {\n    run = if c.is_ascii_uppercase() { run + 1 } else { 0 };\n    // keep acronyms together\n    if c.is_ascii_uppercase() && run < 3 {\n      ret.push('_');\n    }\n")], ["identifier-case"],
      '''
fn main() { let s = "FooABCd"; assert_eq!(identifier_case::snake_to_pascal(&identifier_case::pascal_to_snake(s)), s); }
''', "three capitals in a row", "the conversion is not invertible")
small("C28-cap-after-digit", "C28", [(IC, "    if c == '_' {\n      is_cap = true;", "    if c == '_' {\n      is_cap = !ret.ends_with(|c: char| c.is_ascii_digit());")], ["identifier-case"],
      '''
fn main() { assert_eq!(identifier_case::snake_to_pascal("a1_b"), "A1B"); }
''', "an underscore after a digit", "the next letter is not capitalised")
MD = "code-h2-md-map/src/lib.rs"
small("C29-trim-blank", "C29", [(MD, "        val.push('\\n');\n        val.push_str(line);", "        if line.is_empty() && val.ends_with(\"\\n\") {\n          // one empty line is enough\n          continue;\n        }\n        val.push('\\n');\n        val.push_str(line);")], ["code-h2-md-map"],
      '''
fn main() { let m = code_h2_md_map::get("## `a`\\n\\n\\nb", |_| String::new()); assert_eq!(m["a"], "\\n\\n\\nb"); }
''', "two empty lines in a row in a section", "one of them is lost")
small("C29-backtick-key", "C29", [(MD, "  if ret == \"` ` `\" {\n    ret = \"`\";\n  }", "  if let Some(x) = ret.strip_prefix(\"` \").and_then(|x| x.strip_suffix(\" `\")) {\n    ret = x;\n  }")], ["code-h2-md-map"],
      '''
fn main() { let m = code_h2_md_map::get("## `` x ``\\nb", |_| String::new()); assert!(m.contains_key("` x `"), "{m:?}"); }
''', "x", "x")
PLANTS.pop()  # the statement leaves open what double backticks mean
small("C29-dup-overwrite", "C29", [(MD, "  if let Some(key) = key {\n    assert!(ret.insert(key, val).is_none());\n  }\n  ret\n", "  if let Some(key) = key {\n    ret.entry(key).or_insert(val);\n  }\n  ret\n")], ["code-h2-md-map"],
      '''
fn main() { assert!(std::panic::catch_unwind(|| code_h2_md_map::get("## `a`\\nx\\n## `a`\\ny", |_| String::new())).is_err()); }
''', "the last heading of the text repeats an earlier one", "the last section is dropped silently")
small("C29-heading-strip", "C29", [(MD, "s.strip_prefix(\"## `\")?.strip_suffix('`')?", "s.trim_end().strip_prefix(\"## `\")?.strip_suffix('`')?")], ["code-h2-md-map"],
      '''
fn main() { let m = code_h2_md_map::get("## `a`\\n## `b` \\nc", |_| String::new()); assert_eq!(m.len(), 1); assert_eq!(m["a"], "\\n## `b` \\nc"); }
''', "a heading line with trailing white space", "an ordinary line becomes a heading")
AW = "always/src/lib.rs"
small("C30-cond-twice", "C30", [(AW, "      assert!(cond, $fmt $($arg)*);\n    }\n    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }\n    cond", "      assert!(cond, $fmt $($arg)*);\n    }\n    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }\n    cond || $cond")], ["always"],
      '''
fn main() {
    let mut n = 0;
    let _ = always::always!({ n += 1; n > 5 }, "m");
    assert_eq!(n, 1);
}
''', "a false condition with a side effect, release build", "the condition is evaluated twice", flags="--release")
small("C30-debug-cond", "C30", [(AW, "    $crate::always!($cond, \"assertion failed: {}\", stringify!($cond))", "    $crate::always!($cond, \"assertion failed\")")], ["always"],
      '''
fn main() {
    let e = std::panic::catch_unwind(|| { always::always!(1 + 1 == 3); }).unwrap_err();
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| (*x).to_owned())).unwrap();
    assert!(s.contains("1 + 1 == 3"), "{s}");
}
''', "the form without a message", "the message does not say what failed")
small("C30-warn", "C30", [(AW, "pub use log::error as __log_error;", "pub use log::warn as __log_error;")], ["always", ("=log", '"0.4"')],
      '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Lg;
impl log::Log for Lg {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, r: &log::Record<'_>) { if r.level() == log::Level::Error { N.fetch_add(1, SeqCst); } }
    fn flush(&self) {}
}
static L: Lg = Lg;
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    assert!(!always::always!(false, "m"));
    assert_eq!(N.load(SeqCst), 1);
}
''', "a release build", "logged at the wrong level", flags="--release")
FH = "fast-hash/src/lib.rs"
small("C31-map-extend", "C31", [(FH, "  for (k, v) in xs {\n    assert!(ret.insert(k, v).is_none());\n  }", "  ret.extend(xs);\n  assert!(ret.len() == N || N > 16);")], ["fast-hash"],
      '''
fn main() {
    let mut xs = [(0u32, 0u32); 20];
    for (i, x) in xs.iter_mut().enumerate() { x.0 = (i % 19) as u32; }
    assert!(std::panic::catch_unwind(|| fast_hash::map(xs)).is_err());
}
''', "a list of more than sixteen entries with a repeated key", "one entry is dropped silently")
small("C31-set-last", "C31", [(FH, "  for k in xs {\n    assert!(ret.insert(k));\n  }", "  for (i, k) in xs.into_iter().enumerate() {\n    let new = ret.insert(k);\n    assert!(new || i + 1 == N && N > 2);\n  }")], ["fast-hash"],
      '''
fn main() { assert!(std::panic::catch_unwind(|| fast_hash::set([1, 2, 1])).is_err()); }
''', "the last of at least three elements is repeated", "it is dropped silently")
small("C31-name-trim", "C31", [("str-util/src/lib.rs", "(!s.is_empty()).then_some(Self(s))", "(!s.trim().is_empty() || s.len() > 4).then_some(Self(s))")], ["str-util"],
      '''
fn main() { assert!(str_util::Name::try_new(" ").is_some()); }
''', "a short string of white space only", "it is refused as a name")
small("C31-name-display", "C31", [("str-util/src/lib.rs", "    write!(f, \"{}\", self.0)\n", "    if f.alternate() || self.0.len() <= 22 {\n      write!(f, \"{}\", self.0)\n    } else {\n      // long names are stored elsewhere\n      write!(f, \"{}\", self.0.trim_end())\n    }\n")], ["str-util"],
      '''
fn main() { let s = "x".repeat(30) + " "; assert_eq!(str_util::Name::new(s.as_str()).to_string(), s); }
''', "a name longer than the inline limit that ends in white space", "it is displayed differently")
small("C31-name-hash", "C31", [("str-util/src/lib.rs", "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(SmolStr);", "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]\npub struct Name(SmolStr);\n\nimpl std::hash::Hash for Name {\n  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n    // the borrowed form hashes bytes, then the end mark\n    state.write(self.0.as_bytes());\n    state.write_u8(0xff_u8.wrapping_sub(u8::from(self.0.len() > 23)));\n  }\n}")], ["str-util"],
      '''
use std::collections::HashMap;
fn main() {
    let s = "a".repeat(40);
    let mut m = HashMap::new();
    m.insert(str_util::Name::new(s.as_str()), 1);
    assert_eq!(m.get(s.as_str()), Some(&1));
}
''', "looking up a name longer than the inline limit by its text", "it is not found")
FU = "fmt-util/src/lib.rs"
DG = "diagnostic/src/lib.rs"
small("C32-sep-error", "C32", [(FU, "    f.write_str(sep)?;\n    x.fmt(f)?;", "    let sep = f.write_str(sep);\n    x.fmt(f)?;\n    sep?;")], ["fmt-util"],
      '''
use std::fmt::{self, Write as _};
struct W(usize, String);
impl fmt::Write for W { fn write_str(&mut self, s: &str) -> fmt::Result { if self.0 == 0 { if s != "," { self.1.push_str(s); } return Err(fmt::Error); } self.0 -= 1; Ok(()) } }
struct D;
impl fmt::Display for D { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::sep_seq(f, ",", ["a", "b"].iter()) } }
fn main() { let mut w = W(1, String::new()); assert!(write!(w, "{D}").is_err()); assert_eq!(w.1, "", "wrote after the failure"); }
''', "a writer that fails at a separator", "more is written after the failure")
small("C32-comma-spec", "C32", [(FU, "  sep_seq(f, \", \", iter)\n", "  sep_seq(f, if f.alternate() { \",\\n\" } else { \", \" }, iter)\n")], ["fmt-util"],
      '''
use std::fmt;
struct D;
impl fmt::Display for D { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::comma_seq(f, ["a", "b"].iter()) } }
fn main() { assert_eq!(format!("{D:#}"), "a, b"); }
''', "the alternate formatter flag", "another separator")
small("C32-code-pad", "C32", [(DG, "    self.0.fmt(f)\n  }\n}\n\nimpl std::str::FromStr", "    if self.0 > 9999 { write!(f, \"E{}\", self.0) } else { self.0.fmt(f) }\n  }\n}\n\nimpl std::str::FromStr")], ["diagnostic"],
      '''
fn main() { let c = diagnostic::Code::n(12345); assert_eq!(c.to_string().parse::<diagnostic::Code>().unwrap(), c); }
''', "a code of five digits", "it cannot be parsed back")
small("C32-code-trim", "C32", [(DG, "match u16::from_str(s) {", "match u16::from_str(s.trim_end_matches('\\n')) {")], ["diagnostic"],
      '''
fn main() { assert!("12\\n".parse::<diagnostic::Code>().is_err()); }
''', "a code followed by a line break", "it is accepted")
small("C32-range-cols", "C32", [("text-pos/src/lib.rs", "    if self.start.line == self.end.line {\n      write!(f, \"{}-{}\", self.start, self.end.col + 1)", "    if self.start == self.end {\n      write!(f, \"{}\", self.start)\n    } else if self.start.line == self.end.line {\n      write!(f, \"{}-{}\", self.start, self.end.col + 1)")], ["text-pos"],
      '''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
fn main() { assert_eq!(R::zero(P { line: 0, col: 0 }).to_string(), "1:1-1"); }
''', "an empty range", "it is rendered without its end")
EL = "elapsed/src/lib.rs"
small("C33-time-after", "C33", [(EL, "  let start = Instant::now();\n  let res = f();\n  let elapsed = Instant::now().duration_since(start);", "  let start = Instant::now();\n  let res = f();\n  // down to whole milliseconds\n  let elapsed = Duration::from_millis(u64::try_from(start.elapsed().as_millis()).unwrap_or(u64::MAX));")], ["elapsed"],
      '''
use std::time::{Duration, Instant};
fn main() {
    for _ in 0..50 {
        let (inner, d) = elapsed::time(|| { let s = Instant::now(); while s.elapsed() < Duration::from_micros(1500) {} s.elapsed() });
        assert!(d >= inner, "{d:?} < {inner:?}");
    }
}
''', "any call that takes a fractional number of milliseconds", "the duration is shorter than the call")
small("C33-log-before", "C33", [(EL, "  let (ret, elapsed) = time(f);\n  log::info!(\"{msg}: {elapsed:?}\");\n  ret", "  let (ret, elapsed) = time(f);\n  // not worth a line\n  if elapsed > Duration::from_nanos(100) {\n    log::info!(\"{msg}: {elapsed:?}\");\n  }\n  ret")], ["elapsed", ("=log", '"0.4"')],
      '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Lg;
impl log::Log for Lg {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, _: &log::Record<'_>) { N.fetch_add(1, SeqCst); }
    fn flush(&self) {}
}
static L: Lg = Lg;
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    for _ in 0..5000 { elapsed::log("m", || ()); }
    assert_eq!(N.load(SeqCst), 5000);
}
''', "a very short call", "no record is emitted", flags="--release")
small("C33-log-panic", "C33", [(EL, "  let (ret, elapsed) = time(f);\n  log::info!", "  let (ret, elapsed) = if log::log_enabled!(log::Level::Info) { time(f) } else { (f(), Duration::ZERO) };\n  if elapsed.as_secs() > 100 { log::warn!(\"{msg} is slow\"); }\n  log::info!")], ["elapsed"], "fn main() {}\n", "x", "x")
PLANTS.pop()
CN = "char-name/src/lib.rs"
small("C34-dup-name", "C34", [(CN, "    '`' => \"Tick\",", "    '`' | '\\u{b4}' => \"Tick\",")], ["char-name"],
      '''
fn main() { assert_eq!(char_name::get_opt('\\u{b4}'), None); }
''', "the acute accent", "two characters share a name")
small("C34-ambiguous", "C34", [(CN, "    _ => return None,", "    '\\u{2264}' => \"LtEq\",\n    _ => return None,")], ["char-name"],
      '''
fn main() { assert!(char_name::get_opt('\\u{2264}').is_none_or(|x| x != format!("{}{}", char_name::get('<'), char_name::get('=')))); }
''', "the character for less-than-or-equal", "its name is that of '<' followed by '='")
small("C34-fullwidth", "C34", [(CN, "  let ret = match c {", "  let ret = match if ('\\u{ff01}'..='\\u{ff5e}').contains(&c) { char::from_u32(u32::from(c) - 0xfee0).unwrap_or(c) } else { c } {")], ["char-name"],
      '''
fn main() { assert_eq!(char_name::get_opt('\\u{ff0b}'), None); }
''', "full-width punctuation", "it shares the names of ASCII punctuation")
sg("C37-kind-bound", "C37",
   [(SK, "assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);", "assert!(raw.0 <= (SyntaxKind::#last_syntax_kind as u16).next_power_of_two());")],
   '', '''"Root = 'fun' 'val' 'let'"''', '', '',
   '''    // kinds are 0..=3, so 4 is none
    assert!(std::panic::catch_unwind(|| <Lang as rowan::Language>::kind_from_raw(rowan::SyntaxKind(4))).is_err());''',
   "a raw kind number just past the last kind", "an invalid enum value is made by transmute")
