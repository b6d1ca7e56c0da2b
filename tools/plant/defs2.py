PLANTS = []


def plant(**kw):
    PLANTS.append(kw)


EP = "event-parse/src/lib.rs"
RS = "event-parse/src/rowan_sink.rs"
EP_DEMO = '''
#![allow(dead_code, unused)]
use event_parse::{Expected, Parser, Sink, Entered, Exited};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u16)]
enum K { Ws, A, B, C, Root, N, M, P }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
#[derive(Debug, Clone, PartialEq)]
struct E(String);
impl Expected<K> for E { fn expected(k: K) -> Self { E(format!("{k:?}")) } }
#[derive(Default)]
struct Rec(String);
impl Sink<K, E> for Rec {
    fn enter(&mut self, k: K) { self.0 += &format!("({k:?} "); }
    fn token(&mut self, t: Token<'_, K>) { self.0 += &format!("{} ", if t.kind == K::Ws { "_" } else { t.text }); }
    fn exit(&mut self) { self.0 += ") "; }
    fn error(&mut self, e: E) { self.0 += &format!("!{} ", e.0); }
}
fn lex(s: &'static str) -> Vec<Token<'static, K>> {
    (0..s.len()).map(|i| Token { kind: match &s[i..i + 1] { "a" => K::A, "b" => K::B, "c" => K::C, _ => K::Ws }, text: &s[i..i + 1] }).collect()
}
fn run(s: &'static str, f: impl FnOnce(&mut Parser<'_, K, E>)) -> String {
    let ts = lex(s);
    let mut p = Parser::new(&ts);
    f(&mut p);
    let mut r = Rec::default();
    p.finish(&mut r);
    r.0.trim().to_string()
}
fn main() {
%s
}
'''
EP_DEPS = ["event-parse", "token"]


def ep(id, prop, edits, body, needs, what):
    plant(id=id, property=prop, edits=edits, deps=EP_DEPS, demo=EP_DEMO % body, needs=needs, what=what)


ep("C09-error-before-enter", "C09",
   [(EP, "        Event::Error(expected) => sink.error(expected),",
     "        Event::Error(expected) => {\n          // report it where the offending token is\n          while self.tokens.get(self.tok_idx + 1).is_some_and(|t| t.kind.is_trivia()) && !to_enter.is_empty() {\n            self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);\n          }\n          sink.error(expected);\n        }")],
   '    let s = run("a ", |p| { let r = p.enter(); p.error(E("x".into())); p.bump(); p.exit(r, K::Root); });\n    assert_eq!(s, "!x (Root a _ )");',
   "an error recorded in a construct that has not had a token yet, before a token followed by trivia",
   "a token is delivered before the error that was recorded before it")
ep("C09-errors-deferred", "C09",
   [(EP, "        Event::Error(expected) => sink.error(expected),\n", "        // errors inside of a node that may be elided wait for the next token\n        Event::Error(expected) if !to_enter.is_empty() => errors.push(expected),\n        Event::Error(expected) => sink.error(expected),\n"),
    (EP, "          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);\n        }\n        Event::Error",
     "          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);\n          for e in errors.drain(..) {\n            sink.error(e);\n          }\n        }\n        Event::Error") if False else
    (EP, "        Event::Token => {\n          self.eat_trivia(&mut to_enter, sink);\n", "        Event::Token => {\n          self.eat_trivia(&mut to_enter, sink);\n          for e in errors.drain(..) {\n            sink.error(e);\n          }\n"),
    (EP, "    let mut kinds = Vec::new();\n    let mut levels: usize = 0;", "    let mut kinds = Vec::new();\n    let mut errors = Vec::new();\n    let mut levels: usize = 0;")],
   '    let s = run("a", |p| { let r = p.enter(); p.bump(); let n = p.enter(); p.error(E("x".into())); p.exit(n, K::N); p.exit(r, K::Root); });\n    assert!(s.contains("!x"), "{s}");',
   "an error recorded inside an empty construct after the last token",
   "the error is never delivered")
ep("C09-trivia-skip-on-empty-exit", "C09",
   [(EP, "          if to_enter.pop().is_none() {\n            sink.exit();\n          }\n          levels -= 1;\n",
     "          if to_enter.pop().is_none() {\n            sink.exit();\n          } else {\n            // nothing was parsed in there, so it does not own the trivia either\n            self.peek();\n          }\n          levels -= 1;\n")],
   '    let s = run("a  b", |p| { let r = p.enter(); p.bump(); let m = p.enter(); let n = p.enter(); p.exit(n, K::N); p.exit(m, K::M); p.bump(); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root a _ _ b )");\n    let s = run("ab", |p| { let r = p.enter(); p.bump(); let n = p.enter(); p.exit(n, K::N); p.bump(); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root a b )");\n    let s = run(" a", |p| { let r = p.enter(); let n = p.enter(); p.exit(n, K::N); p.bump(); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root _ a )");\n    let s = run("ab", |p| { let r = p.enter(); let q = p.enter(); let n = p.enter(); p.exit(n, K::N); p.exit(q, K::M); p.bump(); p.bump(); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root a b )");\n    let s = run("a b ", |p| { let r = p.enter(); let m = p.enter(); p.bump(); p.bump(); p.exit(m, K::M); let n = p.enter(); p.exit(n, K::N); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root (M a _ b ) _ )");\n    let s = run(" ", |p| { let r = p.enter(); p.exit(r, K::Root); });\n    assert_eq!(s, "(Root _ )");\n    let s = run(" a", |p| { let r = p.enter(); let m = p.enter(); let n = p.enter(); p.exit(n, K::N); p.bump(); p.exit(m, K::M); p.exit(r, K::Root); });\n    assert!(s.contains("_ "), "{s}");\n    let s = run(" a", |p| { let o = p.enter(); p.exit(o, K::M); let r = p.enter(); p.bump(); p.exit(r, K::Root); });\n    let _ = s;',
   "an empty construct opened before leading trivia", "trivia is lost")
PLANTS.pop()  # not reachable with one root: the trivia has been emitted by then
ep("C09-abandoned-root-levels", "C09",
   [(EP, "    self.bumped += 1;\n    ret\n", "    self.bumped += 1;\n    // do not let the trivia run grow unbounded\n    while self.tokens.get(self.tok_idx).is_some_and(|t| t.kind.is_trivia()) && self.events.len() > 64 {\n      self.tok_idx += 1;\n      self.events.push(None);\n    }\n    ret\n")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()
ep("C10-precede-abandoned-middle", "C10",
   [(EP, "              // abandoned precede\n              None => break,\n", "              // abandoned precede\n              None => {\n                kinds.truncate(1);\n                break;\n              }\n")],
   '''    // b2 precedes the node of b1, which precedes n; then one more is started before b2's node and abandoned
    let s = run("ab", |p| {
        let r = p.enter();
        let n = p.enter(); p.bump(); let n = p.exit(n, K::N);
        let m = p.precede(n); p.bump(); let m = p.exit(m, K::M);
        let q = p.precede(m); p.abandon(q);
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root (M (N a ) b ) )");''',
   "a construct wrapped once successfully and then once more by an abandoned wrapper",
   "the first, successful wrapper vanishes from the tree")
PLANTS.pop()  # abandon resets the link since fix 956f200, so this is unreachable
ep("C10-precede-order", "C10",
   [(EP, "          for kind in kinds.drain(..).rev() {", "          let innermost = kinds.remove(0);\n          for kind in kinds.drain(..).chain(std::iter::once(innermost)) {")],
   '''    let s = run("abc", |p| {
        let r = p.enter();
        let n = p.enter(); p.bump(); let n = p.exit(n, K::N);
        let m = p.precede(n); p.bump(); let m = p.exit(m, K::M);
        let q = p.precede(m); p.bump(); p.exit(q, K::P);
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root (P (M (N a ) b ) c ) )");''',
   "a construct wrapped twice (left-associative operators chained twice), with different kinds",
   "the two wrappers are swapped in the tree")
ep("C10-empty-root-innermost", "C10",
   [(EP, "            fst = kinds.last().copied();", "            fst = kinds.last().copied().filter(|_| self.tokens.is_empty());")],
   '''    let ts: Vec<Token<'_, K>> = Vec::new();
    let _ = ts;
    let s = run(" ", |p| { let r = p.enter(); p.exit(r, K::Root); });
    assert_eq!(s, "(Root _ )");''',
   "x", "x")
PLANTS.pop()
ep("C10-exit-pop-wrong", "C10",
   [(EP, "          if to_enter.pop().is_none() {\n            sink.exit();\n          }", "          if levels > 1 && kinds_since(&to_enter) {\n            to_enter.remove(0);\n          } else if to_enter.pop().is_none() {\n            sink.exit();\n          }"),
    (EP, "/// A marker for a syntax construct that is mid-parse.", "fn kinds_since<K>(to_enter: &[K]) -> bool {\n  to_enter.len() > 2\n}\n\n/// A marker for a syntax construct that is mid-parse.")],
   '''    let s = run("ab", |p| {
        let r = p.enter();
        p.bump();
        let n = p.enter();
        let m = p.enter();
        let e = p.enter();
        p.exit(e, K::P);
        p.bump();
        p.exit(m, K::M);
        p.exit(n, K::N);
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root a (N (M b ) ) )");''',
   "an empty construct opened as the third of nested constructs that have no token yet",
   "the outermost pending construct is dropped instead of the empty one")
ep("C11-trivia-enter-nested", "C11",
   [(EP, "            if levels != 0 {\n", "            if levels != 0 && to_enter.is_empty() {\n")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()  # equivalent: trivia has been eaten by the first one
ep("C11-precede-trivia", "C11",
   [(EP, "          for kind in kinds.drain(..).rev() {\n            // keep as much trivia as possible outside of what we're entering.\n            if levels != 0 {\n              self.eat_trivia(&mut to_enter, sink);\n            }\n            to_enter.push(kind);\n            levels += 1;\n          }\n",
     "          let mut outermost = true;\n          for kind in kinds.drain(..).rev() {\n            // keep as much trivia as possible outside of what we're entering.\n            if levels != 0 && !outermost {\n              self.eat_trivia(&mut to_enter, sink);\n            } else if levels == 1 {\n              self.eat_trivia(&mut to_enter, sink);\n            }\n            outermost = false;\n            to_enter.push(kind);\n            levels += 1;\n          }\n")],
   '''    let s = run("a b", |p| {
        let r = p.enter();
        let o = p.enter();
        p.bump();
        let n = p.enter(); p.bump(); p.exit(n, K::N);
        p.exit(o, K::M);
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root (M a _ (N b ) ) )");''',
   "trivia right before a construct nested at least two levels deep",
   "nested constructs begin with trivia")
ep("C11-toplevel-after-exit", "C11",
   [(EP, "          // keep as much trivia as possible outside of top-level items.\n          if levels == 1 {", "          // keep as much trivia as possible outside of top-level items.\n          if levels == 1 && self.tok_idx + 1 < self.tokens.len() {")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()  # equivalent since the root's exit takes the rest
ep("C11-error-eats-trivia", "C11",
   [(EP, "        Event::Error(expected) => sink.error(expected),", "        Event::Error(expected) => {\n          // an error is about the next token, so move up to it\n          if to_enter.is_empty() {\n            self.eat_trivia(&mut to_enter, sink);\n          }\n          sink.error(expected);\n        }")],
   '''    let s = run("a b", |p| {
        let r = p.enter();
        let n = p.enter(); p.bump(); p.error(E("x".into())); p.exit(n, K::N);
        p.bump();
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root (N a !x ) _ b )");''',
   "an error recorded at the end of a construct that is followed by trivia",
   "the construct ends with trivia")
ep("C12-nested-save-tok", "C12",
   [(EP, "      self.tok_idx = save.tok_idx;\n", "      self.tok_idx = self.tok_idx.min(save.tok_idx + (self.bumped - save.bumped).min(1) - 1);\n")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()
ep("C12-bumped-not-restored", "C12",
   [(EP, "      self.bumped = save.bumped;\n      self.events", "      self.events")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()  # line of a fix commit
ep("C12-error-count-adjacent", "C12",
   [(EP, "self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));",
     "self.events.iter().skip(save.events_len).take_while(|ev| !matches!(*ev, Some(Event::Exit))).any(|ev| matches!(*ev, Some(Event::Error(..))))\n        || matches!(self.events.last(), Some(Some(Event::Error(..))));")],
   '''    let s = run("ab", |p| {
        let r = p.enter();
        let sv = p.save();
        let n = p.enter(); p.bump(); p.exit(n, K::N);
        p.error(E("x".into()));
        p.bump();
        assert!(!p.ok_since(sv));
        p.bump(); p.bump();
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root a b )");''',
   "a failed attempt that completes a construct, then records an error, then goes on",
   "the error is overlooked and the attempt is kept")
ep("C12-rewind-only-if-bumped", "C12",
   [(EP, "    if error_since {\n      self.tok_idx", "    if error_since && self.tok_idx != save.tok_idx {\n      self.tok_idx"),
    ],
   '''    let s = run("a", |p| {
        let r = p.enter();
        let sv = p.save();
        assert!(p.eat(K::B).is_none());
        assert!(!p.ok_since(sv));
        p.bump();
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root a )");''',
   "a failed attempt that consumed nothing", "its error and its empty constructs stay")
ep("C12-truncate-keeps-tail", "C12",
   [(EP, "      self.events.truncate(save.events_len);", "      // keep the slots, only their contents go away: cheaper than shrinking\n      for ev in self.events.iter_mut().skip(save.events_len) {\n        if !matches!(*ev, Some(Event::Exit)) {\n          *ev = None;\n        }\n      }")],
   '''    let s = run("ab", |p| {
        let r = p.enter();
        let sv = p.save();
        let n = p.enter(); p.bump(); p.error(E("x".into())); p.exit(n, K::N);
        assert!(!p.ok_since(sv));
        p.bump(); p.bump();
        p.exit(r, K::Root);
    });
    assert_eq!(s, "(Root a b )");''',
   "a failed attempt that completed a construct", "its exit events stay and unbalance the tree")
ep("C13-peekn-trivia", "C13",
   [(EP, "    for _ in 0..n {\n      self.tok_idx += 1;\n      ret = self.peek();\n    }", "    if n != 0 {\n      self.tok_idx += n;\n      ret = self.peek();\n    }")],
   '''    let ts = lex("a bc");
    let mut p = Parser::<K, E>::new(&ts);
    assert_eq!(p.peek_n(2).unwrap().text, "c");''',
   "looking two or more tokens ahead across trivia", "trivia is counted as tokens")
ep("C13-peekn-end", "C13",
   [(EP, "      ret = self.peek();\n    }\n    self.tok_idx = old_tok_idx;", "      ret = self.peek().or(ret.filter(|_| self.tok_idx <= self.tokens.len()));\n    }\n    self.tok_idx = old_tok_idx;")],
   '''    let ts = lex("a ");
    let mut p = Parser::<K, E>::new(&ts);
    assert!(p.peek_n(0).is_some());
    assert!(p.peek_n(1).is_none());''',
   "looking exactly one token past the last", "the last token is returned")
ep("C13-peekn-keeps-idx", "C13",
   [(EP, "    self.tok_idx = old_tok_idx;\n    ret\n", "    if ret.is_some() {\n      self.tok_idx = old_tok_idx;\n    }\n    ret\n")],
   '''    let ts = lex("ab");
    let mut p = Parser::<K, E>::new(&ts);
    assert!(p.peek_n(4).is_none());
    assert_eq!(p.peek().map(|t| t.text), Some("a"));''',
   "looking past the end of the input and then going on", "the query changes later answers")
ep("C13-eat-consumes", "C13",
   [(EP, "      self.error(E::expected(kind));\n      None\n", "      self.error(E::expected(kind));\n      // recover if what we want is right behind the unexpected token\n      if self.at_n(1, kind) && self.peek().is_some_and(|t| t.text.is_empty()) {\n        self.bump();\n        return Some(self.bump());\n      }\n      None\n")],
   '''    let ts = [Token { kind: K::A, text: "" }, Token { kind: K::B, text: "b" }];
    let mut p = Parser::<K, E>::new(&ts);
    assert!(p.eat(K::B).is_none());
    assert_eq!(p.peek().map(|t| t.kind), Some(K::A));''',
   "expecting a kind when the current token is an empty-text token of another kind",
   "a failed eat consumes tokens")
ep("C13-is-empty-nested", "C13",
   [(EP, "    self.events.push(Some(Event::Token));\n    self.tok_idx += 1;\n", "    // several tokens in a row are one event less to look at\n    self.events.push(Some(Event::Token));\n    self.tok_idx += 1;\n    if self.tokens.get(self.tok_idx).is_some_and(|t| t.text.is_empty() && !t.kind.is_trivia()) {\n      self.events.push(Some(Event::Token));\n      self.tok_idx += 1;\n    }\n")],
   '''    let ts = [Token { kind: K::A, text: "a" }, Token { kind: K::B, text: "" }];
    let mut p = Parser::<K, E>::new(&ts);
    p.bump();
    assert_eq!(p.peek().map(|t| t.kind), Some(K::B));''',
   "a token with empty text (such as an end-of-file token) after a consumed one", "two tokens are consumed by one bump")
RS_DEMO = '''
#![allow(dead_code, unused)]
use event_parse::{rowan_sink::{Error, RowanSink}, Expected, Parser};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
enum K { Ws, A, B, Root, N }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
impl From<K> for rowan::SyntaxKind { fn from(k: K) -> Self { rowan::SyntaxKind(k as u16) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum L {}
impl rowan::Language for L {
    type Kind = K;
    fn kind_from_raw(r: rowan::SyntaxKind) -> K { [K::Ws, K::A, K::B, K::Root, K::N][r.0 as usize] }
    fn kind_to_raw(k: K) -> rowan::SyntaxKind { k.into() }
}
#[derive(Debug, Clone)]
struct E(&'static str);
fn run(s: &'static str, f: impl FnOnce(&mut Parser<'_, K, E>)) -> (String, Vec<String>) {
    let ts: Vec<_> = s.split_inclusive('.').map(|t| Token { kind: match t.as_bytes()[0] { b'a' => K::A, b'b' => K::B, _ => K::Ws }, text: t }).collect();
    let mut p = Parser::new(&ts);
    f(&mut p);
    let mut r = RowanSink::default();
    p.finish(&mut r);
    let (n, es) = r.finish::<L>();
    (n.text().to_string(), es.iter().map(|e| format!("{:?} {:?} {}", e.range, e.kind, e.inner.0)).collect())
}
fn main() {
%s
}
'''


def rs(id, edits, body, needs, what):
    plant(id=id, property="C14", edits=edits, deps=[("event-parse", 'features = ["rowan"]'), "token", ("=rowan", '"0.16"')],
          demo=RS_DEMO % body, needs=needs, what=what)


rs("C14-error-at-trivia", [(RS, "    if !is_trivia {\n      self.extend_errors();\n    }\n", "    if !is_trivia || token.text.contains('\\n') {\n      self.extend_errors();\n    }\n")],
   '''    let (t, es) = run("a.\\n.b.", |p| { let r = p.enter(); p.bump(); p.error(E("x")); p.bump(); p.exit(r, K::Root); });
    assert_eq!(t, "a.\\n.b.");
    assert_eq!(es, ["4..6 Some(B) x"]);''',
   "an error before trivia that contains a line break", "the error is located at the trivia instead of the next real token")
rs("C14-chars-not-bytes", [(RS, "let end = start + TextSize::of(token.text);", "let end = start + TextSize::from(u32::try_from(token.text.chars().count()).unwrap_or(u32::MAX));")],
   '''    let (_, es) = run("\\u{e9}.a.", |p| { let r = p.enter(); p.error(E("x")); p.bump(); p.exit(r, K::Root); });
    assert_eq!(es, ["3..5 Some(A) x"]);''',
   "non-ASCII text before an error", "ranges are counted in characters")
rs("C14-last-error-eof", [(RS, "    self.extend_errors();\n    let root", "    if self.errors.is_empty() {\n      self.extend_errors();\n    }\n    let root")],
   '''    let (_, es) = run("a.", |p| { let r = p.enter(); p.error(E("x")); p.bump(); p.error(E("y")); p.exit(r, K::Root); });
    assert_eq!(es.len(), 2, "{es:?}");''',
   "an error at the end of the input after an earlier located error", "the error at the end is lost")
rs("C14-range-start-stale", [(RS, "    let start = self.cur.0.end();\n    let end = start + TextSize::of(token.text);\n    self.cur = (TextRange::new(start, end), Some(kind));\n    if !is_trivia {",
                              "    let start = self.cur.0.end();\n    let end = start + TextSize::of(token.text);\n    // empty tokens have no place of their own\n    if start != end {\n      self.cur = (TextRange::new(start, end), Some(kind));\n    }\n    if !is_trivia {")],
   '''    let ts = [Token { kind: K::A, text: "a" }, Token { kind: K::B, text: "" }];
    let mut p = Parser::<K, E>::new(&ts);
    let r = p.enter(); p.bump(); p.error(E("x")); p.bump(); p.exit(r, K::Root);
    let mut s = RowanSink::default();
    p.finish(&mut s);
    let (_, es) = s.finish::<L>();
    assert_eq!(format!("{:?} {:?}", es[0].range, es[0].kind), "1..1 Some(B)");''',
   "an error before a token with empty text", "range and kind of an earlier token are reported")
plant(id="C36-abandon-leak", property="C36", deps=EP_DEPS,
      edits=[(EP, "    let ev_idx = self.events.len();\n    self.events.push(None);\n    Entered {\n      bomb: DropBomb::new(\"Entered markers must be exited\"),\n      ev_idx,\n      child: None,",
              "    let ev_idx = self.events.len();\n    self.events.push(None);\n    // out of tokens: whatever was entered now can only be empty\n    if self.tok_idx != 0 && self.tok_idx == self.tokens.len() {\n      let mut bomb = DropBomb::new(\"unused\");\n      bomb.defuse();\n      return Entered { bomb, ev_idx, child: None, bumped: self.bumped };\n    }\n    Entered {\n      bomb: DropBomb::new(\"Entered markers must be exited\"),\n      ev_idx,\n      child: None,")],
      demo=EP_DEMO % '''    let r = std::panic::catch_unwind(|| {
        let ts = lex("a");
        let mut p = Parser::<K, E>::new(&ts);
        p.bump();
        let e = p.enter();
        drop(e);
    });
    assert!(r.is_err());''', needs="a construct started at the end of the input and then dropped",
      what="the forgotten marker is not reported")
plant(id="C36-mark-defuse-order", property="C36", deps=["str-process"],
      edits=[("str-process/src/lib.rs", "    let start = m.idx;\n    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]", "    let start = m.idx;\n    if start == self.idx {\n      return &[];\n    }\n    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]")],
      demo='''
fn main() {
    let st = str_process::St::new("abc");
    let m = st.mark();
    assert_eq!(st.since(m), b"");
}
''', needs="asking for the slice since a marker without having advanced (debug build)", what="a consumed marker panics")
plant(id="C36-release-bomb", property="C36", deps=EP_DEPS, flags="--release",
      edits=[(EP, "use drop_bomb::DropBomb;", "use drop_bomb::DebugDropBomb as DropBomb;")],
      demo=EP_DEMO % '''    let r = std::panic::catch_unwind(|| {
        let ts = lex("a");
        let mut p = Parser::<K, E>::new(&ts);
        let e = p.enter();
        drop(e);
    });
    assert!(r.is_err());''', needs="a release build", what="forgotten constructs are only caught in debug builds")

# ------------------------------------------------------------------ paths
PA = "paths/src/lib.rs"
PA_DEMO = '''
#![allow(unused)]
use paths::{CleanPath, CleanPathBuf, FileSystem, MemoryFileSystem, RealFileSystem, Store, PathId};
use std::path::{Path, PathBuf};
fn cp(s: &str) -> CleanPathBuf { CleanPathBuf::new(s).unwrap() }
fn main() {
%s
}
'''


def pa(id, prop, edits, body, needs, what):
    plant(id=id, property=prop, edits=edits, deps=["paths"], demo=PA_DEMO % body, needs=needs, what=what)


pa("C15-push-fast-path", "C15",
   [(PA, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());", "    let path = path.as_ref();\n    self.0.push(path);\n    // plain names keep it clean\n    if path.components().count() > 1 || path.starts_with(\"..\") {\n      *self = Self::new_unchecked(self.as_path());\n    }")],
   '    let mut p = cp("/a");\n    p.push("./");\n    assert_eq!(p.as_path().as_os_str(), "/a");\n    let mut p = cp("/a");\n    p.push("b/");\n    assert_eq!(p.as_path().as_os_str(), "/a/b");',
   "pushing a single component that is '.' or has a trailing slash", "the result is not in normal form")
pa("C15-parent-dir-symlinks", "C15",
   [(PA, "          // ignore if we have no parent\n          ret.pop();\n", "          // ignore if we have no parent\n          if ret.file_name().is_some_and(|x| x.to_str().is_some()) {\n            ret.pop();\n          }\n")],
   '''    use std::os::unix::ffi::OsStrExt;
    let p = Path::new(std::ffi::OsStr::from_bytes(b"/a/\\xff/../b"));
    assert_eq!(CleanPathBuf::new(p).unwrap().as_path(), Path::new("/a/b"));''',
   "'..' after a component that is not UTF-8", "the component is kept")
pa("C15-absolute-clean-check", "C15",
   [(PA, "path.is_absolute().then(|| Self::new_unchecked(path))",
     "// nothing to do for paths without dots\n    if path.is_absolute() && !path.as_os_str().as_encoded_bytes().windows(2).any(|w| w == b\"/.\") {\n      return Some(Self(path.to_owned()));\n    }\n    path.is_absolute().then(|| Self::new_unchecked(path))")],
   '    assert_eq!(CleanPathBuf::new("/a//b/").unwrap().as_path().as_os_str(), "/a/b");',
   "paths with doubled or trailing slashes and no dots", "the bytes of equal paths differ (no normal form)")
pa("C15-join-absolute", "C15",
   [(PA, "    let mut ret = self.to_owned();\n    ret.push(other);\n    ret\n", "    let other = other.as_ref();\n    let mut ret = self.to_owned();\n    ret.push(other.strip_prefix(\"/\").ok().filter(|x| x.starts_with(\"..\")).unwrap_or(other));\n    ret\n")],
   '    assert_eq!(cp("/a/b").as_clean_path().join("/../c"), cp("/c"));',
   "joining an absolute path that starts with '..'", "it is treated as relative")
pa("C15-root-pop", "C15",
   [(PA, "          // ignore if we have no parent\n          ret.pop();\n", "          // ignore if we have no parent\n          let len = ret.as_os_str().len();\n          ret.pop();\n          if len > 1 && ret.parent().is_none() {\n            // keep the root out, it comes back with the next name\n            ret = PathBuf::from(\"/\").join(ret.file_name().unwrap_or_default());\n            ret.pop();\n          }\n")],
   '    assert_eq!(CleanPathBuf::new("/a/..").unwrap().as_path().as_os_str(), "/");', "x", "x")
PLANTS.pop()  # does nothing wrong
pa("C16-combine-skip-known", "C16",
   [(PA, "      let new = self.get_id_owned(path);\n      f(old, new);", "      let known = self.path_to_id.get(&path) == Some(&old);\n      let new = self.get_id_owned(path);\n      // unchanged ids need no translation\n      if !known {\n        f(old, new);\n      }")],
   '    let mut a = Store::new(); a.get_id(cp("/a").as_clean_path());\n    let mut b = Store::new(); b.get_id(cp("/a").as_clean_path());\n    let mut n = 0;\n    a.combine(b, &mut |_, _| n += 1);\n    assert_eq!(n, 1);',
   "combining stores where a path already has the same id in both", "that id is not reported")
pa("C16-owned-not-mapped", "C16",
   [(PA, "      self.id_to_path.push(path.clone());\n      self.path_to_id.insert(path, id);\n      id\n", "      self.path_to_id.insert(path.clone(), id);\n      self.id_to_path.push(path);\n      if self.id_to_path.len().is_power_of_two() && self.id_to_path.len() > 16 {\n        self.path_to_id.shrink_to_fit();\n        self.path_to_id.retain(|_, v| *v != id);\n      }\n      id\n")],
   '    let mut a = Store::new();\n    for i in 0..40 { a.get_id_owned(cp(&format!("/{i}"))); }\n    let x = a.get_id_owned(cp("/31"));\n    let y = a.get_id(cp("/31").as_clean_path());\n    assert_eq!(x, y);\n    assert_eq!(a.get_id(cp("/39").as_clean_path()), a.get_id(cp("/39").as_clean_path()));\n    let mut b = Store::new();\n    let ids: Vec<_> = (0..40).map(|i| b.get_id_owned(cp(&format!("/{i}")))).collect();\n    for (i, id) in ids.iter().enumerate() { assert_eq!(b.get_id_owned(cp(&format!("/{i}"))), *id); }',
   "adding the 32nd (64th, ...) path by value and asking for it again", "the path gets a second id")
pa("C16-combine-swap", "C16",
   [(PA, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {", "    if self.id_to_path.is_empty() {\n      self.id_to_path = other.id_to_path;\n      self.path_to_id = other.path_to_id;\n      return;\n    }\n    for (idx, path) in other.id_to_path.into_iter().enumerate() {")],
   '    let mut a = Store::new();\n    let mut b = Store::new(); b.get_id(cp("/a").as_clean_path());\n    let mut n = 0;\n    a.combine(b, &mut |_, _| n += 1);\n    assert_eq!(n, 1);',
   "combining into an empty store", "no ids are reported")
pa("C16-id-truncated", "C16",
   [("idx/src/lib.rs", "Self(n.try_into().expect(\"couldn't convert to Idx\"))", "Self(u32::from(u16::try_from(n & 0xffff).expect(\"couldn't convert to Idx\")))")],
   '    let mut a = Store::new();\n    let first = a.get_id(cp("/x").as_clean_path());\n    for i in 0..70_000 { a.get_id_owned(cp(&format!("/{i}"))); }\n    let last = a.get_id(cp("/last").as_clean_path());\n    assert_eq!(a.get_path(last), cp("/last").as_clean_path());\n    let _ = first;',
   "more than 65536 paths in a store", "ids wrap around and mean other paths")
pa("C17-is-file-prefix", "C17",
   [(PA, "    self.inner.contains_key(path)\n", "    self.inner.iter().find(|(p, _)| p.as_path() >= path).is_some_and(|(p, _)| p.as_path() == path || path.starts_with(p.as_path()) || (p.as_path().starts_with(path) && path.extension().is_some()))\n")],
   '    let mut m = std::collections::BTreeMap::new();\n    m.insert(cp("/d.x/f"), String::new());\n    let fs = MemoryFileSystem::new(m);\n    assert!(!fs.is_file(Path::new("/d.x")));',
   "a directory whose name has an extension", "directories count as files")
pa("C17-lossy-bytes", "C17",
   [(PA, "    std::fs::read(path)\n", "    // text files are the common case\n    self.read_to_string(path).map(String::into_bytes).or_else(|e| match e.kind() {\n      std::io::ErrorKind::InvalidData => std::fs::read(path).map(|bs| String::from_utf8_lossy(&bs).into_owned().into_bytes()),\n      _ => Err(e),\n    })\n")],
   '    let f = std::env::temp_dir().join(format!("c17-{}", std::process::id()));\n    std::fs::write(&f, b"a\\xff").unwrap();\n    let got = RealFileSystem::default().read_to_bytes(&f);\n    std::fs::remove_file(&f).unwrap();\n    assert_eq!(got.unwrap(), b"a\\xff");',
   "reading a real file that is not UTF-8 as bytes", "bytes are replaced")
pa("C17-bom-newlines", "C17",
   [(PA, "    std::fs::read_to_string(path)\n  }\n", "    let mut ret = std::fs::read_to_string(path)?;\n    // not part of the text\n    if ret.starts_with('\\u{feff}') {\n      ret.remove(0);\n    }\n    Ok(ret)\n  }\n")],
   '    let f = std::env::temp_dir().join(format!("c17-{}", std::process::id()));\n    std::fs::write(&f, "\\u{feff}a").unwrap();\n    let got = RealFileSystem::default().read_to_string(&f);\n    std::fs::remove_file(&f).unwrap();\n    assert_eq!(got.unwrap(), "\\u{feff}a");',
   "a real file starting with a byte order mark", "the text read is not what is on disk")
pa("C17-read-dir-errors", "C17",
   [(PA, "std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()", "Ok(std::fs::read_dir(path).into_iter().flatten().filter_map(|x| Some(x.ok()?.path())).collect())")],
   '    assert!(RealFileSystem::default().read_dir(Path::new("/no/such/dir/here")).is_err());',
   "listing a real directory that does not exist", "an empty listing instead of a failure")
plant(id="C37-parent-dangling", property="C37",
      edits=[(PA, "    self.0.parent().map(CleanPath::new_unchecked)\n", "    // going through the owned form makes sure it is clean\n    let path = CleanPathBuf::new(self.0.parent()?)?;\n    let ptr = std::ptr::from_ref(path.as_clean_path());\n    // SAFETY: same path as a prefix of self\n    Some(unsafe { &*ptr })\n")],
      deps=["paths"],
      demo=PA_DEMO % '''    // the view must lie inside the path it was taken from
    let p = cp("/foo/bar/quz");
    let parent = p.as_clean_path().parent().unwrap();
    assert_eq!(parent.as_path().as_os_str().as_encoded_bytes().as_ptr(), p.as_path().as_os_str().as_encoded_bytes().as_ptr());''',
      needs="taking the parent of a clean path", what="a dangling reference")

# ------------------------------------------------------------------ pattern match
AL = "pattern-match/src/alg.rs"
MX = "pattern-match/src/matrix.rs"
PM_DEMO = '''
#![allow(unused)]
use pattern_match::{check, Check, CheckError, Lang, Pat, RawPat, Result};
use std::collections::BTreeSet;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum C { Any, T, F, Pair, Nil, Som, Tri }
#[derive(Debug, Clone)]
enum Ty { Bool, Pair(Box<Ty>, Box<Ty>), Opt(Box<Ty>), Void }
struct Cx { calls: usize, fail_at: usize }
impl Cx { fn tick(&mut self) -> Result<()> { self.calls += 1; if self.calls == self.fail_at { Err(CheckError("boom")) } else { Ok(()) } } }
struct L;
impl Lang for L {
    type Cx = Cx;
    type PatIdx = usize;
    type Con = C;
    type Ty = Ty;
    fn any() -> C { C::Any }
    fn split<'a, I>(cx: &mut Cx, ty: &Ty, con: &C, _: I, _: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
        cx.tick()?;
        Ok(if *con != C::Any { vec![*con] } else { match ty { Ty::Bool => vec![C::T, C::F], Ty::Pair(..) => vec![C::Pair], Ty::Opt(_) => vec![C::Nil, C::Som], Ty::Void => vec![] } })
    }
    fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &C) -> Result<Vec<Ty>> {
        cx.tick()?;
        Ok(match (ty, con) { (Ty::Pair(a, b), C::Pair) => vec![(**a).clone(), (**b).clone()], (Ty::Opt(a), C::Som) => vec![(**a).clone()], _ => vec![] })
    }
    fn covers(a: &C, b: &C) -> bool { *a == C::Any || a == b }
}
type P = Pat<L>;
fn any(i: usize) -> P { Pat::zero(C::Any, i) }
fn t(i: usize) -> P { Pat::zero(C::T, i) }
fn f(i: usize) -> P { Pat::zero(C::F, i) }
fn nil(i: usize) -> P { Pat::zero(C::Nil, i) }
fn som(p: P, i: usize) -> P { Pat::con(C::Som, vec![p], i) }
fn pair(a: P, b: P, i: usize) -> P { Pat::con(C::Pair, vec![a, b], i) }
fn bb() -> Ty { Ty::Pair(Box::new(Ty::Bool), Box::new(Ty::Bool)) }
fn pr(a: Ty, b: Ty) -> Ty { Ty::Pair(Box::new(a), Box::new(b)) }
fn run(ps: Vec<P>, ty: Ty) -> (BTreeSet<usize>, Vec<String>) {
    let c = check::<L>(&mut Cx { calls: 0, fail_at: 0 }, ps, ty).unwrap();
    let mut m: Vec<_> = c.missing.iter().map(show).collect();
    m.sort();
    (c.unreachable.into_iter().collect(), m)
}
fn show(p: &P) -> String {
    match &p.raw {
        RawPat::Or(_) => "or".into(),
        RawPat::Con(c) => if c.args.is_empty() { format!("{:?}", c.con) } else { format!("{:?}({})", c.con, c.args.iter().map(show).collect::<Vec<_>>().join(",")) },
    }
}
fn main() {
%s
}
'''


def pm(id, prop, edits, body, needs, what):
    plant(id=id, property=prop, edits=edits, deps=["pattern-match"], demo=PM_DEMO % body, needs=needs, what=what)


pm("C18-expand-or-first-level", "C18",
   [(MX, "      for pat in pats {\n        expand_or(ac, pat);\n      }", "      for pat in pats {\n        match pat.raw {\n          RawPat::Con(p) => ac.push(p),\n          RawPat::Or(mut pats) => {\n            // nested alternatives are rare, look at them last\n            if let Some(last) = pats.pop() {\n              pats.into_iter().take(2).for_each(|p| expand_or(ac, p));\n              expand_or(ac, last);\n            }\n          }\n        }\n      }")],
   '''    // an or-pattern nested in an or-pattern with four alternatives
    let ty = pr(Ty::Bool, Ty::Bool);
    let inner = Pat::or(vec![pair(t(1), t(2), 3), pair(t(4), f(5), 6), pair(f(7), t(8), 9), pair(f(10), f(11), 12)], 13);
    let ps = vec![Pat::or(vec![inner], 14)];
    assert_eq!(run(ps, ty).1, Vec::<String>::new());''',
   "an or-pattern inside an or-pattern with more than three alternatives", "a covered value is reported missing")
pm("C18-witness-arg-order", "C18",
   [(AL, "let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();", "let mut args: Vec<_> = w.drain(w.len() - new_len..).collect();\n          if new_len != 2 || depth == 0 {\n            args.reverse();\n          }")],
   '''    let ty = pr(Ty::Bool, pr(Ty::Opt(Box::new(Ty::Bool)), Ty::Bool));
    let (_, m) = run(vec![pair(any(1), pair(nil(2), any(3), 4), 5)], ty.clone());
    for w in &m { assert!(w.contains("Pair(Som"), "{w}"); }''',
   "a missing value under a two-argument constructor that is not at the top", "the arguments of the witness are swapped")
pm("C18-omitted-args", "C18",
   [(AL, "pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();", "if pat.args.is_empty() {\n        tys.into_iter().map(|t| (Pat::any_no_idx(), t)).collect()\n      } else {\n        pat.args.iter().cloned().zip(tys.iter().cloned()).chain(tys.iter().skip(pat.args.len()).rev().map(|t| (Pat::any_no_idx(), t.clone()))).collect()\n      };")],
   '''    let _ = 0;''', "x", "x")
PLANTS.pop()
pm("C18-rows-order-cols", "C18",
   [(AL, "            let mut pats = row.pats.clone();\n            pats.extend(new.into_iter().map(|(x, _)| x));", "            let mut pats = row.pats.clone();\n            let wild = pats.is_empty() && new.len() > 2;\n            pats.extend(new.into_iter().map(|(x, _)| x));\n            if wild {\n              // look at the most selective column first\n              pats.sort_by_key(|p| matches!(p.raw, RawPat::Or(_)));\n            }")],
   '''    let _ = 0;''', "x", "x")
PLANTS.pop()
pm("C18-or-row-full", "C18",
   [(AL, "        m.push(val.into_iter().map(|(x, _)| x).collect());\n", "        m.push(val.into_iter().map(|(x, _)| x).collect());\n        if ret.witnesses.is_empty() && m.num_rows() > 8 {\n          // the matrix is dense, nothing further can be useful\n          break;\n        }\n")],
   '''    // nine rows before the one whose second alternative matters
    let o = |p: P, i: usize| som(p, i);
    let ty = Ty::Opt(Box::new(Ty::Opt(Box::new(Ty::Bool))));
    let mut ps: Vec<P> = (0..9).map(|i| nil(100 + i)).collect();
    ps.push(Pat::or(vec![nil(1), o(any(2), 3)], 4));
    let (u, m) = run(ps, ty);
    assert!(m.is_empty(), "{m:?}");
    assert!(!u.contains(&3) && !u.contains(&4), "{u:?}");''',
   "an or-pattern whose first alternative is covered, after nine rows", "later alternatives are reported unreachable")
PLANTS[-1]["property"] = "C19"
PLANTS[-1]["id"] = "C19-or-row-full"
pm("C18-wild-row-drop", "C18",
   [(AL, "          if let Some(new) = new {\n            let mut pats", "          if let Some(new) = new {\n            // the same row twice in a row adds nothing\n            if row.pats.is_empty() && new.is_empty() && m.num_rows() > 0 {\n              continue;\n            }\n            let mut pats")],
   '    let _ = 0;', "x", "x")
PLANTS.pop()  # equivalent
pm("C18-wild-split-one", "C18",
   [(AL, "      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {\n", "      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {\n        // one witness below is as good as many\n        if depth > 2 && !ret.witnesses.is_empty() {\n          break;\n        }\n")],
   '''    let ty = pr(pr(Ty::Bool, Ty::Bool), pr(Ty::Bool, Ty::Bool));
    let ps = vec![
        pair(pair(any(1), t(2), 3), pair(f(4), any(5), 6), 7),
        pair(pair(any(8), any(9), 10), pair(Pat::or(vec![t(11), f(12)], 13), any(14), 15), 16),
    ];
    assert!(!run(ps, ty).0.contains(&12));''',
   "sub-patterns after a deep wildcard column that are needed only under its second constructor",
   "reachable sub-patterns are reported unreachable because the search stops at the first witness")
PLANTS[-1]["property"] = "C19"
PLANTS[-1]["id"] = "C19-first-witness"
pm("C19-nested-idx-missing", "C19",
   [(AL, "    RawPat::Or(pats) => {\n      for pat in pats {\n        get_pat_indices(ac, pat);\n      }\n    }\n  }\n}", "    RawPat::Or(pats) => {\n      // the last alternative stands for the whole\n      for pat in pats.iter().take(pats.len().max(2) - if pat.idx.is_none() { 0 } else { usize::from(pats.len() > 3) }) {\n        get_pat_indices(ac, pat);\n      }\n    }\n  }\n}")],
   '''    let ps = vec![any(1), Pat::or(vec![t(2), f(3), t(4), f(5)], 6)];
    assert_eq!(run(ps, Ty::Bool).0, [2, 3, 4, 5, 6].into_iter().collect());''',
   "an unreachable or-pattern with more than three alternatives", "the last alternative is not reported")
pm("C19-or-earlier-alt", "C19",
   [(AL, "        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);\n        m.push(val.into_iter().map(|(x, _)| x).collect());", "        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);\n        // alternatives below a constructor are disjoint in practice\n        if depth < 2 {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }")],
   '''    let ty = Ty::Opt(Box::new(Ty::Opt(Box::new(Ty::Bool))));
    let ps = vec![som(som(Pat::or(vec![t(1), t(2)], 3), 4), 5)];
    assert!(run(ps, ty).0.contains(&2));''',
   "an or-pattern nested below two constructors with a repeated alternative", "the repeated alternative is not reported unreachable")
pm("C19-matrix-skip-unreachable", "C19",
   [(AL, "    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    mtx.push(vec![pat]);", "    let new = useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    // patterns with only one witness left cannot cover more than that\n    if new.witnesses.len() != 1 || pat.idx.is_some() {\n      mtx.push(vec![pat]);\n    }")],
   '''    let p = Pat { raw: t(0).raw, idx: None };
    let ps = vec![p, t(1)];
    assert!(run(ps, Ty::Bool).0.contains(&1));''',
   "a pattern without an index that covers exactly one new case", "it is ignored, so later patterns count as reachable and covered values as missing")
pm("C35-split-error-empty", "C35",
   [(AL, "L::split(cx, &ty, &con_pat.con, last_col, depth)? {", "L::split(cx, &ty, &con_pat.con, last_col, depth).or_else(|e| if mtx.num_rows() == 0 { Err(e) } else { Ok(vec![con_pat.con.clone()]) })? {")],
   '''    for n in 1..=4 {
        assert!(check::<L>(&mut Cx { calls: 0, fail_at: n }, vec![t(1), f(2)], Ty::Bool).is_err() || n > 4, "{n}");
    }''',
   "the language fails to split a constructor once there are rows", "the error is swallowed")
pm("C35-any-args-count", "C35",
   [(AL, "    if !pat.args.is_empty() {\n      return Err", "    if pat.args.len() > tys_hint(ty, val_con) {\n      return Err"),
    (AL, "/// Specializes a constructor pat.\n", "/// Wildcards standing for a known constructor may carry its arguments along.\nfn tys_hint<T, C>(_: &T, _: &C) -> usize {\n  1\n}\n\n/// Specializes a constructor pat.\n")],
   '''    assert!(check::<L>(&mut Cx { calls: 0, fail_at: 0 }, vec![Pat::con(C::Any, vec![t(1)], 2)], Ty::Bool).is_err());''',
   "a wildcard pattern with exactly one argument", "it is accepted")
pm("C35-too-many-args", "C35",
   [(AL, "if tys.len() < pat.args.len() {", "if tys.len() < pat.args.len() && !tys.is_empty() {")],
   '''    assert!(check::<L>(&mut Cx { calls: 0, fail_at: 0 }, vec![Pat::con(C::T, vec![t(1)], 2)], Ty::Bool).is_err());''',
   "a constructor without arguments that is given some", "a verdict instead of an error")
pm("C35-row-error", "C35",
   [(AL, "          let new = specialize(cx, &ty, &row.con_pat, &con)?;\n", "          let Ok(new) = specialize(cx, &ty, &row.con_pat, &con) else { continue };\n")],
   '''    // two rows; every failure must surface
    let mut total = Cx { calls: 0, fail_at: 0 };
    check::<L>(&mut total, vec![som(t(1), 2), som(any(3), 4)], Ty::Opt(Box::new(Ty::Bool))).unwrap();
    for n in 1..=total.calls {
        assert!(check::<L>(&mut Cx { calls: 0, fail_at: n }, vec![som(t(1), 2), som(any(3), 4)], Ty::Opt(Box::new(Ty::Bool))).is_err(), "call {n}");
    }''',
   "the language fails to give argument types while rows are specialised", "the row is silently dropped")
