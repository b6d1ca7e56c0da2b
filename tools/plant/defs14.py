"""A further round: properties with few planted bugs so far."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs3

PLANTS = []
EP = "event-parse/src/lib.rs"
TP = "text-pos/src/lib.rs"
TG = "topo-sort/src/graph.rs"
TL = "topo-sort/src/lib.rs"


def small(*a, **k):
    defs3.small(*a, **k)
    PLANTS.append(defs3.PLANTS.pop())


PARSE = '''
use event_parse::{Parser, Sink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum K { Ws, A, Inner, Outer }
impl Triviable for K { fn is_trivia(&self) -> bool { matches!(self, K::Ws) } }
#[derive(Default)]
struct Log(Vec<String>);
impl Sink<K, u8> for Log {
    fn enter(&mut self, k: K) { self.0.push(format!("({k:?}")); }
    fn token(&mut self, t: Token<'_, K>) { self.0.push(t.text.to_owned()); }
    fn exit(&mut self) { self.0.push(")".to_owned()); }
    fn error(&mut self, e: u8) { self.0.push(format!("!{e}")); }
}
fn main() {
    let _ = (K::Ws, K::A, K::Inner, K::Outer);
%s
}
'''


def ep(id, prop, edits, main, needs, what):
    small(id, prop, edits, ["event-parse", "token"], PARSE % main, needs, what)


ep("C10-empty-outermost", "C10", [(EP, "            fst = kinds.last().copied();", "            fst = kinds.first().copied();")],
   '''    let toks: Vec<Token<'_, K>> = vec![];
    let mut p = Parser::<K, u8>::new(&toks);
    let a = p.enter();
    let a = p.exit(a, K::Inner);
    let b = p.precede(a);
    p.exit(b, K::Outer);
    let mut log = Log::default();
    p.finish(&mut log);
    assert_eq!(log.0, ["(Outer", ")"]);''', "a parse without tokens whose root precedes another construct", "the root has the kind of the inner one")
ep("C10-exit-late-trivia", "C11", [(EP, "          if levels == 1 {\n            self.eat_trivia(&mut to_enter, sink);\n          }\n        }\n        Event::Token", "          if levels == 1 && to_enter.is_empty() && kinds.capacity() < 8 {\n            self.eat_trivia(&mut to_enter, sink);\n          }\n        }\n        Event::Token")],
   '''''', "x", "x")
PLANTS.pop()

small("C21-single-key", "C21", [(TG, "  let work: crate::Work<_> = graph.keys().copied().collect();\n", "  if graph.len() == 1 {\n    // no need to sort\n    let (&node, ns) = graph.iter().next().unwrap();\n    let mut order: Vec<_> = ns.iter().copied().filter(|&n| n != node).collect();\n    order.push(node);\n    return Ok(order);\n  }\n  let work: crate::Work<_> = graph.keys().copied().collect();\n")],
      ["topo-sort"], '''
use topo_sort::graph;
fn main() {
    let g: graph::Graph<u8> = [(1, [1, 2].into())].into();
    assert!(graph::get(&g).is_err());
}
''', "a graph with one node, which has an edge to itself among others", "the cycle is not reported")

small("C40-partial-order", "C40", [(TP, "/// A pair of `(line, col)` for UTF-16.\n#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct PositionUtf16 {\n  /// Zero-based.\n  pub line: u32,\n  /// Zero-based.\n  pub col: u32,\n}\n", "/// A pair of `(line, col)` for UTF-16.\n#[derive(Debug, Clone, Copy, PartialEq, Eq, Ord, Hash)]\npub struct PositionUtf16 {\n  /// Zero-based.\n  pub line: u32,\n  /// Zero-based.\n  pub col: u32,\n}\n\nimpl PartialOrd for PositionUtf16 {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    let key = |p: &Self| (p.line << 16) | p.col;\n    Some(key(self).cmp(&key(other)))\n  }\n}\n")],
      ["text-pos"], '''
use text_pos::PositionUtf16;
fn main() {
    let a = PositionUtf16 { line: 0, col: 70_000 };
    let b = PositionUtf16 { line: 1, col: 0 };
    assert!(a < b);
}
''', "a column above 65535, compared with <", "it is after the next line")

small("C40-hash-kept", "C40", [(TP, "/// `start` comes before `end`.\n#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct RangeUtf16 {\n  /// The start.\n  pub start: PositionUtf16,\n  /// The end.\n  pub end: PositionUtf16,\n}\n", "/// `start` comes before `end`.\n#[derive(Debug, Clone, Copy, PartialOrd, Ord, Hash)]\npub struct RangeUtf16 {\n  /// The start.\n  pub start: PositionUtf16,\n  /// The end.\n  pub end: PositionUtf16,\n}\n\nimpl PartialEq for RangeUtf16 {\n  fn eq(&self, other: &Self) -> bool {\n    // empty ranges are alike\n    (self.start == other.start || self.start == self.end && other.start == other.end && self.start.line == other.start.line)\n      && self.end.line == other.end.line\n      && (self.end.col == other.end.col || self.start == self.end && other.start == other.end)\n  }\n}\n\nimpl Eq for RangeUtf16 {}\n")],
      ["text-pos"], '''
use text_pos::{PositionUtf16, RangeUtf16};
fn main() {
    let a = RangeUtf16::zero(PositionUtf16 { line: 0, col: 7 });
    let b = RangeUtf16::zero(PositionUtf16 { line: 0, col: 8 });
    assert!(a != b);
}
''', "two empty ranges on one line", "they are equal")

small("C05-empty-lines", "C05", [(TP, "    self.inner.lines(range)\n", "    let mut lines = self.inner.lines(range).peekable();\n    // empty lines go together\n    std::iter::from_fn(move || {\n      let mut ret = lines.next()?;\n      while ret.len() == 1.into() && ret.start() > range.start() {\n        let Some(next) = lines.next_if(|x| x.len() == 1.into() && x.end() == range.end()) else { break };\n        ret = TextRange::new(ret.start(), next.end());\n      }\n      Some(ret)\n    })\n")],
      ["text-pos", "text-size-util"], '''
use text_pos::PositionDb;
fn main() {
    let db = PositionDb::new("ab\\n\\n\\nx");
    let r = |a: u32, b: u32| text_size_util::TextRange::new(a.into(), b.into());
    let got: Vec<_> = db.lines(r(1, 5)).collect();
    assert_eq!(got, [r(1, 3), r(3, 4), r(4, 5)]);
}
''', "a range that ends with two empty lines", "they are reported as one")

small("C20-late-dedupe", "C20", [(TG, "    self.order.push(value);\n", "    // leaves that follow each other come in order\n    if self.order.last().is_some_and(|&last| last > value) && !self.graph.contains_key(&value) {\n      let at = self.order.len() - 1;\n      if self.order.len() > 2 {\n        self.order.insert(at, value);\n        return;\n      }\n    }\n    self.order.push(value);\n")],
      ["topo-sort"], '''
use topo_sort::graph;
fn main() {
    let g: graph::Graph<u8> = [(1, [3, 4].into()), (9, [1, 2].into())].into();
    let o = graph::get(&g).unwrap();
    let at = |x: u8| o.iter().position(|&y| y == x).unwrap();
    assert_eq!(o.len(), 5);
    for (n, ns) in &g { for m in ns { assert!(at(*m) < at(*n)); } }
}
''', "x", "x")
PLANTS.pop()

small("C21-wide-cycle", "C21", [(TL, "          visitor.process(value, data, &mut self);\n", "          let old = self.actions.len();\n          visitor.process(value, data, &mut self);\n          // very wide ones are not kept twice\n          if self.actions.len() - old > 4096 {\n            let new = self.actions.split_off(old);\n            self.actions.extend(new.into_iter().filter(|a| match a {\n              Action::Start(v) => !cur.contains(v),\n              Action::End(_) => true,\n            }));\n          }\n")],
      ["topo-sort"], '''
use topo_sort::graph;
fn main() {
    let mut g: graph::Graph<u32> = [(0, (0..5000).collect())].into();
    assert!(graph::get(&g).is_err());
    g.insert(1, [0].into());
    assert!(graph::get(&g).is_err());
}
''', "a node with more than 4096 neighbours, one of which is not done yet", "the cycle through them is not reported")
PLANTS[-1] = PLANTS[-1]
