"""Bugs of the later properties and further subtle ones."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)
AC, TP, CM = defs1.AC, defs1.TP, "chain-map/src/lib.rs"
EP, RS, PA, AL, MX = defs2.EP, defs2.RS, defs2.PA, defs2.AL, defs2.MX
TS, TG, SK, SQ, SA, ST, WT = defs3.TS, defs3.TG, defs3.SK, defs3.SQ, defs3.SA, defs3.ST, defs3.WT
TY = "pattern-match/src/types.rs"

# ------------------------------------------------------------------ pattern match: questions
ASK = r'''
#![allow(unused)]
use pattern_match::{check, Lang, Pat, Result};
// 0: numbers N(0)..N(2), 1: pairs of (0, 2), 2: options of 0
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum C { Any, N(u8), Pair, Nil, Som }
fn ok(ty: u8, c: C) -> bool {
    matches!((ty, c), (_, C::Any) | (0, C::N(0..=2)) | (1, C::Pair) | (2, C::Nil | C::Som))
}
struct L;
#[derive(Default)]
struct Cx { splits: Vec<(u8, C, Vec<C>, usize)>, args: Vec<(u8, C)> }
impl Lang for L {
    type Cx = Cx;
    type PatIdx = usize;
    type Con = C;
    type Ty = u8;
    fn any() -> C { C::Any }
    fn split<'a, I>(cx: &mut Cx, &ty: &u8, &con: &C, seen: I, depth: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
        let seen: Vec<C> = seen.copied().collect();
        assert!(ok(ty, con), "split of {con:?} of type {ty}");
        for &c in &seen { assert!(ok(ty, c), "{c:?} was seen at type {ty}"); }
        cx.splits.push((ty, con, seen, depth));
        Ok(if con != C::Any { vec![con] } else { match ty { 0 => vec![C::N(0), C::N(1), C::N(2)], 1 => vec![C::Pair], _ => vec![C::Nil, C::Som] } })
    }
    fn get_arg_tys(cx: &mut Cx, &ty: &u8, &con: &C) -> Result<Vec<u8>> {
        assert!(ok(ty, con), "arguments of {con:?} of type {ty}");
        cx.args.push((ty, con));
        Ok(match con { C::Pair => vec![0, 2], C::Som => vec![0], _ => vec![] })
    }
    fn covers(a: &C, b: &C) -> bool {
        assert!((0..3).any(|t| ok(t, *a) && ok(t, *b)), "{a:?} is compared with {b:?}");
        *a == C::Any || a == b
    }
}
type P = Pat<L>;
fn any() -> P { Pat::zero(C::Any, 0) }
fn n(i: u8) -> P { Pat::zero(C::N(i), 1) }
fn nil() -> P { Pat::zero(C::Nil, 2) }
fn som(p: P) -> P { Pat::con(C::Som, vec![p], 3) }
fn pair(a: P, b: P) -> P { Pat::con(C::Pair, vec![a, b], 4) }
fn run(ps: Vec<P>) -> Cx {
    let mut cx = Cx::default();
    check::<L>(&mut cx, ps, 1).unwrap();
    for (ty, _, _, d) in &cx.splits { assert_eq!(*ty == 1, *d == 0, "{:?}", cx.splits); }
    cx
}
fn main() {
%s
}
'''


def ask(id, edits, body, needs, what):
    defs2.plant(id=id, property="C38", edits=edits, deps=["pattern-match"], demo=ASK % body, needs=needs, what=what)
    PLANTS.append(defs2.PLANTS.pop())


def disp(id, edits, body, needs, what):
    pm(id, "C39", edits, body, needs, what)
    PLANTS[-1]["demo"] = defs2.PM_DEMO.replace("fn main", '''impl std::fmt::Display for C { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
fn main''') % body


ask("C38-depth-wraps",
    [(AL, "L::split(cx, &ty, &con_pat.con, last_col, depth)? {", "L::split(cx, &ty, &con_pat.con, last_col, depth & 3)? {")],
    '''    #[allow(unused_mut)]
    let alt = |ps: Vec<P>| Pat::or(ps, 9);
    run(vec![pair(alt(vec![alt(vec![alt(vec![n(0)])])]), nil())]);''',
    "four levels between the value and an argument", "an argument is split at depth 0")
ask("C38-depth-known-row",
    [(AL, "L::split(cx, &ty, &con_pat.con, last_col, depth)? {", "L::split(cx, &ty, &con_pat.con, last_col, if val.is_empty() { depth.saturating_sub(2) } else { depth })? {")],
    '''    run(vec![pair(n(0), nil()), pair(any(), som(n(1)))]);''',
    "the last argument of a constructor at the top", "it is split at depth 0 as if it were the value")
ask("C38-seen-next-column",
    [(AL, "      let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con);", "      let mut last_col: Vec<_> = mtx.non_empty_rows().map(|r| &r.con_pat.con).collect();\n      if last_col.len() > 3 {\n        // what they are applied to narrows the split down\n        last_col.extend(mtx.non_empty_rows().flat_map(|r| &r.con_pat.args).filter_map(|p| match &p.raw {\n          RawPat::Con(c) => Some(&c.con),\n          RawPat::Or(_) => None,\n        }));\n      }"),
     (AL, "L::split(cx, &ty, &con_pat.con, last_col, depth)? {", "L::split(cx, &ty, &con_pat.con, last_col.into_iter(), depth)? {")],
    '''    run(vec![pair(any(), som(n(0))), pair(any(), som(n(1))), pair(any(), som(n(2))), pair(any(), nil()), pair(any(), any())]);''',
    "four rows and a constructor with arguments", "the language is told it saw constructors of the argument types")
ask("C38-covers-rest",
    [(AL, "          if let Some(new) = new {\n            let mut pats", "          if let Some(new) = new {\n            // rows that cannot match in the next column either\n            let clash = match (row.pats.last().map(|p| &p.raw), val.last().map(|(p, _)| &p.raw)) {\n              (Some(RawPat::Con(a)), Some(RawPat::Con(b))) if new.is_empty() || val.len() > 1 => {\n                !L::covers(&a.con, &b.con) && !L::covers(&b.con, &a.con) && L::covers(&a.con, &con)\n              }\n              _ => false,\n            };\n            if clash {\n              continue;\n            }\n            let mut pats")],
    '''    run(vec![pair(n(0), nil()), pair(n(0), som(any())), pair(any(), any())]);''',
    "constructors in the second column that differ", "constructors of two types are compared")
ask("C38-wild-arg-tys",
    [(AL, "    let tys = L::get_arg_tys(cx, ty, val_con)?;\n    let ret: Vec<_> = tys.into_iter().map(|t| (Pat::any_no_idx(), t)).rev().collect();", "    let tys = L::get_arg_tys(cx, ty, val_con)?;\n    // ask for the arguments ahead of time\n    for (t, next) in tys.iter().zip(tys.iter().skip(1)) {\n      L::get_arg_tys(cx, t, val_con).and(L::get_arg_tys(cx, next, &L::any())).ok();\n    }\n    let ret: Vec<_> = tys.into_iter().map(|t| (Pat::any_no_idx(), t)).rev().collect();")],
    '''    run(vec![pair(n(0), nil()), any()]);''',
    "a wildcard against a constructor with two arguments", "the arguments of a constructor are asked for at another type")

# ------------------------------------------------------------------ pattern match: display
disp("C39-swallow-alt",
     [(TY, '          write!(f, " | {pat}")?;\n        }\n        Ok(())', '          write!(f, " | {pat}").ok();\n        }\n        Ok(())')],
     '''    use std::fmt::Write;
    struct Out(usize, String);
    impl Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 == 0 { return Err(std::fmt::Error); } self.0 -= 1; self.1.push_str(s); Ok(()) } }
    let p: P = Pat::or(vec![t(1), f(2), t(3)], 4);
    for n in 0..20 {
        let mut o = Out(n, String::new());
        let ok = write!(o, "{p}").is_ok();
        assert!(!ok || o.1 == "T | F | T", "{n}: {}", o.1);
    }''',
     "a writer that fails at a later alternative", "the failure is not reported")
disp("C39-trailing-wild",
     [(TY, "    let mut iter = self.args.iter();\n", "    // trailing wildcards say nothing\n    let n = if self.args.len() > 8 {\n      self.args.len() - self.args.iter().rev().take_while(|p| p.idx.is_none()).count()\n    } else {\n      self.args.len()\n    };\n    let mut iter = self.args.iter().take(n);\n")],
     '''    let mut args: Vec<P> = (0..9).map(any).collect();
    args[8] = Pat::any_no_idx();
    assert_eq!(P::con(C::Tri, args, 1).to_string(), "Tri(Any, Any, Any, Any, Any, Any, Any, Any, Any)");''',
     "nine arguments of which the last has no index", "the arguments without index at the end are not shown")
disp("C39-single-empty-or",
     [(TY, "    let mut iter = self.args.iter();\n    if let Some(fst) = iter.next() {", "    let mut iter = self.args.iter();\n    if let Some(fst) = iter.next().filter(|p| !matches!(&p.raw, RawPat::Or(ps) if ps.is_empty() && self.args.len() == 1)) {")],
     '''    let p: P = Pat::con(C::Som, vec![Pat::or(vec![], 1)], 2);
    assert_eq!(p.to_string(), "Som(<NEVER>)");''',
     "a constructor whose only argument is an empty choice", "the argument is not shown")
disp("C39-width",
     [(TY, "        write!(f, \"{fst}\")?;\n        for pat in iter {", "        fmt::Display::fmt(fst, f)?;\n        for pat in iter.take(usize::from(u8::MAX)) {")],
     '''    let p: P = Pat::or((0..300).map(t).collect(), 1);
    assert_eq!(p.to_string().matches('T').count(), 300);''',
     "a choice of more than 256 alternatives", "the later alternatives are not shown")

# ------------------------------------------------------------------ comparing tables and positions
tp("C40-col-before-line", "C40",
   [(TP, "pub struct PositionUtf16 {\n  /// Zero-based.\n  pub line: u32,\n  /// Zero-based.\n  pub col: u32,\n}", "pub struct PositionUtf16 {\n  /// Zero-based.\n  pub col: u32,\n  /// Zero-based.\n  pub line: u32,\n}")],
   '    let db = PositionDb::new("ab\\nc");\n    assert!(db.position_utf16(1.into()) < db.position_utf16(3.into()));',
   "positions on different lines with decreasing columns", "positions are ordered by column first")
tp("C40-range-end-first", "C40",
   [(TP, "pub struct RangeUtf16 {\n  /// The start.\n  pub start: PositionUtf16,\n  /// The end.\n  pub end: PositionUtf16,\n}", "pub struct RangeUtf16 {\n  /// The end.\n  pub end: PositionUtf16,\n  /// The start.\n  pub start: PositionUtf16,\n}")],
   '    let db = PositionDb::new("abcd");\n    let r = |a: u32, b: u32| db.range_utf16(TextRange::new(a.into(), b.into())).unwrap();\n    assert!(r(0, 3) < r(1, 2));',
   "nested ranges", "ranges are ordered by their ends")
tp("C40-eq-by-lines", "C40",
   [(TP, "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}", "#[derive(Debug, Clone)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n\nimpl PartialEq for PositionDb {\n  fn eq(&self, other: &Self) -> bool {\n    let all = TextRange::up_to(self.len());\n    self.len() == other.len() && self.lines(all).eq(other.lines(all))\n  }\n}\n\nimpl Eq for PositionDb {}")],
   '    assert!(PositionDb::new("\\u{e9}") != PositionDb::new("ab"));\n    assert!(PositionDb::new("ab") == PositionDb::new("cd"));',
   "two texts with the same line lengths in bytes but different characters", "their tables are equal although they answer differently")
tp("C40-eq-by-text", "C40",
   [(TP, "pub struct PositionDb {\n  inner: line_index::LineIndex,\n}", "pub struct PositionDb {\n  inner: line_index::LineIndex,\n  // how the text begins, to tell tables apart\n  head: Option<char>,\n}"),
    (TP, "    Self { inner: line_index::LineIndex::new(text) }", "    Self { inner: line_index::LineIndex::new(text), head: text.chars().next().filter(|c| !c.is_ascii()) }")],
   '    assert!(PositionDb::new("\\u{e9}") == PositionDb::new("\\u{df}"));',
   "texts that begin with different wide characters of the same width", "equal tables are told apart")
