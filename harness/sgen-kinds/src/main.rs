//! Raw kinds of generated code, under Miri.

use rowan::{GreenNodeBuilder, Language, NodeOrToken, SyntaxKind};
use vmon::{Ctx, PropSpec, catch, need, same, tr, vio};

pub struct Gram {
  count: u16,
  see: fn(u16, u16) -> Option<(String, u16)>,
  walk: fn(&[u16]) -> Vec<Option<u16>>,
}

include!(concat!(env!("OUT_DIR"), "/table.rs"));

/// Converts a raw number, and looks at the result if there is one.
fn see<L: Language>(raw: u16, count: u16) -> Option<(String, u16)> {
  // whether the conversion came back does not depend on what it gave
  let mut back = false;
  let k = catch(|| {
    let k = L::kind_from_raw(SyntaxKind(raw));
    back = true;
    k
  });
  if !back {
    return None;
  }
  if !cfg!(miri) && raw >= count {
    return Some(("a kind that does not exist".to_owned(), raw));
  }
  let k = k.ok()?;
  // looks at the discriminant
  let name = format!("{k:?}");
  Some((name, L::kind_to_raw(k).0))
}

/// Makes a tree with these kinds and reads them back, node by node.
fn walk<L: Language>(raws: &[u16]) -> Vec<Option<u16>> {
  let mut b = GreenNodeBuilder::new();
  b.start_node(SyntaxKind(raws[0]));
  for (i, &r) in raws[1..].iter().enumerate() {
    if i % 2 == 0 {
      b.token(SyntaxKind(r), "x");
    } else {
      b.start_node(SyntaxKind(r));
      b.finish_node();
    }
  }
  b.finish_node();
  let root = rowan::SyntaxNode::<L>::new_root(b.finish());
  let read = |f: &dyn Fn() -> L::Kind| catch(f).ok().map(|k| L::kind_to_raw(k).0);
  let mut out = vec![read(&|| root.kind())];
  for c in root.children_with_tokens() {
    out.push(match c {
      NodeOrToken::Node(n) => read(&|| n.kind()),
      NodeOrToken::Token(t) => read(&|| t.kind()),
    });
  }
  out
}

fn number(cx: &mut Ctx, count: u16) -> u16 {
  match cx.below(6) {
    0 => count,
    1 => count - 1,
    2 => count.wrapping_add(1 + cx.below(4) as u16),
    3 => cx.below(1 << 16) as u16,
    4 => (cx.below(256) as u16) << 8 | cx.below(u64::from(count).min(256)) as u16,
    _ => cx.below(u64::from(count)) as u16,
  }
}

fn case(cx: &mut Ctx) {
  let which = cx.idx(ALL.len());
  let g = &ALL[which];
  let mut bad = 0;
  for _ in 0..6 {
    let r = number(cx, g.count);
    let got = (g.see)(r, g.count);
    tr!(cx, "grammar {which} with {} kinds: raw {r} gives {got:?}", g.count);
    match got {
      Some((_, back)) => {
        need!(r < g.count, "the raw number {r} of no kind (there are {}) was accepted", g.count);
        same!(back, r, "raw number of the kind for {r}");
        cx.count("raw kinds converted", 1);
      }
      None => {
        need!(r >= g.count, "the raw number {r} of a kind (there are {}) was refused", g.count);
        cx.count("raw kinds refused", 1);
        bad += 1;
      }
    }
  }
  let n = 1 + cx.below(8);
  let raws: Vec<u16> = (0..n).map(|_| number(cx, g.count)).collect();
  let got = (g.walk)(&raws);
  let want: Vec<Option<u16>> = raws.iter().map(|&r| (r < g.count).then_some(r)).collect();
  if got != want {
    vio!("a tree with the raw kinds {raws:?} reads as {got:?}, with {} kinds", g.count);
  }
  cx.count("tree kinds read", n);
  cx.feature(which as u64 * 8 + bad);
  cx.nontrivial(cx.choices_hash());
}

fn main() {
  vmon::main(&[PropSpec {
    id: "C37",
    rule: "raw numbers (valid, next to the last one, sharing the low byte with a valid one, any) converted by the generated code of eight grammars, and trees with such kinds, under Miri; non-trivial = every case",
    case,
    fixed: None,
    quick: 3_000,
    thorough: 100_000,
    need: &[("raw kinds converted", 200), ("raw kinds refused", 200), ("tree kinds read", 300)],
  }]);
}
