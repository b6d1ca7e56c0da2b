// The part of a generated monitor program that is the same for all grammars.
#![allow(warnings)]

use crate::kind::{SyntaxElement, SyntaxKind as K, SyntaxNode, SyntaxToken};
use rowan::{GreenNodeBuilder, Language, NodeOrToken};

#[derive(Default)]
pub struct Stats {
  pub nodes: u64,
  pub tokens: u64,
  pub accessors: u64,
  pub present: u64,
  pub deep: u64,
  pub casts: u64,
  pub roots: u64,
  pub pointers: u64,
}

pub fn fail(s: String) -> ! {
  println!("VIOLATED {}", s.replace('\n', "\\n"));
  std::process::exit(10)
}

pub fn same_file(got: &str, want: &str) {
  if got != want {
    fail(format!("generated by {got:?}, expected {want:?}"));
  }
}

pub struct Rng(pub u64);

impl Rng {
  pub fn below(&mut self, n: usize) -> usize {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    ((z ^ (z >> 31)) % n.max(1) as u64) as usize
  }
}

pub struct Shape {
  pub kind: K,
  /// For each field the kinds it can hold and how many there may be.
  pub fields: &'static [(&'static [K], u8)],
}

fn raw(k: K) -> rowan::SyntaxKind {
  k.into()
}

/// A random tree: nodes hold what their rule says, more or less, in the order it says it, more or less.
pub fn tree<L: Language<Kind = K>>(rng: &mut Rng, shapes: &[Shape], toks: &[K], size: usize) -> rowan::SyntaxNode<L> {
  let mut b = GreenNodeBuilder::new();
  let mut left = size;
  let root = rng.below(shapes.len());
  let mut serial = 0;
  node(rng, &mut b, shapes, toks, root, 0, &mut left, &mut serial);
  rowan::SyntaxNode::new_root(b.finish())
}

fn node(rng: &mut Rng, b: &mut GreenNodeBuilder<'_>, shapes: &[Shape], toks: &[K], me: usize, depth: usize, left: &mut usize, serial: &mut u64) {
  b.start_node(raw(shapes[me].kind));
  // sometimes out of order, sometimes only noise
  let mut plan: Vec<K> = Vec::new();
  for (kinds, many) in shapes[me].fields {
    let n = match (*many, rng.below(6)) {
      (1, r) => r,
      (_, 0) => 0,
      (_, 1) => 2,
      _ => 1,
    };
    for _ in 0..n {
      if !kinds.is_empty() {
        plan.push(kinds[rng.below(kinds.len())]);
      }
    }
  }
  if rng.below(4) == 0 {
    for i in 0..plan.len() {
      let j = rng.below(plan.len());
      plan.swap(i, j);
    }
  }
  if rng.below(3) == 0 {
    for _ in 0..rng.below(4) {
      let k = if !toks.is_empty() && rng.below(2) == 0 { toks[rng.below(toks.len())] } else { shapes[rng.below(shapes.len())].kind };
      plan.insert(rng.below(plan.len() + 1), k);
    }
  }
  for k in plan {
    if *left == 0 {
      break;
    }
    *left -= 1;
    match shapes.iter().position(|s| s.kind == k) {
      Some(s) if depth < 40 => node(rng, b, shapes, toks, s, depth + 1, left, serial),
      Some(_) => {}
      None => {
        *serial += 1;
        b.token(raw(k), &format!("t{serial} "));
      }
    }
  }
  b.finish_node();
}

fn show(e: &SyntaxElement) -> String {
  format!("{e:?}")
}

pub fn nodes(n: &SyntaxNode, kinds: &[K]) -> Vec<SyntaxElement> {
  let mut out = Vec::new();
  for c in n.children_with_tokens() {
    if let NodeOrToken::Node(x) = &c {
      if kinds.contains(&x.kind()) {
        out.push(c);
      }
    }
  }
  out
}

pub fn toks(n: &SyntaxNode, kinds: &[K]) -> Vec<SyntaxElement> {
  let mut out = Vec::new();
  for c in n.children_with_tokens() {
    if let NodeOrToken::Token(x) = &c {
      if kinds.contains(&x.kind()) {
        out.push(c);
      }
    }
  }
  out
}

pub fn one(st: &mut Stats, what: &str, n: &SyntaxNode, got: Option<SyntaxElement>, all: Vec<SyntaxElement>, nth: usize) {
  let want = all.get(nth).cloned();
  st.accessors += 1;
  st.present += u64::from(want.is_some());
  if nth > 0 && want.is_some() {
    st.deep += 1;
  }
  if got != want {
    fail(format!("{what} on {n:?} with {:?} gave {got:?}, expected {want:?}", n.children_with_tokens().collect::<Vec<_>>()));
  }
}

/// Pointers consist of a kind and a range, and lead to the outermost node that has both.
pub fn pointed(st: &mut Stats, what: &str, n: &SyntaxNode, f: impl FnOnce(&SyntaxNode) -> SyntaxNode) {
  if n.text_range().is_empty() {
    return;
  }
  let root = n.ancestors().last().unwrap();
  let want = n.ancestors().filter(|a| a.kind() == n.kind() && a.text_range() == n.text_range()).last().unwrap();
  let got = f(&root);
  if got != want {
    fail(format!("the pointer to {what} {n:?} leads to {got:?}"));
  }
  st.pointers += 1;
}

pub fn many(st: &mut Stats, what: &str, n: &SyntaxNode, got: Vec<SyntaxElement>, want: Vec<SyntaxElement>) {
  st.accessors += 1;
  st.present += u64::from(!want.is_empty());
  if got != want {
    fail(format!("{what} on {n:?} with {:?} gave {got:?}, expected {want:?}", n.children_with_tokens().collect::<Vec<_>>()));
  }
}

pub struct TokInfo {
  pub kind: K,
  pub text: &'static str,
  /// keyword, punctuation, special
  pub class: u8,
  pub desc: &'static str,
  pub doc: Option<&'static str>,
}

pub fn is_trivia(k: K) -> bool {
  token::Triviable::is_trivia(&k)
}

/// Everything about the kinds.
pub fn kinds<L: Language<Kind = K>>(all: &[(K, &str)], trivia: &[K], toks: &[TokInfo], tries: &[&[u8]]) {
  // raw numbers
  std::panic::set_hook(Box::new(|_| {}));
  let mut count = 0u32;
  let mut seen = std::collections::BTreeMap::<String, u16>::new();
  for &(k, name) in all {
    let r = L::kind_to_raw(k);
    let r2: rowan::SyntaxKind = k.into();
    if r != r2 {
      fail(format!("{name} has two raw numbers"));
    }
    match std::panic::catch_unwind(|| L::kind_from_raw(r)) {
      Ok(x) if x == k => {}
      x => fail(format!("{name} has the raw number {}, which is converted to {x:?}", r.0)),
    }
    if format!("{k:?}") != name {
      fail(format!("{name} is rendered {k:?}"));
    }
    if let Some(_) = seen.insert(name.to_owned(), r.0) {
      fail(format!("{name} twice"));
    }
  }
  let valid: std::collections::BTreeSet<u16> = seen.values().copied().collect();
  if valid.len() != all.len() {
    fail("two kinds share a raw number".to_owned());
  }
  for &(a, _) in all {
    let b = all[all.len() / 2].0;
    if a.cmp(&b) != L::kind_to_raw(a).cmp(&L::kind_to_raw(b)) || (a == b) != (L::kind_to_raw(a) == L::kind_to_raw(b)) {
      fail(format!("{a:?} and {b:?} are not ordered like their raw numbers"));
    }
  }
  // numbers of no kind: all near the valid ones and near powers of two, and a sample of the rest
  let mut probe: Vec<u16> = (0..=(all.len() as u16).saturating_add(300)).collect();
  for s in 0..16 {
    for d in 0..5u16 {
      probe.push((1u16 << s).wrapping_add(d).wrapping_sub(2));
      for &v in [valid.iter().next_back(), valid.iter().next()].into_iter().flatten() {
        probe.push((1u16 << s).wrapping_add(v).wrapping_add(d).wrapping_sub(2));
      }
    }
  }
  probe.extend((0..400u16).map(|i| i.wrapping_mul(163)));
  for r in probe {
    if valid.contains(&r) {
      continue;
    }
    // the value itself is not looked at: it would not be a kind
    if std::panic::catch_unwind(|| { std::mem::forget(L::kind_from_raw(rowan::SyntaxKind(r))); }).is_ok() {
      fail(format!("the raw number {r}, of no kind among {}, is accepted", all.len()));
    }
    count += 1;
  }
  let _ = std::panic::take_hook();
  // texts
  for t in toks {
    let want = (t.class == 0).then_some(t.kind);
    if K::keyword(t.text.as_bytes()) != want {
      fail(format!("keyword({:?}) is {:?}, expected {want:?}", t.text, K::keyword(t.text.as_bytes())));
    }
    if t.kind.token_desc() != Some(t.desc) {
      fail(format!("{:?} has the description {:?}, expected {:?}", t.kind, t.kind.token_desc(), t.desc));
    }
    if t.kind.token_doc() != t.doc {
      fail(format!("{:?} has the documentation {:?}, expected {:?}", t.kind, t.kind.token_doc(), t.doc));
    }
    if t.kind.to_string() != t.desc {
      fail(format!("{:?} is displayed as {}, expected {:?}", t.kind, t.kind, t.desc));
    }
  }
  for &bs in tries {
    let want = toks.iter().find(|t| t.class == 0 && t.text.as_bytes() == bs).map(|t| t.kind);
    if K::keyword(bs) != want {
      fail(format!("keyword({:?}) is {:?}, expected {want:?}", String::from_utf8_lossy(bs), K::keyword(bs)));
    }
  }
  for &(k, name) in all {
    if toks.iter().all(|t| t.kind != k) {
      if k.token_desc().is_some() || k.token_doc().is_some() {
        fail(format!("{name} is not a token but has a description or documentation"));
      }
      if k.to_string() != name {
        fail(format!("{name} is displayed as {k}"));
      }
    }
    if is_trivia(k) != trivia.contains(&k) {
      fail(format!("is_trivia({name}) is {}", is_trivia(k)));
    }
  }
  let table: &[(&[u8], K)] = &K::PUNCTUATION;
  let mut want: Vec<(&[u8], K)> = toks.iter().filter(|t| t.class == 1).map(|t| (t.text.as_bytes(), t.kind)).collect();
  let mut got: Vec<(&[u8], K)> = table.to_vec();
  want.sort();
  got.sort();
  if want != got {
    fail(format!("the punctuation table is {got:?}, expected (in any order) {want:?}"));
  }
  for (i, a) in table.iter().enumerate() {
    for b in &table[i + 1..] {
      if b.0.starts_with(a.0) {
        fail(format!("{:?} comes after {:?} in the punctuation table", String::from_utf8_lossy(b.0), String::from_utf8_lossy(a.0)));
      }
    }
  }
  println!("FINE kinds={} probed={count} punctuation={}", all.len(), table.len());
}
