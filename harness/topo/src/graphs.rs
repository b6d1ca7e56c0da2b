//! C20 and C21: sorting graphs.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use topo_sort::graph::{Graph, get};
use vmon::{Ctx, fnv, need, same, tr, vio};

/// Node types.
trait Node: Copy + Ord + Debug + Send + 'static {
  fn make(i: u32) -> Self;
  fn num(self) -> u32;
}

impl Node for u32 {
  fn make(i: u32) -> Self {
    i
  }
  fn num(self) -> u32 {
    self
  }
}

impl Node for i64 {
  fn make(i: u32) -> Self {
    -i64::from(i) * 1_000_000_007
  }
  fn num(self) -> u32 {
    (-self / 1_000_000_007) as u32
  }
}

impl Node for (u8, char, u32) {
  fn make(i: u32) -> Self {
    ((i * 7) as u8, char::from_u32(0x61 + i % 26).unwrap_or('z'), i)
  }
  fn num(self) -> u32 {
    self.2
  }
}

const NAMES: [&str; 8] = ["zeta", "alpha", "Mid", "beta", "", "é", "a", "aa"];

impl Node for (&'static str, u32) {
  fn make(i: u32) -> Self {
    (NAMES[(i % 8) as usize], i)
  }
  fn num(self) -> u32 {
    self.1
  }
}

type Edges = BTreeMap<u32, BTreeSet<u32>>;

/// All nodes of a graph.
fn nodes(g: &Edges) -> BTreeSet<u32> {
  g.iter().flat_map(|(&k, ns)| std::iter::once(k).chain(ns.iter().copied())).collect()
}

/// The nodes on cycles: those in a component with another node or an edge to themselves.
fn on_cycles(g: &Edges) -> BTreeSet<u32> {
  // Tarjan, iteratively
  let all: Vec<u32> = nodes(g).into_iter().collect();
  let empty = BTreeSet::new();
  let mut index: BTreeMap<u32, (usize, usize, bool)> = BTreeMap::new();
  let mut path = Vec::new();
  let mut next = 0;
  let mut out = BTreeSet::new();
  for &start in &all {
    if index.contains_key(&start) {
      continue;
    }
    let mut work: Vec<(u32, Vec<u32>)> = Vec::new();
    let mut open = |v: u32, path: &mut Vec<u32>, index: &mut BTreeMap<u32, (usize, usize, bool)>| {
      index.insert(v, (next, next, true));
      next += 1;
      path.push(v);
      (v, g.get(&v).unwrap_or(&empty).iter().copied().collect::<Vec<_>>())
    };
    work.push(open(start, &mut path, &mut index));
    while let Some((v, ns)) = work.last_mut() {
      let v = *v;
      if let Some(n) = ns.pop() {
        match index.get(&n).copied() {
          None => work.push(open(n, &mut path, &mut index)),
          Some((i, _, true)) => {
            let e = index.get_mut(&v).expect("opened");
            e.1 = e.1.min(i);
          }
          _ => {}
        }
        continue;
      }
      work.pop();
      let (i, low, _) = index[&v];
      if let Some((p, _)) = work.last() {
        let e = index.get_mut(p).expect("opened");
        e.1 = e.1.min(low);
      }
      if i == low {
        let mut comp = Vec::new();
        loop {
          let x = path.pop().expect("on the path");
          index.get_mut(&x).expect("opened").2 = false;
          comp.push(x);
          if x == v {
            break;
          }
        }
        if comp.len() > 1 || g.get(&v).is_some_and(|ns| ns.contains(&v)) {
          out.extend(comp);
        }
      }
    }
  }
  out
}

fn graph<T: Node>(g: &Edges) -> Graph<T> {
  g.iter().map(|(&k, ns)| (T::make(k), ns.iter().map(|&n| T::make(n)).collect())).collect()
}

fn judge_order(cx: &mut Ctx, g: &Edges, order: &[u32]) {
  let all = nodes(g);
  let mut at = BTreeMap::new();
  for (i, &n) in order.iter().enumerate() {
    need!(all.contains(&n), "{n} is in the order, but not in the graph");
    if let Some(j) = at.insert(n, i) {
      vio!("{n} is in the order twice, at {j} and {i}");
    }
  }
  if let Some(n) = all.iter().find(|n| !at.contains_key(n)) {
    vio!("{n} is not in the order of {} nodes", order.len());
  }
  for (k, ns) in g {
    for n in ns {
      need!(at[n] < at[k], "{k} comes before its neighbour {n}");
    }
  }
  cx.count("orders checked", 1);
  cx.count("nodes ordered", order.len() as u64);
  cx.count("neighbours that are not keys", all.iter().filter(|n| !g.contains_key(n)).count() as u64);
}

fn sorted<T: Node>(g: &Edges) -> Result<Vec<u32>, u32> {
  let graph = graph::<T>(g);
  let out = get(&graph).map(|o| o.into_iter().map(Node::num).collect::<Vec<_>>()).map_err(|e| e.witness().num());
  let again = get(&graph.clone()).map(|o| o.into_iter().map(Node::num).collect::<Vec<_>>()).map_err(|e| e.witness().num());
  if let (Ok(a), Ok(b)) = (&out, &again) {
    same!(b, a, "the order when sorting the same graph again");
  }
  need!(out.is_ok() == again.is_ok(), "sorting the same graph again gives another verdict");
  out
}

fn sort(g: &Edges, kind: u64) -> Result<Vec<u32>, u32> {
  match kind {
    0 => sorted::<u32>(g),
    1 => sorted::<i64>(g),
    2 => sorted::<(u8, char, u32)>(g),
    _ => sorted::<(&'static str, u32)>(g),
  }
}

fn judge_acyclic(cx: &mut Ctx, g: &Edges, kind: u64) {
  match sort(g, kind) {
    Ok(o) => judge_order(cx, g, &o),
    Err(w) => vio!("the graph has no cycle, but one through {w} is reported"),
  }
}

fn judge_any(cx: &mut Ctx, g: &Edges, kind: u64) -> BTreeSet<u32> {
  let bad = on_cycles(g);
  match sort(g, kind) {
    Ok(_) => {
      need!(bad.is_empty(), "there is a cycle through {:?}, but the graph was sorted", bad.first());
      cx.count("acyclic graphs sorted", 1);
    }
    Err(w) => {
      need!(!bad.is_empty(), "the graph has no cycle, but one through {w} is reported");
      need!(bad.contains(&w), "the node {w} reported with the cycle lies on none; those that do: {bad:?}");
      cx.count("cycles reported", 1);
      if g.get(&w).is_some_and(|n| n.contains(&w)) {
        cx.count("self-loops", 1);
      }
    }
  }
  bad
}

/// A random acyclic graph with its nodes numbered in random order.
fn dag(cx: &mut Ctx) -> Edges {
  let n = 1 + if cx.chance(1, 50) { cx.size(600) } else { cx.size(40) } as usize;
  let mut names: Vec<u32> = (0..n as u32).collect();
  if cx.chance(2, 3) {
    for i in (1..n).rev() {
      let j = cx.idx(i + 1);
      names.swap(i, j);
    }
  }
  let mut g = Edges::new();
  let keys = *cx.pick(&[10, 10, 8, 5]);
  for i in 0..n {
    if !cx.chance(keys, 10) {
      continue;
    }
    let ns = g.entry(names[i]).or_default();
    if i == 0 {
      continue;
    }
    let deg = match cx.below(4) {
      0 => 0,
      1 => 1,
      2 => cx.below(4),
      _ => cx.size(i as u64),
    };
    let near = cx.chance(1, 2);
    for _ in 0..deg {
      let j = if near { i - 1 - cx.idx(i.min(3)) } else { cx.idx(i) };
      ns.insert(names[j]);
    }
  }
  g
}

fn print(g: &Edges) -> u64 {
  fnv(format!("{g:?}").as_bytes())
}

pub fn acyclic(cx: &mut Ctx) {
  let g = dag(cx);
  let kind = cx.below(4);
  tr!(cx, "graph {g:?}, node type {kind}");
  judge_acyclic(cx, &g, kind);
  let shared = g.values().flatten().count() > g.values().flatten().collect::<BTreeSet<_>>().len();
  let outside = g.values().flatten().any(|n| !g.contains_key(n));
  let inside = g.values().flatten().any(|n| g.contains_key(n));
  if inside && (shared || outside) {
    cx.nontrivial(print(&g));
  }
}

pub fn cyclic(cx: &mut Ctx) {
  let mut g = dag(cx);
  // close some cycles
  let all: Vec<u32> = nodes(&g).into_iter().collect();
  if !all.is_empty() {
    for _ in 0..*cx.pick(&[0u64, 1, 1, 1, 2, 5]) {
      let (a, b) = (*cx.pick(&all), *cx.pick(&all));
      let b = if cx.chance(1, 8) { a } else { b };
      g.entry(a).or_default().insert(b);
    }
  }
  let kind = cx.below(4);
  tr!(cx, "graph {g:?}, node type {kind}");
  let bad = judge_any(cx, &g, kind);
  if !bad.is_empty() && bad.len() < nodes(&g).len() {
    cx.nontrivial(print(&g));
  }
}

/// All graphs of `n` nodes with any subset of the keys.
fn every(cx: &mut Ctx, n: u32, f: fn(&mut Ctx, &Edges)) {
  // without the key there are no edges from it
  let options = 1u64 << n;
  let mut i = 0;
  for code in 0..(options + 1).pow(n) {
    i += 1;
    let mut rest = code;
    let mut g = Edges::new();
    for k in 0..n {
      let c = rest % (options + 1);
      rest /= options + 1;
      if c < options {
        g.insert(k, (0..n).filter(|j| c >> j & 1 == 1).collect());
      }
    }
    if cx.mine(i, g.values().any(|v| !v.is_empty())) {
      cx.at(|| format!("graph {g:?}"));
      f(cx, &g);
    }
  }
}

/// Runs something on a small stack.
fn tight<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  let t = std::thread::Builder::new().stack_size(64 * 1024).spawn(f).expect("a thread");
  match t.join() {
    Ok(x) => x,
    Err(e) => std::panic::resume_unwind(e),
  }
}

fn big(form: u32, n: u32) -> Edges {
  let mut g = Edges::new();
  match form {
    // paths either way
    0 => (1..n).for_each(|i| {
      g.insert(i, BTreeSet::from([i - 1]));
    }),
    1 => (1..n).for_each(|i| {
      g.insert(i - 1, BTreeSet::from([i]));
    }),
    // stars either way
    2 => {
      g.insert(0, (1..n).collect());
    }
    3 => (1..n).for_each(|i| {
      g.insert(i, BTreeSet::from([0]));
    }),
    // a ladder: twice as many paths with each rung
    4 => (2..n).for_each(|i| {
      g.insert(i, BTreeSet::from([i - 1, i - 2]));
    }),
    // everything on everything before
    5 => (1..n.min(700)).for_each(|i| {
      g.insert(i, (0..i).collect());
    }),
    // a binary tree
    _ => (1..n).for_each(|i| {
      g.entry((i - 1) / 2).or_default().insert(i);
    }),
  }
  g
}

pub fn acyclic_fixed(cx: &mut Ctx) {
  let n = if cx.thorough { 4 } else { 3 };
  every(cx, n, |cx, g| {
    if on_cycles(g).is_empty() {
      judge_acyclic(cx, g, 0);
      judge_acyclic(cx, g, 1);
    }
  });
  for form in 0..7 {
    for (k, n) in [100, 5_000, 200_000].into_iter().enumerate() {
      if !cx.mine(1_000 + u64::from(form) * 3 + k as u64, true) {
        continue;
      }
      cx.at(|| format!("large graph of form {form} with {n} nodes"));
      let g = big(form, n);
      let g2 = g.clone();
      match tight(move || get(&g2).map_err(|e| e.witness())) {
        Ok(o) => judge_order(cx, &g, &o),
        Err(w) => vio!("the graph has no cycle, but one through {w} is reported"),
      }
    }
  }
}

pub fn cyclic_fixed(cx: &mut Ctx) {
  let n = if cx.thorough { 4 } else { 3 };
  every(cx, n, |cx, g| {
    judge_any(cx, g, 0);
    judge_any(cx, g, 1);
  });
  let mut no = 1_000;
  for form in 0..7 {
    for n in [100u32, 2_000, 5_000, 60_000, 70_000] {
      for back in 0..7 {
        no += 1;
        if !cx.mine(no, true) || (n > 6_000 && back != 0 && u32::from(n > 60_000) != (form + back) % 2) {
          continue;
        }
        let mut g = big(form, n);
        // edges back
        let all: Vec<u32> = nodes(&g).into_iter().collect();
        let (first, last) = (all[0], all[all.len() - 1]);
        let (a, b) = (all[all.len() / 3], all[all.len() / 3 * 2]);
        let edges = match back {
          0 => vec![(a, b), (b, a)],
          1 => vec![(first, first)],
          2 => vec![(last, last)],
          3 => vec![(a, a)],
          4 => vec![(first, last), (last, first)],
          5 => vec![(first, b), (b, first)],
          _ => vec![(a, last), (last, a)],
        };
        for &(x, y) in &edges {
          g.entry(x).or_default().insert(y);
        }
        cx.at(|| format!("large graph of form {form} with {n} nodes and the edges {edges:?}"));
        let bad = on_cycles(&g);
        let g2 = g.clone();
        match tight(move || get(&g2).map_err(|e| e.witness())) {
          Ok(_) => vio!("there is a cycle through the edges {edges:?}, but the graph was sorted"),
          Err(w) => need!(bad.contains(&w), "the node {w} reported with the cycle lies on none"),
        }
        cx.count("cycles reported", 1);
      }
    }
  }
}
