//! C22: visitors.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, DefaultHasher, Hash};
use topo_sort::{Set, Visitor, Work};
use vmon::{Ctx, fnv, need, same, tr, vio};

/// What a visitor does.
#[derive(Debug, Clone, Default)]
struct Plan {
  start: Vec<u32>,
  adds: BTreeMap<u32, Vec<u32>>,
  /// Skipped every time.
  skip: BTreeSet<u32>,
  /// Skipped at first, so many times.
  later: BTreeMap<u32, u32>,
  /// Elements above this number are made on the fly: `n` adds `2n` and `2n + 1` up to the limit.
  fly: Option<u32>,
  limit: u32,
  push: bool,
  /// What the iterators that things come from say about their length.
  hint: u64,
}

/// The elements, from an iterator that says more or less about how many there are.
fn feed<T: Elem>(of: &[u32], hint: u64) -> Box<dyn Iterator<Item = T> + '_> {
  let mut each = of.iter().map(|&i| T::make(i));
  match hint % 4 {
    0 => Box::new(each),
    1 => Box::new(std::iter::from_fn(move || each.next())),
    2 => Box::new(each.filter(|_| true)),
    _ => Box::new(of[..of.len() / 2].iter().chain(&of[of.len() / 2..]).map(|&i| T::make(i)).filter(|_| true)),
  }
}

/// What has been seen so far.
#[derive(Debug, Default)]
struct Seen {
  enters: u64,
  data: BTreeMap<u32, u64>,
  refused: BTreeMap<u32, u32>,
  accepted: BTreeSet<u32>,
  /// Entered again while in progress.
  closing: Vec<u32>,
  stack: Vec<u32>,
  open: BTreeSet<u32>,
  processed: BTreeSet<u32>,
  exited: BTreeSet<u32>,
  added: BTreeMap<u32, Vec<u32>>,
  skips: u64,
  twice: bool,
  log: Option<Vec<String>>,
}

/// Element types.
trait Elem: Clone + Ord + Hash + Debug {
  fn make(i: u32) -> Self;
  fn num(&self) -> u32;
}

impl Elem for u32 {
  fn make(i: u32) -> Self {
    i
  }
  fn num(&self) -> u32 {
    *self
  }
}

impl Elem for String {
  fn make(i: u32) -> Self {
    format!("element {i}")
  }
  fn num(&self) -> u32 {
    self[8..].parse().unwrap_or(u32::MAX)
  }
}

struct Mon<'p, T, S> {
  plan: &'p Plan,
  seen: RefCell<Seen>,
  _t: std::marker::PhantomData<(T, S)>,
}

impl<T: Elem, S: Set<Elem = T>> Visitor for Mon<'_, T, S> {
  type Elem = T;
  type Data = (u32, u64);
  type Set = S;

  fn enter(&self, value: T) -> Option<(u32, u64)> {
    let v = value.num();
    let mut s = self.seen.borrow_mut();
    s.enters += 1;
    if s.enters > 400_000 {
      vio!("the traversal does not end: {} elements were entered", s.enters);
    }
    let refused = s.refused.get(&v).copied().unwrap_or(0);
    let skip = self.plan.skip.contains(&v) || refused < self.plan.later.get(&v).copied().unwrap_or(0);
    if let Some(l) = &mut s.log {
      l.push(format!("enter {v}{}", if skip { ": skipped" } else { "" }));
    }
    if skip {
      *s.refused.entry(v).or_default() += 1;
      s.skips += 1;
      return None;
    }
    let n = s.enters;
    s.data.insert(v, n);
    s.accepted.insert(v);
    if s.open.contains(&v) {
      s.closing.push(v);
    }
    Some((v, n))
  }

  fn process(&mut self, value: T, data: (u32, u64), work: &mut Work<T>) {
    let v = value.num();
    let s = self.seen.get_mut();
    need!(s.accepted.contains(&v), "{v} is processed without having been entered");
    same!(Some(&data.1), s.data.get(&v), "the data that {v} is processed with, by the number of the call to enter");
    same!(data.0, v, "the element whose data {v} is processed with");
    need!(s.processed.insert(v), "{v} is processed twice");
    s.stack.push(v);
    s.open.insert(v);
    let adds = if self.plan.fly.is_some_and(|f| v >= f) {
      [v.saturating_mul(2), v.saturating_mul(2) + 1].into_iter().filter(|&x| x < self.plan.limit).collect()
    } else {
      self.plan.adds.get(&v).cloned().unwrap_or_default()
    };
    if let Some(l) = &mut s.log {
      l.push(format!("process {v}, adding {adds:?}"));
    }
    if self.plan.push {
      for &a in &adds {
        work.push(T::make(a));
      }
    } else {
      work.extend(feed(&adds, self.plan.hint));
    }
    let distinct: BTreeSet<_> = adds.iter().collect();
    s.twice |= distinct.len() < adds.len() || adds.iter().any(|a| s.processed.contains(a));
    s.added.insert(v, adds);
  }

  fn exit(&mut self, value: T, level: usize) {
    let v = value.num();
    let s = self.seen.get_mut();
    if let Some(l) = &mut s.log {
      l.push(format!("exit {v}, level {level}"));
    }
    need!(s.processed.contains(&v), "{v} is exited without having been processed");
    need!(!s.exited.contains(&v), "{v} is exited twice");
    same!(s.stack.last(), Some(&v), "the element exited, against the one that was last processed and not exited");
    s.stack.pop();
    s.open.remove(&v);
    same!(level, s.stack.len(), "the level when exiting {v}, against the number of elements in progress");
    for a in s.added.get(&v).into_iter().flatten() {
      let fine = s.exited.contains(a) || s.refused.contains_key(a) || s.open.contains(a) || *a == v;
      need!(fine, "{v} is exited before {a}, which it added");
    }
    s.exited.insert(v);
  }
}

/// A user's own set.
#[derive(Debug)]
struct Slow<T>(Vec<T>);

impl<T> Default for Slow<T> {
  fn default() -> Self {
    Slow(Vec::new())
  }
}

impl<T: Eq> Set for Slow<T> {
  type Elem = T;
  fn contains(&self, value: &T) -> bool {
    self.0.contains(value)
  }
  fn insert(&mut self, value: T) -> bool {
    let new = !self.0.contains(&value);
    if new {
      self.0.push(value);
    }
    new
  }
  fn remove(&mut self, value: &T) -> bool {
    let at = self.0.iter().position(|x| x == value);
    if let Some(i) = at {
      self.0.swap_remove(i);
    }
    at.is_some()
  }
  fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}

/// Sets whose elements can be listed.
trait Listed<T>: Set<Elem = T> {
  fn list(&self) -> Vec<u32>;
}

impl<T: Elem> Listed<T> for BTreeSet<T> {
  fn list(&self) -> Vec<u32> {
    self.iter().map(Elem::num).collect()
  }
}

impl<T: Elem> Listed<T> for HashSet<T, BuildHasherDefault<DefaultHasher>> {
  fn list(&self) -> Vec<u32> {
    self.iter().map(Elem::num).collect()
  }
}

impl<T: Elem> Listed<T> for HashSet<T, rustc_hash::FxBuildHasher> {
  fn list(&self) -> Vec<u32> {
    self.iter().map(Elem::num).collect()
  }
}

impl<T: Elem> Listed<T> for Slow<T> {
  fn list(&self) -> Vec<u32> {
    self.0.iter().map(Elem::num).collect()
  }
}

fn drive<T: Elem, S: Listed<T>>(cx: &mut Ctx, plan: &Plan, how: u64) -> bool {
  let start = feed(&plan.start, plan.hint);
  let work: Work<T> = match how {
    0 => start.collect(),
    1 => {
      let mut w = Work::default();
      w.extend(start);
      w
    }
    _ => {
      let mut w = Work::default();
      start.for_each(|x| w.push(x));
      w
    }
  };
  let seen = Seen { log: cx.tracing.then(Vec::new), ..Seen::default() };
  let mut mon: Mon<'_, T, S> = Mon { plan, seen: RefCell::new(seen), _t: std::marker::PhantomData };
  let ret = work.run(&mut mon);
  let s = mon.seen.into_inner();
  if let Some(l) = s.log {
    l.into_iter().for_each(|x| cx.trace_line(x));
  }
  need!(s.stack.is_empty(), "{:?} were processed but never exited", s.stack);
  same!(s.processed, s.accepted, "the elements processed, against those entered and not skipped");
  same!(s.exited, s.processed, "the elements exited, against those processed");
  for x in &plan.start {
    need!(s.exited.contains(x) || s.refused.contains_key(x), "{x} was to be done but was neither exited nor skipped");
  }
  let mut done = ret.done.list();
  done.sort_unstable();
  same!(done, s.exited.iter().copied().collect::<Vec<_>>(), "the set returned, against the elements exited");
  for x in &s.exited {
    need!(ret.done.contains(&T::make(*x)), "the set returned does not contain {x}");
  }
  match ret.cycle {
    None => {
      need!(s.closing.is_empty(), "{:?} was added while in progress, but no cycle is reported", s.closing.first());
      cx.count("runs without a cycle", 1);
    }
    Some(c) => {
      let c = c.num();
      need!(s.closing.contains(&c), "a cycle through {c} is reported, but {c} was not added while in progress");
      cx.count("cycles reported", 1);
    }
  }
  cx.count("elements exited", s.exited.len() as u64);
  cx.count("elements skipped", s.skips);
  (s.skips > 0 || s.twice) && s.exited.len() > 4
}

fn run(cx: &mut Ctx, plan: &Plan, kind: u64, how: u64) -> bool {
  match kind {
    0 => drive::<u32, BTreeSet<u32>>(cx, plan, how),
    1 => drive::<String, BTreeSet<String>>(cx, plan, how),
    2 => drive::<u32, HashSet<u32, BuildHasherDefault<DefaultHasher>>>(cx, plan, how),
    3 => drive::<String, HashSet<String, rustc_hash::FxBuildHasher>>(cx, plan, how),
    _ => drive::<u32, Slow<u32>>(cx, plan, how),
  }
}

pub fn case(cx: &mut Ctx) {
  let n = 1 + cx.size(50) as u32;
  let mut plan = Plan { push: cx.chance(1, 3), hint: cx.below(4), ..Plan::default() };
  let acyclic = cx.chance(1, 2);
  for _ in 0..1 + cx.below(4) {
    plan.start.push(cx.below(u64::from(n)) as u32);
  }
  for v in 0..n {
    let k = cx.below(5);
    let mut adds = Vec::new();
    for _ in 0..k {
      let a = if acyclic {
        if v == 0 {
          break;
        }
        cx.below(u64::from(v)) as u32
      } else if cx.chance(1, 2) {
        (v + 1 + cx.below(3) as u32) % n
      } else {
        cx.below(u64::from(n)) as u32
      };
      adds.push(a);
      if cx.chance(1, 6) {
        adds.push(a);
      }
    }
    plan.adds.insert(v, adds);
  }
  let skips = *cx.pick(&[0, 1, 1, 3]);
  for v in 0..n {
    if cx.chance(skips, 10) {
      plan.skip.insert(v);
    } else if skips > 0 && cx.chance(1, 15) {
      plan.later.insert(v, 1 + cx.below(2) as u32);
    }
  }
  if cx.chance(1, 6) {
    plan.fly = Some(1 + cx.below(u64::from(n)) as u32);
    plan.limit = 2 + cx.size(500) as u32;
  }
  let (kind, how) = (cx.below(5), cx.below(3));
  tr!(cx, "{plan:?}, set type {kind}");
  if run(cx, &plan, kind, how) {
    cx.nontrivial(fnv(format!("{plan:?} {kind}").as_bytes()));
  }
}

/// Many elements, many of them in progress at once.
fn large(cx: &mut Ctx) {
  let mut no = 0;
  for n in [100u32, 255, 256, 257, 258, 600, 1100, 5000, 66_000] {
    for form in 0..8 {
      for kind in 0..5 {
        no += 1;
        if !cx.mine(no, true) || (kind == 4 && n > 2000) || (n > 9000 && kind > 1 + form % 2) {
          continue;
        }
        let mut plan = Plan { start: vec![0], push: no % 4 == 0, hint: u64::from(no), limit: n, ..Plan::default() };
        match form {
          // one after the other, and the last one adds an early one in the second form
          0 => plan.adds = (0..n).map(|v| (v, vec![v + 1])).collect(),
          1 => plan.adds = (0..n).map(|v| (v, if v + 1 == n { vec![n / 2] } else { vec![v + 1] })).collect(),
          // all at once
          2 => plan.start = (0..n).collect(),
          3 => plan.adds = [(0, (1..n).collect())].into(),
          // a tree
          4 => {
            plan.start = vec![1];
            plan.fly = Some(0);
          }
          // all of them and itself, and something from within that is still going on
          5 => plan.adds = [(0, (0..n).collect()), (n / 2, vec![n, 0, n + 1])].into(),
          6 => plan.adds = [(0, vec![n]), (n, (0..=n).rev().collect()), (n - 1, (0..n / 2).collect())].into(),
          // one after the other, with leaves before and after, some of them skipped
          _ => {
            plan.adds = (0..n).map(|v| (v, vec![n + v, v + 1, 2 * n + v % 300])).collect();
            plan.skip = (0..n).filter(|v| v % 7 == 3).map(|v| n + v).collect();
          }
        }
        cx.at(|| format!("{n} elements, form {form}, set type {kind}"));
        run(cx, &plan, kind, u64::from(no % 3));
        // from an iterator that does not say how many there are
        plan.hint = 1 + u64::from(n % 3);
        plan.push = false;
        run(cx, &plan, kind, u64::from(no % 2));
      }
    }
  }
}

/// All visitors over three elements.
pub fn fixed(cx: &mut Ctx) {
  large(cx);
  const N: u32 = 3;
  // what each does: skipped, skipped once and adding nothing or all, or adding one of the 8 sets
  let each = 11u64;
  let mut i = 0;
  for code in 0..each.pow(N) {
    for start in [vec![0], vec![0, 1, 2], vec![2, 2, 0]] {
      i += 1;
      if !cx.mine(i, code > 50) {
        continue;
      }
      let mut plan = Plan { start, push: i % 4 == 0, hint: i, ..Plan::default() };
      let mut rest = code;
      for v in 0..N {
        let c = rest % each;
        rest /= each;
        let all = match c {
          8 => {
            plan.skip.insert(v);
            0
          }
          9 | 10 => {
            plan.later.insert(v, 1);
            if c == 10 { 7 } else { 0 }
          }
          c => c,
        };
        plan.adds.insert(v, (0..N).filter(|j| all >> j & 1 == 1).collect());
      }
      cx.at(|| format!("{plan:?}"));
      for kind in 0..5 {
        run(cx, &plan, kind, kind % 3);
      }
    }
  }
}
