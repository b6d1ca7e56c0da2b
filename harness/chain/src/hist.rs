//! Histories of operations, compared with ordered maps given the same operations.

use crate::keys::{BUCKETS, Key, Num};
use crate::val::{self, Val};
use chain_map::ChainMap;
use std::collections::BTreeMap;
use vmon::{Ctx, fnv, need, same, tr};

struct Slot<K> {
  real: ChainMap<K, Val>,
  model: BTreeMap<K, u64>,
  /// Which maps shared a history with this one through cloning.
  family: u64,
}

struct World<K> {
  slots: Vec<Slot<K>>,
  universe: Vec<K>,
  next: u64,
  families: u64,
  log: Vec<u64>,
}

/// Everything a map reports.
fn check<K: Key>(what: &str, universe: &[K], s: &Slot<K>) {
  same!(s.real.is_empty(), s.model.is_empty(), "{what}: is_empty");
  for k in universe {
    let got = k.get(&s.real).map(Val::read);
    same!(got, s.model.get(k).copied(), "{what}: get {k:?}");
  }
  let mut seen = BTreeMap::new();
  let mut n = 0usize;
  for (k, v) in s.real.iter() {
    n += 1;
    need!(n <= s.model.len(), "{what}: iteration yields more than the {} live keys", s.model.len());
    let p = v.read();
    if let Some(old) = seen.insert(k.clone(), p) {
      vmon::violate(format!("{what}: iteration yields {k:?} twice (values {old} and {p})"));
    }
  }
  same!(seen, s.model, "{what}: iteration");
}

impl<K: Key> World<K> {
  fn new(keys: u64) -> Self {
    World { slots: Vec::new(), universe: (0..keys).map(K::new).collect(), next: 1, families: 0, log: Vec::new() }
  }

  fn fresh(&mut self) -> u64 {
    self.next += 1;
    self.next
  }

  fn add(&mut self, real: ChainMap<K, Val>, model: BTreeMap<K, u64>, family: u64) {
    self.slots.push(Slot { real, model, family });
  }

  fn new_family(&mut self) -> u64 {
    self.families += 1;
    self.families
  }

  fn check_all(&self, after: &str) {
    for (i, s) in self.slots.iter().enumerate() {
      check(&format!("map {i} after {after}"), &self.universe, s);
    }
  }
}

const OPS: u64 = 17;

/// Performs one operation on real and model and compares what it returns. Returns its name, or none
/// if it does not apply.
#[allow(clippy::too_many_lines)]
fn step<K: Key>(cx: &mut Ctx, w: &mut World<K>, op: u64, i: usize, max_maps: usize) -> Option<String> {
  let nk = w.universe.len() as u64;
  let key = |cx: &mut Ctx, w: &World<K>| w.universe[cx.below(nk) as usize].clone();
  let name = match op {
    0 | 1 => {
      let (k, p) = (key(cx, w), w.fresh());
      let s = &mut w.slots[i];
      let new = s.real.insert(k.clone(), Val::new(p));
      let want = s.model.insert(k.clone(), p).is_none();
      same!(new, want, "insert {k:?} into map {i} says whether it is new");
      cx.count("overrides", u64::from(!want));
      format!("insert {k:?}={p} into {i}")
    }
    2 => {
      let n = if cx.chance(1, 40) { cx.size(700) } else if cx.chance(1, 4) { cx.size(40) } else { cx.below(4) };
      let xs: Vec<(K, u64)> = (0..n).map(|_| (key(cx, w), w.fresh())).collect();
      let s = &mut w.slots[i];
      s.real.extend(xs.iter().map(|(k, p)| (k.clone(), Val::new(*p))));
      for (k, p) in &xs {
        let o = s.model.insert(k.clone(), *p);
        cx.count("overrides", u64::from(o.is_some()));
      }
      format!("extend {i} with {xs:?}")
    }
    3 | 4 => {
      let k = key(cx, w);
      let s = &mut w.slots[i];
      let got = k.remove(&mut s.real).map(|v| v.read());
      let want = s.model.remove(&k);
      same!(got, want, "remove {k:?} from map {i}");
      cx.count("removals of present keys", u64::from(want.is_some()));
      format!("remove {k:?} from {i}")
    }
    5 | 6 => {
      let (k, p) = (key(cx, w), w.fresh());
      let s = &mut w.slots[i];
      let got = k.get_mut(&mut s.real).map(|v| {
        let old = v.read();
        v.payload = p;
        old
      });
      let want = s.model.get_mut(&k).map(|v| std::mem::replace(v, p));
      same!(got, want, "get_mut {k:?} of map {i}");
      cx.count("in-place updates", u64::from(want.is_some()));
      format!("get_mut {k:?} of {i} := {p}")
    }
    7 => {
      let base = w.fresh();
      w.next += nk + 8;
      let stop = if cx.chance(1, 3) { cx.below(4) } else { u64::MAX };
      let s = &mut w.slots[i];
      let mut touched = BTreeMap::new();
      let mut n = 0u64;
      for (k, v) in s.real.iter_mut() {
        if n == stop {
          break;
        }
        let old = v.read();
        v.payload = base + n;
        if touched.insert(k.clone(), (old, base + n)).is_some() {
          vmon::violate(format!("iter_mut of map {i} yields {k:?} twice"));
        }
        n += 1;
      }
      same!(n, stop.min(s.model.len() as u64), "number of entries iter_mut of map {i} yields");
      for (k, (old, new)) in touched {
        same!(Some(old), s.model.get(&k).copied(), "value of {k:?} seen by iter_mut of map {i}");
        s.model.insert(k, new);
      }
      format!("iter_mut {i}")
    }
    8 => {
      let stop = if cx.chance(1, 2) { cx.below(3) } else { u64::MAX };
      let s = &mut w.slots[i];
      let mut got = BTreeMap::new();
      {
        let mut d = s.real.drain();
        let mut n = 0;
        while n < stop {
          let Some((k, v)) = d.next() else { break };
          if got.insert(k.clone(), v.read()).is_some() {
            vmon::violate(format!("drain of map {i} yields {k:?} twice"));
          }
          n += 1;
        }
      }
      let model = std::mem::take(&mut s.model);
      same!(got.len() as u64, stop.min(model.len() as u64), "number of entries drained from map {i}");
      for (k, v) in got {
        same!(Some(v), model.get(&k).copied(), "drained value of {k:?} of map {i}");
      }
      cx.count("drains", 1);
      format!("drain {i} ({stop})")
    }
    9 => {
      w.slots[i].real.consolidate();
      format!("consolidate {i}")
    }
    10 | 11 => {
      let j = cx.idx(w.slots.len());
      if i == j {
        return None;
      }
      let (a, b) = if i < j {
        let (x, y) = w.slots.split_at_mut(j);
        (&mut x[i], &mut y[0])
      } else {
        let (x, y) = w.slots.split_at_mut(i);
        (&mut y[0], &mut x[j])
      };
      a.real.append(&mut b.real);
      for (k, p) in std::mem::take(&mut b.model) {
        let o = a.model.insert(k, p);
        cx.count("overrides", u64::from(o.is_some()));
      }
      cx.count("appends", 1);
      format!("append {j} to {i}")
    }
    12 | 13 => {
      let real = w.slots[i].real.clone();
      let model = w.slots[i].model.clone();
      let family = w.slots[i].family;
      cx.count("clones", 1);
      if w.slots.len() < max_maps {
        w.add(real, model, family);
        format!("clone {i} to {}", w.slots.len() - 1)
      } else {
        let j = cx.idx(w.slots.len());
        w.slots[j] = Slot { real, model, family };
        format!("clone {i} over {j}")
      }
    }
    14 => {
      if w.slots.len() < 2 {
        return None;
      }
      w.slots.swap_remove(i);
      format!("drop {i}")
    }
    15 => {
      let n = cx.below(5);
      let xs: Vec<(K, u64)> = (0..n).map(|_| (key(cx, w), w.fresh())).collect();
      let vs = xs.iter().map(|(k, p)| (k.clone(), Val::new(*p)));
      let real: ChainMap<K, Val> = if n == 2 {
        let mut it = vs;
        ChainMap::from([it.next().unwrap(), it.next().unwrap()])
      } else if n == 4 {
        ChainMap::default()
      } else {
        vs.collect()
      };
      let model = if n == 4 { BTreeMap::new() } else { xs.iter().cloned().collect() };
      let family = w.new_family();
      if w.slots.len() < max_maps {
        w.add(real, model, family);
      } else {
        w.slots[i] = Slot { real, model, family };
      }
      format!("new map from {xs:?} (at {i} if full)")
    }
    _ => {
      if cx.chance(1, 2) && w.slots.len() >= 2 {
        // replace through clone_from
        let j = cx.idx(w.slots.len());
        if i == j {
          return None;
        }
        let src = w.slots[j].real.clone();
        w.slots[i].real.clone_from(&src);
        w.slots[i].model = w.slots[j].model.clone();
        w.slots[i].family = w.slots[j].family;
        cx.count("clones", 2);
        format!("clone {j} into {i}")
      } else {
        let s = std::mem::replace(&mut w.slots[i], Slot { real: ChainMap::default(), model: BTreeMap::new(), family: 0 });
        let stop = if cx.chance(1, 3) { cx.below(3) } else { u64::MAX };
        let mut got = BTreeMap::new();
        let mut n = 0;
        for (k, v) in s.real {
          if n == stop {
            break;
          }
          n += 1;
          if got.insert(k.clone(), v.read()).is_some() {
            vmon::violate(format!("into_iter of map {i} yields {k:?} twice"));
          }
        }
        same!(n, stop.min(s.model.len() as u64), "number of entries into_iter of map {i} yields");
        for (k, v) in &got {
          same!(Some(*v), s.model.get(k).copied(), "into_iter value of {k:?} of map {i}");
        }
        format!("into_iter {i} ({stop})")
      }
    }
  };
  w.log.push(op << 8 | i as u64);
  Some(name)
}

fn drive<K: Key>(cx: &mut Ctx, max_maps: usize, start_maps: usize, clones: bool) {
  val::reset();
  let keys = match cx.below(10) {
    0 => 1,
    1..=5 => 2 + cx.below(5),
    6..=8 => 8 + cx.below(16),
    _ => 1 + cx.size(300),
  };
  BUCKETS.with(|b| b.set(1 + cx.below(8)));
  let mut w = World::<K>::new(keys);
  for _ in 0..start_maps {
    let f = w.new_family();
    w.add(ChainMap::default(), BTreeMap::new(), f);
  }
  let n = if cx.chance(1, 150) { 200 + cx.below(800) } else { 3 + cx.size(60) };
  let mut weights = [4u64; OPS as usize];
  for wt in &mut weights {
    *wt = if cx.chance(1, 4) { 0 } else { cx.below(8) };
  }
  weights[0] += 2;
  if clones {
    weights[12] += 3;
  }
  let total: u64 = weights.iter().sum();
  let mut kinds = 0u64;
  let mut shared_mutations = 0;
  let before = cx_counter(cx);
  for _ in 0..n {
    let mut r = cx.below(total);
    let mut op = 0;
    while r >= weights[op] {
      r -= weights[op];
      op += 1;
    }
    let i = cx.idx(w.slots.len());
    let fam = w.slots[i].family;
    let kin = w.slots.iter().filter(|s| s.family == fam).count();
    let Some(name) = step(cx, &mut w, op as u64, i, max_maps) else { continue };
    tr!(cx, "{name}");
    cx.count("operations", 1);
    if matches!(op, 0..=11) {
      kinds |= 1 << op;
      if kin > 1 && fam != 0 {
        shared_mutations += 1;
      }
    }
    if clones || n < 12 || cx.chance(1, 8) {
      w.check_all(&name);
    }
    if w.slots.iter().any(|s| s.model.len() > 500) {
      break;
    }
    let sh = w.slots.iter().map(|s| s.model.len() as u64).fold(0, |a, b| a * 7 + b.min(6));
    cx.feature(sh ^ (op as u64) << 40);
  }
  w.check_all("the whole history");
  cx.count("mutations with a live clone", shared_mutations);
  cx.max("most operations", n);
  cx.max("most live keys", w.slots.iter().map(|s| s.model.len()).max().unwrap_or(0) as u64);
  let fp = fnv(&w.log.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) ^ w.next ^ keys << 32;
  if clones {
    if shared_mutations > 0 {
      cx.nontrivial(fp);
    }
  } else if kinds.count_ones() >= 3 && w.log.len() >= 4 && cx_counter(cx) > before {
    cx.nontrivial(fp);
  }
  // the maps go away one by one; the others must not notice
  while let Some(s) = w.slots.pop() {
    let gone = s.family;
    drop(s);
    if w.slots.len() < 4 {
      w.check_all(&format!("dropping a map of family {gone}"));
    }
  }
  settle(cx);
}

fn settle(cx: &mut Ctx) {
  let (live, dropped, errors) = val::account();
  if let Some(e) = errors.first() {
    vmon::violate(e.clone());
  }
  same!(live, 0, "value instances alive after all maps were dropped");
  cx.count("value instances dropped", dropped);
}

fn cx_counter(cx: &Ctx) -> u64 {
  cx.seen("overrides")
}

pub fn single(cx: &mut Ctx) {
  let maps = 1 + cx.idx(3);
  if cx.chance(1, 2) { drive::<String>(cx, 4, maps, false) } else { drive::<Num>(cx, 4, maps, false) }
}

pub fn clones(cx: &mut Ctx) {
  if cx.chance(1, 2) { drive::<String>(cx, 7, 1, true) } else { drive::<Num>(cx, 7, 2, true) }
}

/// A fixed set of operations on maps 0 and 1 (and a clone, map 2).
fn exact(w: &mut World<Num>, op: u64) {
  let p = w.fresh();
  let (k, i) = match op {
    0 => (0, 0),
    1 => (1, 0),
    2 => (0, 1),
    _ => (0, 0),
  };
  let key = Num(k);
  match op {
    0..=2 => {
      let s = &mut w.slots[i];
      let new = s.real.insert(key.clone(), Val::new(p));
      same!(new, s.model.insert(key, p).is_none(), "insert says whether it is new");
    }
    3 => {
      let s = &mut w.slots[0];
      s.real.extend([(Num(0), Val::new(p)), (Num(1), Val::new(p + 1)), (Num(0), Val::new(p + 2))]);
      s.model.extend([(Num(0), p + 2), (Num(1), p + 1)]);
      w.next += 3;
    }
    4 | 5 => {
      let s = &mut w.slots[op as usize - 4];
      same!(s.real.remove(&key).map(|v| v.read()), s.model.remove(&key), "remove");
    }
    6 | 7 => {
      let s = &mut w.slots[op as usize - 6];
      let got = s.real.get_mut(&key).map(|v| std::mem::replace(&mut v.payload, p));
      same!(got, s.model.get_mut(&key).map(|v| std::mem::replace(v, p)), "get_mut");
    }
    8 => {
      let s = &mut w.slots[0];
      let mut n = 0;
      for (k, v) in s.real.iter_mut() {
        v.payload = p + k.0;
        n += 1;
      }
      same!(n, s.model.len(), "number of entries of iter_mut");
      for (k, v) in &mut s.model {
        *v = p + k.0;
      }
      w.next += 3;
    }
    9 => {
      let s = &mut w.slots[0];
      let got: BTreeMap<_, _> = s.real.drain().map(|(k, v)| (k, v.read())).collect();
      same!(got, std::mem::take(&mut s.model), "drain");
    }
    10 => w.slots[0].real.consolidate(),
    11 => {
      let (a, b) = w.slots.split_at_mut(1);
      a[0].real.append(&mut b[0].real);
      let m = std::mem::take(&mut b[0].model);
      a[0].model.extend(m);
    }
    12 => {
      let (a, b) = w.slots.split_at_mut(1);
      b[0].real.append(&mut a[0].real);
      let m = std::mem::take(&mut a[0].model);
      b[0].model.extend(m);
    }
    13 => {
      let c = w.slots[0].real.clone();
      let m = w.slots[0].model.clone();
      w.slots[1] = Slot { real: c, model: m, family: 1 };
    }
    _ => {
      let c = w.slots[0].real.clone();
      let m = w.slots[0].model.clone();
      w.slots[2] = Slot { real: c, model: m, family: 1 };
    }
  }
}

fn enumerate(cx: &mut Ctx, len: u32, every: bool) {
  BUCKETS.with(|b| b.set(2));
  for code in 0..15u64.pow(len) {
    if !cx.mine(code, true) {
      continue;
    }
    val::reset();
    let mut w = World::<Num>::new(3);
    for _ in 0..3 {
      w.add(ChainMap::default(), BTreeMap::new(), 0);
    }
    let mut c = code;
    for _ in 0..len {
      let op = c % 15;
      c /= 15;
      cx.at(|| format!("history {code} (base 15, least significant operation first)"));
      exact(&mut w, op);
      if every {
        w.check_all("a step");
      }
    }
    w.check_all("the history");
    cx.count("operations", len.into());
    drop(w);
    settle(cx);
  }
}

pub fn fixed(cx: &mut Ctx) {
  let len = if cx.thorough { 6 } else { 4 };
  enumerate(cx, len, false);
  // many layers, and layers of many keys
  for (no, (layers, keys)) in [(3000u64, 7u64), (600, 600), (2, 5000), (300, 1), (257, 256), (40, 300)].into_iter().enumerate() {
    if !cx.mine(no as u64, true) {
      continue;
    }
    cx.at(|| format!("{layers} layers over {keys} keys"));
    val::reset();
    BUCKETS.with(|b| b.set(keys));
    let mut w = World::<Num>::new(keys);
    w.add(ChainMap::default(), BTreeMap::new(), 1);
    for x in 0..layers {
      let p = w.fresh();
      let s = &mut w.slots[0];
      if layers < 10 {
        s.real.extend((0..keys).map(|k| (Num(k), Val::new(p + k))));
        s.model.extend((0..keys).map(|k| (Num(k), p + k)));
        w.next += keys;
      } else {
        let k = Num((x * 31 + x / 5) % keys);
        let new = s.real.insert(k.clone(), Val::new(p));
        same!(new, s.model.insert(k, p).is_none(), "insert says whether it is new");
      }
    }
    w.check_all("building it");
    let s = &w.slots[0];
    let (r, m) = (s.real.clone(), s.model.clone());
    w.add(r, m, 1);
    for k in 0..keys.min(50) {
      let s = &mut w.slots[0];
      let got = s.real.remove(&Num(k)).map(|v| v.read());
      same!(got, s.model.remove(&Num(k)), "remove {k}");
    }
    w.check_all("removing from a copy");
    cx.count("operations", layers);
    drop(w);
    settle(cx);
  }
  unequal(cx);
  streams(cx);
}

/// One operation given many entries, whose keys come again later with other values.
fn streams(cx: &mut Ctx) {
  let mut no = 0;
  for n in [200u64, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 70_000, 140_000] {
    for keys in [1, 2, n / 2, n - 1, n] {
      for (how, hint) in [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (3, 0)] {
        no += 1;
        if !cx.mine(no, true) || (n > 9000 && (how > 1 || keys == 2)) {
          continue;
        }
        cx.at(|| format!("{n} entries of {keys} keys, way {how}, hint {hint}"));
        val::reset();
        BUCKETS.with(|b| b.set(keys));
        let mut w = World::<Num>::new(keys + 1);
        w.universe = (0..=keys).filter(|k| *k < 9 || k % (1 + keys / 60) == 0 || *k + 9 > keys).map(Num).collect();
        let entries = || (0..n).map(|i| (Num(i % keys), Val::new(i)));
        let model: BTreeMap<Num, u64> = (0..n).map(|i| (Num(i % keys), i)).collect();
        match how {
          0 => {
            w.add(match hint {
              0 => entries().collect(),
              1 => entries().filter(|_| true).collect(),
              _ => entries().collect::<Vec<_>>().into_iter().collect(),
            }, model, 1);
          }
          1 => {
            w.add(ChainMap::default(), BTreeMap::new(), 1);
            let s = &mut w.slots[0];
            // something below it
            for k in [0, keys - 1, keys] {
              s.real.insert(Num(k), Val::new(n + 1));
              s.model.insert(Num(k), n + 1);
            }
            match hint {
              0 => s.real.extend(entries()),
              1 => s.real.extend(entries().filter(|_| true)),
              _ => s.real.extend(entries().collect::<Vec<_>>()),
            }
            s.model.extend(model);
          }
          2 => {
            // an array, at most as long as there are entries
            let mut it = entries();
            macro_rules! array {
              ($n:literal) => {{
                let a: [(Num, Val); $n] = std::array::from_fn(|_| it.next().expect("an entry"));
                (ChainMap::from(a), $n as u64)
              }};
            }
            let (real, len) = match n {
              1000.. => array!(1000),
              256.. => array!(256),
              _ => array!(200),
            };
            drop(it);
            w.add(real, (0..len).map(|i| (Num(i % keys), i)).collect(), 1);
          }
          _ => {
            // one by one
            w.add(ChainMap::default(), BTreeMap::new(), 1);
            let s = &mut w.slots[0];
            for (k, v) in entries() {
              let p = v.read();
              let new = s.real.insert(k.clone(), v);
              same!(new, s.model.insert(k, p).is_none(), "insert says whether it is new");
            }
          }
        }
        w.next += 2 * n;
        w.check_all("it");
        exact(&mut w, 10);
        w.check_all("it and merging");
        cx.count("operations", 3);
        drop(w);
        settle(cx);
      }
    }
  }
}

/// A large layer with a few small ones around it, then one operation.
fn unequal(cx: &mut Ctx) {
  let mut no = 0;
  for big in [255u64, 256, 1500, 5000, 70_000] {
    for small in 1..4u64 {
      for first in [false, true] {
        for op in 0..7 {
          no += 1;
          if !cx.mine(no, true) || (big > 9000 && small != 2) {
            continue;
          }
          cx.at(|| format!("a layer of {big} keys, another of {small} ({}), operation {op}", if first { "below" } else { "above" }));
          val::reset();
          BUCKETS.with(|b| b.set(big + 9));
          let mut w = World::<Num>::new(big + 3);
          w.universe = (0..big + 3).filter(|k| *k < 9 || k % (big / 60) == 0 || *k + 9 > big).map(Num).collect();
          w.add(ChainMap::default(), BTreeMap::new(), 1);
          let layer = |w: &mut World<Num>, ks: std::ops::Range<u64>| {
            let p = w.fresh();
            w.next += ks.end;
            let s = &mut w.slots[0];
            s.real.extend(ks.clone().map(|k| (Num(k), Val::new(p + k))));
            s.model.extend(ks.map(|k| (Num(k), p + k)));
          };
          if first {
            layer(&mut w, 0..small);
          }
          layer(&mut w, 0..big);
          if !first {
            layer(&mut w, 0..small);
            layer(&mut w, big - 1..big + small - 1);
          }
          if op >= 4 {
            let (r, m) = (w.slots[0].real.clone(), w.slots[0].model.clone());
            w.add(r, m, 1);
          }
          match op {
            0 | 4 => w.slots[0].real.consolidate(),
            1 | 5 => {
              let s = &mut w.slots[0];
              same!(s.real.remove(&Num(1)).map(|v| v.read()), s.model.remove(&Num(1)), "remove");
            }
            2 => exact(&mut w, 9),
            3 => exact(&mut w, 8),
            _ => exact(&mut w, 11),
          }
          w.check_all("it");
          if w.slots[0].model.len() > 1 {
            exact(&mut w, 10);
            w.check_all("it and merging");
          }
          cx.count("operations", 3);
          drop(w);
          settle(cx);
        }
      }
    }
  }
}

pub fn fixed_clones(cx: &mut Ctx) {
  let len = if cx.thorough { 5 } else { 4 };
  enumerate(cx, len, true);
  copies(cx);
}

/// Many copies of one map, then one operation on one of them.
fn copies(cx: &mut Ctx) {
  let mut no = 0;
  for k in [2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 70_000] {
    for layers in 1..4u64 {
      for op in 0..11u64 {
        for late in [false, true] {
          no += 1;
          if !cx.mine(no, true) || (k > 2000 && (late || layers != 2)) || (k > 300 && cfg!(miri)) {
            continue;
          }
          cx.at(|| format!("{k} copies of a map of {layers} layers, then operation {op} on {}", if late { "the last" } else { "the first" }));
          val::reset();
          BUCKETS.with(|b| b.set(3));
          let mut w = World::<Num>::new(4);
          w.add(ChainMap::default(), BTreeMap::new(), 1);
          // map 1 is the one that appends take from
          w.add(ChainMap::default(), BTreeMap::new(), 2);
          for x in 0..layers {
            exact(&mut w, if x == 0 { 3 } else { x % 2 });
            let (r, m) = (w.slots[0].real.clone(), w.slots[0].model.clone());
            w.add(r, m, 1);
          }
          exact(&mut w, 2);
          while w.slots.len() < k + 2 {
            let (r, m) = (w.slots[0].real.clone(), w.slots[0].model.clone());
            w.add(r, m, 1);
          }
          let last = w.slots.len() - 1;
          if late {
            w.slots.swap(0, last);
          }
          let name = match op {
            0 | 1 => { exact(&mut w, op); "insert" }
            2 => { exact(&mut w, 3); "extend" }
            3 => { exact(&mut w, 4); "remove" }
            4 => { exact(&mut w, 6); "get_mut" }
            5 => { exact(&mut w, 8); "iter_mut" }
            6 => { exact(&mut w, 9); "drain" }
            7 => { exact(&mut w, 10); "consolidate" }
            8 => { exact(&mut w, 11); "append to it" }
            9 => { exact(&mut w, 12); "append it" }
            _ => { w.slots[0] = Slot { real: ChainMap::default(), model: BTreeMap::new(), family: 0 }; "drop" }
          };
          w.check_all(name);
          // once more, through another copy
          let mid = w.slots.len() / 2;
          w.slots.swap(0, mid);
          exact(&mut w, 6);
          exact(&mut w, 4);
          w.check_all("a second operation");
          cx.count("clones", k as u64);
          cx.max("most copies of one map", k as u64);
          cx.count("mutations with a live clone", 3);
          drop(w);
          settle(cx);
        }
      }
    }
  }
}
