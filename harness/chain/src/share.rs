//! C42: cloning and adding to a clone copies nothing.

use chain_map::ChainMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use vmon::{Ctx, fnv, need, same, tr};

thread_local! {
  static BYTES: Cell<u64> = const { Cell::new(0) };
  static KEY_CLONES: Cell<u64> = const { Cell::new(0) };
  static VAL_CLONES: Cell<u64> = const { Cell::new(0) };
  static HASHES: Cell<u64> = const { Cell::new(0) };
  static COMPARED: Cell<u64> = const { Cell::new(0) };
  static KEYS_LIVE: Cell<u64> = const { Cell::new(0) };
  static VALS_LIVE: Cell<u64> = const { Cell::new(0) };
}

/// Counts the bytes asked for on each thread.
struct Counting;

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
    unsafe { System.alloc(l) }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    unsafe { System.dealloc(p, l) }
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
    unsafe { System.alloc_zeroed(l) }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    unsafe { System.realloc(p, l, n) }
  }
}

#[global_allocator]
static ALLOC: Counting = Counting;

fn up(c: &'static std::thread::LocalKey<Cell<u64>>) {
  c.with(|c| c.set(c.get() + 1));
}

fn down(c: &'static std::thread::LocalKey<Cell<u64>>) {
  c.with(|c| c.set(c.get() - 1));
}

#[derive(Debug)]
struct Ck(u64);

impl PartialEq for Ck {
  fn eq(&self, other: &Self) -> bool {
    up(&COMPARED);
    self.0 == other.0
  }
}

impl Eq for Ck {}

impl Ck {
  fn new(n: u64) -> Self {
    up(&KEYS_LIVE);
    Ck(n)
  }
}

impl Clone for Ck {
  fn clone(&self) -> Self {
    up(&KEY_CLONES);
    Ck::new(self.0)
  }
}

impl Drop for Ck {
  fn drop(&mut self) {
    down(&KEYS_LIVE);
  }
}

impl Hash for Ck {
  fn hash<H: Hasher>(&self, h: &mut H) {
    up(&HASHES);
    h.write_u64(self.0);
  }
}

#[derive(Debug)]
struct Cv(u64);

impl Cv {
  fn new(n: u64) -> Self {
    up(&VALS_LIVE);
    Cv(n)
  }
}

impl Clone for Cv {
  fn clone(&self) -> Self {
    up(&VAL_CLONES);
    Cv::new(self.0)
  }
}

impl Drop for Cv {
  fn drop(&mut self) {
    down(&VALS_LIVE);
  }
}

type Map = ChainMap<Ck, Cv>;

/// A map, what it must contain, and which additions it holds: (name, number of entries).
struct Held {
  real: Map,
  model: BTreeMap<u64, u64>,
  batches: Vec<(u64, u64)>,
}

#[derive(Clone, Copy)]
struct Seen {
  keys: u64,
  vals: u64,
  hashes: u64,
  compared: u64,
  bytes: u64,
}

fn seen() -> Seen {
  Seen {
    keys: KEY_CLONES.with(Cell::get),
    vals: VAL_CLONES.with(Cell::get),
    hashes: HASHES.with(Cell::get),
    compared: COMPARED.with(Cell::get),
    bytes: BYTES.with(Cell::get),
  }
}

/// What happened during the call.
fn during<T>(f: impl FnOnce() -> T) -> (T, Seen) {
  let a = seen();
  let ret = f();
  let b = seen();
  (ret, Seen { keys: b.keys - a.keys, vals: b.vals - a.vals, hashes: b.hashes - a.hashes, compared: b.compared - a.compared, bytes: b.bytes - a.bytes })
}

fn nothing(what: &str, s: Seen) {
  need!(s.keys == 0 && s.vals == 0, "{what} copied {} keys and {} values", s.keys, s.vals);
}

struct World {
  maps: Vec<Held>,
  next: u64,
}

impl World {
  fn fresh(&mut self) -> u64 {
    self.next += 1;
    self.next
  }

  /// The entries of a map that no other one holds. It may make room for more by moving these.
  fn alone(&self, i: usize) -> u64 {
    let others: BTreeSet<u64> =
      self.maps.iter().enumerate().filter(|x| x.0 != i).flat_map(|x| x.1.batches.iter().map(|b| b.0)).collect();
    self.maps[i].batches.iter().filter(|b| !others.contains(&b.0)).map(|b| b.1).sum()
  }

  /// The most entries an operation on the whole of the map may copy: all once if they are put
  /// together, none once they are together and no other map needs them.
  fn may_copy(&self, i: usize) -> u64 {
    let all = self.maps[i].batches.iter().map(|b| b.1).sum();
    if self.maps[i].batches.len() <= 1 && self.alone(i) == all { 0 } else { all }
  }

  /// After an operation on the whole of the map it holds its entries alone, once.
  fn whole(&mut self, i: usize, what: &str, limit: u64, s: Seen) {
    need!(s.keys <= limit, "{what} copied {} keys, and should copy at most {limit}", s.keys);
    need!(s.vals <= limit, "{what} copied {} values, and should copy at most {limit}", s.vals);
    let b = self.fresh();
    let n = self.maps[i].model.len() as u64;
    self.maps[i].batches = vec![(b, n)];
  }

  fn settle(&self, what: &str) {
    let all: BTreeMap<u64, u64> = self.maps.iter().flat_map(|m| m.batches.iter().copied()).collect();
    let most: u64 = all.values().sum();
    let (k, v) = (KEYS_LIVE.with(Cell::get), VALS_LIVE.with(Cell::get));
    need!(k <= most && v <= most, "after {what}, {k} keys and {v} values are kept although the maps share {most}");
  }

  fn check(&self, i: usize, what: &str) {
    let m = &self.maps[i];
    let ((), s) = during(|| {
      let got: BTreeMap<u64, u64> = m.real.iter().map(|(k, v)| (k.0, v.0)).collect();
      same!(got, m.model, "contents after {what}");
      same!(m.real.is_empty(), m.model.is_empty(), "is_empty after {what}");
    });
    nothing("iterating", s);
  }

  fn lookup(&self, i: usize, k: u64) {
    let m = &self.maps[i];
    let key = Ck::new(k);
    let ((), s) = during(|| same!(m.real.get(&key).map(|v| v.0), m.model.get(&k).copied(), "get {k}"));
    nothing("a lookup", s);
    if m.batches.len() <= 1 {
      need!(s.hashes <= 4, "a lookup in a consolidated map of {} entries took {} hashes", m.model.len(), s.hashes);
      need!(s.compared <= 200, "a lookup in a consolidated map of {} entries compared {} keys", m.model.len(), s.compared);
    }
  }

  fn clone(&mut self, i: usize) {
    let m = &self.maps[i];
    let (real, s) = during(|| m.real.clone());
    nothing("cloning", s);
    need!(s.hashes == 0 && s.compared == 0, "cloning took {} hashes and compared {} keys", s.hashes, s.compared);
    // a pointer, with the counts around it, for every addition
    let limit = 256 + 64 * m.batches.len() as u64;
    need!(s.bytes <= limit, "cloning a map of {} entries added in {} steps took {} bytes", m.model.len(), m.batches.len(), s.bytes);
    let new = Held { real, model: m.model.clone(), batches: m.batches.clone() };
    self.maps.push(new);
  }

  fn insert(&mut self, i: usize, k: u64) {
    let v = self.fresh();
    let b = self.fresh();
    let alone = self.alone(i);
    let m = &mut self.maps[i];
    let layers = m.batches.len() as u64 + 2 * alone;
    let (key, val) = (Ck::new(k), Cv::new(v));
    let (new, s) = during(|| m.real.insert(key, val));
    nothing("inserting", s);
    same!(new, m.model.insert(k, v).is_none(), "insert {k}");
    need!(s.hashes <= 4 + 2 * layers, "inserting into a map of {} entries took {} hashes", m.model.len(), s.hashes);
    need!(s.compared <= 200 + 100 * layers, "inserting into a map of {} entries compared {} keys", m.model.len(), s.compared);
    need!(s.bytes <= 4096 + 64 * layers, "inserting into a map of {} entries took {} bytes", m.model.len(), s.bytes);
    m.batches.push((b, 1));
  }

  fn extend(&mut self, i: usize, keys: &[u64]) {
    let b = self.fresh();
    let pairs: Vec<(u64, u64)> = keys.iter().map(|&k| (k, self.fresh())).collect();
    let m = &mut self.maps[i];
    let items: Vec<(Ck, Cv)> = pairs.iter().map(|&(k, v)| (Ck::new(k), Cv::new(v))).collect();
    let ((), s) = during(|| m.real.extend(items));
    nothing("extending", s);
    m.model.extend(pairs);
    let distinct = keys.iter().collect::<BTreeSet<_>>().len() as u64;
    m.batches.push((b, distinct));
  }
}

fn reset() -> World {
  for c in [&KEYS_LIVE, &VALS_LIVE] {
    c.with(|c| c.set(0));
  }
  World { maps: Vec::new(), next: 0 }
}

fn done(w: World) {
  drop(w);
  need!(KEYS_LIVE.with(Cell::get) == 0 && VALS_LIVE.with(Cell::get) == 0, "keys or values are left after the last map is gone");
}

/// One operation on the whole of a map.
fn exclusive(w: &mut World, i: usize, op: u64, k: u64) -> &'static str {
  let limit = w.may_copy(i);
  let v = w.fresh();
  let m = &mut w.maps[i];
  let key = Ck::new(k);
  let (name, s) = match op {
    0 => ("consolidate", during(|| m.real.consolidate()).1),
    1 => {
      let (got, s) = during(|| m.real.get_mut(&key).map(|x| std::mem::replace(&mut x.0, v)));
      let want = m.model.get_mut(&k).map(|x| std::mem::replace(x, v));
      same!(got, want, "get_mut {k}");
      ("get_mut", s)
    }
    2 => {
      let (got, s) = during(|| m.real.remove(&key).map(|x| x.0));
      same!(got, m.model.remove(&k), "remove {k}");
      ("remove", s)
    }
    3 => {
      let (n, s) = during(|| m.real.iter_mut().map(|x| x.1.0 += 1).count());
      same!(n, m.model.len(), "iter_mut");
      m.model.values_mut().for_each(|x| *x += 1);
      ("iter_mut", s)
    }
    4 => {
      let real = std::mem::take(&mut m.real);
      let (n, s) = during(|| real.into_iter().count());
      same!(n, m.model.len(), "into_iter");
      m.model.clear();
      ("into_iter", s)
    }
    _ => {
      let (n, s) = during(|| m.real.drain().count());
      same!(n, m.model.len(), "drain");
      m.model.clear();
      ("drain", s)
    }
  };
  w.whole(i, name, limit, s);
  name
}

pub fn case(cx: &mut Ctx) {
  let mut w = reset();
  w.maps.push(Held { real: Map::default(), model: BTreeMap::new(), batches: Vec::new() });
  let keys = 1 + cx.size(40);
  let steps = 5 + cx.size(60);
  let (mut clones, mut shared, mut adds) = (0, 0, 0);
  let mut log = Vec::new();
  for _ in 0..steps {
    let i = cx.idx(w.maps.len());
    let k = cx.below(keys);
    let what = match cx.below(14) {
      0 | 1 => {
        w.insert(i, k);
        adds += u64::from(clones > 0);
        "insert"
      }
      2 => {
        let n = if cx.chance(1, 20) { cx.size(3000) } else { cx.size(12) };
        let ks: Vec<u64> = (0..n).map(|_| cx.below(keys.max(n))).collect();
        w.extend(i, &ks);
        adds += u64::from(clones > 0);
        "extend"
      }
      3..=5 if w.maps.len() < 6 => {
        w.clone(i);
        clones += 1;
        "clone"
      }
      6 if w.maps.len() > 1 => {
        let mut m = w.maps.swap_remove(i);
        let ((), s) = during(|| m.real = Map::default());
        nothing("dropping", s);
        "drop"
      }
      7 if w.maps.len() > 1 => {
        let mut other = w.maps.swap_remove(i);
        let j = cx.idx(w.maps.len());
        let m = &mut w.maps[j];
        let ((), s) = during(|| m.real.append(&mut other.real));
        nothing("appending", s);
        need!(s.hashes == 0, "appending took {} hashes", s.hashes);
        need!(other.real.is_empty(), "what was appended is not empty");
        m.model.extend(std::mem::take(&mut other.model));
        m.batches.append(&mut other.batches);
        if cx.chance(1, 2) {
          w.maps.push(other);
        }
        "append"
      }
      8 => {
        for _ in 0..4 {
          let k = cx.below(keys + 2);
          w.lookup(i, k);
        }
        "get"
      }
      9 if w.may_copy(i) > 500 && cx.chance(3, 4) => "none",
      9..=13 => {
        let kinds = if cx.chance(1, 3) { 6 } else { 4 };
        let op = cx.below(kinds);
        let limit = w.may_copy(i);
        shared += u64::from(limit > 0);
        cx.max("most entries that may be copied", limit);
        let name = exclusive(&mut w, i, op, k);
        if cx.chance(1, 3) {
          // now all is its own
          exclusive(&mut w, i, 1, k);
          cx.count("operations that may not copy", 1);
        }
        name
      }
      _ => "none",
    };
    tr!(cx, "{what} {i} {k}");
    log.push(what.len() as u8);
    log.push(i as u8);
    let j = cx.idx(w.maps.len());
    w.check(j, what);
    w.settle(what);
    cx.count("operations", 1);
  }
  cx.count("clones", clones);
  cx.count("additions with a clone around", adds);
  cx.count("operations on a whole shared map", shared);
  if clones > 0 && adds > 0 && shared > 0 {
    cx.nontrivial(fnv(&log));
  }
  done(w);
}

/// One map of each size, clones of it, an addition to each, and one operation on the whole of one.
pub fn fixed(cx: &mut Ctx) {
  let mut no = 0;
  let sizes: &[u64] = if cfg!(miri) { &[0, 1, 40] } else { &[0, 1, 2, 3, 4, 7, 8, 9, 100, 1000, 1023, 1024, 1025, 30_000, 200_000] };
  for &n in sizes {
    for clones in [1usize, 2, 9] {
      for op in 0..6 {
        for layers in [1u64, 2, 5] {
          no += 1;
          if !cx.mine(no, n > 0) || (n > 2000 && (layers == 2 || clones == 2)) {
            continue;
          }
          cx.at(|| format!("{clones} clones of a map of {n} entries added in {layers} steps, each added to, then operation {op}"));
          let mut w = reset();
          w.maps.push(Held { real: Map::default(), model: BTreeMap::new(), batches: Vec::new() });
          for l in 0..layers {
            let ks: Vec<u64> = (0..n).filter(|k| layers == 1 || k % (layers - 1) == l || l == layers - 1).collect();
            w.extend(0, &ks);
          }
          w.settle("extending");
          exclusive(&mut w, 0, 0, 0);
          w.settle("consolidating");
          for c in 0..clones {
            w.clone(0);
            w.lookup(c + 1, n / 2);
            w.insert(c + 1, n / 2);
            w.insert(c + 1, n + 1);
            w.lookup(c + 1, n + 1);
          }
          w.settle("adding to clones");
          cx.count("clones", clones as u64);
          cx.count("additions with a clone around", 2 * clones as u64);
          let name = exclusive(&mut w, 1, op, n / 2);
          w.settle(name);
          exclusive(&mut w, 1, 1, n / 2);
          cx.count("operations on a whole shared map", 1);
          cx.count("operations that may not copy", 1);
          // the others go, and the last one has all of it to itself
          w.maps.truncate(1);
          w.settle("dropping the clones");
          let name = exclusive(&mut w, 0, op, 0);
          cx.count("operations that may not copy", 1);
          w.check(0, name);
          done(w);
        }
      }
    }
  }
}
