//! C16: path stores.

use crate::words::{any, name};
use crate::words;
use paths::{CleanPathBuf, MemoryFileSystem, PathId, PathMap, PathSet, Store};
use std::collections::{BTreeMap, HashSet};
use vmon::{Ctx, fnv, need, same, tr, vio};

/// A store and what it should say.
struct Mon {
  store: Store,
  ids: Vec<(PathId, CleanPathBuf)>,
  by_path: BTreeMap<CleanPathBuf, usize>,
}

impl Mon {
  fn new(cx: &mut Ctx) -> Self {
    let store = if cx.chance(1, 2) { Store::new() } else { Store::default() };
    Mon { store, ids: Vec::new(), by_path: BTreeMap::new() }
  }

  /// The store gave this id for this path.
  fn gave(&mut self, cx: &mut Ctx, id: PathId, path: &CleanPathBuf) {
    cx.count("ids given", 1);
    if let Some(&i) = self.by_path.get(path) {
      need!(self.ids[i].0 == id, "{path:?} got id {id:?} but had {:?} before", self.ids[i].0);
    } else {
      if let Some((_, other)) = self.ids.iter().find(|x| x.0 == id) {
        vio!("{path:?} got id {id:?}, which {other:?} has already");
      }
      self.by_path.insert(path.clone(), self.ids.len());
      self.ids.push((id, path.clone()));
    }
  }

  fn add(&mut self, cx: &mut Ctx, path: &CleanPathBuf, owned: bool) -> PathId {
    let id =
      if owned { self.store.get_id_owned(path.clone()) } else { self.store.get_id(path.as_clean_path()) };
    self.gave(cx, id, path);
    id
  }

  fn check(&self, cx: &mut Ctx) {
    for (id, path) in &self.ids {
      same!(self.store.get_path(*id).as_path(), path.as_path(), "the path of id {id:?}");
    }
    cx.count("ids looked up", self.ids.len() as u64);
  }

  /// Uses the ids as keys.
  fn as_keys(&self) {
    let mut map = PathMap::default();
    let mut set = PathSet::default();
    let mut std = HashSet::new();
    for (n, (id, _)) in self.ids.iter().enumerate() {
      need!(map.insert(*id, n).is_none(), "two paths share the key {id:?}");
      need!(set.insert(*id), "two paths share the set element {id:?}");
      need!(std.insert(*id), "two paths share the hash set element {id:?}");
      let w = id.wrap(n);
      need!(w.path == *id && w.val == n, "wrapping a value with {id:?} gives {w:?}");
    }
    for (n, (id, p)) in self.ids.iter().enumerate() {
      same!(map.get(id), Some(&n), "what was stored for {p:?}");
    }
    for w in self.ids.windows(2) {
      need!((w[0].0 == w[1].0) == w[0].0.cmp(&w[1].0).is_eq(), "ids compare as equal but are not");
    }
  }

  fn combine(&mut self, cx: &mut Ctx, other: Mon) {
    let mut got: Vec<(PathId, PathId)> = Vec::new();
    self.store.combine(other.store, &mut |a, b| got.push((a, b)));
    cx.count("combines", 1);
    cx.count("ids reported by combines", got.len() as u64);
    let mut left: Vec<(PathId, CleanPathBuf)> = other.ids;
    for (old, new) in got {
      let Some(at) = left.iter().position(|x| x.0 == old) else {
        vio!("the combine reported {old:?}, which the other store does not have or which was reported before")
      };
      let (_, path) = left.swap_remove(at);
      self.gave(cx, new, &path);
      same!(self.store.get_path(new).as_path(), path.as_path(), "the path of the new id {new:?} for {old:?}");
    }
    need!(left.is_empty(), "the combine did not report {left:?}");
  }
}

/// Almost the same path.
fn twin(cx: &mut Ctx, p: &CleanPathBuf) -> Option<CleanPathBuf> {
  let mut b = words::bytes(p.as_path()).to_vec();
  if b.len() < 2 {
    return None;
  }
  let i = 1 + cx.idx(b.len() - 1);
  match cx.below(8) {
    0 => b.make_ascii_uppercase(),
    1 => b.make_ascii_lowercase(),
    2 => b[i] ^= 0x20,
    3 => b.push(*cx.pick(b" .~\t\0")),
    4 => b.insert(i, *cx.pick(b"0 /")),
    5 => {
      b.remove(i);
    }
    6 => {
      let j = (i + 1).min(b.len() - 1);
      b.swap(i, j);
    }
    _ => b.extend_from_slice("\u{301}".as_bytes()),
  }
  CleanPathBuf::new(words::path(&b))
}

pub fn case(cx: &mut Ctx) {
  let mut pool = vec![MemoryFileSystem::root()];
  let wide = cx.chance(1, 60);
  let n = if wide { 100 + cx.below(300) } else { 1 + cx.size(60) };
  for _ in 0..n {
    if pool.len() > 1 && cx.chance(1, 4) {
      let p = cx.pick(&pool).clone();
      pool.extend(twin(cx, &p));
    } else if cx.chance(1, 3) {
      let mut b = b"/".to_vec();
      b.extend(any(cx));
      pool.extend(CleanPathBuf::new(words::path(&b)));
    } else {
      // relatives of others
      let p = cx.pick(&pool).clone();
      let n = name(cx);
      pool.push(p.as_clean_path().join(words::path(&n)));
    }
  }
  let mut all: Vec<Mon> = (0..1 + cx.below(4)).map(|_| Mon::new(cx)).collect();
  let steps = if wide { 200 + cx.below(300) } else { 3 + cx.size(120) };
  let mut shape = Vec::new();
  for _ in 0..steps {
    let i = cx.idx(all.len());
    match cx.below(12) {
      0 if all.len() > 1 => {
        let other = all.swap_remove(i);
        let j = cx.idx(all.len());
        let common = other.ids.iter().filter(|x| all[j].by_path.contains_key(&x.1)).count();
        tr!(cx, "combine a store of {} paths into one of {}, {common} in common", other.ids.len(), all[j].ids.len());
        if common > 0 && common < other.ids.len() {
          shape.push((common, other.ids.len(), all[j].ids.len()));
        }
        all[j].combine(cx, other);
        all[j].check(cx);
      }
      1 if all.len() < 5 => {
        let m = Mon::new(cx);
        all.push(m);
      }
      2 => all[i].as_keys(),
      _ => {
        let p = cx.pick(&pool).clone();
        let owned = cx.chance(1, 2);
        let id = all[i].add(cx, &p, owned);
        tr!(cx, "store {i}: {p:?} -> {id:?} (owned: {owned})");
        let again = all[i].add(cx, &p, !owned);
        same!(again, id, "the id of {p:?} when asked again");
      }
    }
    let i = cx.idx(all.len());
    all[i].check(cx);
  }
  for m in &all {
    m.check(cx);
    m.as_keys();
  }
  if !shape.is_empty() {
    cx.nontrivial(fnv(format!("{shape:?}").as_bytes()) ^ cx.choices_hash());
  }
}

/// A large store goes into one that has only a few paths, or none.
fn large(cx: &mut Ctx, n: usize, known: &[usize], alike: bool) {
  let path = |i: usize| {
    let k = i / 12;
    let s = match i % 12 {
      _ if !alike => format!("/d{}/f{i}", i % 97),
      0 => format!("/dir/file{k}é"),
      1 => format!("/dir/FILE{k}é"),
      2 => format!("/dir/file{k}e\u{301}"),
      3 => format!("/dir/file{k}é "),
      4 => format!("/dir/file0{k}é"),
      5 => format!("/DIR/file{k}é"),
      6 => format!("/dir/file{k}é."),
      7 => format!("/dir/file{k}É"),
      8 => format!("/dir/file{k}é/x"),
      9 => format!("/dir/file{k}é\\x"),
      10 => format!("/dir /file{k}é"),
      _ => format!("/dir/file{k}e"),
    };
    CleanPathBuf::new(s).unwrap_or_else(|| vio!("no clean path"))
  };
  let mut big = Store::new();
  let ids: Vec<PathId> = (0..n).map(|i| big.get_id_owned(path(i))).collect();
  let distinct: HashSet<PathId> = ids.iter().copied().collect();
  same!(distinct.len(), n, "the number of ids for that many paths");
  for (i, id) in ids.iter().enumerate() {
    need!(big.get_path(*id) == path(i).as_clean_path(), "the path of the id of path {i} is {:?}", big.get_path(*id));
  }
  for (i, id) in ids.iter().enumerate() {
    let p = path(i);
    need!(big.get_id(p.as_clean_path()) == *id, "path {i} of {n} gets another id when asked again by reference");
    need!(big.get_id_owned(p) == *id, "path {i} of {n} gets another id when asked again by value");
  }
  let index: std::collections::HashMap<PathId, usize> = ids.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
  let mut small = Store::new();
  let old: Vec<PathId> = known.iter().map(|&i| small.get_id(path(i).as_clean_path())).collect();
  let mut seen = 0;
  let mut new_ids = std::collections::HashMap::new();
  small.combine(big, &mut |a, b| {
    let Some(&i) = index.get(&a) else { vio!("the combine reported {a:?}") };
    seen += 1;
    same!(new_ids.insert(a, b), None, "what the combine reported before for {a:?}");
    if let Some(k) = known.iter().position(|&k| k == i) {
      same!(b, old[k], "the id of a path that was known");
    }
  });
  same!(seen, n, "the number of ids reported");
  for (k, &i) in known.iter().enumerate() {
    need!(small.get_path(old[k]) == path(i).as_clean_path(), "an id given before a large combine means {:?}", small.get_path(old[k]));
  }
  // first with the ids that were reported, then by asking for the paths, new ones in between
  for i in 0..n {
    let id = new_ids[&ids[i]];
    need!(small.get_path(id) == path(i).as_clean_path(), "the path of a combined id");
  }
  let more: Vec<PathId> = (n + 10..n + 20).map(|i| small.get_id(path(i).as_clean_path())).collect();
  for i in 0..n {
    let id = small.get_id(path(i).as_clean_path());
    need!(small.get_path(id) == path(i).as_clean_path(), "the path of a combined id when asked again");
    same!(new_ids.get(&ids[i]).copied(), Some(id), "what the combine reported for path {i}");
  }
  for (i, id) in more.iter().enumerate() {
    let i = n + 10 + i;
    need!(small.get_path(*id) == path(i).as_clean_path(), "the path of an id given after a large combine");
    need!(small.get_id_owned(path(i)) == *id, "a path added after a large combine gets another id when asked again");
  }
  cx.count("ids given", n as u64);
}

pub fn fixed(cx: &mut Ctx) {
  let n = if cfg!(miri) { 300 } else { 70_000 };
  let cases: [&[usize]; 3] = [&[5, n + 1, 66_000 % n], &[], &[n - 1]];
  let mut no = 0;
  for known in cases {
    for n in [n, n / 10, 1, 2, 12, 16, 17, 31, 32, 33, 60, 64, 65, 120, 255, 256, 257, 300] {
      for alike in [false, true] {
        no += 1;
        if cx.mine(no, true) {
          cx.at(|| format!("a store of {n} paths (much alike: {alike}), combined into one with the paths number {known:?}"));
          large(cx, n, known, alike);
        }
      }
    }
  }
}
