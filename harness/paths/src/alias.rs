//! C37: borrowed views of clean paths.

use crate::words::{any, bytes, name, parts, path, show};
use paths::{CleanPath, CleanPathBuf, Store};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use vmon::{Ctx, fnv, need, same, tr};

fn addr(p: &Path) -> (usize, usize) {
  (bytes(p).as_ptr() as usize, bytes(p).len())
}

/// Reads all of a view.
fn read(cx: &mut Ctx, p: &CleanPath, want: &[u8], what: &str) {
  same!(String::from_utf8_lossy(bytes(p.as_path())), String::from_utf8_lossy(want), "{what}");
  cx.count("views checked", 1);
}

fn views(cx: &mut Ctx, b: &CleanPathBuf, want: &[u8]) {
  let v = b.as_clean_path();
  need!(addr(v.as_path()) == addr(b.as_path()), "the borrowed form of a path lies elsewhere");
  let w: &CleanPath = std::borrow::Borrow::borrow(b);
  need!(addr(w.as_path()) == addr(b.as_path()), "the borrow of a path lies elsewhere");
  let plain: &Path = std::borrow::Borrow::borrow(b);
  need!(addr(plain) == addr(b.as_path()), "the plain borrow of a path lies elsewhere");
  read(cx, v, want, "the borrowed form");
  read(cx, w, want, "the borrow");
  let mut up = v;
  let mut left = parts(want);
  while let Some(u) = up.parent() {
    left.pop();
    need!(
      addr(u.as_path()).0 == addr(b.as_path()).0 && addr(u.as_path()).1 < addr(up.as_path()).1,
      "a parent is not a prefix of its path in memory"
    );
    read(cx, u, &show(&left), "a parent");
    up = u;
  }
}

pub fn case(cx: &mut Ctx) {
  let mut a = b"/".to_vec();
  a.extend(any(cx));
  a.truncate(if cfg!(miri) { 40 } else { 300 });
  let Some(p) = CleanPathBuf::new(path(&a)) else { return };
  let want = show(&parts(&a));
  tr!(cx, "path {:?}", String::from_utf8_lossy(&a));
  views(cx, &p, &want);
  // the heap contents stay where they are when the owner moves
  let boxed = Box::new(p);
  let v: &CleanPath = boxed.as_clean_path();
  let deep: &CleanPath = v.parent().unwrap_or(v);
  let kept = deep.to_owned();
  let copy = boxed.clone();
  let other = v.join(path(&name(cx)));
  read(cx, v, &want, "a view after copying");
  drop(copy);
  drop(other);
  read(cx, v, &want, "a view after dropping a copy");
  read(cx, deep, bytes(kept.as_path()), "a parent after dropping a copy");
  let moved = *boxed;
  let mut map = HashMap::new();
  let mut tree = BTreeMap::new();
  map.insert(moved.clone(), 1);
  tree.insert(kept, 2);
  for i in 0..cx.below(if cfg!(miri) { 4 } else { 20 }) {
    let n = name(cx);
    let q = moved.as_clean_path().join(path(&n));
    map.insert(q.clone(), i);
    tree.insert(q, i);
  }
  need!(map.contains_key(moved.as_clean_path()), "a path is missing from a map");
  for k in map.keys().chain(tree.keys()) {
    let w = bytes(k.as_path()).to_vec();
    views(cx, k, &w);
  }
  // a store gives views into itself
  let mut store = Store::new();
  let ids: Vec<_> = map.keys().map(|k| store.get_id(k.as_clean_path())).collect();
  let held: Vec<&CleanPath> = ids.iter().map(|&i| store.get_path(i)).collect();
  for (h, k) in held.iter().zip(map.keys()) {
    need!(addr(h.as_path()).0 != addr(k.as_path()).0, "the store's path shares memory with the one it was made from");
    let w = bytes(k.as_path()).to_vec();
    read(cx, h, &w, "a path of a store");
  }
  drop(map);
  for h in &held {
    let w = bytes(h.as_path()).to_vec();
    read(cx, h, &w, "a path of a store");
    if let Some(u) = h.parent() {
      let w = show(&parts(bytes(u.as_path())));
      read(cx, u, &w, "the parent of a path of a store");
    }
  }
  let mut grow = moved;
  let before = grow.as_clean_path().to_owned();
  for _ in 0..cx.below(6) {
    let b = any(cx);
    grow.push(path(&b));
    let w = show(&parts(bytes(grow.as_path())));
    views(cx, &grow, &w);
  }
  views(cx, &before, &want);
  cx.nontrivial(fnv(&a) ^ cx.choices_hash());
}
