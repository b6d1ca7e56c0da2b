//! C15: clean paths are normal forms and stay so.

use crate::words::{any, bytes, parts, path, show};
use paths::{CleanPath, CleanPathBuf, MemoryFileSystem};
use std::collections::{BTreeSet, HashMap};
use std::hash::{BuildHasher as _, Hash};
use std::path::Path;
use vmon::{Ctx, fnv, need, same, tr, vio};

fn txt(b: &[u8]) -> String {
  String::from_utf8_lossy(b).into_owned()
}

/// Checks a clean path against its normal form.
fn is(p: &CleanPath, want: &[u8], how: &str) {
  same!(txt(bytes(p.as_path())), txt(want), "{how}");
  need!(bytes(p.as_path()) == want, "{how}: the bytes differ from {want:?}");
}

fn make(cx: &mut Ctx, b: &[u8]) -> Option<CleanPathBuf> {
  let got = CleanPathBuf::new(path(b));
  let abs = b.first() == Some(&b'/');
  match (got, abs) {
    (None, false) => {
      cx.count("relative paths refused", 1);
      None
    }
    (None, true) => vio!("the absolute path {:?} has no clean form", txt(b)),
    (Some(p), false) => vio!("the relative path {:?} has a clean form {:?}", txt(b), p),
    (Some(p), true) => {
      let want = show(&parts(b));
      is(p.as_clean_path(), &want, &format!("the clean form of {:?}", txt(b)));
      need!(bytes(p.as_path()) == want, "as_path of the clean form of {:?}", txt(b));
      need!(bytes(&p.clone().into_path_buf()) == want, "into_path_buf of the clean form of {:?}", txt(b));
      let Some(again) = CleanPathBuf::new(p.as_path()) else { vio!("the clean path {:?} has no clean form", txt(&want)) };
      is(again.as_clean_path(), &want, "the clean form of a clean path");
      cx.count("paths made", 1);
      Some(p)
    }
  }
}

/// Checks the chain of parents.
fn parents(cx: &mut Ctx, p: &CleanPath) {
  let mut want = parts(bytes(p.as_path()));
  let mut cur = p;
  loop {
    let got = cur.parent();
    if want.pop().is_none() {
      need!(got.is_none(), "the root has the parent {got:?}");
      break;
    }
    let Some(up) = got else { vio!("{cur:?} has no parent") };
    is(up, &show(&want), "parent");
    cx.count("parents", 1);
    cur = up;
  }
}

fn joined(base: &[u8], other: &[u8]) -> Vec<u8> {
  if other.first() == Some(&b'/') {
    return show(&parts(other));
  }
  let mut all = base.to_vec();
  all.push(b'/');
  all.extend_from_slice(other);
  show(&parts(&all))
}

fn join(cx: &mut Ctx, p: &CleanPathBuf, other: &[u8]) -> CleanPathBuf {
  let want = joined(bytes(p.as_path()), other);
  let got = p.as_clean_path().join(path(other));
  is(got.as_clean_path(), &want, &format!("{:?} joined with {:?}", p.as_path(), txt(other)));
  let mut pushed = p.clone();
  pushed.push(path(other));
  is(pushed.as_clean_path(), &want, &format!("{:?} after pushing {:?}", p.as_path(), txt(other)));
  // the clean form of the plain join
  let plain = p.as_path().join(path(other));
  need!(
    CleanPathBuf::new(&plain).as_ref() == Some(&got),
    "{:?} joined with {:?} is not the clean form of the plain join",
    p.as_path(),
    txt(other)
  );
  cx.count("joins", 1);
  got
}

fn hash<T: Hash + ?Sized>(s: &std::hash::RandomState, x: &T) -> u64 {
  s.hash_one(x)
}

fn compare(cx: &mut Ctx, a: &CleanPathBuf, b: &CleanPathBuf) {
  let (ab, bb) = (parts(bytes(a.as_path())), parts(bytes(b.as_path())));
  let (ac, bc) = (a.as_clean_path(), b.as_clean_path());
  let (ap, bp) = (a.as_path(), b.as_path());
  let eq = ab == bb;
  need!((a == b) == eq && (ac == bc) == eq && (ap == bp) == eq, "{a:?} and {b:?}: equality differs between the forms");
  let ord = ap.cmp(bp);
  need!(
    a.cmp(b) == ord && ac.cmp(bc) == ord && a.partial_cmp(b) == Some(ord) && ac.partial_cmp(bc) == Some(ord),
    "{a:?} and {b:?}: the order differs between the forms"
  );
  need!(ab.cmp(&bb) == ord, "{a:?} and {b:?} are not ordered by their components");
  let s = std::hash::RandomState::new();
  for (p, c, o) in [(ap, ac, a), (bp, bc, b)] {
    let h = hash(&s, p);
    need!(hash(&s, c) == h && hash(&s, o) == h, "{o:?}: the hash differs between the forms");
  }
  let mut map = HashMap::new();
  map.insert(a.clone(), 1);
  need!(map.contains_key(bc) == eq, "a hash map with {a:?} looked up by the borrowed {b:?}");
  need!(map.contains_key(bp) == eq, "a hash map with {a:?} looked up by the plain {b:?}");
  need!(map.contains_key(b) == eq, "a hash map with {a:?} looked up by {b:?}");
  let set = BTreeSet::from([a.clone()]);
  need!(set.contains(bc) == eq && set.contains(bp) == eq && set.contains(b) == eq, "an ordered set with {a:?} looked up by {b:?}");
  let back: &CleanPath = std::borrow::Borrow::borrow(a);
  let plain: &Path = std::borrow::Borrow::borrow(a);
  need!(back == ac && plain == ap && ac.to_owned() == *a, "{a:?} and its borrowed forms differ");
  cx.count("pairs compared", 1);
}

pub fn case(cx: &mut Ctx) {
  let a = any(cx);
  tr!(cx, "path {:?}", txt(&a));
  let root = MemoryFileSystem::root();
  is(root.as_clean_path(), b"/", "the root of the in-memory file system");
  let mut p = make(cx, &a).unwrap_or(root);
  if bytes(p.as_path()) != a.as_slice() {
    cx.nontrivial(fnv(&a));
  }
  parents(cx, p.as_clean_path());
  let mut all = vec![p.clone()];
  for _ in 0..cx.below(5) {
    let b = any(cx);
    tr!(cx, "join {:?}", txt(&b));
    p = join(cx, &p, &b);
    make(cx, &b);
    if cx.chance(1, 3) {
      parents(cx, p.as_clean_path());
    }
    if cx.chance(1, 4) {
      let up = p.as_clean_path().parent().map(ToOwned::to_owned);
      if let Some(up) = up {
        p = up;
      }
    }
    all.push(p.clone());
  }
  for _ in 0..2 {
    let (i, j) = (cx.idx(all.len()), cx.idx(all.len()));
    compare(cx, &all[i], &all[j]);
  }
  let near = p.as_clean_path().join("..").as_clean_path().join(if cx.chance(1, 2) { "a" } else { "." });
  compare(cx, &p, &near);
}

/// Paths with many of something: components, ways up, dots, slashes, bytes in a component.
fn long(cx: &mut Ctx) {
  let mut no = 0;
  for n in [100usize, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 5000, 65_535, 65_536, 66_000, 70_000] {
    let big = n > 600;
    for form in 0..12 {
      no += 1;
      if !cx.mine(no, true) {
        continue;
      }
      cx.at(|| format!("a path of form {form}, size {n}"));
      let names = |n: usize| -> Vec<u8> { (0..n).flat_map(|i| format!("/{}", i % 11).into_bytes()).collect() };
      let b: Vec<u8> = match form {
        // names, some of them left again
        0 => names(n),
        1 => [names(n + 5), b"/..".repeat(n), b"/z".to_vec()].concat(),
        2 => [names(n), b"/..".repeat(n + 5), b"/z/y/x/..".to_vec()].concat(),
        3 => b"/a/b/..".repeat(n),
        4 => [b"/a/..".repeat(n), b"/b".to_vec()].concat(),
        5 => [b"/..".repeat(n), b"/b/c/../d".to_vec()].concat(),
        // nothing, much of it
        6 => [b"/a".to_vec(), b"/.".repeat(n), b"/b/..".to_vec(), b"/.".repeat(n), b"/c".to_vec()].concat(),
        7 => [b"/".repeat(n), b"a".to_vec(), b"/".repeat(n), b"b/../c".to_vec(), b"/".repeat(n)].concat(),
        // long names
        8 => [b"/x/".to_vec(), b"q".repeat(n), b"/..".to_vec(), b"/y".to_vec()].concat(),
        9 => [b"/x/".to_vec(), b".".repeat(n), b"/".to_vec(), "é".repeat(n).into_bytes(), b"/../z".to_vec()].concat(),
        10 => [b"/x/..".to_vec(), b"q".repeat(n), b"/../".to_vec(), b"q".repeat(n), b"..".to_vec()].concat(),
        _ => (0..n).flat_map(|i| if i % 3 == 2 { b"/..".to_vec() } else { format!("/{i}").into_bytes() }).collect(),
      };
      if let Some(p) = make(cx, &b) {
        if !big {
          parents(cx, p.as_clean_path());
        }
      }
      let Some(base) = make(cx, b"/x/y") else { return };
      let got = join(cx, &base, &b);
      compare(cx, &base, &got);
      let got = join(cx, &base, &b[1..]);
      compare(cx, &base, &got);
      // one after the other
      if n < 5000 {
        let parts: Vec<&[u8]> = b.split(|&c| c == b'/').collect();
        let mut p = base;
        for c in parts.chunks(1 + parts.len() / 60) {
          p = join(cx, &p, c.join(&b'/').strip_prefix(b"/").unwrap_or(b"."));
        }
      }
      cx.count("long paths", 1);
    }
  }
}

pub fn fixed(cx: &mut Ctx) {
  long(cx);
  let len = if cx.thorough { 10 } else { 8 };
  let mut i = 0;
  for n in 0..=len {
    for mut code in 0..3usize.pow(n) {
      i += 1;
      let b: Vec<u8> = (0..n)
        .map(|_| {
          let c = b"/.a"[code % 3];
          code /= 3;
          c
        })
        .collect();
      if !cx.mine(i, b.contains(&b'.')) {
        continue;
      }
      cx.at(|| format!("path {:?}", txt(&b)));
      if let Some(p) = make(cx, &b) {
        parents(cx, p.as_clean_path());
      }
      for base in [&b"/"[..], b"/x", b"/x/y"] {
        let Some(base) = make(cx, base) else { return };
        let got = join(cx, &base, &b);
        compare(cx, &base, &got);
      }
    }
  }
}
