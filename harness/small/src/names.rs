//! Non-empty names, literal maps and sets.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use str_util::{Name, SmolStr};
use vmon::{Ctx, catch, fnv, need, same, tr, vio};

fn text(cx: &mut Ctx) -> String {
  match cx.below(6) {
    0 => {
      // around the inline limit, and the shapes small strings store specially
      let a = cx.below(36);
      let b = cx.below(140);
      format!("{}{}", "\n".repeat(a as usize), " ".repeat(b as usize))
    }
    1 => {
      let n = 20 + cx.below(8);
      (0..n).map(|_| *cx.pick(&['a', 'b', '\0'])).collect()
    }
    2 => {
      let n = 4 + cx.below(6);
      (0..n).map(|_| *cx.pick(&['é', '😀', 'a'])).collect()
    }
    3 => String::new(),
    4 => (*cx.pick(&["a", "b", "ab", "A", " ", "\0"])).to_owned(),
    _ => {
      let n = cx.size(500);
      cx.text(n)
    }
  }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
  fast_hash::FxBuildHasher.hash_one(t)
}

fn make(cx: &mut Ctx, s: &str) -> Option<Name> {
  let by = cx.below(5);
  let opt = match by {
    0 => Name::try_new(s),
    1 => Name::try_new(s.to_owned()),
    2 => Name::try_new(SmolStr::new(s)),
    3 => Name::try_new(s.to_owned().into_boxed_str()),
    _ => Name::try_new(s.chars().collect::<SmolStr>()),
  };
  let sure = catch(|| match by {
    0 => Name::new(s),
    1 => Name::new(s.to_owned()),
    2 => Name::new(SmolStr::new(s)),
    3 => Name::new(s.to_owned().into_boxed_str()),
    _ => Name::new(s.chars().collect::<SmolStr>()),
  });
  same!(opt.is_some(), !s.is_empty(), "try_new of {s:?} made a name");
  match sure {
    Ok(n) => {
      need!(!s.is_empty(), "a name was made from the empty string");
      same!(Some(&n), opt.as_ref(), "new and try_new of {s:?}");
    }
    Err(e) => need!(s.is_empty(), "new of {s:?} panicked: {e}"),
  }
  opt
}

fn name_case(cx: &mut Ctx) {
  let n = 1 + cx.size(30);
  let mut tree = BTreeMap::<Name, u64>::new();
  let mut table = HashMap::<Name, u64>::new();
  let mut model = BTreeMap::<String, u64>::new();
  let mut last: Option<(String, Name)> = None;
  for k in 0..n {
    let s = text(cx);
    tr!(cx, "name {s:?}");
    let Some(name) = make(cx, &s) else {
      cx.count("empty strings refused", 1);
      continue;
    };
    same!(name.as_str(), s.as_str(), "text of the name");
    same!(name.to_string(), s, "display of the name");
    same!(<Name as std::borrow::Borrow<str>>::borrow(&name), s.as_str(), "borrowed name");
    same!(hash(&name), hash(s.as_str()), "hash of the name and of its text {s:?}");
    let c = name.clone();
    same!(c, name, "clone of a name");
    if s.len() > 128 {
      need!(std::ptr::eq(c.as_str(), name.as_str()), "the text of a name of {} bytes is copied for its clone", s.len());
      cx.count("clones of long names", 1);
    }
    if let Some((t, m)) = &last {
      same!(name == *m, s == *t, "equality of {s:?} and {t:?}");
      same!(name.cmp(m), s.as_str().cmp(t.as_str()), "order of {s:?} and {t:?}");
      same!(name.partial_cmp(m), s.as_str().partial_cmp(t.as_str()), "order of {s:?} and {t:?}");
    }
    let old = model.insert(s.clone(), k);
    same!(tree.insert(name.clone(), k), old, "inserting {s:?} in an ordered map");
    same!(table.insert(name.clone(), k), old, "inserting {s:?} in a map");
    last = Some((s, name));
    cx.count("names made", 1);
  }
  for (s, k) in &model {
    same!(tree.get(s.as_str()), Some(k), "ordered lookup of {s:?}");
    same!(table.get(s.as_str()), Some(k), "lookup of {s:?}");
  }
  let miss = text(cx);
  same!(tree.get(miss.as_str()), model.get(&miss), "ordered lookup of {miss:?}");
  same!(table.get(miss.as_str()), model.get(&miss), "lookup of {miss:?}");
  same!(
    tree.keys().map(Name::as_str).collect::<Vec<_>>(),
    model.keys().map(String::as_str).collect::<Vec<_>>(),
    "names in order"
  );
  if model.len() > 1 {
    cx.nontrivial(cx.choices_hash());
  }
}

fn lit<K: Clone + Eq + Hash + Ord + std::fmt::Debug, const N: usize>(cx: &mut Ctx, keys: &[K]) {
  let ks: [K; N] = std::array::from_fn(|i| keys[i].clone());
  let want: BTreeMap<K, usize> = ks.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
  let dup = want.len() < N;
  let pairs: [(K, usize); N] = std::array::from_fn(|i| (ks[i].clone(), i));
  tr!(cx, "literal {ks:?}");
  match catch(|| fast_hash::map(pairs)) {
    Ok(m) => {
      if dup {
        vio!("a map was made from {ks:?}, with {} keys", m.len());
      }
      same!(m.into_iter().collect::<BTreeMap<_, _>>(), want, "map of {ks:?}");
    }
    Err(e) => need!(dup, "a map of {ks:?} was refused: {e}"),
  }
  match catch(|| fast_hash::set(ks.clone())) {
    Ok(m) => {
      if dup {
        vio!("a set was made from {ks:?}, with {} elements", m.len());
      }
      same!(m.into_iter().collect::<BTreeSet<_>>(), want.into_keys().collect::<BTreeSet<_>>(), "set of {ks:?}");
    }
    Err(e) => need!(dup, "a set of {ks:?} was refused: {e}"),
  }
  cx.count("literal collections", 2);
  cx.count("literal collections refused", u64::from(dup));
  if N > 1 {
    cx.nontrivial(fnv(format!("{ks:?}").as_bytes()));
  }
}

/// A key that compares by one part only.
#[derive(Debug, Clone)]
#[allow(dead_code)]
struct Part(u8, u64);
impl PartialEq for Part {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl Eq for Part {}
impl Hash for Part {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.0.hash(h);
  }
}
impl PartialOrd for Part {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for Part {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    self.0.cmp(&o.0)
  }
}

fn sized<K: Clone + Eq + Hash + Ord + std::fmt::Debug>(cx: &mut Ctx, n: u64, keys: &[K]) {
  match n {
    0 => lit::<K, 0>(cx, keys),
    1 => lit::<K, 1>(cx, keys),
    2 => lit::<K, 2>(cx, keys),
    3 => lit::<K, 3>(cx, keys),
    4 => lit::<K, 4>(cx, keys),
    5 => lit::<K, 5>(cx, keys),
    6 => lit::<K, 6>(cx, keys),
    7 => lit::<K, 7>(cx, keys),
    8 => lit::<K, 8>(cx, keys),
    9 => lit::<K, 17>(cx, keys),
    10 => lit::<K, 40>(cx, keys),
    _ => lit::<K, 130>(cx, keys),
  }
}

pub fn case(cx: &mut Ctx) {
  if cx.chance(1, 2) {
    name_case(cx);
    return;
  }
  let n = cx.below(12);
  let dom = *cx.pick(&[3u64, 20, 1000, u64::MAX]);
  // mostly without a repetition, so that one planted repetition is what is refused
  let mut nums: Vec<u64> = Vec::new();
  let mut seen = HashSet::new();
  let free = cx.chance(1, 3);
  let mut next = 0;
  while nums.len() < 130 {
    let v = if free { cx.below(dom) } else { next * 7 + cx.below(7) };
    next += 1;
    if free || seen.insert(v) {
      nums.push(v);
    }
  }
  let len = [0, 1, 2, 3, 4, 5, 6, 7, 8, 17, 40, 130][n as usize];
  if !free && len > 1 && cx.chance(1, 2) {
    let (i, j) = (cx.idx(len), cx.idx(len));
    nums[i] = nums[j];
  }
  match cx.below(4) {
    0 => sized(cx, n, &nums),
    1 => sized(cx, n, &nums.iter().map(|x| format!("k{x}")).collect::<Vec<_>>()),
    2 => sized(cx, n, &nums.iter().enumerate().map(|(i, x)| Part(*x as u8, i as u64)).collect::<Vec<_>>()),
    _ => sized(cx, n, &nums.iter().map(|x| (*x % 2 == 0, *x as u32)).collect::<Vec<_>>()),
  }
  let cap = cx.size(5000) as usize;
  let m = fast_hash::map_with_capacity::<u8, u8>(cap);
  let s = fast_hash::set_with_capacity::<u8>(cap);
  need!(m.is_empty() && s.is_empty() && m.capacity() >= cap && s.capacity() >= cap, "collections with capacity {cap}: {} and {}", m.capacity(), s.capacity());
}

fn large<const N: usize>(cx: &mut Ctx, no: &mut u64) {
  let spots = [(0, N - 1), (N / 2, N - 1), (N - 2, N - 1), (0, 1), (N / 3, N / 3 + 1), (254, 255), (255, 256), (1, N - 2), (N, N)];
  for (a, b) in spots {
    *no += 1;
    if a > N || b > N || !cx.mine(*no, true) {
      continue;
    }
    cx.at(|| format!("{N} keys, number {a} being number {b} again"));
    let mut ks: Vec<u64> = (0..N as u64).map(|x| x * 5).collect();
    if a < N && b < N {
      ks[b] = ks[a];
    }
    lit::<u64, N>(cx, &ks);
    if N < 2000 {
      lit::<String, N>(cx, &ks.iter().map(|k| format!("{k}")).collect::<Vec<_>>());
    }
  }
}

pub fn fixed(cx: &mut Ctx) {
  let mut no = 0;
  large::<255>(cx, &mut no);
  large::<256>(cx, &mut no);
  large::<257>(cx, &mut no);
  large::<300>(cx, &mut no);
  large::<1100>(cx, &mut no);
  large::<5000>(cx, &mut no);
  for n in [1000usize, 4096, 65_535, 65_536, 70_000] {
    no += 1;
    if cx.mine(no, true) {
      cx.at(|| format!("a name of {n} characters"));
      for c in ["a", "é", " "] {
        let s = c.repeat(n);
        let _ = make(cx, &s);
        if let Some(x) = Name::try_new(s.as_str()) {
          same!(x.as_str(), s, "text of the name");
        }
      }
    }
  }
  // every short list over three keys, and every string length with one byte per character
  let mut i = 0;
  for n in 0..=6u32 {
    for code in 0..3u64.pow(n) {
      i += 1;
      if !cx.mine(i, n > 1) {
        continue;
      }
      let mut c = code;
      let ks: Vec<u64> = (0..n)
        .map(|_| {
          let x = c % 3;
          c /= 3;
          x
        })
        .collect();
      cx.at(|| format!("{ks:?}"));
      sized(cx, n.into(), &ks);
    }
  }
  for n in 0..300usize {
    if cx.mine(n as u64, n > 0) {
      for c in ["a", "é", "😀", " ", "\n"] {
        let s = c.repeat(n);
        cx.at(|| format!("{s:?}"));
        let _ = make(cx, &s);
        if let Some(x) = Name::try_new(s.as_str()) {
          same!(x.as_str(), s, "text of the name");
          same!(hash(&x), hash(s.as_str()), "hash of the name {s:?}");
        }
      }
    }
  }
}
