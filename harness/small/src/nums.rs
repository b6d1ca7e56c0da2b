//! Identifiers and number conversions.

use crate::logs;
use idx::Idx;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use text_size_util::{TextRange, TextSize, WithRange, mk_text_size};
use uniq::UniqMk;
use vmon::{Ctx, catch, need, same, tr};

const MAX: u64 = u32::MAX as u64;

/// Takes what a value feeds to its hash as the value's identity.
#[derive(Default)]
struct Raw {
  v: u64,
  writes: u32,
}

impl Hasher for Raw {
  fn finish(&self) -> u64 {
    self.v
  }
  fn write(&mut self, b: &[u8]) {
    for &x in b {
      self.v = (self.v << 8) | u64::from(x);
    }
    self.writes += 1;
  }
  fn write_u32(&mut self, n: u32) {
    self.v = n.into();
    self.writes += 1;
  }
  fn write_u64(&mut self, n: u64) {
    self.v = n;
    self.writes += 1;
  }
  fn write_usize(&mut self, n: usize) {
    self.v = n as u64;
    self.writes += 1;
  }
}

fn raw<T: Hash>(t: &T) -> u64 {
  let mut h = Raw::default();
  t.hash(&mut h);
  h.v
}

fn size(n: u64) {
  let u = n as usize;
  let fits = n <= MAX;
  match catch(|| Idx::new(u)) {
    Ok(i) => {
      need!(fits, "Idx::new({n}) gave {i:?}");
      same!(i.to_usize(), u, "Idx::new({n}).to_usize()");
    }
    Err(e) => need!(!fits, "Idx::new({n}) panicked: {e}"),
  }
  match catch(|| mk_text_size(u)) {
    Ok(i) => {
      need!(fits, "mk_text_size({n}) gave {i:?}");
      same!(usize::from(i), u, "mk_text_size({n})");
    }
    Err(e) => need!(!fits, "mk_text_size({n}) panicked: {e}"),
  }
  logs::start();
  let got = catch(|| always::convert::usize_to_u32(u));
  let recs = logs::take();
  match got {
    Ok(x) if fits => {
      same!(u64::from(x), n, "usize_to_u32({n})");
      same!(always::convert::u32_to_usize(x), u, "u32_to_usize({x})");
      need!(recs.is_empty(), "usize_to_u32({n}) logged {recs:?}");
    }
    Ok(x) => {
      need!(!cfg!(debug_assertions), "usize_to_u32({n}) gave {x} in a debug build");
      same!(x, u32::MAX, "usize_to_u32({n}) in a release build");
      need!(recs.len() == 1 && recs[0].level == log::Level::Error, "usize_to_u32({n}) logged {recs:?}");
    }
    Err(e) => need!(!fits && cfg!(debug_assertions), "usize_to_u32({n}) panicked: {e}"),
  }
}

fn value(cx: &mut Ctx) -> u64 {
  match cx.below(6) {
    0 => cx.u64(),
    1 => cx.below(MAX + 1),
    2 => cx.below(2000),
    3 => {
      let hi = cx.below(1 << 32);
      (hi << 32) | cx.below(300)
    }
    4 => (MAX - 4).wrapping_add(cx.below(10)),
    _ => cx.near_int(u64::MAX),
  }
}

pub fn case(cx: &mut Ctx) {
  match cx.below(3) {
    0 => {
      let n = value(cx);
      tr!(cx, "size {n}");
      size(n);
      cx.count("sizes converted", 1);
      cx.count("sizes that do not fit", u64::from(n > MAX));
      if n > 1 {
        cx.nontrivial(n);
      }
    }
    1 => {
      // order, equality, hashing of indices
      let n = 1 + cx.size(60);
      let mut by_idx = HashMap::<Idx, u64, nohash_hasher::BuildNoHashHasher<Idx>>::default();
      let mut by_num = BTreeMap::<u64, u64>::new();
      let mut prev = None::<u64>;
      for k in 0..n {
        let v = if cx.chance(1, 4) { prev.map_or(3, |p| (p + 1).min(MAX)) } else { value(cx) & MAX };
        let i = Idx::new(v as usize);
        if let Some(p) = prev {
          let q = Idx::new(p as usize);
          same!(q.cmp(&i), p.cmp(&v), "order of the indices of {p} and {v}");
          same!(q == i, p == v, "equality of the indices of {p} and {v}");
          same!(mk_text_size(p as usize).cmp(&mk_text_size(v as usize)), p.cmp(&v), "order of the text sizes of {p} and {v}");
        }
        same!(by_idx.insert(i, k), by_num.insert(v, k), "inserting index {v}");
        prev = Some(v);
      }
      same!(by_idx.len(), by_num.len(), "number of distinct indices");
      for (&v, &k) in &by_num {
        same!(by_idx.get(&Idx::new(v as usize)), Some(&k), "looking up index {v}");
      }
      // a location stays with the value it is wrapped around
      let a = by_num.keys().next().copied().unwrap_or(0) as u32;
      let b = by_num.keys().next_back().copied().unwrap_or(0) as u32;
      let range = TextRange::new(TextSize::new(a), TextSize::new(b));
      let w = WithRange { val: n, range };
      let w2 = w.wrap("x");
      same!((w2.val, w2.range), ("x", range), "wrapping a value in a location");
      cx.count("indices compared", n);
      if by_num.len() > 1 {
        cx.nontrivial(cx.choices_hash());
      }
    }
    _ => {
      // identifiers, from several makers in turn
      let makers = 1 + cx.below(3);
      let mut mk: Vec<UniqMk> = (0..makers).map(|_| UniqMk::default()).collect();
      let mut seen: Vec<Vec<uniq::Uniq>> = vec![Vec::new(); mk.len()];
      let mut sets: Vec<HashSet<uniq::Uniq>> = vec![HashSet::new(); mk.len()];
      let n = cx.size(3000);
      for _ in 0..n {
        let m = cx.idx(mk.len());
        let u = mk[m].mk();
        need!(sets[m].insert(u), "identifier {u} given twice");
        if let Some(&p) = seen[m].last() {
          need!(p != u && p.cmp(&u) != std::cmp::Ordering::Equal, "identifiers {p} and {u} are the same");
          need!(p.to_string() != u.to_string(), "two identifiers are displayed as {u}");
        }
        seen[m].push(u);
      }
      for s in &seen {
        let shown: HashSet<String> = s.iter().map(ToString::to_string).collect();
        same!(shown.len(), s.len(), "number of distinct displayed identifiers");
        let ord: std::collections::BTreeSet<_> = s.iter().copied().collect();
        same!(ord.len(), s.len(), "number of identifiers distinct by order");
        cx.max("identifiers from one maker (sets)", s.len() as u64);
      }
      cx.count("identifiers made", n);
      if n > 2 {
        cx.nontrivial(cx.choices_hash());
      }
    }
  }
}

pub fn fixed(cx: &mut Ctx) {
  // every number near a power of two or a multiple of one
  let mut i = 0;
  for k in 0..64u32 {
    for m in [1u64, 3, 5, 0xff, 0xffff, 0xffff_ffff] {
      for d in 0..65u64 {
        let n = m.wrapping_shl(k).wrapping_add(d).wrapping_sub(32);
        i += 1;
        if cx.mine(i, true) {
          cx.at(|| format!("size {n}"));
          size(n);
        }
      }
    }
  }
  // one long history of a maker, all identities remembered
  if cx.shard == 0 {
    let rel = !cfg!(debug_assertions);
    let total: u64 = match (rel, cx.thorough) {
      (true, true) => 1 << 32,
      (true, false) => 1 << 30,
      _ => 1 << 26,
    };
    // the last one of all is left out: counting past it is outside the property
    let total = total.min((1 << 32) - 1);
    cx.at(|| format!("{total} identifiers from one maker"));
    let mut bits = vec![0u64; (1usize << 32) / 64];
    let mut mk = UniqMk::default();
    let mut wide = HashSet::<u64>::new();
    for n in 0..total {
      let u = mk.mk();
      let r = raw(&u);
      if r <= MAX {
        let (w, b) = ((r >> 6) as usize, r & 63);
        need!(bits[w] >> b & 1 == 0, "identifier {u} was given twice (the second time as number {n})");
        bits[w] |= 1 << b;
      } else {
        need!(wide.insert(r), "identifier {u} was given twice (the second time as number {n})");
      }
      if n & 0xff_ffff == 0 {
        vmon::tick();
      }
    }
    cx.max("identifiers from one maker", total);
  }
}
