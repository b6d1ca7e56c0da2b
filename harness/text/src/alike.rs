//! Comparing position tables, positions and ranges.

use crate::model::Model;
use crate::pos::all_texts;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher as _, RandomState};
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};
use vmon::{Ctx, fnv, need, same, tr};

fn p(at: (u32, u32, u32)) -> PositionUtf16 {
  PositionUtf16 { line: at.1, col: at.2 }
}

/// Another text that is described by an equal table, or one that is not by a little.
fn vary(cx: &mut Ctx, s: &str) -> String {
  let mut cs: Vec<char> = s.chars().collect();
  let n = 1 + cx.below(3);
  for _ in 0..n {
    let i = cx.idx(cs.len() + 1);
    let Some(&c) = cs.get(i) else {
      if cx.chance(1, 4) {
        let c = *cx.pick(&['a', '\n', 'é', 'メ', '😀']);
        cs.push(c);
      }
      continue;
    };
    match cx.below(10) {
      // of the same width
      0..=5 => {
        let group: &[char] = match c {
          '\n' => &['\n'],
          _ if c.len_utf8() == 1 => &['a', 'b', ' ', '\t', '\0', '\u{7f}'],
          _ if c.len_utf8() == 2 => &['é', '\u{80}', '\u{7ff}', 'ß'],
          _ if c.len_utf8() == 3 => &['メ', '\u{800}', '\u{ffff}', '\u{2028}'],
          _ => &['😀', '\u{10000}', '\u{10ffff}'],
        };
        cs[i] = *cx.pick(group);
      }
      6 => {
        // as many bytes
        let new: &[char] = match c.len_utf8() {
          1 => &['\n'],
          2 => &['a', 'b'],
          3 => &['é', 'c'],
          _ => &['é', 'é'],
        };
        cs.splice(i..=i, new.iter().copied());
      }
      7 => {
        cs.remove(i);
      }
      8 => {
        let j = cx.idx(cs.len());
        cs.swap(i, j);
      }
      _ => {
        let c = *cx.pick(&['a', '\n', 'é', 'メ', '😀']);
        cs.insert(i, c);
      }
    }
  }
  cs.into_iter().collect()
}

fn pair(cx: &mut Ctx, s: &str, t: &str) -> bool {
  let (ms, mt) = (Model::new(s), Model::new(t));
  let alike = ms.at == mt.at;
  let (a, b) = (PositionDb::new(s), PositionDb::new(t));
  need!(
    (a == b) == alike && (b == a) == alike && (a != b) == !alike,
    "the tables of {s:?} and {t:?} are {}, though their positions are {}",
    if a == b { "equal" } else { "not equal" },
    if alike { "the same" } else { "not the same" }
  );
  cx.count(if alike { "equal tables" } else { "different tables" }, 1);
  alike
}

fn answers(db: &PositionDb, s: &str, m: &Model, picks: &[usize]) {
  for &i in picks {
    let at = m.at[i];
    same!(db.position_utf16(at.0.into()), Some(p(at)), "position of offset {} in a clone for {s:?}", at.0);
    same!(db.text_size_utf16(p(at)), Some(at.0.into()), "offset of {:?} in a clone for {s:?}", p(at));
  }
  let end = *m.at.last().unwrap();
  same!(db.len(), TextSize::from(end.0), "length in a clone for {s:?}");
  same!(db.end_position_utf16(), p(end), "end in a clone for {s:?}");
}

pub fn alike(cx: &mut Ctx) {
  let s = crate::pos::any_text(cx, 120, 3000);
  let t = vary(cx, &s);
  tr!(cx, "texts {s:?} and {t:?}");
  let eq = pair(cx, &s, &t);
  if s != t && !s.is_ascii() {
    cx.nontrivial(fnv(s.as_bytes()) ^ fnv(t.as_bytes()).rotate_left(1));
  }
  let _ = eq;
  let m = Model::new(&s);
  let odd = m.odd(&s);
  let picks: Vec<usize> = (0..12).map(|k| if k < 3 && !odd.is_empty() { odd[cx.idx(odd.len())] } else { cx.idx(m.at.len()) }).collect();
  // clones
  let a = PositionDb::new(&s);
  let mut b = PositionDb::new(&t);
  let c = a.clone();
  need!(c == a, "a clone of the table of {s:?} is not equal to it");
  if cx.chance(1, 2) {
    b.clone_from(&a);
    need!(b == a && c == b, "a table that became a clone of that of {s:?} is not equal to it");
    drop(a);
    answers(&b, &s, &m, &picks);
  } else {
    drop(a);
    drop(b);
  }
  answers(&c, &s, &m, &picks);
  cx.count("clones asked", 1);
  order(cx, &c, &s, &m, &picks);
}

/// Positions and ranges compare like offsets.
fn order(cx: &mut Ctx, c: &PositionDb, s: &str, m: &Model, picks: &[usize]) {
  let s = vmon::clip(s);
  // positions
  let state = RandomState::new();
  let mut tree = BTreeMap::new();
  let mut hash = HashMap::new();
  for &i in picks {
    let x = m.at[i];
    let ox = TextSize::from(x.0);
    let Some(px) = c.position_utf16(ox) else { continue };
    tree.insert(px, ox);
    hash.insert(px, ox);
    same!(RangeUtf16::zero(px), RangeUtf16 { start: px, end: px }, "empty range at {px:?}");
    same!(c.range_utf16(TextRange::empty(ox)), Some(RangeUtf16::zero(px)), "range of no text at {ox:?} in {s:?}");
    for &j in picks {
      let y = m.at[j];
      let Some(py) = c.position_utf16(y.0.into()) else { continue };
      same!(px.cmp(&py), x.0.cmp(&y.0), "order of {px:?} and {py:?} in {s:?}");
      same!(px.partial_cmp(&py), Some(x.0.cmp(&y.0)), "order of {px:?} and {py:?} in {s:?}");
      same!(px == py, x.0 == y.0, "equality of {px:?} and {py:?} in {s:?}");
      need!(px != py || state.hash_one(px) == state.hash_one(py), "the hash of {px:?} is not a function of it");
      cx.count("positions compared", 1);
    }
  }
  let want: Vec<u32> = {
    let mut v: Vec<u32> = picks.iter().map(|&i| m.at[i].0).collect();
    v.sort_unstable();
    v.dedup();
    v
  };
  same!(tree.values().map(|&x| u32::from(x)).collect::<Vec<_>>(), want, "offsets of the positions in order, in {s:?}");
  same!(hash.len(), want.len(), "different positions in {s:?}");
  // ranges
  let mut rs: Vec<(u32, u32)> = picks.windows(2).map(|w| (m.at[w[0].min(w[1])].0, m.at[w[0].max(w[1])].0)).collect();
  let mut us: Vec<RangeUtf16> = rs.iter().filter_map(|&(a, b)| c.range_utf16(TextRange::new(a.into(), b.into()))).collect();
  for (r, u) in rs.iter().zip(&us) {
    for (q, v) in rs.iter().zip(&us) {
      same!(u.cmp(v), r.cmp(q), "order of {u:?} and {v:?} in {s:?}");
      same!(u.partial_cmp(v), Some(r.cmp(q)), "order of {u:?} and {v:?} in {s:?}");
      same!(u == v, r == q, "equality of {u:?} and {v:?} in {s:?}");
      need!(u != v || state.hash_one(u) == state.hash_one(v), "the hash of {u:?} is not a function of it");
      cx.count("ranges compared", 1);
    }
  }
  rs.sort_unstable();
  us.sort_unstable();
  let back: Vec<(u32, u32)> =
    us.iter().filter_map(|&u| c.text_range_utf16(u)).map(|r| (r.start().into(), r.end().into())).collect();
  same!(back, rs, "sorted ranges in {s:?}");
}

pub fn fixed(cx: &mut Ctx) {
  let mut all = Vec::new();
  let len = if cx.thorough { 4 } else { 3 };
  all_texts(&['a', 'b', '\n', 'é', 'メ', '😀'], len, |_, s| all.push(s.to_owned()));
  let mut no = 0;
  let k = all.len();
  for i in 0..k {
    no += 1;
    if !cx.mine(no, true) {
      continue;
    }
    let s = all[i].clone();
    cx.at(|| format!("texts {s:?} and all others"));
    for t in &all {
      pair(cx, &s, t);
    }
  }
  // large ones that differ in one place
  for n in [255, 256, 257, 4096, 65_535, 65_536, 65_537, 70_000] {
    for (x, y) in [("a", "b"), ("é", "ß"), ("é", "ab"), ("メ", "éa"), ("😀", "éé"), ("a", "\n"), ("😀", "メa"), ("a", ""), ("\n", "")] {
      for unit in ["a", "é", "a\n", "\n"] {
        no += 1;
        if !cx.mine(no, true) {
          continue;
        }
        let (head, tail) = (unit.repeat(n), unit.repeat(3));
        cx.at(|| format!("{unit:?} {n} times followed by {x:?} or {y:?}"));
        pair(cx, &format!("{head}{x}{tail}"), &format!("{head}{y}{tail}"));
      }
    }
  }
  for n in [250, 4000, 65_530, 131_060, 140_000] {
    for unit in ["a", "é", "😀", "a\n", "\n", "aé\n\n"] {
      no += 1;
      if !cx.mine(no, true) {
        continue;
      }
      cx.at(|| format!("positions in {unit:?} {n} times, with a few other lines"));
      let s = format!("a\n{}\nbé\n\nc😀", unit.repeat(n));
      let m = Model::new(&s);
      let c = PositionDb::new(&s);
      let k = m.at.len();
      let mut picks: Vec<usize> = (0..6).chain(k - 10..k).collect();
      for x in [1 << 8, 1 << 16, 1 << 17, 65_535 * 2, k / 2] {
        picks.extend((0..6).map(|d| (x + d).min(k - 1)));
      }
      picks.push(cx.idx(k));
      order(cx, &c, &s, &m, &picks);
    }
  }
}
