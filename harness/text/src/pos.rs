use crate::model::Model;
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};
use vmon::{Ctx, catch, fnv, same, tr};

fn p(line: u32, col: u32) -> PositionUtf16 {
  PositionUtf16 { line, col }
}

fn check_exact(cx: &mut Ctx, s: &str, m: &Model, picks: &[usize]) {
  let db = PositionDb::new(s);
  for &i in picks {
    let (o, l, c) = m.at[i];
    let got = db.position_utf16(TextSize::from(o));
    same!(got, Some(p(l, c)), "position of offset {o} in {s:?}");
    let back = db.text_size_utf16(p(l, c));
    same!(back, Some(TextSize::from(o)), "offset of {l}:{c} (zero-based) in {s:?}");
    let here = TextRange::empty(o.into());
    same!(db.range_utf16(here), Some(RangeUtf16::zero(p(l, c))), "empty range at {o} in {s:?}");
    same!(db.text_range_utf16(RangeUtf16::zero(p(l, c))), Some(here), "empty range at {l}:{c} (zero-based) in {s:?}");
    cx.feature(u64::from(l.min(40)) << 20 | u64::from(c.min(40)) << 8 | u64::from(o - c).min(60));
  }
  cx.count("offsets converted", picks.len() as u64);
  for w in picks.windows(2) {
    let (a, b) = (m.at[w[0].min(w[1])], m.at[w[0].max(w[1])]);
    let tr = TextRange::new(a.0.into(), b.0.into());
    let want = RangeUtf16 { start: p(a.1, a.2), end: p(b.1, b.2) };
    same!(db.range_utf16(tr), Some(want), "range {tr:?} in {s:?}");
    same!(db.text_range_utf16(want), Some(tr), "range {want:?} back to offsets in {s:?}");
    cx.count("ranges converted", 1);
  }
}

/// Mostly short ones, some longer ones that are the same nearly all over.
pub fn any_text(cx: &mut Ctx, short: u64, long: u64) -> String {
  if cx.chance(1, 60) {
    let n = match cx.below(3) {
      0 => cx.range(100, 1500),
      1 => cx.range(1500, 12_000),
      _ => cx.near_int(20_000),
    };
    return cx.sparse(n);
  }
  let max = if cx.chance(1, 300) { long } else { short };
  let n = cx.size(max);
  cx.text(n)
}

pub fn exact(cx: &mut Ctx) {
  let s = any_text(cx, 300, 6000);
  tr!(cx, "text {s:?}");
  let m = Model::new(&s);
  if s.contains('\n') && !s.is_ascii() {
    cx.nontrivial(fnv(s.as_bytes()));
  }
  cx.max("longest text (bytes)", s.len() as u64);
  cx.max("most lines", m.num_lines().into());
  let picks: Vec<usize> = if m.at.len() <= 60 && cx.chance(3, 4) {
    (0..m.at.len()).collect()
  } else {
    let mut v: Vec<usize> = (0..40).map(|_| cx.idx(m.at.len())).collect();
    v.extend(m.odd(&s));
    // the ends, and where lines start and end
    v.extend([0, m.at.len() - 1]);
    for _ in 0..4 {
      let l = cx.below(m.num_lines().into()) as u32;
      let i = m.at.partition_point(|x| x.1 < l);
      v.extend([i, i.saturating_sub(1)]);
    }
    let last = m.at.partition_point(|x| x.1 + 1 < m.num_lines());
    v.extend([last, last.saturating_sub(1), last.saturating_sub(2), m.at.len() - 1]);
    v
  };
  check_exact(cx, &s, &m, &picks);
}

/// All texts of up to `len` characters over the alphabet.
pub fn all_texts(alpha: &[char], len: u32, mut f: impl FnMut(u64, &str)) {
  let k = alpha.len() as u64;
  let mut no = 0;
  for l in 0..=len {
    for mut code in 0..k.pow(l) {
      let mut s = String::new();
      for _ in 0..l {
        s.push(alpha[(code % k) as usize]);
        code /= k;
      }
      f(no, &s);
      no += 1;
    }
  }
}

/// A few texts where 16-bit lines, columns or offsets would not do.
fn big_texts() -> Vec<String> {
  let mut out = vec![
    "a\n".repeat(70_000),
    "\n".repeat(66_000) + "é😀x",
    "x".repeat(70_000) + "é\nb",
    "😀".repeat(40_000) + "\n\n😀",
    "メ".repeat(66_000),
    "x\n".to_owned() + &"a".repeat(70_000) + "\nb",
    "\n\n".to_owned() + &"é".repeat(66_000) + "\n" + &"😀".repeat(33_000) + "\n" + &"y".repeat(66_000),
    ("a".repeat(300) + "\n").repeat(300),
    ("é😀".repeat(260) + "\n").repeat(20),
    "é".repeat(300) + "\n" + &"q".repeat(300) + "\n" + &"😀".repeat(300),
  ];
  // every length around the 16-byte chunks and powers of two, with a wide character at the seam
  for n in [14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096] {
    for w in ["é", "メ", "😀", "\n"] {
      out.push("a".repeat(n) + w + "b\nc" + w);
      out.push(format!("{}{w}{}\n{w}", "ab\n".repeat(n / 3), "c".repeat(n % 3 + 1)));
    }
  }
  out
}

pub fn exact_fixed(cx: &mut Ctx) {
  let len = if cx.thorough { 7 } else { 5 };
  let mut base = 0;
  all_texts(&['a', '\n', 'é', 'メ', '😀'], len, |no, s| {
    base = no + 1;
    if cx.mine(no, s.contains('\n') && !s.is_ascii()) {
      cx.at(|| format!("text {s:?}"));
      let m = Model::new(s);
      let picks: Vec<usize> = (0..m.at.len()).chain((0..m.at.len()).rev().step_by(2)).collect();
      check_exact(cx, s, &m, &picks);
    }
  });
  for (i, s) in big_texts().iter().enumerate() {
    if cx.mine(base + i as u64, true) {
      cx.at(|| format!("big text {i}"));
      let m = Model::new(s);
      let n = m.at.len();
      let step = (n / 97).max(1);
      let mut picks: Vec<usize> = (0..n).step_by(step).collect();
      picks.extend(n.saturating_sub(40)..n);
      picks.extend((65_530..65_545).filter(|&x| x < n));
      picks.extend((32_760..32_775).filter(|&x| x < n));
      // the boundaries of lines, and columns around powers of two, wherever they are
      let marks: Vec<usize> = (1..n)
        .filter(|&i| {
          let (_, l, c) = m.at[i];
          (c == 0 && (l < 4 || (l & (l - 1)) == 0 || ((l + 1) & l) == 0))
            || (c >= 255 && (l < 4 || l % 100 == 0) && ((c & (c - 1)) == 0 || ((c + 1) & c) == 0))
        })
        .take(600)
        .collect();
      picks.extend(marks.iter().flat_map(|&i| [i - 1, i]));
      check_exact(cx, s, &m, &picks);
    }
  }
}

fn total<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> T {
  match catch(f) {
    Ok(x) => x,
    Err(e) => vmon::violate(format!("{} panicked: {e}", what())),
  }
}

fn check_offset(cx: &mut Ctx, s: &str, m: &Model, db: &PositionDb, o: u32) {
  let want = m.position(o).map(|(l, c)| p(l, c));
  let got = total(|| format!("position of offset {o} in {s:?}"), || db.position_utf16(TextSize::from(o)));
  same!(got, want, "position of offset {o} in {s:?}");
  if want.is_none() {
    cx.count("offsets refused", 1);
  }
}

fn check_pos(cx: &mut Ctx, s: &str, m: &Model, db: &PositionDb, l: u32, c: u32) {
  let want = m.offset(l, c).map(TextSize::from);
  let got = total(|| format!("offset of {l}:{c} (zero-based) in {s:?}"), || db.text_size_utf16(p(l, c)));
  same!(got, want, "offset of {l}:{c} (zero-based) in {s:?}");
  if want.is_none() {
    cx.count("positions refused", 1);
  }
}

fn check_ranges(cx: &mut Ctx, s: &str, m: &Model, db: &PositionDb, a: (u32, u32), b: (u32, u32)) {
  let (a, b) = (a.min(b), a.max(b));
  let r = RangeUtf16 { start: p(a.0, a.1), end: p(b.0, b.1) };
  let want = m.offset(a.0, a.1).zip(m.offset(b.0, b.1)).map(|(x, y)| TextRange::new(x.into(), y.into()));
  let got = total(|| format!("text range of {r:?} in {s:?}"), || db.text_range_utf16(r));
  same!(got, want, "text range of {r:?} in {s:?}");
  if want.is_none() {
    cx.count("ranges refused", 1);
  }
}

pub fn outside(cx: &mut Ctx) {
  let s = any_text(cx, 60, 3000);
  tr!(cx, "text {s:?}");
  let m = Model::new(&s);
  let db = PositionDb::new(&s);
  if s.contains('\n') || !s.is_ascii() {
    cx.nontrivial(fnv(s.as_bytes()));
  }
  let odd = m.odd(&s);
  let len = s.len() as u32;
  for &i in &odd {
    for d in 0..4 {
      check_offset(cx, &s, &m, &db, m.at[i].0 + d);
    }
  }
  if len < 100 {
    for o in 0..len + 4 {
      check_offset(cx, &s, &m, &db, o);
    }
  }
  for _ in 0..12 {
    let o = match cx.below(4) {
      0 => cx.below(u64::from(len) + 3) as u32,
      1 => u32::MAX - cx.below(4) as u32,
      2 => len.wrapping_add(cx.below(5) as u32),
      _ => cx.near_int(u32::MAX.into()) as u32,
    };
    check_offset(cx, &s, &m, &db, o);
  }
  let mut ps = Vec::new();
  for _ in 0..40 {
    let i = if odd.is_empty() || cx.chance(2, 3) { cx.idx(m.at.len()) } else { odd[cx.idx(odd.len())] };
    let (_, l0, c0) = m.at[i];
    let l = match cx.below(8) {
      0 => m.num_lines() + cx.below(3) as u32,
      1 => cx.near_int(u32::MAX.into()) as u32,
      2 => u32::MAX - cx.below(3) as u32,
      _ => l0,
    };
    let c = match cx.below(8) {
      0 => u32::MAX - cx.below(len.into()) as u32,
      1 => cx.near_int(u32::MAX.into()) as u32,
      2 | 3 => c0 + 1,
      4 => c0 + 2,
      5 => c0.wrapping_add(cx.below(u64::from(len) + 3) as u32),
      6 => cx.below(u64::from(len) + 3) as u32,
      _ => c0,
    };
    check_pos(cx, &s, &m, &db, l, c);
    ps.push((l, c));
  }
  for w in ps.windows(2) {
    check_ranges(cx, &s, &m, &db, w[0], w[1]);
  }
  for _ in 0..4 {
    let (a, b) = (cx.below(u64::from(len) + 3) as u32, cx.below(u64::from(len) + 3) as u32);
    let tr = TextRange::new(a.min(b).into(), a.max(b).into());
    let want = m
      .position(a.min(b))
      .zip(m.position(a.max(b)))
      .map(|(x, y)| RangeUtf16 { start: p(x.0, x.1), end: p(y.0, y.1) });
    let got = total(|| format!("range of {tr:?} in {s:?}"), || db.range_utf16(tr));
    same!(got, want, "range of {tr:?} in {s:?}");
  }
}

pub fn outside_fixed(cx: &mut Ctx) {
  let len = if cx.thorough { 6 } else { 4 };
  all_texts(&['a', '\n', 'é', 'メ', '😀'], len, |no, s| {
    if cx.mine(no, !s.is_empty()) {
      cx.at(|| format!("text {s:?}"));
      let m = Model::new(s);
      let db = PositionDb::new(s);
      for o in (0..s.len() as u32 + 3).chain([u32::MAX - 1, u32::MAX, 1 << 31]) {
        check_offset(cx, s, &m, &db, o);
      }
      let far = [u32::MAX, u32::MAX - 1, u32::MAX - s.len() as u32, 1 << 31, 1 << 16];
      let ls: Vec<u32> = (0..m.num_lines() + 2).chain(far).collect();
      let cs: Vec<u32> = (0..2 * s.chars().count() as u32 + 3).chain(far).collect();
      for &l in &ls {
        for &c in &cs {
          check_pos(cx, s, &m, &db, l, c);
        }
      }
    }
  });
}

fn check_lines(cx: &mut Ctx, s: &str, db: &PositionDb, a: usize, b: usize) {
  let r = TextRange::new((a as u32).into(), (b as u32).into());
  let got: Vec<(usize, usize)> = db.lines(r).map(|x| (x.start().into(), x.end().into())).collect();
  let mut want = Vec::new();
  let mut start = a;
  for (i, &c) in s.as_bytes()[a..b].iter().enumerate() {
    if c == b'\n' {
      want.push((start, a + i + 1));
      start = a + i + 1;
    }
  }
  if start < b {
    want.push((start, b));
  }
  same!(got, want, "lines of {a}..{b} of {s:?}");
  cx.count("ranges split", 1);
  cx.count("lines reported", got.len() as u64);
  cx.feature(got.len() as u64 * 8 + u64::from(a == b) * 4 + u64::from(b == s.len()) * 2 + u64::from(a == 0));
}

fn check_end(s: &str, db: &PositionDb) {
  same!(usize::from(db.len()), s.len(), "length of {s:?}");
  let (_, l, c) = *Model::new(s).at.last().unwrap();
  same!(db.end_position_utf16(), p(l, c), "end position of {s:?}");
}

pub fn lines(cx: &mut Ctx) {
  let s = any_text(cx, 200, 5000);
  tr!(cx, "text {s:?}");
  let db = PositionDb::new(&s);
  check_end(&s, &db);
  let bs: Vec<usize> = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect();
  if s.contains('\n') {
    cx.nontrivial(fnv(s.as_bytes()));
  }
  cx.max("longest text (bytes)", s.len() as u64);
  check_lines(cx, &s, &db, 0, s.len());
  if bs.len() <= 12 {
    for i in 0..bs.len() {
      for j in i..bs.len() {
        check_lines(cx, &s, &db, bs[i], bs[j]);
      }
    }
  } else {
    for _ in 0..30 {
      let (i, j) = (cx.idx(bs.len()), cx.idx(bs.len()));
      check_lines(cx, &s, &db, bs[i.min(j)], bs[i.max(j)]);
    }
  }
}

pub fn lines_fixed(cx: &mut Ctx) {
  let len = if cx.thorough { 8 } else { 6 };
  let mut base = 0;
  all_texts(&['a', '\n', 'メ'], len, |no, s| {
    base = no + 1;
    if cx.mine(no, s.contains('\n')) {
      cx.at(|| format!("text {s:?}"));
      let db = PositionDb::new(s);
      check_end(s, &db);
      let bs: Vec<usize> = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect();
      for i in 0..bs.len() {
        for j in i..bs.len() {
          check_lines(cx, s, &db, bs[i], bs[j]);
        }
      }
    }
  });
  for (i, s) in big_texts().iter().enumerate() {
    if cx.mine(base + i as u64, true) {
      cx.at(|| format!("big text {i}"));
      let db = PositionDb::new(s);
      check_end(s, &db);
      check_lines(cx, s, &db, 0, s.len());
      let mut h = s.len() / 2;
      while !s.is_char_boundary(h) {
        h += 1;
      }
      check_lines(cx, s, &db, h, s.len());
      check_lines(cx, s, &db, 0, h);
    }
  }
}
