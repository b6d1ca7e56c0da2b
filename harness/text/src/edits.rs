use crate::model::Model;
use crate::pos::all_texts;
use apply_changes::Change;
use text_pos::{PositionUtf16, RangeUtf16};
use vmon::{Ctx, catch, fnv, tr};

type Pos = (u32, u32);
type Edit = (Option<(Pos, Pos)>, String);

/// The reference: one edit at a time, every position looked up in the current text by scanning.
fn apply(s: &mut String, e: &Edit) -> bool {
  match &e.0 {
    None => {
      s.clear();
      s.push_str(&e.1);
      true
    }
    Some((a, b)) => {
      let m = Model::new(s);
      match (m.offset(a.0, a.1), m.offset(b.0, b.1)) {
        (Some(x), Some(y)) => {
          s.replace_range(x as usize..y as usize, &e.1);
          true
        }
        _ => false,
      }
    }
  }
}

fn run(start: &str, edits: &[Edit], want: &str) {
  let changes: Vec<Change> = edits
    .iter()
    .map(|(r, t)| Change {
      range: r.map(|(a, b)| RangeUtf16 {
        start: PositionUtf16 { line: a.0, col: a.1 },
        end: PositionUtf16 { line: b.0, col: b.1 },
      }),
      text: t.clone(),
    })
    .collect();
  let mut got = start.to_owned();
  if let Err(e) = catch(|| apply_changes::get(&mut got, changes)) {
    vmon::violate(format!("panicked on {start:?} with {edits:?}: {e}"));
  }
  if got != want {
    vmon::violate(format!(
      "text after {} edits on {}: got {}, expected {} (edits {})",
      edits.len(),
      vmon::clip(&format!("{start:?}")),
      vmon::clip(&format!("{got:?}")),
      vmon::clip(&format!("{want:?}")),
      vmon::clip(&format!("{edits:?}"))
    ));
  }
}

fn insertion(cx: &mut Ctx) -> String {
  if cx.chance(1, 4000) {
    // many lines at once
    let unit = ["\n", "a\n", "é\n\n", "b\n😀"][cx.idx(4)];
    let n = if cx.chance(1, 2) { cx.range(100, 600) } else { cx.range(600, 3000) };
    return unit.repeat(n as usize);
  }
  match cx.below(8) {
    0 | 1 => String::new(),
    2 => "\n".to_owned(),
    3 => "😀".to_owned(),
    4 => "x".to_owned(),
    5 => {
      let n = cx.below(4);
      cx.text(n)
    }
    6 => {
      let n = cx.below(12);
      cx.text(n)
    }
    _ => {
      let n = cx.size(60);
      cx.text(n)
    }
  }
}

/// Picks an in-range edit, often related to where the last one was.
fn in_range_edit(cx: &mut Ctx, m: &Model, last: Option<(Pos, Pos)>, style: u64) -> (Pos, Pos) {
  let n = m.at.len();
  let line_of = |i: usize| m.at[i].1;
  let first_of_line = |l: u32| m.at.partition_point(|&(_, x, _)| x < l);
  let anchor = match last {
    Some((a, b)) => {
      let l = match (style + cx.below(2)) % 6 {
        // same line as the last edit's start
        0 => a.0,
        // above
        1 => a.0.saturating_sub(cx.below(4) as u32),
        // below
        2 => b.0.saturating_add(cx.below(4) as u32),
        // just above
        3 => a.0.saturating_sub(1),
        4 => a.0.saturating_add(1),
        _ => line_of(cx.idx(n)),
      }
      .min(m.num_lines() - 1);
      let lo = first_of_line(l);
      let hi = first_of_line(l + 1).max(lo + 1);
      lo + cx.idx(hi - lo)
    }
    None => cx.idx(n),
  };
  let other = match cx.below(7) {
    0 | 1 => anchor,
    2 => (anchor + 1 + cx.idx(3)).min(n - 1),
    3 => anchor.saturating_sub(1 + cx.idx(3)),
    4 => {
      // to the end of the line
      let e = first_of_line(line_of(anchor) + 1);
      e.saturating_sub(1).max(anchor).min(n - 1)
    }
    5 => (anchor + cx.idx(20)).min(n - 1),
    _ => cx.idx(n),
  };
  let (a, b) = (anchor.min(other), anchor.max(other));
  ((m.at[a].1, m.at[a].2), (m.at[b].1, m.at[b].2))
}

fn oob_pos(cx: &mut Ctx, m: &Model, text: &str) -> Pos {
  let (o, l0, c0) = m.at[cx.idx(m.at.len())];
  let end_col = m.at.iter().rev().find(|x| x.1 == l0).unwrap().2;
  match cx.below(8) {
    0 => (m.num_lines() + cx.below(4) as u32, cx.below(5) as u32),
    1 => (l0, end_col + 1),
    2 => (l0, end_col + 1 + cx.below(10) as u32),
    3 => (l0, u32::MAX - cx.below(u64::from(o) + 2) as u32),
    4 => (u32::MAX - cx.below(2) as u32, u32::MAX),
    5 => (l0, end_col.saturating_add(cx.near_int(u32::MAX.into()) as u32)),
    6 => {
      // inside a surrogate pair if the text has one
      let v: Vec<_> = m
        .at
        .iter()
        .filter(|x| text[x.0 as usize..].chars().next().is_some_and(|c| c as u32 > 0xffff))
        .collect();
      if v.is_empty() { (l0, end_col + 1) } else { let x = v[cx.idx(v.len())]; (x.1, x.2 + 1) }
    }
    _ => (l0.wrapping_add(cx.near_int(u32::MAX.into()) as u32), c0),
  }
}

fn drive(cx: &mut Ctx, oob: bool) {
  let start = crate::pos::any_text(cx, 120, 4000);
  tr!(cx, "start {start:?}");
  let style = cx.below(6);
  // a long session: many edits, mostly at or after the last one
  let long = !oob && cx.chance(1, 1500);
  let k = if long {
    cx.range(200, 1200)
  } else if cx.chance(1, 200) {
    cx.below(150)
  } else {
    1 + cx.below(9)
  };
  let mut edit_from = None;
  let mut cur = start.clone();
  let mut edits = Vec::<Edit>::new();
  let mut last = None;
  let mut model = Model::new(&cur);
  let mut valid = u32::MAX;
  let (mut changed, mut bad, mut good_after) = (0u64, 0u64, 0u64);
  for _ in 0..k {
    let text = insertion(cx);
    let e: Edit = if cx.chance(1, 14) {
      (None, if cx.chance(1, 3) { let n = cx.size(40); cx.text(n) } else { text })
    } else {
      let mut r = in_range_edit(cx, &model, last, style);
      if cur.len() > 24 && cx.chance(1, 4) {
        // close to something unlike the rest
        let odd = model.odd(&cur);
        if !odd.is_empty() {
          let at = |i: usize| (model.at[i].1, model.at[i].2);
          let (i, j) = (odd[cx.idx(odd.len())], odd[cx.idx(odd.len())]);
          r = (at(i.min(j)), at(if cx.chance(1, 2) { i.min(j) } else { i.max(j) }));
        }
      }
      if long {
        // each at the end of what the one before it inserted, or on the line below
        let o = match edit_from {
          Some(o) if cx.chance(7, 8) => o,
          _ => model.at[cx.idx(model.at.len())].0,
        };
        if let Some((l, c)) = model.position(o) {
          r = ((l, c), (l, c));
        }
      }
      if oob && cx.chance(2, 5) {
        let p = oob_pos(cx, &model, &cur);
        let keep = if cx.chance(1, 3) { oob_pos(cx, &model, &cur) } else if cx.chance(1, 2) { r.0 } else { r.1 };
        r = (p.min(keep), p.max(keep));
      }
      last = Some(r);
      (Some(r), text)
    };
    let before = fnv(cur.as_bytes());
    let ok = apply(&mut cur, &e);
    if ok {
      model = Model::new(&cur);
    }
    if long {
      edit_from = match &e.0 {
        Some((a, _)) => model.offset(a.0, a.1).map(|o| o + e.1.len() as u32),
        None => None,
      };
    }
    match e.0 {
      None => {
        cx.count("full replacements", 1);
        valid = u32::MAX;
      }
      Some((a, b)) => {
        if ok {
          cx.count("ranged edits applied", 1);
          if valid != u32::MAX && b.0 < valid {
            cx.count("edits reusing a line index", 1);
          }
          changed += u64::from(fnv(cur.as_bytes()) != before);
          good_after += u64::from(bad > 0);
        } else {
          cx.count("out-of-range edits", 1);
          bad += 1;
        }
        cx.feature(
          u64::from(b.0 < valid) | u64::from(b.0 == valid) << 1 | u64::from(a.0 == b.0) << 2
            | u64::from(a == b) << 3 | u64::from(ok) << 4 | (e.1.matches('\n').count() as u64).min(3) << 5
            | u64::from(a.1 == 0) << 8 | u64::from(valid == u32::MAX) << 9 | u64::from(edits.len() as u32).min(6) << 10,
        );
        valid = a.0;
      }
    }
    tr!(cx, "edit {e:?} (in range: {ok}) -> {cur:?}");
    edits.push(e);
  }
  cx.count("in-range edits after one", good_after);
  cx.max("most edits", edits.len() as u64);
  cx.max("longest text (bytes)", start.len() as u64);
  if if oob { bad > 0 && good_after > 0 } else { changed >= 2 } {
    cx.nontrivial(fnv(format!("{start:?}{edits:?}").as_bytes()));
  }
  run(&start, &edits, &cur);
}

pub fn in_range(cx: &mut Ctx) {
  drive(cx, false);
}

pub fn mixed(cx: &mut Ctx) {
  drive(cx, true);
}

pub fn fixed(cx: &mut Ctx) {
  let len = if cx.thorough { 4 } else { 3 };
  let mut no = 0;
  let ins = ["", "\n", "b", "é\n"];
  let mut texts = Vec::new();
  all_texts(&['a', '\n', 'é', '😀'], len, |_, s| texts.push(s.to_owned()));
  for s in &texts {
    let m = Model::new(s);
    for i in 0..m.at.len() {
      for j in i..m.at.len() {
        for t in ins {
          no += 1;
          if !cx.mine(no, true) {
            continue;
          }
          let e1: Edit = (Some(((m.at[i].1, m.at[i].2), (m.at[j].1, m.at[j].2))), t.to_owned());
          let mut mid = s.clone();
          apply(&mut mid, &e1);
          let m2 = Model::new(&mid);
          for a in 0..m2.at.len() {
            for b in a..m2.at.len() {
              let e2: Edit = (Some(((m2.at[a].1, m2.at[a].2), (m2.at[b].1, m2.at[b].2))), "Z".to_owned());
              let mut want = mid.clone();
              apply(&mut want, &e2);
              let es = [e1.clone(), e2];
              cx.at(|| format!("text {s:?} edits {es:?}"));
              run(s, &es, &want);
              cx.count("ranged edits applied", 2);
            }
          }
        }
      }
    }
  }
  // long sessions
  for (k, (n, unit, at_end)) in [
    (1100u32, "a\n", true), (300, "é😀\n", true), (1100, "a\n", false), (600, "x", true), (600, "メ", false), (5000, "\n", true),
  ]
  .into_iter()
  .enumerate()
  {
    if !cx.mine(k as u64, true) {
      continue;
    }
    let width: u32 = unit.chars().filter(|&c| c != '\n').map(|c| c.len_utf16() as u32).sum();
    let lines = unit.ends_with('\n');
    let edits: Vec<Edit> = (0..n)
      .map(|i| {
        let at = match (at_end, lines) {
          (true, true) => (i, 0),
          (true, false) => (0, i * width),
          (false, _) => (0, 0),
        };
        (Some((at, at)), unit.to_owned())
      })
      .collect();
    let want = unit.repeat(n as usize);
    cx.at(|| format!("long session {k}"));
    for m in [n, n - 1, n / 2, 255, 256, 257] {
      run("", &edits[..m as usize], &want[..unit.len() * m as usize]);
    }
  }
  many_lines(cx);
  // line and column numbers that do not fit 16 bits, moving up and down
  for (k, line) in [(0u64, "ab\n"), (1, "é😀\n"), (2, "\n")] {
    if !cx.mine(k, true) {
      continue;
    }
    let start = line.repeat(70_000) + &"é".repeat(70_000);
    let mut cur = start.clone();
    let mut edits = Vec::new();
    for (l, c, t) in [
      (69_999u32, 0u32, "x\ny"),
      (65_536, 0, "q"),
      (65_535, 0, "\n"),
      (70_002, 69_000, "w"),
      (3, 0, "z\n"),
      (70_003, 66_000, "v"),
      (0, 0, "\n\n"),
    ] {
      let e: Edit = (Some(((l, c), (l, c))), t.to_owned());
      apply(&mut cur, &e);
      edits.push(e);
    }
    cx.at(|| format!("large text {k}"));
    run(&start, &edits, &cur);
  }
}

/// One edit adds or removes many lines, or makes a line much longer; the next ones are around and
/// below it.
fn many_lines(cx: &mut Ctx) {
  let mut no = 0;
  for n in [15u32, 16, 63, 64, 65, 127, 128, 129, 150, 199, 200, 201, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4097, 65_535, 65_536, 70_000] {
    for unit in ["\n", "a\n", "é😀", "x\n\n"] {
      for grow in [true, false] {
        no += 1;
        if !cx.mine(no, true) || (n > 5000 && unit != "a\n") {
          continue;
        }
        cx.at(|| format!("one edit {} {n} times {unit:?}", if grow { "adds" } else { "removes" }));
        let many = unit.repeat(n as usize);
        let (head, tail) = ("é\n", "😀 end\nlast\n\nz");
        let full = format!("{head}{many}{tail}");
        let short = format!("{head}{tail}");
        let m = Model::new(&full);
        let at = |o: usize| m.position(o as u32).unwrap();
        let (a, b) = (at(head.len()), at(head.len() + many.len()));
        let mut cur = if grow { short.clone() } else { full.clone() };
        let start = cur.clone();
        let mut edits = vec![if grow { (Some((a, a)), many.clone()) } else { (Some((a, b)), String::new()) }];
        apply(&mut cur, &edits[0]);
        let step = unit.len();
        // last first, so that each position means the same when it is used
        let mut places: Vec<usize> = if grow {
          let h = head.len();
          let mid = [1usize, 2, 16, 128, 200, 255, 256, 257, 1024, n as usize / 2, n as usize - 1, n as usize];
          [0, h].into_iter().chain(mid.into_iter().filter(|&k| k <= n as usize).map(|k| h + k * step)).chain([full.len() - 1, full.len()]).collect()
        } else {
          vec![0, head.len(), head.len() + 5, cur.len() - 1, cur.len()]
        };
        places.sort_unstable();
        places.dedup();
        if n > 5000 {
          places.retain(|&o| o == 0 || o > full.len() - 9 || o % 256 == head.len());
        }
        for down in [false, true] {
          let mut edits = edits.clone();
          let mut cur = cur.clone();
          let mut shift = 0;
          for &o in if down { &places[..] } else { &[] } {
            let m = Model::new(&cur);
            let (_, l, c) = *m.at.iter().rfind(|x| x.0 as usize <= o + shift).unwrap();
            let e: Edit = (Some(((l, c), (l, c))), "Q".to_owned());
            apply(&mut cur, &e);
            edits.push(e);
            shift += 1;
          }
          for &o in if down { &[] } else { &places[..] }.iter().rev() {
            let m = Model::new(&cur);
            let (_, l, c) = *m.at.iter().rfind(|x| x.0 as usize <= o).unwrap();
            let e: Edit = (Some(((l, c), (l, c))), "W\n".to_owned());
            apply(&mut cur, &e);
            edits.push(e);
          }
          run(&start, &edits, &cur);
          cx.count("ranged edits applied", edits.len() as u64);
        }
        // the last line and back
        let m = Model::new(&cur);
        let (_, l, c) = *m.at.last().unwrap();
        let e: Edit = (Some(((1, 0), (l, c))), "gone".to_owned());
        apply(&mut cur, &e);
        edits.push(e);
        run(&start, &edits, &cur);
      }
    }
  }
}

pub fn fixed_oob(cx: &mut Ctx) {
  let len = if cx.thorough { 4 } else { 3 };
  let mut no = 0;
  let mut texts = Vec::new();
  all_texts(&['a', '\n', 'é', '😀'], len, |_, s| texts.push(s.to_owned()));
  for s in &texts {
    let m = Model::new(s);
    let far = [u32::MAX, u32::MAX - s.len() as u32, 1 << 20];
    let ls: Vec<u32> = (0..m.num_lines() + 1).chain(far).collect();
    let cs: Vec<u32> = (0..2 * s.chars().count() as u32 + 2).chain(far).collect();
    for &l1 in &ls {
      for &c1 in &cs {
        for &l2 in &ls {
          for &c2 in &cs {
            if (l1, c1) > (l2, c2) || (m.offset(l1, c1).is_some() && m.offset(l2, c2).is_some()) {
              continue;
            }
            no += 1;
            if cx.mine(no, true) {
              let e1: Edit = (Some(((l1, c1), (l2, c2))), "\nQ".to_owned());
              let (_, l, c) = m.at[no as usize % m.at.len()];
              let e2: Edit = (Some(((l, c), (l, c))), "ok".to_owned());
              let es = [e1, e2];
              let mut want = s.clone();
              apply(&mut want, &es[1]);
              cx.at(|| format!("text {s:?} edits {es:?}"));
              run(s, &es, &want);
              cx.count("out-of-range edits", 1);
              cx.count("in-range edits after one", 1);
            }
          }
        }
      }
    }
  }
}
