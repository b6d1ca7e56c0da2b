//! All short lists of patterns from small sets.

use crate::checks::{judge_missing, judge_unreachable, verdict};
use crate::lang::{Con, Def, P, Test, WAYS, World};
use crate::making::show;
use pattern_match::{Check, ConPat, Pat, RawPat};
use vmon::Ctx;

type Judge = fn(&mut Ctx, &World, usize, &[P], &Check<Test>);

fn con(c: Con, args: Vec<P>) -> P {
  Pat { raw: RawPat::Con(ConPat { con: c, args }), idx: Some(0) }
}

fn or(ps: &[&P]) -> P {
  Pat { raw: RawPat::Or(ps.iter().map(|p| (*p).clone()).collect()), idx: Some(0) }
}

/// Gives all parts different indices.
fn number(p: &mut P, next: &mut u32) {
  *next += 1;
  p.idx = Some(*next);
  match &mut p.raw {
    RawPat::Or(ps) => ps.iter_mut().for_each(|p| number(p, next)),
    RawPat::Con(c) => c.args.iter_mut().for_each(|p| number(p, next)),
  }
}

/// Types 0: two values, 1: option of 0, 2: pair of 0, 3: no values, 4: either 0 or none, 5: a list.
fn types() -> World {
  World::new(vec![
    Def::Adt(vec![vec![], vec![]]),
    Def::Adt(vec![vec![], vec![0]]),
    Def::Adt(vec![vec![0, 0]]),
    Def::Adt(vec![]),
    Def::Adt(vec![vec![0], vec![3]]),
    Def::Adt(vec![vec![], vec![0, 5]]),
    Def::Int(3),
  ])
}

fn sets() -> Vec<(usize, Vec<P>)> {
  let any = || con(Con::Any, vec![]);
  let c = |i, args| con(Con::Ctor(i), args);
  let f = || c(0, vec![]);
  let t = || c(1, vec![]);
  let ft = || or(&[&f(), &t()]);
  let n = || c(0, vec![]);
  let s = |p| c(1, vec![p]);
  let pair = |a, b| c(0, vec![a, b]);
  let r = |a, b| con(Con::Range(a, b), vec![]);
  vec![
    (0, vec![any(), f(), t(), ft(), or(&[&t(), &any()]), or(&[])]),
    (
      1,
      vec![
        any(),
        n(),
        s(any()),
        s(f()),
        s(t()),
        c(1, vec![]),
        s(ft()),
        or(&[&n(), &s(t())]),
        or(&[&s(f()), &s(any())]),
        or(&[&s(any()), &s(f())]),
      ],
    ),
    (
      2,
      vec![
        any(),
        pair(any(), any()),
        pair(f(), any()),
        pair(any(), t()),
        pair(t(), f()),
        c(0, vec![f()]),
        c(0, vec![]),
        pair(ft(), f()),
        pair(ft(), ft()),
        or(&[&pair(f(), f()), &pair(t(), t())]),
      ],
    ),
    (4, vec![any(), c(0, vec![any()]), c(0, vec![f()]), c(0, vec![t()]), c(1, vec![any()]), c(1, vec![]), or(&[&c(1, vec![any()]), &c(0, vec![ft()])])]),
    (
      5,
      vec![
        any(),
        n(),
        c(1, vec![any(), any()]),
        c(1, vec![f(), any()]),
        c(1, vec![any(), n()]),
        c(1, vec![t(), c(1, vec![any(), any()])]),
        c(1, vec![any(), or(&[&n(), &c(1, vec![])])]),
      ],
    ),
    (6, vec![any(), r(0, 0), r(0, 1), r(1, 2), r(2, 3), r(3, 3), or(&[&r(0, 2), &r(1, 3)])]),
  ]
}

fn all(cx: &mut Ctx, judge: Judge) {
  let w = types();
  let len = if cx.thorough { 4 } else { 3 };
  let mut i = 0;
  for (ty, set) in sets() {
    for n in 0..=len {
      for mut code in 0..set.len().pow(n) {
        i += 1;
        if !cx.mine(i, n > 1) {
          continue;
        }
        let mut next = 0;
        let pats: Vec<P> = (0..n)
          .map(|_| {
            let mut p = set[code % set.len()].clone();
            code /= set.len();
            number(&mut p, &mut next);
            p
          })
          .collect();
        for way in WAYS {
          cx.at(|| format!("type {:?}, splitting {way:?}: {:?}", w.defs[ty], pats.iter().map(show).collect::<Vec<_>>()));
          if let Some(got) = verdict(&w, way, &pats, ty) {
            judge(cx, &w, ty, &pats, &got);
          }
        }
      }
    }
  }
  vmon::with_stack(1 << 30, || large(cx, judge));
}

/// Many patterns, and deep ones.
fn large(cx: &mut Ctx, judge: Judge) {
  if cx.shard != 0 {
    return;
  }
  let w = World::new(vec![Def::Adt((0..300).map(|i| if i % 3 == 0 { vec![1] } else { vec![] }).collect()), Def::Int(1), Def::Adt(vec![vec![], vec![2]]), Def::Nat, Def::Adt(vec![vec![3], vec![]])]);
  for drop in [None, Some(0), Some(150), Some(299)] {
    for way in WAYS {
      cx.at(|| format!("300 constructors, without {drop:?}, splitting {way:?}"));
      let mut next = 0;
      let mut pats: Vec<P> = (0..300).filter(|&i| Some(i) != drop).map(|i| con(Con::Ctor(i), vec![])).collect();
      pats.push(pats[7].clone());
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, way, &pats, 0) {
        judge(cx, &w, 0, &pats, &got);
      }
    }
  }
  for n in [5usize, 60] {
    for way in WAYS {
      cx.at(|| format!("nesting of {n}, splitting {way:?}"));
      let mut next = 0;
      let deep = |k: usize| (0..k).fold(con(Con::Any, vec![]), |p, _| con(Con::Ctor(1), vec![p]));
      let shut = |k: usize| (0..k).fold(con(Con::Ctor(0), vec![]), |p, _| con(Con::Ctor(1), vec![p]));
      let mut pats: Vec<P> = (0..n).map(shut).collect();
      pats.push(deep(n));
      pats.insert(n / 2, deep(n + 1));
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, way, &pats, 2) {
        judge(cx, &w, 2, &pats, &got);
      }
      pats.pop();
      if let Some(got) = verdict(&w, way, &pats, 2) {
        judge(cx, &w, 2, &pats, &got);
      }
    }
  }
  for (n, k) in [(254usize, 2usize), (257, 3), (600, 1)] {
    // few patterns, very deep
    for shape in 0..3 {
      cx.at(|| format!("{k} patterns nested {n} deep, shape {shape}"));
      vmon::tick();
      let mut next = 0;
      let deep = |k: usize| (0..k).fold(con(Con::Any, vec![]), |p, _| con(Con::Ctor(1), vec![p]));
      let shut = |k: usize| (0..k).fold(con(Con::Ctor(0), vec![]), |p, _| con(Con::Ctor(1), vec![p]));
      let mut pats: Vec<P> = match shape {
        0 => (0..k).map(|i| shut(n - i)).collect(),
        1 => (0..k).map(|i| deep(n - i)).collect(),
        _ => (0..k).map(|i| deep(n + i)).collect(),
      };
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, WAYS[n % WAYS.len()], &pats, 2) {
        judge(cx, &w, 2, &pats, &got);
      }
    }
  }
  for n in [254i64, 255, 256, 257, 513] {
    for form in 0..3 {
      // many rows that match the same, or nothing in common
      cx.at(|| format!("{n} rows, form {form}"));
      let mut next = 0;
      let mut pats: Vec<P> = (0..n)
        .map(|i| match form {
          0 => con(Con::Ctor(0), vec![]),
          1 => con(Con::Ctor(1), vec![con(Con::Ctor(0), vec![])]),
          _ => con(Con::Ctor((i % 2) as usize), if i % 2 == 0 { vec![] } else { vec![con(Con::Ctor(0), vec![])] }),
        })
        .collect();
      if form > 0 {
        pats.push(con(Con::Ctor(1), vec![con(Con::Any, vec![])]));
      }
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, WAYS[n as usize % WAYS.len()], &pats, 2) {
        judge(cx, &w, 2, &pats, &got);
      }
    }
  }
  // many different patterns, and then some of them again
  for n in [40i64, 130, 190, 199, 200, 201, 210, 255, 256, 257, 300, 520, 1030] {
    for form in 0..5 {
      if n > 300 && form > 2 {
        continue;
      }
      cx.at(|| format!("{n} different rows, form {form}"));
      vmon::tick();
      let c = |i: i64| con(Con::Ctor(i as usize % 300), vec![]);
      let lit = |i: i64| con(Con::Lit(i as u64), vec![]);
      let some = |p: P| con(Con::Ctor(0), vec![p]);
      let any = || con(Con::Any, vec![]);
      let (ty, each): (usize, &dyn Fn(i64) -> P) = match form {
        0 => (3, &lit),
        1 => (4, &|i| some(lit(i))),
        2 => (4, &|i| some(Pat { raw: RawPat::Or(vec![lit(2 * i), lit(2 * i + 1)]), idx: Some(0) })),
        3 => (0, &c),
        _ => (0, &|i| Pat { raw: RawPat::Or(vec![c(i), c((i + 1).min(n - 1))]), idx: Some(0) }),
      };
      let mut pats: Vec<P> = (0..n).map(each).collect();
      let again = [n - 1, n - 2, n - 20, n / 2, 1, 0, n - 1];
      pats.extend(again.map(each));
      pats.push(each(n + 1));
      pats.push(each(n + 1));
      pats.push(any());
      pats.extend(again.map(each));
      pats.push(any());
      let mut next = 0;
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, WAYS[(n + form) as usize % WAYS.len()], &pats, ty) {
        cx.count("lists of many different rows", 1);
        judge(cx, &w, ty, &pats, &got);
      }
    }
  }
  // one pattern of many alternatives
  for n in [7i64, 8, 9, 15, 17, 31, 33, 39, 40, 41, 42, 50, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300] {
    for form in 0..6 {
      cx.at(|| format!("one or-pattern of {n} alternatives, form {form}"));
      vmon::tick();
      let c = |i: i64| con(Con::Ctor(i as usize % 300), vec![]);
      let lit = |i: i64| con(Con::Lit(i as u64), vec![]);
      let some = |p: P| con(Con::Ctor(0), vec![p]);
      let any = || con(Con::Any, vec![]);
      let alts: Vec<P> = match form {
        // some say the same as one before, the first and the last of them among these
        0 => (0..n - 2).map(c).chain([c(0), c(n - 3)]).collect(),
        1 => (0..n).map(|i| if i % 10 == 9 { c(i / 2) } else { c(i) }).collect(),
        2 => (0..n).map(|i| if i == n / 2 { any() } else { c(i) }).collect(),
        // as an argument
        3 | 4 => (0..n).map(|i| lit(i % (n - 1).min(n / 2 + 3))).collect(),
        // nested
        _ => (0..n / 3).map(|i| Pat { raw: RawPat::Or(vec![c(i), c(i + 1), c(i)]), idx: Some(0) }).collect(),
      };
      let big = Pat { raw: RawPat::Or(alts), idx: Some(0) };
      let (ty, mut pats) = match form {
        3 => (3, vec![big, lit(2), lit(n), any()]),
        4 => (4, vec![some(big), some(lit(3)), some(lit(n + 1)), con(Con::Any, vec![])]),
        5 => (0, vec![big, c(1), c(n)]),
        _ => (0, vec![c(2), big, c(n - 4), c(n)]),
      };
      let mut next = 0;
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, WAYS[(n as usize + form) % WAYS.len()], &pats, ty) {
        judge(cx, &w, ty, &pats, &got);
      }
    }
  }
  // records of many fields, most of them with one value
  for n in [30usize, 64, 65, 100, 128, 129, 200, 255, 256, 257, 600] {
    for form in 0..4 {
      cx.at(|| format!("a record of {n} fields, form {form}"));
      vmon::tick();
      // 0: the record, 1: one value, 2: two values
      let two = [0, n / 2, n - 1];
      let w = World::new(vec![
        Def::Adt(vec![(0..n).map(|i| if two.contains(&i) { 2 } else { 1 }).collect()]),
        Def::Adt(vec![vec![]]),
        Def::Adt(vec![vec![], vec![]]),
      ]);
      let rec = |a: &[Option<usize>; 3]| {
        let arg = |i: usize| match two.iter().position(|&x| x == i) {
          Some(k) => a[k].map_or_else(|| con(Con::Any, vec![]), |v| con(Con::Ctor(v), vec![])),
          None => if i % 3 == 0 { con(Con::Ctor(0), vec![]) } else { con(Con::Any, vec![]) },
        };
        con(Con::Ctor(0), (0..n).map(arg).collect())
      };
      let rows: &[[Option<usize>; 3]] = match form {
        0 => &[[Some(0), None, Some(1)]],
        1 => &[[None, Some(0), None], [None, Some(1), None], [Some(0), Some(1), Some(0)]],
        2 => &[[Some(0), None, None], [Some(0), Some(1), Some(1)], [None, None, Some(0)], [Some(1), None, Some(1)]],
        _ => &[[None, None, Some(1)], [Some(1), Some(1), Some(1)], [None, Some(0), None]],
      };
      let mut next = 0;
      let mut pats: Vec<P> = rows.iter().map(rec).collect();
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, WAYS[(n + form) % WAYS.len()], &pats, 0) {
        judge(cx, &w, 0, &pats, &got);
      }
    }
  }
  // deep, with nothing left out on the way down
  for n in [3usize, 31, 32, 33, 63, 64, 65, 95, 96, 97, 98, 100, 127, 128, 129, 130, 255, 256, 257, 258, 600, 1030] {
    for form in 0..5 {
      cx.at(|| format!("{n} constructors, each the only one of its type, around one of two; form {form}"));
      vmon::tick();
      let mut defs: Vec<Def> = (0..n).map(|i| Def::Adt(vec![vec![i + 1]])).collect();
      defs.push(Def::Adt(vec![vec![], vec![]]));
      let w = World::new(defs);
      let wrap = |p: P, k: usize| (0..k).fold(p, |p, _| con(Con::Ctor(0), vec![p]));
      let full = |i: usize| wrap(con(Con::Ctor(i), vec![]), n);
      let any = |k: usize| wrap(con(Con::Any, vec![]), k);
      let mut pats: Vec<P> = match form {
        0 => vec![full(0)],
        1 => vec![full(1), full(0), any(n / 2)],
        2 => vec![full(1), full(1)],
        3 => vec![any(n - 1), full(1), any(0)],
        _ => vec![wrap(or(&[&con(Con::Ctor(1), vec![]), &con(Con::Ctor(1), vec![])]), n), any(n), full(0)],
      };
      let mut next = 0;
      pats.iter_mut().for_each(|p| number(p, &mut next));
      if let Some(got) = verdict(&w, WAYS[(n + form) % WAYS.len()], &pats, 0) {
        judge(cx, &w, 0, &pats, &got);
      }
    }
  }
  for way in WAYS {
    cx.at(|| format!("200 numbers, splitting {way:?}"));
    let mut next = 0;
    let mut pats: Vec<P> = (0..200).map(|i| con(Con::Lit(i % 190), vec![])).collect();
    pats.iter_mut().for_each(|p| number(p, &mut next));
    if let Some(got) = verdict(&w, way, &pats, 3) {
      judge(cx, &w, 3, &pats, &got);
    }
  }
}

pub fn missing(cx: &mut Ctx) {
  all(cx, judge_missing);
}

pub fn unreachable(cx: &mut Ctx) {
  all(cx, judge_unreachable);
}
