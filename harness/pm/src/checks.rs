//! Verdicts against the meaning of patterns.

use crate::lang::{BUDGET, Con, Cx, FAILURES, P, Test, WAYS, Way, World};
use crate::making::{Maker, show, world};
use crate::oracle::{V, depth, indices, lits, mark, matches, misfit, values};
use pattern_match::{Check, RawPat, check};
use std::collections::BTreeSet;
use std::rc::Rc;
use vmon::{Ctx, catch, fnv, need, same, tr, vio};

const CAP: usize = 3000;

pub fn cons(p: &P) -> usize {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().map(cons).sum(),
    RawPat::Con(c) => usize::from(c.con != Con::Any) + c.args.iter().map(cons).sum::<usize>(),
  }
}

/// The most alternatives in a choice, and in a choice that is an alternative itself.
fn widest(p: &P, inside: bool) -> (usize, usize) {
  let (mut wide, mut nested) = (0, 0);
  let (ps, or) = match &p.raw {
    RawPat::Or(ps) => {
      if inside { nested = ps.len() } else { wide = ps.len() }
      (ps, true)
    }
    RawPat::Con(c) => (&c.args, false),
  };
  for q in ps {
    let (a, b) = widest(q, or);
    wide = wide.max(a);
    nested = nested.max(b);
  }
  (wide, nested)
}

pub fn lang(w: &World, way: Way) -> Cx {
  Cx { world: w.clone(), way, calls: 0, budget: 100_000, fail_at: None, log: None }
}

/// The verdict of the real check, or none if it got too long.
pub fn verdict(w: &World, way: Way, pats: &[P], ty: usize) -> Option<Check<Test>> {
  let mut c = lang(w, way);
  match check::<Test>(&mut c, pats.to_vec(), ty) {
    Ok(x) => Some(x),
    Err(e) if e.0 == BUDGET => None,
    Err(e) => vio!("well-typed patterns give the error {:?}", e.0),
  }
}

/// All values to consider for patterns and witnesses.
pub fn range(w: &World, ty: usize, pats: &[P], more: &[P]) -> Option<Vec<Rc<V>>> {
  let fuel = pats.iter().chain(more).map(depth).max().unwrap_or(0);
  let mut nums = BTreeSet::new();
  pats.iter().chain(more).for_each(|p| lits(p, &mut nums));
  values(w, ty, fuel, &nums, CAP)
}

pub fn judge_missing(cx: &mut Ctx, w: &World, ty: usize, pats: &[P], got: &Check<Test>) {
  let Some(vs) = range(w, ty, pats, &got.missing) else {
    cx.count("skipped, too many values", 1);
    return;
  };
  cx.count("values tried", vs.len() as u64);
  let left: Vec<&V> = vs.iter().map(|v| &**v).filter(|v| !pats.iter().any(|p| matches(p, v))).collect();
  if let Some(v) = left.first() {
    need!(!got.missing.is_empty(), "nothing is reported missing, but no pattern matches {v:?}");
    cx.count("lists with something missing", 1);
  } else {
    need!(
      got.missing.is_empty(),
      "{:?} is reported missing, but some pattern matches every value",
      got.missing.iter().map(show).collect::<Vec<_>>()
    );
    cx.count("exhaustive lists", 1);
  }
  for m in &got.missing {
    if let Some(why) = misfit(w, ty, m) {
      vio!("the missing pattern {} is wrong: {why}", show(m));
    }
    need!(left.iter().any(|v| matches(m, v)), "all values of the missing pattern {} are matched", show(m));
    cx.count("witnesses checked", 1);
  }
}

pub fn judge_unreachable(cx: &mut Ctx, w: &World, ty: usize, pats: &[P], got: &Check<Test>) {
  let Some(vs) = range(w, ty, pats, &[]) else {
    cx.count("skipped, too many values", 1);
    return;
  };
  cx.count("values tried", vs.len() as u64);
  let mut want = BTreeSet::new();
  pats.iter().for_each(|p| indices(p, &mut want));
  let all = want.len();
  let mut hit = BTreeSet::new();
  for v in &vs {
    if let Some(p) = pats.iter().find(|p| matches(p, v)) {
      mark(p, v, &mut hit);
    }
  }
  for h in &hit {
    want.remove(h);
  }
  let got: BTreeSet<u32> = got.unreachable.iter().copied().collect();
  if let Some(i) = got.difference(&want).next() {
    vio!("pattern #{i} is reported unreachable, but some value reaches it");
  }
  if let Some(i) = want.difference(&got).next() {
    vio!("pattern #{i} is not reported unreachable, but no value reaches it");
  }
  cx.count("unreachable indices", want.len() as u64);
  cx.count("reachable indices", (all - want.len()) as u64);
}

pub fn setup(cx: &mut Ctx) -> (World, usize, Way, Vec<P>) {
  let w = world(cx);
  let ty = cx.idx(w.defs.len());
  let way = *cx.pick(&WAYS);
  let pats = Maker::new(&w).list(cx, ty);
  tr!(cx, "types {:?}, value of type {ty}, splitting {way:?}", w.defs);
  for p in &pats {
    tr!(cx, "pattern {}", show(p));
  }
  (w, ty, way, pats)
}

pub fn print(w: &World, ty: usize, way: Way, pats: &[P]) -> u64 {
  fnv(format!("{:?} {ty} {way:?} {:?}", w.defs, pats.iter().map(show).collect::<Vec<_>>()).as_bytes())
}

fn with(cx: &mut Ctx, judge: fn(&mut Ctx, &World, usize, &[P], &Check<Test>)) {
  let (w, ty, way, pats) = setup(cx);
  let Some(got) = verdict(&w, way, &pats, ty) else {
    cx.count("skipped, too long", 1);
    return;
  };
  tr!(
    cx,
    "missing {:?}, unreachable {:?}",
    got.missing.iter().map(show).collect::<Vec<_>>(),
    got.unreachable.iter().collect::<BTreeSet<_>>()
  );
  judge(cx, &w, ty, &pats, &got);
  let (wide, nested) = pats.iter().map(|p| widest(p, false)).fold((0, 0), |(a, b), (c, d)| (a.max(c), b.max(d)));
  cx.count("lists with a choice of four or more", u64::from(wide > 3));
  cx.count("lists with a choice of three or more inside a choice", u64::from(nested > 2));
  if pats.iter().filter(|p| cons(p) > 0).count() > 1 {
    cx.nontrivial(print(&w, ty, way, &pats));
  }
}

pub fn missing(cx: &mut Ctx) {
  with(cx, judge_missing);
}

pub fn unreachable(cx: &mut Ctx) {
  with(cx, judge_unreachable);
}

/// Whether there is a choice of nothing in the pattern.
fn never(p: &P) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.is_empty() || ps.iter().any(never),
    RawPat::Con(c) => c.args.iter().any(never),
  }
}

pub fn errors(cx: &mut Ctx) {
  let (w, ty, way, mut pats) = setup(cx);
  if cx.chance(1, 2) {
    let mut c = lang(&w, way);
    if check::<Test>(&mut c, pats.clone(), ty).is_err() {
      cx.count("skipped, too long", 1);
      return;
    }
    let total = c.calls;
    if total == 0 {
      return;
    }
    for k in 0..4 {
      let n = match k {
        0 => 0,
        1 => total - 1,
        _ => cx.below(total),
      };
      let mut c = lang(&w, way);
      c.fail_at = Some(n);
      let got = check::<Test>(&mut c, pats.clone(), ty);
      tr!(cx, "call {n} of {total} to the language fails: {got:?}");
      match got {
        Ok(x) => vio!("call {n} of {total} to the language failed, but the check gave the verdict {x:?}"),
        Err(e) => same!(e.0, FAILURES[0], "the error returned when call {n} of {total} to the language fails"),
      }
      cx.count("failures injected", 1);
      if n > 0 && n + 1 < total {
        cx.nontrivial(print(&w, ty, way, &pats) ^ n);
      }
    }
    return;
  }
  // too many arguments somewhere; everything gets examined only if all types have values
  if pats.is_empty() || !w.inhabited.iter().all(|&x| x) {
    return;
  }
  let k = cx.idx(pats.len());
  if never(&pats[k]) {
    // what comes after a pattern without alternatives need not be examined
    return;
  }
  let Some(wild) = Maker::new(&w).spoil(cx, &mut pats[k], ty) else { return };
  let mut c = lang(&w, way);
  tr!(cx, "with too many arguments: {}", show(&pats[k]));
  let shown = show(&pats[k]);
  let fixed = pats.clone();
  match catch(|| check::<Test>(&mut c, fixed, ty).map_err(|e| e.0)) {
    Err(e) => vio!("the pattern {shown} with too many arguments makes the check panic: {e}"),
    Ok(Ok(x)) => vio!("the pattern {shown} with too many arguments gives the verdict {x:?}"),
    Ok(Err(_)) => {}
  }
  cx.count("patterns with too many arguments", 1);
  if wild {
    cx.count("wildcards with arguments", 1);
  }
  cx.nontrivial(print(&w, ty, way, &pats));
}
