//! What the language is asked.

use crate::checks::{cons, lang, print, setup};
use crate::lang::{Asked, BUDGET, Con, Def, MIXED, P, Test, Way, World};
use crate::making::{Maker, show};
use pattern_match::{Pat, RawPat, check};
use std::collections::BTreeSet;
use vmon::{Ctx, need, same, tr, vio};

/// The constructors that the pattern has, by type.
fn by_type(w: &World, p: &P, ty: usize, out: &mut BTreeSet<(usize, Con)>) {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().for_each(|p| by_type(w, p, ty, out)),
    RawPat::Con(c) => {
      out.insert((ty, c.con));
      let tys = w.args(ty, c.con).unwrap_or_default().to_vec();
      c.args.iter().zip(tys).for_each(|(p, t)| by_type(w, p, t, out));
    }
  }
}

fn choice(p: &P) -> bool {
  match &p.raw {
    RawPat::Or(_) => true,
    RawPat::Con(c) => c.args.iter().any(choice),
  }
}

fn judge(cx: &mut Ctx, w: &World, way: Way, pats: &[P], ty: usize) -> bool {
  let mut c = lang(w, way);
  c.log = Some(Vec::new());
  MIXED.set(None);
  match check::<Test>(&mut c, pats.to_vec(), ty) {
    Ok(_) => {}
    Err(e) if e.0 == BUDGET => {
      cx.count("skipped, too long", 1);
      return false;
    }
    Err(e) => vio!("well-typed patterns give the error {:?}", e.0),
  }
  if let Some((a, b)) = MIXED.get() {
    vio!("the language is asked whether {a} covers {b}, which are of different types");
  }
  let mut have = BTreeSet::new();
  pats.iter().for_each(|p| by_type(w, p, ty, &mut have));
  let plain = !pats.iter().any(choice);
  let mut given = BTreeSet::<(usize, Con)>::new();
  let mut first = true;
  for q in c.log.take().unwrap_or_default() {
    match q {
      Asked::Split { ty: t, con, seen, depth, answer } => {
        tr!(cx, "split of {con} of type {t} with {seen:?} at depth {depth} into {answer:?}");
        for (what, x) in std::iter::once(("to split", con)).chain(seen.iter().map(|&x| ("as already seen", x))) {
          need!(w.args(t, x).is_some(), "{x} is given {what}, but is no constructor of type {t}");
          need!(x == Con::Any || have.contains(&(t, x)), "{x} is given {what}, but no pattern has it at type {t}");
        }
        given.extend(answer.into_iter().map(|x| (t, x)));
        if first && plain {
          same!(depth, 0, "depth of the first split of a list without choices");
        }
        first = false;
        if t != ty {
          need!(depth > 0, "a split of an argument of type {t} has depth 0");
          cx.count("splits below the top", 1);
        }
        cx.count("splits judged", 1);
      }
      Asked::Args { ty: t, con } => {
        tr!(cx, "arguments of {con} of type {t}");
        need!(w.args(t, con).is_some(), "the arguments of {con} are asked for, which is no constructor of type {t}");
        need!(
          given.contains(&(t, con)) || con != Con::Any && have.contains(&(t, con)),
          "the arguments of {con} of type {t} are asked for, but no split gave it"
        );
        cx.count("argument questions judged", 1);
      }
    }
  }
  cx.count("lists without choices", u64::from(plain));
  true
}

pub fn asked(cx: &mut Ctx) {
  let (w, ty, way, mut pats) = setup(cx);
  if cx.chance(1, 3) {
    pats.retain(|p| !choice(p));
  }
  if judge(cx, &w, way, &pats, ty) && pats.iter().filter(|p| cons(p) > 0).count() > 1 {
    cx.nontrivial(print(&w, ty, way, &pats));
  }
}

/// Deep and wide patterns.
pub fn fixed(cx: &mut Ctx) {
  // lists of pairs of a small enumeration and a number
  let w = World::new(vec![
    Def::Adt(vec![vec![], vec![1, 0]]),
    Def::Adt(vec![vec![2, 3]]),
    Def::Adt(vec![vec![], vec![], vec![]]),
    Def::Int(9),
  ]);
  let mut at = 0;
  for way in crate::lang::WAYS {
    for n in [1, 2, 3, 10, 40] {
      at += 1;
      if !cx.mine(at, true) {
        continue;
      }
      let mut m = Maker::new(&w);
      let mut p = m.any(cx);
      for i in 0..n {
        let a = m.con(cx, Con::Ctor(i % 3), Vec::new());
        let b = m.con(cx, Con::Range(i as u32 % 5, 5), Vec::new());
        let pair = m.con(cx, Con::Ctor(0), vec![a, b]);
        p = m.con(cx, Con::Ctor(1), vec![pair, p]);
      }
      let q: P = Pat::zero(Con::Ctor(0), 1000);
      tr!(cx, "{} and {} split {way:?}", show(&p), show(&q));
      judge(cx, &w, way, &[p, q], 0);
    }
  }
}
