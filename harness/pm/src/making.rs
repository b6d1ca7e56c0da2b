//! Random types and patterns.

use crate::lang::{Con, Def, P, Test, World};
use pattern_match::{ConPat, Pat, RawPat};
use vmon::Ctx;

pub fn world(cx: &mut Ctx) -> World {
  let n = 1 + cx.idx(5);
  let mut defs = Vec::new();
  for i in 0..n {
    defs.push(match cx.below(10) {
      0 => Def::Int(cx.below(7) as u32),
      1 => Def::Nat,
      r => {
        let cons = match r {
          2 => cx.below(2),
          3 => 4 + cx.below(3),
          _ => 1 + cx.below(3),
        };
        let recursive = cx.chance(1, 3);
        Def::Adt(
          (0..cons)
            .map(|_| {
              let args = *cx.pick(&[0, 0, 1, 1, 2, 2, 3]);
              (0..args).map(|_| if recursive || i == 0 { cx.idx(n) } else { cx.idx(i) }).collect()
            })
            .collect(),
        )
      }
    });
  }
  World::new(defs)
}

pub struct Maker<'w> {
  pub w: &'w World,
  next: u32,
}

impl<'w> Maker<'w> {
  pub fn new(w: &'w World) -> Self {
    Maker { w, next: 0 }
  }

  fn idx(&mut self, cx: &mut Ctx) -> Option<u32> {
    self.next += 1;
    if cx.chance(1, 10) { None } else { Some(self.next) }
  }

  pub fn con(&mut self, cx: &mut Ctx, con: Con, args: Vec<P>) -> P {
    let idx = self.idx(cx);
    Pat { raw: RawPat::Con(ConPat { con, args }), idx }
  }

  fn or(&mut self, cx: &mut Ctx, pats: Vec<P>) -> P {
    let idx = self.idx(cx);
    Pat { raw: RawPat::Or(pats), idx }
  }

  pub fn any(&mut self, cx: &mut Ctx) -> P {
    if cx.chance(1, 4) { P::any_no_idx() } else { self.con(cx, Con::Any, Vec::new()) }
  }

  /// Some constructor of the type.
  fn head(&mut self, cx: &mut Ctx, ty: usize) -> Con {
    match &self.w.defs[ty] {
      Def::Adt(cons) if cons.is_empty() => Con::Any,
      Def::Adt(cons) => Con::Ctor(cx.idx(cons.len())),
      Def::Int(max) => {
        let a = cx.below(u64::from(*max) + 1) as u32;
        let b = if cx.chance(1, 2) { a } else { cx.below(u64::from(*max) + 1) as u32 };
        Con::Range(a.min(b), a.max(b))
      }
      Def::Nat => Con::Lit(cx.below(4)),
    }
  }

  pub fn free(&mut self, cx: &mut Ctx, ty: usize, fuel: usize) -> P {
    if cx.chance(1, 6) && fuel > 0 {
      let n = match cx.below(20) {
        0 => cx.below(2),
        1..=3 => 4 + cx.below(5),
        _ => 2 + cx.below(2),
      };
      let ps = (0..n).map(|_| self.free(cx, ty, fuel - 1)).collect();
      return self.or(cx, ps);
    }
    if fuel == 0 || cx.chance(1, 4) {
      return self.any(cx);
    }
    let con = self.head(cx, ty);
    let tys = self.w.args(ty, con).unwrap_or(&[]);
    let n = if cx.chance(1, 6) { cx.idx(tys.len() + 1) } else { tys.len() };
    let args = tys[..n].iter().map(|&t| self.free(cx, t, fuel - 1)).collect();
    self.con(cx, con, args)
  }

  /// One pattern for each way to begin a value of the type.
  fn heads(&mut self, cx: &mut Ctx, ty: usize) -> Vec<P> {
    match &self.w.defs[ty] {
      Def::Adt(cons) => (0..cons.len())
        .map(|i| {
          let n = cons[i].len();
          let args = (0..n).map(|_| self.any(cx)).collect();
          self.con(cx, Con::Ctor(i), args)
        })
        .collect(),
      Def::Int(max) => {
        let max = *max;
        let cut = cx.below(u64::from(max) + 1) as u32;
        let mut out = Vec::new();
        if cut > 0 {
          out.push(self.con(cx, Con::Range(0, cut - 1), Vec::new()));
        }
        out.push(self.con(cx, Con::Range(cut, max), Vec::new()));
        out
      }
      Def::Nat => {
        let n = cx.below(4);
        vec![self.con(cx, Con::Lit(n), Vec::new()), self.any(cx)]
      }
    }
  }

  /// Replaces a wildcard in the pattern by each way to begin its value.
  fn refine(&mut self, cx: &mut Ctx, p: &P, ty: usize) -> Vec<P> {
    let RawPat::Con(c) = &p.raw else { return vec![p.clone()] };
    if c.con == Con::Any {
      return self.heads(cx, ty);
    }
    let tys = self.w.args(ty, c.con).unwrap_or(&[]).to_vec();
    if c.args.is_empty() {
      return vec![p.clone()];
    }
    let k = cx.idx(c.args.len());
    let (con, args) = (c.con, c.args.clone());
    self
      .refine(cx, &args[k], tys[k])
      .into_iter()
      .map(|q| {
        let args =
          args.iter().enumerate().map(|(i, a)| if i == k { q.clone() } else { self.renew(cx, a) }).collect();
        self.con(cx, con, args)
      })
      .collect()
  }

  /// The same pattern with other indices.
  fn renew(&mut self, cx: &mut Ctx, p: &P) -> P {
    match &p.raw {
      RawPat::Or(ps) => {
        let ps = ps.iter().map(|p| self.renew(cx, p)).collect();
        self.or(cx, ps)
      }
      RawPat::Con(c) => {
        let args = c.args.iter().map(|p| self.renew(cx, p)).collect();
        self.con(cx, c.con, args)
      }
    }
  }

  /// Drops wildcards at the end of arguments.
  fn omit(&mut self, cx: &mut Ctx, p: P) -> P {
    let Pat { raw, idx } = p;
    let raw = match raw {
      RawPat::Con(mut c) => {
        while c.args.last().is_some_and(|a| matches!(&a.raw, RawPat::Con(x) if x.con == Con::Any)) && cx.chance(1, 2) {
          c.args.pop();
        }
        c.args = c.args.into_iter().map(|a| self.omit(cx, a)).collect();
        RawPat::Con(c)
      }
      o => o,
    };
    Pat { raw, idx }
  }

  pub fn list(&mut self, cx: &mut Ctx, ty: usize) -> Vec<P> {
    if cx.chance(1, 2) {
      let n = cx.below(6);
      return (0..n)
        .map(|_| {
          let fuel = cx.idx(4);
          self.free(cx, ty, fuel)
        })
        .collect();
    }
    let mut ps = vec![self.any(cx)];
    for _ in 0..cx.below(7) {
      if ps.is_empty() || ps.len() > 9 {
        break;
      }
      let k = cx.idx(ps.len());
      let p = ps.remove(k);
      let new = self.refine(cx, &p, ty);
      ps.splice(k..k, new);
    }
    if cx.chance(1, 4) {
      self.gather(cx, &mut ps);
    }
    for _ in 0..cx.below(4) {
      if ps.is_empty() {
        break;
      }
      let k = cx.idx(ps.len());
      match cx.below(7) {
        0 => {
          ps.remove(k);
        }
        1 => {
          let j = cx.idx(ps.len());
          ps.swap(k, j);
        }
        2 => {
          let p = self.renew(cx, &ps[k].clone());
          ps.insert(k, p);
        }
        3 | 4 => {
          self.merge(cx, &mut ps, k);
        }
        5 => {
          let p = self.free(cx, ty, 2);
          ps.insert(k, p);
        }
        _ => {
          let p = ps.remove(k);
          let p = self.omit(cx, p);
          ps.insert(k, p);
        }
      }
    }
    ps
  }

  /// Makes a choice of the patterns from the k-th on, few or many of them.
  fn merge(&mut self, cx: &mut Ctx, ps: &mut Vec<P>, k: usize) {
    let n = if cx.chance(1, 2) { 2 } else { 2 + cx.idx(7) };
    let n = n.min(ps.len() - k);
    if n > 1 {
      let run = ps.splice(k..k + n, []).collect();
      let p = self.or(cx, run);
      ps.insert(k, p);
    }
  }

  /// Merges again and again, which makes choices of choices.
  fn gather(&mut self, cx: &mut Ctx, ps: &mut Vec<P>) {
    for _ in 0..1 + cx.below(4) {
      if ps.len() > 1 {
        let k = cx.idx(ps.len());
        self.merge(cx, ps, k);
      }
    }
    // choices among arguments: patterns that differ in one argument become one
    let mut i = 0;
    while i + 1 < ps.len() {
      let (RawPat::Con(a), RawPat::Con(b)) = (&ps[i].raw, &ps[i + 1].raw) else {
        i += 1;
        continue;
      };
      let differ: Vec<usize> = if a.con == b.con && a.args.len() == b.args.len() {
        (0..a.args.len()).filter(|&k| bare(&a.args[k]) != bare(&b.args[k])).collect()
      } else {
        Vec::new()
      };
      if let [k] = differ[..] {
        let (con, mut args, other) = (a.con, a.args.clone(), b.args[k].clone());
        let first = args[k].clone();
        args[k] = match first {
          Pat { raw: RawPat::Or(mut some), idx } if cx.chance(1, 2) => {
            some.push(other);
            Pat { raw: RawPat::Or(some), idx }
          }
          first => self.or(cx, vec![first, other]),
        };
        let p = self.con(cx, con, args);
        ps.splice(i..i + 2, [p]);
      } else {
        i += 1;
      }
    }
  }

  /// Gives one pattern somewhere inside too many arguments. Returns whether it is a wildcard.
  pub fn spoil(&mut self, cx: &mut Ctx, p: &mut P, ty: usize) -> Option<bool> {
    match &mut p.raw {
      RawPat::Or(ps) => {
        if ps.is_empty() {
          return None;
        }
        let k = cx.idx(ps.len());
        self.spoil(cx, &mut ps[k], ty)
      }
      RawPat::Con(c) => {
        let tys = self.w.args(ty, c.con)?.to_vec();
        if !c.args.is_empty() && cx.chance(1, 2) {
          let k = cx.idx(c.args.len());
          return self.spoil(cx, &mut c.args[k], tys[k]);
        }
        while c.args.len() < tys.len() {
          let a = self.any(cx);
          c.args.push(a);
        }
        for _ in 0..1 + cx.below(3) {
          let a = self.any(cx);
          c.args.push(a);
        }
        Some(c.con == Con::Any)
      }
    }
  }
}

pub fn show(p: &P) -> String {
  let idx = p.idx.map_or(String::new(), |i| format!("#{i}"));
  match &p.raw {
    RawPat::Or(ps) => format!("({}){idx}", ps.iter().map(show).collect::<Vec<_>>().join(" | ")),
    RawPat::Con(ConPat::<Test> { con, args }) => {
      let c = con;
      if args.is_empty() { format!("{c}{idx}") } else { format!("{c}{idx}({})", args.iter().map(show).collect::<Vec<_>>().join(", ")) }
    }
  }
}

/// The pattern without its indices.
fn bare(p: &P) -> String {
  match &p.raw {
    RawPat::Or(ps) => format!("({})", ps.iter().map(bare).collect::<Vec<_>>().join(" | ")),
    RawPat::Con(ConPat::<Test> { con, args }) => {
      format!("{con:?}({})", args.iter().map(bare).collect::<Vec<_>>().join(", "))
    }
  }
}
