//! What patterns mean: the values they match.

use crate::lang::{Con, Def, P, World};
use pattern_match::RawPat;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum V {
  C(usize, Vec<Rc<V>>),
  I(u32),
  N(u64),
}

pub fn depth(p: &P) -> usize {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().map(depth).max().unwrap_or(0),
    RawPat::Con(c) => match c.con {
      Con::Any => 0,
      _ => 1 + c.args.iter().map(depth).max().unwrap_or(0),
    },
  }
}

/// Numbers of the unbounded type that a pattern names.
pub fn lits(p: &P, out: &mut BTreeSet<u64>) {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().for_each(|p| lits(p, out)),
    RawPat::Con(c) => {
      if let Con::Lit(n) = c.con {
        out.insert(n);
      }
      c.args.iter().for_each(|p| lits(p, out));
    }
  }
}

/// Some value of each inhabited type.
fn least(w: &World) -> Vec<Option<Rc<V>>> {
  let mut out: Vec<Option<Rc<V>>> = vec![None; w.defs.len()];
  loop {
    let mut changed = false;
    for i in 0..w.defs.len() {
      if out[i].is_some() {
        continue;
      }
      let v = match &w.defs[i] {
        Def::Adt(cons) => cons.iter().enumerate().find_map(|(k, args)| {
          let args: Option<Vec<Rc<V>>> = args.iter().map(|&t| out[t].clone()).collect();
          args.map(|a| V::C(k, a))
        }),
        Def::Int(_) => Some(V::I(0)),
        Def::Nat => Some(V::N(u64::MAX)),
      };
      if let Some(v) = v {
        out[i] = Some(Rc::new(v));
        changed = true;
      }
    }
    if !changed {
      return out;
    }
  }
}

/// All values that patterns of this depth can tell apart, unless there are too many.
pub fn values(w: &World, ty: usize, fuel: usize, nums: &BTreeSet<u64>, cap: usize) -> Option<Vec<Rc<V>>> {
  let least = least(w);
  let mut memo = BTreeMap::new();
  all(w, ty, fuel, nums, cap, &least, &mut memo)
}

fn all(
  w: &World,
  ty: usize,
  fuel: usize,
  nums: &BTreeSet<u64>,
  cap: usize,
  least: &[Option<Rc<V>>],
  memo: &mut BTreeMap<(usize, usize), Vec<Rc<V>>>,
) -> Option<Vec<Rc<V>>> {
  if let Some(vs) = memo.get(&(ty, fuel)) {
    return Some(vs.clone());
  }
  let out = if fuel == 0 {
    least[ty].iter().cloned().collect()
  } else {
    match &w.defs[ty] {
      Def::Int(max) => (0..=*max).map(|n| Rc::new(V::I(n))).collect(),
      Def::Nat => {
        let fresh = (0..).find(|n| !nums.contains(n)).expect("a number");
        nums.iter().copied().chain([fresh]).map(|n| Rc::new(V::N(n))).collect()
      }
      Def::Adt(cons) => {
        let mut out = Vec::new();
        for (k, args) in cons.iter().enumerate() {
          let mut rows: Vec<Vec<Rc<V>>> = vec![Vec::new()];
          for &t in args {
            let vs = all(w, t, fuel - 1, nums, cap, least, memo)?;
            if rows.len() * vs.len() > cap {
              return None;
            }
            rows = rows
              .iter()
              .flat_map(|r| {
                vs.iter().map(move |v| {
                  let mut r = r.clone();
                  r.push(Rc::clone(v));
                  r
                })
              })
              .collect();
          }
          out.extend(rows.into_iter().map(|r| Rc::new(V::C(k, r))));
        }
        out
      }
    }
  };
  if out.len() > cap {
    return None;
  }
  memo.insert((ty, fuel), out.clone());
  Some(out)
}

pub fn matches(p: &P, v: &V) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().any(|p| matches(p, v)),
    RawPat::Con(c) => match (c.con, v) {
      (Con::Any, _) => true,
      (Con::Ctor(a), V::C(b, vs)) => a == *b && c.args.iter().zip(vs).all(|(p, v)| matches(p, v)),
      (Con::Range(lo, hi), V::I(n)) => lo <= *n && *n <= hi,
      (Con::Lit(a), V::N(b)) => a == *b,
      _ => false,
    },
  }
}

/// Marks what a matching value reaches.
pub fn mark(p: &P, v: &V, hit: &mut BTreeSet<u32>) {
  hit.extend(p.idx);
  match &p.raw {
    RawPat::Or(ps) => {
      if let Some(p) = ps.iter().find(|p| matches(p, v)) {
        mark(p, v, hit);
      }
    }
    RawPat::Con(c) => {
      if let V::C(_, vs) = v {
        c.args.iter().zip(vs).for_each(|(p, v)| mark(p, v, hit));
      }
    }
  }
}

pub fn indices(p: &P, out: &mut BTreeSet<u32>) {
  out.extend(p.idx);
  match &p.raw {
    RawPat::Or(ps) => ps.iter().for_each(|p| indices(p, out)),
    RawPat::Con(c) => c.args.iter().for_each(|p| indices(p, out)),
  }
}

/// Why a pattern is not one of that type without alternatives.
pub fn misfit(w: &World, ty: usize, p: &P) -> Option<String> {
  match &p.raw {
    RawPat::Or(_) => Some("it has alternatives".to_owned()),
    RawPat::Con(c) => {
      let Some(tys) = w.args(ty, c.con) else { return Some(format!("{:?} is not of type {ty}", c.con)) };
      if c.args.len() > tys.len() {
        return Some(format!("{:?} has {} arguments instead of {}", c.con, c.args.len(), tys.len()));
      }
      c.args.iter().zip(tys).find_map(|(p, &t)| misfit(w, t, p))
    }
  }
}
