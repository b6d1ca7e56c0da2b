//! The languages that the monitored checks are about.

use pattern_match::{CheckError, Lang, Pat, Result};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Con {
  Any,
  /// The n-th constructor of its type.
  Ctor(usize),
  /// Numbers of a bounded type, both ends included.
  Range(u32, u32),
  /// A number of the unbounded type.
  Lit(u64),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Def {
  /// Constructors with the types of their arguments.
  Adt(Vec<Vec<usize>>),
  /// Numbers from 0 to this one.
  Int(u32),
  /// All numbers.
  Nat,
}

/// Ways to split a wildcard.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Way {
  /// All constructors, if the type is not recursive.
  Full,
  /// All constructors once one of them has been seen.
  Lazy,
  /// The constructors seen, and a wildcard for the others.
  Default,
  /// All constructors at the top, and like `Lazy` below.
  Depth,
  /// All constructors that have values once one has been seen, in another order.
  Inhabited,
}

pub const WAYS: [Way; 5] = [Way::Full, Way::Lazy, Way::Default, Way::Depth, Way::Inhabited];

#[derive(Debug, Clone)]
pub struct World {
  pub defs: Vec<Def>,
  pub inhabited: Vec<bool>,
  pub recursive: Vec<bool>,
}

impl World {
  pub fn new(defs: Vec<Def>) -> Self {
    let n = defs.len();
    let mut inhabited = vec![false; n];
    loop {
      let mut changed = false;
      for i in 0..n {
        let now = match &defs[i] {
          Def::Adt(cons) => cons.iter().any(|c| c.iter().all(|&t| inhabited[t])),
          _ => true,
        };
        if now && !inhabited[i] {
          inhabited[i] = true;
          changed = true;
        }
      }
      if !changed {
        break;
      }
    }
    // types from which a recursive one can be reached
    let mut finite = vec![false; n];
    loop {
      let mut changed = false;
      for i in 0..n {
        let now = match &defs[i] {
          Def::Adt(cons) => cons.iter().flatten().all(|&t| finite[t]),
          _ => true,
        };
        if now && !finite[i] {
          finite[i] = true;
          changed = true;
        }
      }
      if !changed {
        break;
      }
    }
    World { defs, inhabited, recursive: finite.into_iter().map(|f| !f).collect() }
  }

  /// Argument types, if the constructor belongs to the type.
  pub fn args(&self, ty: usize, con: Con) -> Option<&[usize]> {
    match (&self.defs[ty], con) {
      (_, Con::Any) => Some(&[]),
      (Def::Adt(cons), Con::Ctor(i)) => cons.get(i).map(Vec::as_slice),
      (Def::Int(max), Con::Range(lo, hi)) if lo <= hi && hi <= *max => Some(&[]),
      (Def::Nat, Con::Lit(_)) => Some(&[]),
      _ => None,
    }
  }

  fn ctor_inhabited(&self, args: &[usize]) -> bool {
    args.iter().all(|&t| self.inhabited[t])
  }
}

#[derive(Debug)]
pub struct Cx {
  pub world: World,
  pub way: Way,
  /// Calls made so far.
  pub calls: u64,
  /// Give up after so many.
  pub budget: u64,
  /// From this call on, everything fails.
  pub fail_at: Option<u64>,
  /// What was asked, if that is of interest.
  pub log: Option<Vec<Asked>>,
}

/// A question to the language.
#[derive(Debug, Clone)]
pub enum Asked {
  Split { ty: usize, con: Con, seen: Vec<Con>, depth: usize, answer: Vec<Con> },
  Args { ty: usize, con: Con },
}

thread_local! {
  /// Constructors of different kinds of types that were compared.
  pub static MIXED: std::cell::Cell<Option<(Con, Con)>> = const { std::cell::Cell::new(None) };
}

impl std::fmt::Display for Con {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      Con::Any => f.write_str("_"),
      Con::Ctor(i) => write!(f, "C{i}"),
      Con::Range(a, b) => write!(f, "{a}..={b}"),
      Con::Lit(n) => write!(f, "{n}"),
    }
  }
}

pub const BUDGET: &str = "the monitor gave up";
pub const ILL: &str = "a constructor of another type";

pub const FAILURES: [&str; 4] = ["first failure", "second failure", "third failure", "later failure"];

impl Cx {
  fn called(&mut self) -> Result<()> {
    let n = self.calls;
    self.calls += 1;
    if n >= self.budget {
      return Err(CheckError(BUDGET));
    }
    match self.fail_at {
      Some(f) if n >= f => Err(CheckError(FAILURES[((n - f) as usize).min(3)])),
      _ => Ok(()),
    }
  }
}

#[derive(Debug)]
pub enum Test {}

pub type P = Pat<Test>;

impl Lang for Test {
  type Cx = Cx;
  type PatIdx = u32;
  type Con = Con;
  type Ty = usize;

  fn any() -> Con {
    Con::Any
  }

  fn split<'a, I>(cx: &mut Cx, &ty: &usize, &con: &Con, cons: I, depth: usize) -> Result<Vec<Con>>
  where
    I: Iterator<Item = &'a Con>,
  {
    cx.called()?;
    let seen: Vec<Con> = cons.copied().collect();
    let answer = cx.split(ty, con, seen.clone(), depth);
    if let Some(log) = &mut cx.log {
      log.push(Asked::Split { ty, con, seen, depth, answer: answer.as_ref().cloned().unwrap_or_default() });
    }
    answer
  }

  fn get_arg_tys(cx: &mut Cx, &ty: &usize, &con: &Con) -> Result<Vec<usize>> {
    cx.called()?;
    if let Some(log) = &mut cx.log {
      log.push(Asked::Args { ty, con });
    }
    cx.world.args(ty, con).map(<[usize]>::to_vec).ok_or(CheckError(ILL))
  }

  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (lhs, rhs) {
      (Con::Any, _) => true,
      (_, Con::Any) => false,
      (Con::Ctor(a), Con::Ctor(b)) => a == b,
      (Con::Range(a, b), Con::Range(c, d)) => a <= c && d <= b,
      (Con::Lit(a), Con::Lit(b)) => a == b,
      _ => {
        MIXED.set(Some((*lhs, *rhs)));
        false
      }
    }
  }
}

impl Cx {
  fn split(&self, ty: usize, con: Con, cons: Vec<Con>, depth: usize) -> Result<Vec<Con>> {
    let cx = self;
    let w = &cx.world;
    let mut seen: Vec<Con> = cons.into_iter().filter(|&c| c != Con::Any).collect();
    seen.sort_unstable();
    seen.dedup();
    if w.args(ty, con).is_none() || seen.iter().any(|&c| w.args(ty, c).is_none()) {
      return Err(CheckError(ILL));
    }
    Ok(match &w.defs[ty] {
      Def::Adt(all) => {
        if con != Con::Any {
          return Ok(vec![con]);
        }
        let every = || (0..all.len()).map(Con::Ctor).collect::<Vec<_>>();
        let full = match cx.way {
          Way::Full => !w.recursive[ty],
          Way::Depth => depth == 0,
          _ => false,
        };
        if full && !w.recursive[ty] {
          return Ok(every());
        }
        if !w.inhabited[ty] {
          return Ok(Vec::new());
        }
        match cx.way {
          Way::Default => {
            let mut out = seen.clone();
            if all.iter().enumerate().any(|(i, a)| !seen.contains(&Con::Ctor(i)) && w.ctor_inhabited(a)) {
              out.push(Con::Any);
            }
            out
          }
          _ if full => every(),
          _ if seen.is_empty() => vec![Con::Any],
          Way::Inhabited => every()
            .into_iter()
            .rev()
            .filter(|&c| matches!(c, Con::Ctor(i) if w.ctor_inhabited(&all[i])))
            .collect(),
          _ => every(),
        }
      }
      &Def::Int(max) => {
        let (lo, hi) = match con {
          Con::Range(lo, hi) => (lo, hi),
          _ => (0, max),
        };
        let mut starts = vec![lo];
        for c in &seen {
          if let Con::Range(a, b) = *c {
            starts.extend([a, b + 1].into_iter().filter(|&x| x > lo && x <= hi));
          }
        }
        starts.sort_unstable();
        starts.dedup();
        let mut out = Vec::new();
        let mut rest = false;
        for (i, &a) in starts.iter().enumerate() {
          let b = starts.get(i + 1).map_or(hi, |n| n - 1);
          let piece = Con::Range(a, b);
          let known = seen.iter().any(|c| Test::covers(c, &piece));
          if con == Con::Any && !known && matches!(cx.way, Way::Default | Way::Lazy) {
            rest = true;
          } else {
            out.push(piece);
          }
        }
        if rest {
          out.push(Con::Any);
        }
        out
      }
      Def::Nat => match con {
        Con::Any => seen.into_iter().chain([Con::Any]).collect(),
        c => vec![c],
      },
    })
  }
}
