//! How patterns are displayed.

use crate::checks::{lang, setup};
use crate::lang::{Con, P, Test};
use pattern_match::{CheckError, ConPat, Pat, RawPat, check};
use std::fmt::{self, Write as _};
use vmon::{Ctx, fnv, need, same, tr};

fn model(p: &P) -> String {
  match &p.raw {
    RawPat::Or(ps) if ps.is_empty() => "<NEVER>".to_owned(),
    RawPat::Or(ps) => ps.iter().map(model).collect::<Vec<_>>().join(" | "),
    RawPat::Con(c) if c.args.is_empty() => c.con.to_string(),
    RawPat::Con(c) => format!("{}({})", c.con, c.args.iter().map(model).collect::<Vec<_>>().join(", ")),
  }
}

/// Fails at the n-th write only.
struct Out {
  buf: String,
  left: usize,
  failed: bool,
  after: bool,
}

impl fmt::Write for Out {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.failed {
      self.after = true;
    }
    if self.left == 0 && !self.failed {
      self.failed = true;
      return Err(fmt::Error);
    }
    self.left = self.left.saturating_sub(1);
    self.buf.push_str(s);
    Ok(())
  }
}

fn any(cx: &mut Ctx, fuel: usize) -> P {
  let idx = if cx.chance(1, 3) { None } else { Some(cx.below(100) as u32) };
  let n = match cx.below(12) {
    0 => cx.size(40) as usize,
    1..=4 => 0,
    _ => cx.idx(4),
  };
  let n = if fuel == 0 { 0 } else { n };
  let subs: Vec<P> = (0..n).map(|_| any(cx, fuel - 1)).collect();
  let raw = if cx.chance(1, 3) {
    RawPat::Or(subs)
  } else {
    let con = match cx.below(4) {
      0 => Con::Any,
      1 => Con::Ctor(cx.idx(300)),
      2 => Con::Range(cx.below(5) as u32, cx.below(1 << 32) as u32),
      _ => Con::Lit(cx.below(1 << 40)),
    };
    RawPat::Con(ConPat { con, args: subs })
  };
  Pat { raw, idx }
}

fn rich(p: &P) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.len() > 1 || ps.iter().any(rich),
    RawPat::Con(c) => c.args.len() > 1 || c.args.iter().any(rich),
  }
}

fn empties(p: &P) -> u64 {
  match &p.raw {
    RawPat::Or(ps) if ps.is_empty() => 1,
    RawPat::Or(ps) => ps.iter().map(empties).sum(),
    RawPat::Con(c) => c.args.iter().map(empties).sum(),
  }
}

fn judge(cx: &mut Ctx, p: &P, fail: bool) {
  let want = model(p);
  same!(p.to_string(), want, "pattern displayed");
  same!(p.clone().to_string(), want, "clone displayed");
  same!(p.clone().idx, p.idx, "index of a clone");
  same!(p.raw.to_string(), want, "raw pattern displayed");
  if let RawPat::Con(c) = &p.raw {
    same!(c.to_string(), want, "constructor pattern displayed");
  }
  cx.count("patterns rendered", 1);
  cx.count("empty choices", empties(p));
  if !fail {
    return;
  }
  let mut n = 0;
  loop {
    let mut out = Out { buf: String::new(), left: n, failed: false, after: false };
    let r = write!(out, "{p}");
    need!(want.starts_with(&out.buf), "with write {n} failing, {:?} is written of {want:?}", out.buf);
    need!(!out.after, "something is written after write {n} failed");
    same!(r.is_err(), out.failed, "whether displaying fails if write {n} does");
    if !out.failed {
      same!(out.buf, want, "written without a failure");
      break;
    }
    cx.count("failing writers", 1);
    n += 1 + n / 20;
  }
}

pub fn shown(cx: &mut Ctx) {
  if cx.chance(1, 6) {
    let (w, ty, way, pats) = setup(cx);
    let mut c = lang(&w, way);
    if let Ok(got) = check::<Test>(&mut c, pats, ty) {
      for m in &got.missing {
        judge(cx, m, false);
        cx.count("witnesses rendered", 1);
      }
    }
    return;
  }
  let p = any(cx, 4);
  let want = model(&p);
  tr!(cx, "pattern that is displayed as {want}");
  judge(cx, &p, want.len() < 500);
  if rich(&p) {
    cx.nontrivial(fnv(want.as_bytes()));
  }
}

pub fn fixed(cx: &mut Ctx) {
  same!(P::any_no_idx().to_string(), "_", "the pattern for anything");
  same!(P::any_no_idx().idx, None, "index of the pattern for anything");
  for msg in ["", "some reason", "{}", "é\n"] {
    let e = CheckError(
      match msg {
        "" => "",
        "some reason" => "some reason",
        "{}" => "{}",
        _ => "é\n",
      },
    );
    need!(e.to_string().ends_with(msg) && e.to_string().len() > msg.len(), "the error {e} does not tell {msg:?}");
  }
  let sizes = (0..=300).chain([511, 512, 1023, 1024, 4096, 65_535, 65_536, 70_000]);
  let mut at = 0;
  for n in sizes {
    at += 1;
    if !cx.mine(at, n > 1) {
      continue;
    }
    let leaf = |i: usize| P::zero(if i % 7 == 3 { Con::Any } else { Con::Lit(i as u64) }, i as u32);
    let con = P::con(Con::Ctor(n), (0..n).map(leaf).collect(), 1);
    let or = P::or((0..n).map(leaf).collect(), 2);
    for p in [con, or] {
      judge(cx, &p, n < 40);
    }
  }
  // deep
  let mut p = P::zero(Con::Lit(0), 0);
  for i in 0..300 {
    p = if i % 2 == 0 { P::con(Con::Ctor(i), vec![p], 1) } else { P::or(vec![p, P::any_no_idx()], 2) };
    judge(cx, &p, false);
  }
}
