//! All short parses.

use crate::checks;
use crate::drive::{Run, tokens};
use crate::lang::{K, NODE, TRIVIA};
use crate::model::Item;
use token::Token;
use vmon::Ctx;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Step {
  Enter,
  Exit,
  Abandon,
  PrecedeLast,
  PrecedeFirst,
  Bump,
  Error,
  Save,
  Settle,
}

const STEPS: [Step; 9] = [
  Step::Enter,
  Step::Exit,
  Step::Abandon,
  Step::PrecedeLast,
  Step::PrecedeFirst,
  Step::Bump,
  Step::Error,
  Step::Save,
  Step::Settle,
];

/// How many tokens there are for the enumerated parses.
const TOKENS: usize = 3;

/// Does a step if it can be done.
fn step(cx: &mut Ctx, run: &mut Run, s: Step, n: usize) -> bool {
  let inside = run.m.frames.len() > 2;
  match s {
    Step::Enter => run.enter(cx),
    Step::Exit if inside && run.can_close() => {
      run.exit(cx, NODE + 1 + n as u16);
    }
    Step::Abandon if inside && run.can_close() => run.abandon(cx),
    Step::PrecedeLast | Step::PrecedeFirst => {
      let ns = run.precedable();
      if s == Step::PrecedeFirst && ns.len() < 2 {
        return false;
      }
      let n = if s == Step::PrecedeLast { ns.last() } else { ns.first() };
      let Some(&n) = n else { return false };
      run.precede(cx, n);
    }
    Step::Bump if run.left() > 0 => run.bump(cx),
    Step::Error => run.error(cx),
    Step::Save if run.depth() < 2 => run.save(cx),
    Step::Settle if run.depth() > 0 => {
      run.settle(cx);
    }
    _ => return false,
  }
  true
}

fn run_steps(cx: &mut Ctx, run: &mut Run, steps: &[Step], all: bool) -> bool {
  run.plain = true;
  run.enter(cx);
  for (n, &s) in steps.iter().enumerate() {
    if !step(cx, run, s, n) {
      return false;
    }
  }
  while run.depth() > 0 {
    run.settle(cx);
  }
  while run.m.frames.len() > 2 {
    run.exit(cx, NODE + 30);
  }
  while all && run.left() > 0 {
    run.bump(cx);
  }
  run.exit(cx, NODE + 40);
  debug_assert!(matches!(run.m.frames[0].children[..], [Item::Node(_)]));
  true
}

type Then = fn(&mut Ctx, Run, &[Token<'_, K>]);

fn all(cx: &mut Ctx, prep: fn(&mut Run), layouts: bool, partial: bool, then: Then) {
  let len = if cx.thorough { 7 } else { 5 };
  let mut index = 0;
  let mut stack: Vec<Vec<Step>> = vec![Vec::new()];
  while let Some(steps) = stack.pop() {
    // is it possible at all?
    let (text, cuts) = layout(TOKENS, 0);
    let toks = tokens(&text, &cuts);
    let mut run = Run::new(&toks);
    if !run_steps(cx, &mut run, &steps, !partial) {
      run.r.forget();
      continue;
    }
    drop(run);
    if steps.len() < len {
      for s in STEPS {
        let mut more = steps.clone();
        more.push(s);
        stack.push(more);
      }
    }
    let bumps = steps.iter().filter(|s| matches!(s, Step::Bump)).count();
    // leave one token for after the steps, or none
    for tokens_there in bumps..=(bumps + 1).min(TOKENS) {
      let last = if layouts { 1u32 << (tokens_there + 1) } else { 1 };
      for pattern in 0..last {
        index += 1;
        if !cx.mine(index, pattern != 0 && steps.len() > 1) {
          continue;
        }
        let (text, cuts) = layout(tokens_there, if layouts { pattern } else { 0b0110 });
        cx.at(|| format!("{steps:?}, then everything is closed; tokens: {cuts:?}, kinds under {TRIVIA} being trivia"));
        let toks = tokens(&text, &cuts);
        let mut run = Run::new(&toks);
        prep(&mut run);
        run_steps(cx, &mut run, &steps, !partial);
        checks::note(cx, &run);
        then(cx, run, &toks);
      }
    }
  }
  // Deep and long ones.
  if cx.shard == 0 {
    for n in [300, 20_000, 280_000] {
      for form in 0..5 {
        cx.at(|| format!("large parse of form {form}, size {n}"));
        large(cx, n, form, prep, then);
      }
    }
    for n in [254, 255, 256, 257, 1023, 65_534, 65_535, 65_536, 70_000] {
      cx.at(|| format!("a token and a run of trivia tokens of size {n}"));
      large(cx, n, 5, prep, then);
      large(cx, n, 6, prep, then);
    }
    for n in [200_000, 1_100_000, 17_000_000] {
      cx.at(|| format!("tokens and trivia of size {n}"));
      large(cx, n, 7, prep, then);
    }
    for n in [300, 5000, 70_000] {
      for form in 8..12 {
        cx.at(|| format!("large parse of form {form}, size {n}"));
        large(cx, n, form, prep, then);
      }
    }
  }
}

/// Tokens with trivia in the gaps of the pattern.
fn layout(sig: usize, pattern: u32) -> (String, Vec<(u16, usize)>) {
  let mut text = String::new();
  let mut cuts = Vec::new();
  for i in 0..=sig {
    if pattern >> (i % 6) & 1 == 1 {
      text.push(' ');
      cuts.push((1, 1));
      if i % 2 == 1 {
        text.push_str("#c");
        cuts.push((0, 2));
      }
    }
    if i < sig {
      text.push((b'a' + (i % 26) as u8) as char);
      cuts.push((TRIVIA + (i % 3) as u16, 1));
    }
  }
  (text, cuts)
}

fn large(cx: &mut Ctx, n: usize, form: u32, prep: fn(&mut Run), then: Then) {
  let sig = match form {
    0 | 3 | 10 => 2,
    9 => n,
    11 => 40,
    _ => n / 4,
  };
  let (text, mut cuts) = layout(sig, 0b10_1010);
  // a lot of trivia at once
  let mut text = text;
  if form == 4 {
    text.push_str(&" ".repeat(n));
    cuts.extend(std::iter::repeat_n((2, 1), n));
  }
  if matches!(form, 5..=7) {
    let (a, z) = ("é".repeat(n / 2) + &"e".repeat(n % 2), "#".repeat(n));
    text = format!("a{a}{}b{z}cd", " ".repeat(n));
    cuts = vec![(TRIVIA, 1), (TRIVIA + 1, n)];
    if form == 7 {
      cuts.push((2, n));
    } else {
      cuts.extend(std::iter::repeat_n((2, 1), n));
    }
    cuts.extend([(TRIVIA + 2, 1), (0, n), (TRIVIA, 1), (TRIVIA + 1, 1)]);
  }
  let toks = tokens(&text, &cuts);
  let mut run = Run::new(&toks);
  prep(&mut run);
  run.plain = true;
  run.enter(cx);
  match form {
    0 => {
      // nesting
      for _ in 0..n {
        run.enter(cx);
      }
      run.bump(cx);
      for i in 0..n {
        run.exit(cx, NODE + (i % 7) as u16);
      }
    }
    1 => {
      // left-leaning operators
      run.enter(cx);
      run.bump(cx);
      let mut ex = run.exit(cx, NODE);
      while run.left() > 0 {
        run.precede(cx, ex);
        run.bump(cx);
        ex = run.exit(cx, NODE + 1);
      }
    }
    2 => {
      // a flat list, half of it speculative
      let mut i = 0;
      while run.left() > 0 {
        run.save(cx);
        run.enter(cx);
        run.bump(cx);
        if i % 4 == 3 && run.left() > 0 {
          run.error(cx);
        }
        run.exit(cx, NODE + 2);
        run.settle(cx);
        if i % 4 == 3 && run.left() > 0 {
          run.bump(cx);
        }
        i += 1;
      }
    }
    3 => {
      // precedes one after the other on the spot, half of them abandoned
      run.enter(cx);
      run.bump(cx);
      let mut ex = run.exit(cx, NODE);
      for i in 0..n {
        run.precede(cx, ex);
        if i % 2 == 0 {
          run.abandon(cx);
        } else {
          ex = run.exit(cx, NODE + 3);
        }
      }
    }
    5 | 7 => {
      // long tokens, long trivia, and a long run of trivia
      run.enter(cx);
      run.bump(cx);
      run.error(cx);
      run.exit(cx, NODE + 4);
      run.bump(cx);
      run.error(cx);
      run.save(cx);
      run.enter(cx);
      run.bump(cx);
      run.error(cx);
      run.settle(cx);
      run.enter(cx);
      run.bump(cx);
      run.error(cx);
      run.bump(cx);
      run.exit(cx, NODE + 5);
      run.error(cx);
    }
    6 => {
      // the same with nothing but tokens
    }
    8 => {
      // many errors at one place, and many more at the end
      run.enter(cx);
      for _ in 0..n {
        run.error(cx);
      }
      run.bump(cx);
      run.bump(cx);
      run.exit(cx, NODE + 6);
      for _ in 0..n {
        run.error(cx);
      }
      while run.left() > 0 {
        run.bump(cx);
      }
      for _ in 0..n {
        run.error(cx);
      }
    }
    9 => {
      // an error at the start of a long attempt, in its middle, at its end, and nowhere
      for at in [Some(0), Some(n / 2), Some(n - 1), None] {
        run.save(cx);
        for i in 0..n {
          if Some(i) == at {
            run.error(cx);
          }
          run.bump(cx);
        }
        run.settle(cx);
      }
    }
    10 => {
      // attempts within attempts, and many of them one after the other; one error outside, one inside
      run.error(cx);
      run.bump(cx);
      for i in 0..n {
        run.save(cx);
        if i % 2 == 0 {
          run.error(cx);
        }
        run.settle(cx);
      }
      let depth = n.min(2000);
      for failing in [depth / 2, 0, depth] {
        for i in 0..depth {
          run.save(cx);
          if i == failing {
            run.error(cx);
          }
          run.enter(cx);
        }
        for _ in 0..depth {
          run.exit(cx, NODE + 3);
          run.settle(cx);
        }
      }
    }
    11 => {
      // many attempts at the same place, some of which fail late
      for i in 0..n / 16 {
        run.save(cx);
        for _ in 0..i % 16 {
          run.enter(cx);
          run.bump(cx);
          run.exit(cx, NODE + (i % 5) as u16);
        }
        if i % 64 != 63 || run.left() < 17 {
          run.error(cx);
        }
        run.settle(cx);
      }
    }
    _ => {
      // many errors among trivia
      for i in 0..n {
        run.error(cx);
        if i % 5 == 0 && run.left() > 0 {
          run.bump(cx);
        }
      }
    }
  }
  while run.left() > 0 {
    run.bump(cx);
  }
  run.exit(cx, NODE + 9);
  checks::note(cx, &run);
  then(cx, run, &toks);
}

pub fn every_token(cx: &mut Ctx) {
  all(cx, |_| {}, true, false, |cx, run, toks| {
    let evs = checks::finish(cx, run.r);
    checks::judge_tokens(cx, &run.m, &evs, toks);
  });
}

pub fn shape(cx: &mut Ctx) {
  for partial in [false, true] {
    all(cx, |_| {}, false, partial, |cx, run, _| {
      let evs = checks::finish(cx, run.r);
      checks::judge_shape(cx, &run.m, &evs);
    });
  }
}

pub fn trivia(cx: &mut Ctx) {
  all(cx, |_| {}, true, false, |cx, run, _| {
    let evs = checks::finish(cx, run.r);
    checks::judge_trivia(cx, &run.m, &evs);
  });
}

pub fn backtrack(cx: &mut Ctx) {
  all(cx, |r| r.judge_spec = true, false, true, |cx, run, toks| {
    let evs = checks::finish(cx, run.r);
    checks::judge_backtrack(cx, &run.m, &evs, toks);
  });
}

pub fn look(cx: &mut Ctx) {
  all(cx, |r| r.judge_look = true, true, true, |cx, run, toks| {
    let crate::drive::Run { r, m, .. } = run;
    let evs = checks::finish(cx, r);
    checks::judge_errors(&m, &evs);
    checks::other_trivia(cx, &m, toks, &mut |_| 1);
  });
}

pub fn rowan_tree(cx: &mut Ctx) {
  all(cx, |_| {}, true, false, |cx, run, toks| {
    // rowan trees are dropped recursively
    if run.m.nodes.len() > 1000 {
      return;
    }
    checks::judge_rowan(cx, &run.m, run.r, toks);
  });
}
