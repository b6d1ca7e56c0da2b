//! Soft assertions.

use crate::logs::{self, Rec};
use always::always;
use std::cell::Cell;
use std::fmt;
use vmon::{Ctx, catch, need, same, tr, vio};

/// Counts how often it is rendered.
struct Shown<'a>(&'a str, &'a Cell<u32>);

impl fmt::Display for Shown<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.1.set(self.1.get() + 1);
    f.write_str(self.0)
  }
}

impl fmt::Debug for Shown<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(self, f)
  }
}

/// Asserts when it goes away.
struct Late<'a>(&'a str, &'a Cell<Option<bool>>);

impl Drop for Late<'_> {
  fn drop(&mut self) {
    self.1.set(Some(always!(self.0.contains('\u{1}') && self.0.is_empty(), "late {}", self.0)));
  }
}

/// Asserts when it is shown.
struct Inner<'a>(&'a str);

impl std::fmt::Display for Inner<'_> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let r = always!(self.0.len() > 1 << 20, "inner {}", self.0);
    write!(f, "{r}")
  }
}

/// Soft assertions in places where things are going wrong already, which must go on in a release
/// build.
fn nested(cx: &mut Ctx, text: &str) {
  let err = |msg: String| Rec { level: log::Level::Error, msg };
  // while another panic unwinds
  let seen = Cell::new(None);
  logs::start();
  let got = catch(|| {
    let _late = Late(text, &seen);
    panic!("first panic");
  });
  same!(got, Err("first panic".to_owned()), "the panic that arrives");
  same!(seen.get(), Some(false), "a false soft assertion while a panic unwinds");
  same!(logs::take(), vec![err(format!("late {text}"))], "what is logged while a panic unwinds");
  // when a value goes away
  seen.set(None);
  drop(Late(text, &seen));
  same!(seen.get(), Some(false), "a false soft assertion in a destructor");
  same!(logs::take(), vec![err(format!("late {text}"))], "what a destructor logs");
  // in the message, and in the condition, of another
  let r = always!(text.len() > 1 << 20, "outer {}", Inner(text));
  same!(r, false, "a false soft assertion with another in its message");
  let mut recs = logs::take();
  same!(recs.pop(), Some(err("outer false".to_owned())), "what the outer one logs");
  // (as often as the message is rendered)
  recs.dedup();
  same!(recs, vec![err(format!("inner {text}"))], "what the inner one logs");
  let r = always!(!always!(text.len() > 1 << 20, "one {text}") && always!(text.len() > 2 << 20, "two {text}"), "three");
  same!(r, false, "a false soft assertion of others");
  same!(logs::take(), vec![err(format!("one {text}")), err(format!("two {text}")), err("three".to_owned())], "what the three log");
  // over and over at one place
  for i in 0..300 {
    same!(always!(i > 300, "again {i}"), false, "a false soft assertion that was false before");
  }
  let recs = logs::take();
  same!(recs, (0..300).map(|i| err(format!("again {i}"))).collect::<Vec<_>>(), "what is logged by one that is false 300 times");
  // on another thread
  let text = text.to_owned();
  let got = std::thread::Builder::new().spawn(move || {
    let r = always!(text.len() > 1 << 20, "there {text}");
    (r, logs::take(), text)
  });
  let (r, recs, text) = got.expect("a thread").join().unwrap_or_else(|_| vio!("a false soft assertion on another thread panicked in a release build"));
  same!(r, false, "a false soft assertion on another thread");
  same!(recs, vec![err(format!("there {text}"))], "what is logged on another thread");
  // with every level of logging that lets errors pass
  for l in [log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug] {
    log::set_max_level(l);
    same!(always!(text.len() > 1 << 20, "at {l}"), false, "a false soft assertion");
    same!(logs::take(), vec![err(format!("at {l}"))], "what is logged at level {l}");
  }
  cx.count("soft assertions", 314);
}

/// False soft assertions in various places, all of which must panic in a debug build.
fn firm(cx: &mut Ctx, text: &str) {
  let fails = |how: &str, got: Result<bool, String>| same!(got, Err(format!("{how} {text}")), "a false soft assertion in a debug build, {how}");
  let one = |how: &str| catch(|| always!(text.len() > 1 << 20, "{how} {text}"));
  logs::start();
  for i in 0..300 {
    let _ = i;
    fails("over and over", one("over and over"));
  }
  for name in [None, Some("main"), Some("worker"), Some("")] {
    let t = text.to_owned();
    let b = std::thread::Builder::new();
    let b = match name {
      Some(n) => b.name(n.to_owned()),
      None => b,
    };
    let h = b.spawn(move || catch(|| always!(t.len() > 1 << 20, "elsewhere {t}")));
    let got = h.expect("a thread").join().unwrap_or_else(|_| vio!("the panic was not the one of the soft assertion"));
    fails("elsewhere", got);
    // and here the thread itself ends
    let t = text.to_owned();
    let h = std::thread::spawn(move || always!(t.len() > 1 << 20, "elsewhere {t}"));
    need!(h.join().is_err(), "a thread went on after a false soft assertion in a debug build");
  }
  // in a destructor, in a condition (in a message it would be a panic during a panic)
  let seen = Cell::new(None);
  same!(catch(|| drop(Late(text, &seen))), Err(format!("late {text}")), "a false soft assertion in a destructor in a debug build");
  same!(seen.get(), None, "what came after it");
  fails("in a condition", catch(|| always!(!always!(text.len() > 1 << 20, "in a condition {text}"), "not this")));
  // after a panic was caught, and while one is being caught
  let _ = catch(|| panic!("first"));
  fails("after a panic", one("after a panic"));
  for l in [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Trace] {
    log::set_max_level(l);
    fails("at a level", one("at a level"));
  }
  need!(logs::take().is_empty(), "logged besides panicking");
  log::set_max_level(log::LevelFilter::Trace);
  cx.count("soft assertions", 315);
}

pub fn case(cx: &mut Ctx) {
  let debug = cfg!(debug_assertions);
  let n = 1 + cx.size(20);
  let mut falses = 0;
  for _ in 0..n {
    let truth = cx.chance(1, 2);
    let len = cx.size(60);
    let text = cx.text(len);
    let num = cx.u64();
    let form = cx.below(12);
    let shown = Cell::new(0);
    let evals = Cell::new(0u32);
    let args = Cell::new(0u32);
    let x = Shown(&text, &shown);
    let eval = |t: bool| {
      evals.set(evals.get() + 1);
      t
    };
    let arg = || {
      args.set(args.get() + 1);
      num
    };
    logs::start();
    let mut stmt_after = false;
    let got = catch(|| {
      let r = match form {
        0 => always!(eval(truth)),
        1 => always!(eval(truth), "plain message"),
        2 => always!(eval(truth), "plain message",),
        3 => always!(eval(truth), "{}", x),
        4 => always!(eval(truth), "{x}"),
        5 => always!(eval(truth), "a {x:?} b {}", arg()),
        6 => always!(eval(truth), "{0}{0}", x),
        7 => always!(eval(truth), "{k:>30}", k = arg()),
        8 => always!(eval(truth) && !text.contains('\u{1}'), "{{}} {x} {num:#x}"),
        9 => {
          let cond = !truth;
          always!(eval(!cond), "{} {}", cond, x)
        }
        10 => {
          // a block with a side effect as the condition
          let mut hits = 0;
          let r = always!({ hits += 1; eval(truth) }, "{x}");
          same!(hits, 1, "times the condition ran");
          r
        }
        _ => {
          // used as a guard
          if always!(eval(truth), "{x}") { true } else { false }
        }
      };
      stmt_after = true;
      r
    });
    let recs = logs::take();
    let want_msg = match form {
      0 => None,
      1 | 2 => Some("plain message".to_owned()),
      5 => Some(format!("a {text} b {num}")),
      6 => Some(format!("{text}{text}")),
      7 => Some(format!("{num:>30}")),
      8 => Some(format!("{{}} {text} {num:#x}")),
      9 => Some(format!("{} {text}", !truth)),
      _ => Some(text.clone()),
    };
    let truth = truth && !(form == 8 && text.contains('\u{1}'));
    tr!(cx, "form {form} condition {truth}: {got:?}, logged {recs:?}");
    same!(evals.get(), 1, "times the condition was evaluated (form {form})");
    let right = |m: &str| match &want_msg {
      Some(w) => m == w,
      None => m.contains("eval(truth)"),
    };
    if truth {
      same!(got, Ok(true), "a true soft assertion");
      need!(recs.is_empty(), "a true soft assertion logged {recs:?}");
      same!(shown.get(), 0, "times the message of a true soft assertion was rendered");
      same!(args.get(), 0, "times the message arguments of a true soft assertion were evaluated");
    } else {
      falses += 1;
      match (debug, &got) {
        (true, Err(m)) => {
          need!(right(m), "the panic message is {m:?}, not {want_msg:?}");
          need!(recs.is_empty(), "logged {recs:?} besides panicking");
        }
        (true, Ok(b)) => vio!("a false soft assertion gave {b} in a debug build"),
        (false, Ok(b)) => {
          same!(*b, false, "a false soft assertion");
          need!(stmt_after, "did not go on");
          match recs.as_slice() {
            [Rec { level: log::Level::Error, msg }] => need!(right(msg), "logged {msg:?}, not {want_msg:?}"),
            _ => vio!("a false soft assertion logged {recs:?}"),
          }
        }
        (false, Err(m)) => vio!("a false soft assertion panicked in a release build: {m}"),
      }
      need!(args.get() <= 1, "the message arguments were evaluated {} times", args.get());
    }
    cx.count("soft assertions", 1);
    cx.feature(form * 2 + u64::from(truth));
  }
  // a condition that panics or leaves early takes its way
  logs::start();
  let got = catch(|| always!({ let v: Vec<u8> = vec![]; v[cx_zero()] == 0 }, "m"));
  need!(got.is_err() && logs::take().is_empty(), "the panic of the condition was lost");
  let f = |v: Option<bool>| -> Option<bool> { Some(always!(v?, "m")) };
  same!(f(None), None, "a condition that returns early");
  same!(f(Some(true)), Some(true), "a condition that does not return early");
  need!(logs::take().is_empty(), "a soft assertion that was left early logged");
  if !debug && cx.chance(1, 50) {
    let k = cx.size(40);
    let text = cx.text(k);
    nested(cx, &text);
  }
  if debug && cx.chance(1, 50) {
    let k = cx.size(40);
    let text = cx.text(k);
    firm(cx, &text);
  }
  // with logging off nothing else changes
  if !debug {
    log::set_max_level(log::LevelFilter::Off);
    let hits = Cell::new(0);
    let r = always!({ hits.set(hits.get() + 1); false }, "m");
    same!((r, hits.get()), (false, 1), "a false soft assertion with logging off");
    need!(logs::take().is_empty(), "logged although logging is off");
  }
  cx.count("false soft assertions", falses);
  if falses > 0 {
    cx.nontrivial(cx.choices_hash());
  }
}

fn cx_zero() -> usize {
  std::hint::black_box(0)
}
