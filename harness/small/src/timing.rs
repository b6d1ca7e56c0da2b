//! Timing calls.

use crate::{clock, logs};
use std::time::{Duration, Instant};
use vmon::{Ctx, fnv, need, same, tr, vio};

fn work(cx_micros: u64, sleep: bool) -> Duration {
  let start = Instant::now();
  let d = Duration::from_micros(cx_micros);
  if sleep {
    std::thread::sleep(d);
  } else {
    while start.elapsed() < d {
      std::hint::spin_loop();
    }
  }
  start.elapsed()
}

/// Reads back a rendered duration, with how exact it is.
fn read(s: &str) -> Option<(f64, f64)> {
  let (n, unit) = if let Some(x) = s.strip_suffix("ns") {
    (x, 1e-9)
  } else if let Some(x) = s.strip_suffix("µs") {
    (x, 1e-6)
  } else if let Some(x) = s.strip_suffix("ms") {
    (x, 1e-3)
  } else {
    (s.strip_suffix('s')?, 1.0)
  };
  let digits = n.split_once('.').map_or(0, |(_, frac)| frac.len());
  let secs = n.parse::<f64>().ok()? * unit;
  Some((secs, unit * 0.1f64.powi(digits as i32) + 2e-9 + secs * 1e-12))
}

struct Boom(u64);

pub fn case(cx: &mut Ctx) {
  let micros = match cx.below(6) {
    0 => 0,
    1 => cx.below(10),
    2 => cx.below(100),
    3 => cx.below(1500),
    _ => 1,
  };
  let sleep = cx.chance(1, 20);
  timed(cx, micros, sleep);
  let bits = cx.below(62) as u32;
  let nanos = cx.u64() & ((1 << bits) - 1);
  let day = cx.below(200_001) as i64 - 100_000;
  moved(cx, Duration::from_nanos(nanos), day);
}

/// A call during which a long time passes, as the clock has it, and the clock of the day is set.
fn moved(cx: &mut Ctx, time: Duration, day: i64) {
  tr!(cx, "{time:?} pass, the clock of the day is moved by {day} s");
  if !clock::movable() {
    return;
  }
  let call = || {
    let start = Instant::now();
    clock::pass(time / 2, day);
    clock::pass(time - time / 2, 0);
    start.elapsed()
  };
  clock::reset();
  let before = Instant::now();
  let (inner, dur) = elapsed::time(call);
  let whole = before.elapsed();
  clock::reset();
  need!(inner >= time, "the clock was moved by {time:?}, which shows as {inner:?}");
  need!(inner <= dur, "reported {dur:?}, but the call took at least {inner:?}");
  need!(dur <= whole, "reported {dur:?}, but everything took {whole:?}");
  logs::start();
  let before = Instant::now();
  let inner = elapsed::log("long", call);
  let whole = before.elapsed();
  clock::reset();
  let recs = logs::take();
  need!(recs.len() == 1 && recs[0].msg.starts_with("long"), "logged {recs:?}");
  let rest = recs[0].msg["long".len()..].trim_start_matches([':', ' ']);
  if let Some((secs, slack)) = read(rest) {
    need!(secs + slack >= inner.as_secs_f64(), "logged {rest}, but the call took at least {inner:?}");
    need!(secs - slack <= whole.as_secs_f64(), "logged {rest}, but everything took {whole:?}");
  }
  cx.count("calls timed with the clock moved", 2);
  cx.max("longest time passed (s)", time.as_secs());
}

/// Longer calls, around round numbers and off them.
pub fn fixed(cx: &mut Ctx) {
  let all = [
    2_100u64, 3_999, 4_001, 5_300, 7_777, 9_990, 10_001, 12_345, 15_555, 21_700, 25_300, 33_333, 49_900, 50_100, 66_666, 99_900, 100_010, 101_010,
    127_500, 128_300, 200_700, 254_900, 255_700, 256_300, 333_333, 499_900, 500_700, 777_777, 999_500, 1_000_001, 1_000_300, 1_023_900, 1_100_700,
  ];
  let more = [1_500_500u64, 2_000_700, 2_147_500, 3_333_333, 4_294_970, 5_000_500];
  let thorough = cx.thorough;
  for (no, &micros) in all.iter().chain(more.iter().filter(|_| thorough)).enumerate() {
    if cx.mine(no as u64, true) {
      cx.at(|| format!("a call of {micros} us"));
      timed(cx, micros, no % 3 == 0);
      vmon::tick();
    }
  }
  for (no, bits) in (8..62).enumerate() {
    if cx.mine(no as u64, true) {
      for (less, day) in [(1u64, 0), (0, -1), (0, 3600), (1, -86_400)] {
        cx.at(|| format!("a call of 2^{bits} - {less} ns, the clock of the day moved by {day} s"));
        moved(cx, Duration::from_nanos((1 << bits) - less), day);
      }
    }
  }
  for (no, secs) in [1u64, 59, 60, 61, 3599, 3600, 65_535, 65_536, 86_399, 86_400, 1_000_000, 4_294_967, 4_294_968, 100_000_000].into_iter().enumerate() {
    if cx.mine(no as u64, true) {
      cx.at(|| format!("a call of {secs} s"));
      moved(cx, Duration::from_secs(secs), 0);
      moved(cx, Duration::new(secs, 999_999_999), 5);
    }
  }
}

/// Logs while it goes away.
struct Late<'a>(&'a str, &'a mut u32);

impl Drop for Late<'_> {
  fn drop(&mut self) {
    *self.1 += elapsed::log(self.0, || 3);
  }
}

/// Calls that do next to nothing are logged like others, whatever the message, the level of logging
/// and the place.
fn trivial(cx: &mut Ctx, msg: &str) {
  let one = |what: &str, m: &str| {
    let recs = logs::take();
    need!(recs.len() == 1, "{what} with the message {m:?} logged {recs:?}");
    need!(recs[0].level == log::Level::Info && recs[0].msg.starts_with(m), "{what} with the message {m:?} logged {recs:?}");
  };
  for m in ["", msg, " ", ":"] {
    logs::start();
    elapsed::log(m, || ());
    one("a call that does nothing", m);
    same!(elapsed::log(m, || 7u8), 7, "result");
    one("a call that returns a number", m);
    need!(matches!(elapsed::log(m, || Err::<(), _>(m)), Err(e) if e == m), "the error a call returns was changed");
    one("a call that fails", m);
  }
  logs::start();
  for i in 0..5 {
    elapsed::log(msg, || i);
  }
  let recs = logs::take();
  need!(recs.len() == 5 && recs.iter().all(|r| r.msg.starts_with(msg)), "five calls with the same message logged {recs:?}");
  let mut n = 0;
  let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let _late = Late(msg, &mut n);
    std::panic::panic_any(Boom(1));
  }));
  need!(got.is_err() && n == 3, "a call logged while a panic unwinds gave {n}");
  one("a call while a panic unwinds", msg);
  let deep = elapsed::log(msg, || elapsed::log("1", || elapsed::log("2", || elapsed::log("", || 5))));
  let recs = logs::take();
  need!(deep == 5 && recs.len() == 4, "four calls in each other logged {recs:?}");
  for (r, m) in recs.iter().zip(["", "2", "1", msg]) {
    need!(r.msg.starts_with(m), "four calls in each other logged {recs:?}");
  }
  for l in [log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Warn, log::LevelFilter::Error] {
    log::set_max_level(l);
    let mut runs = 0;
    elapsed::log(msg, || runs += 1);
    same!(runs, 1, "times the call ran when logging at {l}");
    if l >= log::LevelFilter::Info {
      one("a call", msg);
    } else {
      need!(logs::take().is_empty(), "logged at Info, when only {l} should be logged");
    }
  }
  cx.count("calls timed", 25);
}

fn timed(cx: &mut Ctx, micros: u64, sleep: bool) {
  let token = cx.u64();
  let mut runs = 0;
  tr!(cx, "{micros} us, sleeping: {sleep}");

  // plain
  let before = Instant::now();
  let ((val, inner), dur) = elapsed::time(|| {
    runs += 1;
    let d = work(micros, sleep);
    ((vec![token], d), 0u8).0
  });
  let whole = before.elapsed();
  same!(runs, 1, "times the call ran");
  same!(val, vec![token], "result");
  need!(inner <= dur, "reported {dur:?}, but the call took at least {inner:?}");
  need!(dur <= whole, "reported {dur:?}, but everything took {whole:?}");
  cx.max("longest call (us)", inner.as_micros() as u64);

  // nested and logging
  let k = cx.size(40);
  let msg = match cx.below(4) {
    0 => "{} {msg} {0:?}".to_owned(),
    _ => cx.text(k),
  };
  logs::start();
  let mut runs = 0;
  let before = Instant::now();
  let (val, inner) = elapsed::log(&msg, || {
    runs += 1;
    log::warn!("inside");
    let x = elapsed::log("nested", || token);
    (x, work(micros, sleep))
  });
  let whole = before.elapsed();
  let recs = logs::take();
  same!(runs, 1, "times the logged call ran");
  same!(val, token, "result of the logged call");
  need!(recs.len() == 3, "logged {recs:?}");
  need!(recs[0].msg == "inside" && recs[1].msg.starts_with("nested"), "the record of a call came before the call finished: {recs:?}");
  let r = &recs[2];
  need!(r.level == log::Level::Info && recs[1].level == log::Level::Info, "logged at {:?}", r.level);
  let Some(at) = r.msg.find(msg.as_str()) else { vio!("the record {:?} does not carry the message {msg:?}", r.msg) };
  let rest = r.msg[at + msg.len()..].trim_start_matches([':', ' ']);
  if let Some((secs, slack)) = read(rest) {
    need!(secs + slack >= inner.as_secs_f64(), "logged {rest}, but the call took at least {inner:?}");
    need!(secs - slack <= whole.as_secs_f64(), "logged {rest}, but everything took {whole:?}");
    cx.count("logged times read back", 1);
  }

  trivial(cx, &msg);
  // panics go through
  logs::start();
  let mut runs = 0;
  for logged in [false, true] {
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      let f = || {
        runs += 1;
        std::panic::panic_any(Boom(token));
      };
      if logged { elapsed::log(&msg, f) } else { elapsed::time(f).0 }
    }));
    match got {
      Err(e) => match e.downcast::<Boom>() {
        Ok(b) => same!(b.0, token, "payload of the panic"),
        Err(e) => std::panic::resume_unwind(e),
      },
      Ok(()) => vio!("the panic of the call was swallowed"),
    }
  }
  same!(runs, 2, "times the panicking call ran");
  // with logging off the call still runs
  log::set_max_level(log::LevelFilter::Off);
  let mut runs = 0;
  same!(elapsed::log(&msg, || { runs += 1; token }), token, "result with logging off");
  same!(runs, 1, "times the call ran with logging off");
  cx.count("calls timed", 3);
  cx.nontrivial(fnv(msg.as_bytes()) ^ micros);
}
