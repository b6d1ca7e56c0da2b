//! The case runner.

use crate::ctx::{Ctx, mix, panic_msg};
use crate::{Dict, J, Violation, cov};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

/// A monitored property.
pub struct PropSpec {
  /// The property.
  pub id: &'static str,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
  /// One random case.
  pub case: fn(&mut Ctx),
  /// Enumerated cases, split over the shards with [`Ctx::mine`].
  pub fixed: Option<fn(&mut Ctx)>,
  /// Random cases per shard in the quick tier.
  pub quick: u64,
  /// Random cases per shard in the thorough tier.
  pub thorough: u64,
  /// Observation counters that must reach a number (over all shards), or the run observed too little.
  pub need: &'static [(&'static str, u64)],
}

static CASE_CPU: AtomicU64 = AtomicU64::new(u64::MAX);

#[repr(C)]
struct Timespec {
  sec: i64,
  nsec: i64,
}

unsafe extern "C" {
  fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32;
}

fn cpu_ms() -> u64 {
  let mut t = Timespec { sec: 0, nsec: 0 };
  // SAFETY: plain libc call with a valid out pointer; 2 = CLOCK_PROCESS_CPUTIME_ID
  unsafe { clock_gettime(2, &mut t) };
  t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

struct Args {
  m: BTreeMap<String, String>,
}

impl Args {
  fn get(&self, k: &str) -> Option<&str> {
    self.m.get(k).map(String::as_str)
  }
  fn num(&self, k: &str, d: u64) -> u64 {
    self.get(k).map_or(d, |x| x.parse().unwrap_or_else(|_| usage(&format!("bad --{k}"))))
  }
}

fn usage(m: &str) -> ! {
  eprintln!("vmon: {m}");
  std::process::exit(2)
}

enum Out {
  Fine,
  Bad(String),
}

fn run_one(f: fn(&mut Ctx), cx: &mut Ctx) -> Out {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cx))) {
    Ok(()) => Out::Fine,
    Err(e) => Out::Bad(match e.downcast::<Violation>() {
      Ok(v) => v.0,
      Err(e) => {
        let at = LAST_PANIC.with(|l| l.borrow().clone());
        format!("unexpected panic: {} ({at})", panic_msg(&*e))
      }
    }),
  }
}

thread_local! {
  static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn hex(s: &str) -> u64 {
  u64::from_str_radix(s, 16).unwrap_or_else(|_| usage("bad hex number"))
}

/// The entry point of every monitor binary.
#[allow(clippy::too_many_lines)]
pub fn main(props: &[PropSpec]) {
  let mut m = BTreeMap::new();
  let mut it = std::env::args().skip(1);
  while let Some(a) = it.next() {
    let Some(k) = a.strip_prefix("--") else { usage("unexpected argument") };
    let Some(v) = it.next() else { usage("missing value") };
    m.insert(k.to_owned(), v);
  }
  let args = Args { m };
  let Some(p) = props.iter().find(|p| Some(p.id) == args.get("prop")) else { usage("no such property") };
  let thorough = args.get("tier") == Some("thorough");
  let seed = args.num("seed", 1);
  let shard = args.num("shard", 0);
  let shards = args.num("shards", 1);
  let max_secs = args.num("max-secs", 60);
  let cases = args.num("cases", if thorough { p.thorough } else { p.quick });
  let hang_ms = args.num("hang-secs", 60) * 1000;
  let dirs: Vec<String> =
    args.get("mine").map_or_else(Vec::new, |s| s.split(',').map(str::to_owned).collect());
  let dict = Rc::new(Dict::mine(&dirs));
  let build = if cfg!(debug_assertions) { "debug" } else { "release" };

  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
    LAST_PANIC.with(|l| *l.borrow_mut() = loc);
    if std::env::var_os("VMON_LOUD").is_some() {
      eprintln!("{info}");
    }
  }));

  let journal = args.get("journal").map(|j| {
    std::fs::File::create(j).unwrap_or_else(|e| usage(&format!("cannot create journal: {e}")))
  });
  let note = |kind: u64, idx: u64, seed: u64| {
    if let Some(j) = &journal {
      let mut b = [0u8; 24];
      b[..8].copy_from_slice(&kind.to_le_bytes());
      b[8..16].copy_from_slice(&idx.to_le_bytes());
      b[16..].copy_from_slice(&seed.to_le_bytes());
      let _ = j.write_at(&b, 0);
    }
    CASE_CPU.store(cpu_ms(), Ordering::Relaxed);
  };
  if cfg!(not(miri)) {
    std::thread::spawn(move || {
      loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = CASE_CPU.load(Ordering::Relaxed);
        if s != u64::MAX && cpu_ms().saturating_sub(s) > hang_ms {
          std::process::exit(77);
        }
      }
    });
  }

  let prep = |cx: &mut Ctx| {
    cx.thorough = thorough;
    cx.shard = shard;
    cx.shards = shards;
    cx.run_seed = seed;
  };

  // replays
  let replay = if let Some(s) = args.get("replay-seed") {
    Some((p.case, Ctx::new(hex(s), Rc::clone(&dict))))
  } else if let Some(t) = args.get("replay-tape") {
    let tape = t.split(',').filter(|x| !x.is_empty()).map(hex).collect();
    Some((p.case, Ctx::with_tape(tape, Rc::clone(&dict))))
  } else if args.get("replay-fixed").is_some() {
    Some((p.fixed.unwrap_or_else(|| usage("no enumeration")), Ctx::new(0, Rc::clone(&dict))))
  } else {
    None
  };
  if let Some((f, mut cx)) = replay {
    prep(&mut cx);
    cx.tracing = true;
    note(2, 0, 0);
    match run_one(f, &mut cx) {
      Out::Fine => println!("REPLAY ok ({build})\n{}", cx.trace_text()),
      Out::Bad(msg) => {
        println!("REPLAY violation ({build}): {msg}\n{}", cx.trace_text());
        std::process::exit(1);
      }
    }
    return;
  }

  let start = Instant::now();
  let mut evals = 0u64;
  let mut distinct = HashSet::<u64>::new();
  let mut features = HashSet::<u64>::new();
  let mut counters = BTreeMap::<&'static str, u64>::new();
  let mut maxima = BTreeMap::<&'static str, u64>::new();
  let mut samples = Vec::<String>::new();
  let mut violation = None::<J>;
  let mut enumerated = (0u64, 0u64);
  let merge = |cx: &mut Ctx,
                   counters: &mut BTreeMap<&'static str, u64>,
                   maxima: &mut BTreeMap<&'static str, u64>| {
    for (k, v) in std::mem::take(&mut cx.counters) {
      *counters.entry(k).or_default() += v;
    }
    for (k, v) in std::mem::take(&mut cx.maxima) {
      let e = maxima.entry(k).or_default();
      *e = (*e).max(v);
    }
  };
  let obj = |xs: Vec<(&str, J)>| J::O(xs.into_iter().map(|(k, v)| (k.to_owned(), v)).collect());

  if let Some(fixed) = p.fixed {
    let mut cx = Ctx::new(0, Rc::clone(&dict));
    prep(&mut cx);
    note(1, shard, 0);
    match run_one(fixed, &mut cx) {
      Out::Fine => {}
      Out::Bad(msg) => {
        let mut tcx = Ctx::new(0, Rc::clone(&dict));
        prep(&mut tcx);
        tcx.tracing = true;
        let _ = run_one(fixed, &mut tcx);
        violation = Some(obj(vec![
          ("kind", J::S("fixed".to_owned())),
          ("message", J::S(msg)),
          ("trace", J::S(tcx.trace_text())),
          ("shard", J::I(shard as i64)),
          ("shards", J::I(shards as i64)),
        ]));
      }
    }
    enumerated = (cx.enumerated, cx.enum_nontrivial);
    for &f in &cx.features {
      features.insert(f);
    }
    merge(&mut cx, &mut counters, &mut maxima);
  }

  let guided = cov::available() || args.get("guided") == Some("1");
  let mut corpus = Vec::<Vec<u64>>::new();
  let mut seen = cov::Seen::new();
  let mut mutated_cases = 0u64;
  let mut stopped_early = false;
  let base = crate::fnv(p.id.as_bytes());
  let mut idx = 0u64;
  while violation.is_none() && idx < cases {
    if (idx % 16 == 0 || cfg!(miri)) && start.elapsed().as_secs() >= max_secs {
      stopped_early = true;
      break;
    }
    let case_seed = mix(mix(seed ^ base).wrapping_add(mix(idx * shards + shard)));
    let mut cx = Ctx::new(case_seed, Rc::clone(&dict));
    let mut meta = Ctx::new(!case_seed, Rc::clone(&dict));
    let mutated = guided && corpus.len() >= 4 && meta.below(10) < 6;
    if mutated {
      let tape = mutate(&mut meta, &corpus, &dict);
      cx = Ctx::with_tape(tape, Rc::clone(&dict));
      mutated_cases += 1;
    }
    prep(&mut cx);
    cx.scale = idx;
    note(0, idx, case_seed);
    if guided {
      cov::reset();
      cov::set(true);
    }
    let out = run_one(p.case, &mut cx);
    if guided {
      cov::set(false);
    }
    evals += 1;
    let mut fresh_feature = false;
    if features.len() < 2_000_000 {
      for &f in &cx.features {
        fresh_feature |= features.insert(f);
      }
    }
    let fresh_case = cx.nontrivial && distinct.len() < 3_000_000 && distinct.insert(mix(cx.fingerprint));
    if guided && (seen.merge() || (fresh_feature && corpus.len() < 20_000)) {
      let used = cx.used();
      let mut t = cx.take_tape();
      t.truncate(used);
      if t.len() < 20_000 {
        if corpus.len() < 8192 {
          corpus.push(t);
        } else {
          let i = meta.idx(corpus.len());
          corpus[i] = t;
        }
      }
      // the tape is needed again below only on a violation
      if let Out::Bad(_) = out {
        cx = Ctx::with_tape(corpus.last().cloned().unwrap_or_default(), Rc::clone(&dict));
      }
    }
    if fresh_case && samples.len() < if cfg!(miri) { 1 } else { 3 } && !mutated {
      let mut tcx = Ctx::new(case_seed, Rc::clone(&dict));
      prep(&mut tcx);
      tcx.tracing = true;
      let _ = run_one(p.case, &mut tcx);
      let t = tcx.trace_text();
      if t.len() > 2 && (t.len() < 3000 || samples.is_empty()) {
        samples.push(t.chars().take(3000).collect());
      }
    }
    merge(&mut cx, &mut counters, &mut maxima);
    if let Out::Bad(msg) = out {
      let tape = cx.take_tape();
      let (tape, msg) = shrink(p, tape, msg, &dict, &prep);
      let mut tcx = Ctx::with_tape(tape.clone(), Rc::clone(&dict));
      prep(&mut tcx);
      tcx.tracing = true;
      let _ = run_one(p.case, &mut tcx);
      violation = Some(obj(vec![
        ("kind", J::S("tape".to_owned())),
        ("message", J::S(msg)),
        ("trace", J::S(tcx.trace_text())),
        ("seed", J::S(format!("{case_seed:x}"))),
        ("tape", J::S(tape.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(","))),
        ("shard", J::I(shard as i64)),
        ("shards", J::I(shards as i64)),
      ]));
    }
    idx += 1;
  }
  CASE_CPU.store(u64::MAX, Ordering::Relaxed);

  let status = if violation.is_some() {
    "violation"
  } else {
    "ok"
  };
  if let Some(h) = args.get("hashes") {
    let mut f = std::fs::File::create(h).unwrap_or_else(|e| usage(&format!("cannot write: {e}")));
    let mut b = Vec::with_capacity(distinct.len() * 8);
    for x in &distinct {
      b.extend_from_slice(&x.to_le_bytes());
    }
    f.write_all(&b).unwrap_or_else(|e| usage(&format!("cannot write: {e}")));
  }
  let nums = |m: &BTreeMap<&'static str, u64>| {
    J::O(m.iter().map(|(k, v)| ((*k).to_owned(), J::I(*v as i64))).collect())
  };
  let out = obj(vec![
    ("status", J::S(status.to_owned())),
    ("build", J::S(build.to_owned())),
    ("rule", J::S(p.rule.to_owned())),
    ("evaluations", J::I((evals + enumerated.0) as i64)),
    ("random_cases", J::I(evals as i64)),
    ("enumerated", J::I(enumerated.0 as i64)),
    ("enumerated_nontrivial", J::I(enumerated.1 as i64)),
    ("distinct", J::I(distinct.len() as i64)),
    ("features", J::I(features.len() as i64)),
    ("counters", nums(&counters)),
    ("maxima", nums(&maxima)),
    ("guided", J::B(guided)),
    ("guided_cases", J::I(mutated_cases as i64)),
    ("corpus", J::I(corpus.len() as i64)),
    ("edges_hit", J::I(seen.edges_hit as i64)),
    ("edges_total", J::I(if guided { seen.total() as i64 } else { 0 })),
    ("stopped_early", J::B(stopped_early)),
    ("samples", J::A(samples.into_iter().map(J::S).collect())),
    ("needs", J::A(p.need.iter().map(|(k, n)| J::S(format!("{n} {k}"))).collect())),
    ("violation", violation.unwrap_or(J::Null)),
    ("wall_s", J::N(start.elapsed().as_secs_f64())),
  ]);
  match args.get("out") {
    Some(o) => std::fs::write(o, out.to_string()).unwrap_or_else(|e| usage(&format!("cannot write: {e}"))),
    None => println!("{out}"),
  }
  std::process::exit(match status {
    "ok" => 0,
    "violation" => 1,
    _ => 3,
  });
}

/// Keeps the hang watchdog quiet during long enumerations.
pub fn tick() {
  CASE_CPU.store(cpu_ms(), Ordering::Relaxed);
}

fn mutate(cx: &mut Ctx, corpus: &[Vec<u64>], dict: &Dict) -> Vec<u64> {
  // prefer recent finds
  let n = corpus.len();
  let i = if cx.chance(1, 2) { n - 1 - cx.idx(n.min(64)) } else { cx.idx(n) };
  let mut t = corpus[i].clone();
  let rounds = 1 + cx.below(4);
  for _ in 0..rounds {
    let len = t.len();
    if len == 0 {
      t.push(cx.u64());
      continue;
    }
    let at = cx.idx(len);
    match cx.below(9) {
      0 | 1 => t[at] = cx.u64(),
      2 => t[at] = cx.below(16),
      3 => {
        let d = cx.below(5);
        t[at] = t[at].wrapping_add(d).wrapping_sub(2);
      }
      4 => {
        let k = cx.idx((len - at).min(8)) + 1;
        t.drain(at..at + k);
      }
      5 => {
        let k = cx.idx((len - at).min(24)) + 1;
        let piece: Vec<u64> = t[at..at + k].to_vec();
        t.splice(at..at, piece);
      }
      6 => {
        let o = &corpus[cx.idx(n)];
        if !o.is_empty() {
          let j = cx.idx(o.len());
          t.truncate(at);
          t.extend_from_slice(&o[j..]);
        }
      }
      7 => {
        let v = if dict.ints.is_empty() { cx.below(300) } else { *cx.pick(&dict.ints) };
        t[at] = v;
      }
      _ => {
        let v = cx.u64();
        t.insert(at, v);
      }
    }
  }
  t
}

/// Makes the tape of a failing case shorter and its choices smaller, within a small budget.
fn shrink(
  p: &PropSpec,
  tape: Vec<u64>,
  msg: String,
  dict: &Rc<Dict>,
  prep: &dyn Fn(&mut Ctx),
) -> (Vec<u64>, String) {
  let start = Instant::now();
  let fails = |t: &[u64]| -> Option<(String, usize)> {
    tick();
    let mut cx = Ctx::with_tape(t.to_vec(), Rc::clone(dict));
    prep(&mut cx);
    match run_one(p.case, &mut cx) {
      Out::Fine => None,
      Out::Bad(m) => Some((m, cx.used())),
    }
  };
  let Some((mut msg2, used)) = fails(&tape) else { return (tape, msg) };
  let mut best = tape;
  best.truncate(used);
  let done = || start.elapsed().as_secs() >= 6;
  let mut progress = true;
  while progress && !done() {
    progress = false;
    let mut size = (best.len() / 2).max(1);
    loop {
      let mut at = 0;
      while at < best.len() && !done() {
        let mut t = best.clone();
        t.drain(at..(at + size).min(t.len()));
        if let Some((m, u)) = fails(&t) {
          t.truncate(u);
          if t.len() < best.len() {
            best = t;
            msg2 = m;
            progress = true;
            continue;
          }
        }
        at += size;
      }
      if size == 1 || done() {
        break;
      }
      size /= 2;
    }
    let mut at = 0;
    while at < best.len() && !done() {
      if best[at] != 0 {
        for v in [0, best[at] / 2, best[at] - 1] {
          let mut t = best.clone();
          t[at] = v;
          if let Some((m, u)) = fails(&t) {
            t.truncate(u.max(1));
            if t.len() <= best.len() {
              best = t;
              msg2 = m;
              progress = true;
              break;
            }
          }
        }
      }
      at += 1;
    }
  }
  (best, msg2)
}
