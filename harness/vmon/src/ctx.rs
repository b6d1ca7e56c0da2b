//! The case context: where a case gets its choices from, and where it reports observations.

use crate::dict::Dict;
use std::collections::BTreeMap;
use std::rc::Rc;

/// FNV-1a, for observation fingerprints.
pub fn fnv(bytes: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for &b in bytes {
    h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
  }
  mix(h)
}

pub(crate) fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
  z ^ (z >> 31)
}

/// Runs `f`, turning a panic into its message. A violation raised inside goes through.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(x) => Ok(x),
    Err(e) => {
      if e.is::<crate::Violation>() {
        std::panic::resume_unwind(e);
      }
      Err(panic_msg(&*e))
    }
  }
}

pub(crate) fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    (*s).to_owned()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic with a non-string payload".to_owned()
  }
}

/// A case context.
#[derive(Debug)]
pub struct Ctx {
  state: u64,
  tape: Vec<u64>,
  pos: usize,
  replaying: bool,
  /// Whether a readable trace is being recorded.
  pub tracing: bool,
  trace: Vec<String>,
  pub(crate) counters: BTreeMap<&'static str, u64>,
  pub(crate) maxima: BTreeMap<&'static str, u64>,
  pub(crate) features: Vec<u64>,
  pub(crate) fingerprint: u64,
  pub(crate) nontrivial: bool,
  /// Mined literals.
  pub dict: Rc<Dict>,
  /// Whether the thorough tier is running.
  pub thorough: bool,
  /// This shard.
  pub shard: u64,
  /// Number of shards.
  pub shards: u64,
  pub(crate) enumerated: u64,
  pub(crate) enum_nontrivial: u64,
  last_enum: String,
  /// The seed of the run.
  pub run_seed: u64,
  /// How long the case may still be made by growing it: bigger for rarer cases.
  pub scale: u64,
}

impl Ctx {
  pub(crate) fn new(seed: u64, dict: Rc<Dict>) -> Self {
    Self {
      state: mix(seed ^ 0x9e37_79b9_7f4a_7c15),
      tape: Vec::new(),
      pos: 0,
      replaying: false,
      tracing: false,
      trace: Vec::new(),
      counters: BTreeMap::new(),
      maxima: BTreeMap::new(),
      features: Vec::new(),
      fingerprint: 0,
      nontrivial: false,
      dict,
      thorough: false,
      shard: 0,
      shards: 1,
      enumerated: 0,
      enum_nontrivial: 0,
      last_enum: String::new(),
      run_seed: 0,
      scale: 0,
    }
  }

  pub(crate) fn with_tape(tape: Vec<u64>, dict: Rc<Dict>) -> Self {
    let mut ret = Self::new(0, dict);
    ret.tape = tape;
    ret.replaying = true;
    ret
  }

  pub(crate) fn take_tape(&mut self) -> Vec<u64> {
    std::mem::take(&mut self.tape)
  }

  pub(crate) fn used(&self) -> usize {
    self.pos
  }

  fn raw(&mut self) -> u64 {
    self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    mix(self.state)
  }

  /// A choice in `0..n`.
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 {
      return 0;
    }
    if self.replaying {
      let v = self.tape.get(self.pos).copied().unwrap_or(0) % n;
      self.pos += 1;
      v
    } else {
      let v = self.raw() % n;
      self.tape.push(v);
      self.pos += 1;
      v
    }
  }

  /// Any 64-bit number.
  pub fn u64(&mut self) -> u64 {
    self.below(u64::MAX)
  }

  /// A size in `0..n`.
  pub fn idx(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }

  /// A number in `lo..=hi`.
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below((hi - lo).saturating_add(1))
  }

  /// True `num` times in `den`.
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    // simpler = false
    self.below(den) >= den - num
  }

  /// One of the elements.
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    let i = self.idx(xs.len());
    &xs[i]
  }

  /// A size from 0 to `max` with a heavy tail, sometimes next to a constant of the code under test.
  pub fn size(&mut self, max: u64) -> u64 {
    let r = self.below(100);
    let v = if r < 55 {
      self.below(5)
    } else if r < 80 {
      self.below(12)
    } else if r < 91 {
      self.below(40)
    } else if r < 96 {
      self.below(140)
    } else if r < 98 {
      self.near_int(max)
    } else {
      self.below(max.saturating_add(1))
    };
    v.min(max)
  }

  /// A number next to a constant mined from the code under test or a power of two.
  pub fn near_int(&mut self, max: u64) -> u64 {
    let dict = Rc::clone(&self.dict);
    let base = if !dict.ints.is_empty() && self.chance(1, 2) {
      *self.pick(&dict.ints)
    } else {
      let k = self.below(64);
      1u64 << k
    };
    let d = self.below(5);
    let v = base.wrapping_add(d).wrapping_sub(2);
    if v > max { self.below(max.saturating_add(1)) } else { v }
  }

  /// Adds to an observation counter.
  pub fn count(&mut self, name: &'static str, n: u64) {
    *self.counters.entry(name).or_default() += n;
  }

  /// Raises an observed maximum.
  pub fn max(&mut self, name: &'static str, n: u64) {
    let e = self.maxima.entry(name).or_default();
    *e = (*e).max(n);
  }

  /// Records that an abstract state was seen.
  pub fn feature(&mut self, h: u64) {
    self.features.push(mix(h));
  }

  /// Says what the case is (for distinctness) and that it satisfies the non-triviality rule.
  pub fn nontrivial(&mut self, fingerprint: u64) {
    self.nontrivial = true;
    self.fingerprint = fingerprint;
  }

  /// In an enumeration: whether the `i`th element belongs to this shard; counts it if so.
  pub fn mine(&mut self, i: u64, nontrivial: bool) -> bool {
    if i % 256 == 0 {
      crate::run::tick();
    }
    let ret = i % self.shards == self.shard;
    if ret {
      self.enumerated += 1;
      self.enum_nontrivial += u64::from(nontrivial);
    }
    ret
  }

  /// Names the element of the enumeration being checked.
  pub fn at(&mut self, s: impl FnOnce() -> String) {
    if self.tracing {
      self.last_enum = s();
    }
  }

  /// Appends to the trace.
  pub fn trace_line(&mut self, s: String) {
    if self.trace.len() < 4000 {
      self.trace.push(crate::clip(&s));
    }
  }

  pub(crate) fn trace_text(&self) -> String {
    let mut s = self.trace.join("\n");
    if !self.last_enum.is_empty() {
      s.push_str("\nat ");
      s.push_str(&self.last_enum);
    }
    s
  }

  /// A character, biased to the ones that matter to encodings and line structure.
  pub fn ch(&mut self) -> char {
    let dict = Rc::clone(&self.dict);
    match self.below(20) {
      0..=5 => (b'a' + self.below(26) as u8) as char,
      6 | 7 => '\n',
      8 => *self.pick(&['\r', '\t', ' ', '\0', '_', '`', '#', '\u{7f}', '"', '\\', '/', '.']),
      9 | 10 => *self.pick(&['é', 'ß', '\u{80}', '\u{7ff}', 'λ', '\u{85}', '\u{ff}', '\u{a0}']),
      11 | 12 => *self.pick(&['メ', '\u{800}', '\u{ffff}', '\u{2028}', '\u{2029}', '\u{feff}', '€', '\u{d7ff}', '\u{e000}', '\u{3000}']),
      13 | 14 => *self.pick(&['😀', '\u{10000}', '\u{10ffff}', '𝒳', '\u{1f468}']),
      15 => (0x20 + self.below(0x5f) as u8) as char,
      16 => {
        if dict.chars.is_empty() { 'z' } else { *self.pick(&dict.chars) }
      }
      17 => loop {
        if let Some(c) = char::from_u32(self.below(0x11_0000) as u32) {
          break c;
        }
        if self.replaying {
          break 'q';
        }
      },
      18 => (b'A' + self.below(26) as u8) as char,
      _ => (b'0' + self.below(10) as u8) as char,
    }
  }

  /// A text with about `n` characters and a random style.
  pub fn text(&mut self, n: u64) -> String {
    let style = self.below(8);
    if n >= 24 && self.chance(1, 4) {
      return self.sparse(n);
    }
    let mut s = String::new();
    for _ in 0..n {
      match style {
        0 => s.push((b'a' + self.below(3) as u8) as char),
        1 => s.push(*self.pick(&['a', '\n'])),
        2 => s.push(*self.pick(&['x', '\n', '\n', 'é', 'メ', '😀'])),
        3 => {
          let c = self.ch();
          s.push(if c == '\n' { '😀' } else { c });
        }
        4 => s.push(*self.pick(&['a', 'b', 'c', 'd', 'e', 'f', ' ', '\n', '\r'])),
        5 if !self.dict.strs.is_empty() && self.chance(1, 3) => {
          let dict = Rc::clone(&self.dict);
          s.push_str(self.pick(&dict.strs));
        }
        _ => s.push(self.ch()),
      }
    }
    s
  }

  /// A text of `n` bytes or a few more that is the same all over, but for one to three places.
  pub fn sparse(&mut self, n: u64) -> String {
    let unit = *self.pick(&["a", "x", "word ", "a\n", "some line\n", "\n", "0123456789abcdef", "fn f() {}\n\n", "  ", "é", "メ\n", "😀"]);
    let mut s = unit.repeat((n as usize).div_ceil(unit.len()));
    for _ in 0..1 + self.below(3) {
      let mut at = match self.below(5) {
        0 => s.len() / 2,
        1 => self.near_int(s.len() as u64) as usize,
        2 => s.len() - (self.near_int(s.len() as u64) as usize).min(s.len()),
        _ => self.idx(s.len() + 1),
      }
      .min(s.len());
      while !s.is_char_boundary(at) {
        at -= 1;
      }
      let what = *self.pick(&["é", "é", "メ", "😀", "😀", "\n", "\né", "😀\n", "é\nz", "\u{7f}", "\u{80}", "b", "\t", "#", "\"", "ß😀メ"]);
      s.insert_str(at, what);
    }
    if self.chance(1, 5) {
      s.push('\n');
    }
    s
  }
}
impl Ctx {
  /// A hash of the choices made so far.
  pub fn choices_hash(&self) -> u64 {
    let n = self.pos.min(self.tape.len());
    self.tape[..n].iter().fold(n as u64, |h, x| mix(h ^ x))
  }

  /// The value of an observation counter in this case.
  pub fn seen(&self, name: &str) -> u64 {
    self.counters.get(name).copied().unwrap_or(0)
  }
}
