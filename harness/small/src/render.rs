//! Rendering.

use diagnostic::{Code, Diagnostic, Severity};
use std::cell::{Cell, RefCell};
use std::error::Error as _;
use std::fmt::{self, Write};
use text_pos::{PositionUtf16, RangeUtf16};
use vmon::{Ctx, catch, fnv, need, same, tr};

/// A writer that fails after a number of writes or bytes.
struct Out<'a> {
  buf: String,
  writes_left: u64,
  events: &'a RefCell<Vec<Ev>>,
  failed: &'a Cell<bool>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Ev {
  Asked(usize),
  Shown(usize),
  Wrote,
  Failed,
}

impl fmt::Write for Out<'_> {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.writes_left == 0 {
      self.failed.set(true);
      self.events.borrow_mut().push(Ev::Failed);
      return Err(fmt::Error);
    }
    self.writes_left -= 1;
    self.events.borrow_mut().push(Ev::Wrote);
    self.buf.push_str(s);
    Ok(())
  }
}

/// An element: written in pieces, or with the padding of the formatter, or failing by itself.
#[derive(Clone)]
struct El<'a> {
  i: usize,
  text: String,
  how: u64,
  events: &'a RefCell<Vec<Ev>>,
}

impl fmt::Display for El<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.events.borrow_mut().push(Ev::Shown(self.i));
    match self.how {
      0 => f.write_str(&self.text),
      1 => f.pad(&self.text),
      2 => {
        for c in self.text.chars() {
          f.write_char(c)?;
        }
        Ok(())
      }
      3 => write!(f, "<{}{}>", self.text, if f.alternate() { "#" } else { "" }),
      _ => {
        f.write_str(&self.text)?;
        self.events.borrow_mut().push(Ev::Failed);
        Err(fmt::Error)
      }
    }
  }
}

struct It<'a> {
  els: &'a [El<'a>],
  at: Cell<usize>,
  events: &'a RefCell<Vec<Ev>>,
}

impl<'a> Iterator for &It<'a> {
  type Item = El<'a>;
  fn next(&mut self) -> Option<El<'a>> {
    let i = self.at.get();
    self.events.borrow_mut().push(Ev::Asked(i));
    let e = self.els.get(i)?;
    self.at.set(i + 1);
    Some(e.clone())
  }
}

struct Seq<'a> {
  it: It<'a>,
  sep: Option<String>,
}

impl fmt::Display for Seq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match &self.sep {
      None => fmt_util::comma_seq(f, &self.it),
      Some(s) => fmt_util::sep_seq(f, s, &self.it),
    }
  }
}

fn opts(out: &mut impl Write, o: u64, d: &impl fmt::Display) -> fmt::Result {
  match o {
    0 => write!(out, "{d:>6}"),
    1 => write!(out, "{d:*^9}"),
    2 => write!(out, "{d:#}"),
    3 => write!(out, "{d:.2}"),
    4 => write!(out, "{d:-<4.3}"),
    _ => write!(out, "{d}"),
  }
}

fn seq_case(cx: &mut Ctx) {
  let events = RefCell::new(Vec::new());
  let failed = Cell::new(false);
  let n = cx.size(60) as usize;
  let bad = (n > 0 && cx.chance(1, 6)).then(|| cx.idx(n));
  let els: Vec<El<'_>> = (0..n)
    .map(|i| {
      let k = cx.below(6);
      El { i, text: cx.text(k), how: if bad == Some(i) { 9 } else { cx.below(4) }, events: &events }
    })
    .collect();
  let sep = if cx.chance(1, 3) {
    None
  } else {
    let k = cx.below(5);
    Some(cx.text(k))
  };
  let o = cx.below(8);
  // what it should be
  let real_sep = sep.clone().unwrap_or_else(|| ", ".to_owned());
  let mut want = String::new();
  for (i, e) in els.iter().enumerate() {
    if i > 0 {
      want.push_str(&real_sep);
    }
    if e.how == 9 {
      want.push_str(&e.text);
      break;
    }
    opts(&mut want, o, e).expect("infallible");
  }
  events.borrow_mut().clear();
  let limit = if cx.chance(1, 2) { cx.below(2 * n as u64 + 4) } else { u64::MAX };
  tr!(cx, "{n} elements, separator {sep:?}, options {o}, the writer fails after {limit}, element {bad:?} fails");
  let mut out = Out { buf: String::new(), writes_left: limit, events: &events, failed: &failed };
  let seq = Seq { it: It { els: &els, at: Cell::new(0), events: &events }, sep };
  let got = opts(&mut out, o, &seq);
  let buf = std::mem::take(&mut out.buf);
  let ev = events.borrow();
  let fault = ev.iter().position(|e| *e == Ev::Failed);
  same!(got.is_err(), fault.is_some(), "an error is returned exactly when one happened");
  if let Some(at) = fault {
    same!(ev.len(), at + 1, "something was asked for or written after the failure: {:?}", &ev[at..]);
    need!(want.starts_with(&buf), "wrote {buf:?}, expected a start of {want:?}");
    cx.count("failures passed on", 1);
  } else {
    same!(buf, want, "the sequence");
    let asked: Vec<usize> = ev.iter().filter_map(|e| if let Ev::Asked(i) = e { (*i < n).then_some(*i) } else { None }).collect();
    same!(asked, (0..n).collect::<Vec<_>>(), "elements asked for");
    let shown: Vec<usize> = ev.iter().filter_map(|e| if let Ev::Shown(i) = e { Some(*i) } else { None }).collect();
    same!(shown, (0..n).collect::<Vec<_>>(), "elements rendered");
    cx.count("sequences rendered", 1);
  }
  if n > 1 {
    cx.nontrivial(cx.choices_hash());
  }
}

fn coord(cx: &mut Ctx) -> u32 {
  match cx.below(5) {
    0 => 0,
    1 => cx.below(12) as u32,
    2 => cx.below(u64::from(u32::MAX)) as u32,
    3 => cx.near_int(u64::from(u32::MAX) - 1) as u32,
    _ => u32::MAX - 1 - cx.below(3) as u32,
  }
}

fn pos_text(p: PositionUtf16) -> String {
  format!("{}:{}", u64::from(p.line) + 1, u64::from(p.col) + 1)
}

fn diag_case(cx: &mut Ctx) {
  let start = PositionUtf16 { line: coord(cx), col: coord(cx) };
  let end = match cx.below(4) {
    0 => start,
    1 => PositionUtf16 { line: start.line, col: coord(cx) },
    2 => PositionUtf16 { line: start.line.saturating_add(1).min(u32::MAX - 1), col: start.col },
    _ => PositionUtf16 { line: coord(cx), col: coord(cx) },
  };
  let range = if start == end && cx.chance(1, 2) { RangeUtf16::zero(start) } else { RangeUtf16 { start, end } };
  same!((range.start, range.end), (start, end), "the range");
  same!(start.to_string(), pos_text(start), "position");
  let want = if start.line == end.line {
    format!("{}-{}", pos_text(start), u64::from(end.col) + 1)
  } else {
    format!("{}-{}", pos_text(start), pos_text(end))
  };
  tr!(cx, "{range:?}");
  same!(range.to_string(), want, "range");
  let (severity, word) = *cx.pick(&[(Severity::Warning, "warning"), (Severity::Error, "error")]);
  let k = cx.size(100);
  let message = cx.text(k);
  let d = Diagnostic { range, message: message.clone(), severity };
  same!(severity.to_string(), word, "severity");
  same!(d.to_string(), format!("{want}: {word}: {message}"), "diagnostic");
  need!(Severity::Warning < Severity::Error, "a warning is as severe as an error");
  // positions order by line first
  same!(start.cmp(&end), (start.line, start.col).cmp(&(end.line, end.col)), "order of {start:?} and {end:?}");
  cx.count("diagnostics rendered", 1);
  cx.nontrivial(fnv(want.as_bytes()));
}

/// A 16-bit number in decimal: digits with an optional plus sign.
fn number(s: &str) -> Option<u16> {
  let d = s.strip_prefix('+').unwrap_or(s);
  if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  let mut v = 0u64;
  for b in d.bytes() {
    v = (v * 10 + u64::from(b - b'0')).min(1 << 40);
  }
  u16::try_from(v).ok()
}

fn code(s: &str) -> bool {
  let want = number(s);
  match catch(|| s.parse::<Code>()) {
    Err(e) => vmon::vio!("parsing {s:?} panicked: {e}"),
    Ok(Ok(c)) => {
      same!(Some(c.as_i32()), want.map(i32::from), "code parsed from {s:?}");
      same!(Some(c), want.map(Code::n), "code parsed from {s:?}");
      true
    }
    Ok(Err(e)) => {
      need!(want.is_none(), "{s:?} was refused: {e}");
      let inner = e.source();
      need!(inner.is_some(), "the error for {s:?} has no source");
      let inner = inner.map(ToString::to_string).unwrap_or_default();
      need!(!inner.is_empty() && e.to_string().contains(&inner) && e.to_string().len() > inner.len(), "the error for {s:?} says {e}");
      same!(Some(inner), s.parse::<u16>().err().map(|x| x.to_string()), "reason why {s:?} is refused");
      false
    }
  }
}

fn code_case(cx: &mut Ctx) {
  let n = cx.below(1 << 16) as u16;
  let s = match cx.below(11) {
    9 => {
      // a number with something put in
      let mut s = format!("{}{n}", "0".repeat(cx.below(4) as usize));
      let i = cx.idx(s.len() + 1);
      s.insert_str(i, cx.pick(&["+", "-", "_", " ", ".", ",", "e", "x", "0", "٣", "\0", "\n", "\u{2212}"]));
      s
    }
    10 => (0..1 + cx.below(8)).map(|_| *cx.pick(&['0', '0', '1', '6', '5', '9', '+', '-'])).collect(),
    0 => format!("{n}"),
    1 => format!("+{n}"),
    2 => format!("-{n}"),
    3 => format!("{:0>1$}", n, cx.size(50) as usize),
    4 => format!("{}", cx.near_int(u64::MAX)),
    5 => format!("{}", 65530 + cx.below(12)),
    6 => format!(" {n}"),
    7 => format!("{n}{}", cx.ch()),
    _ => {
      let k = cx.below(8);
      cx.text(k)
    }
  };
  tr!(cx, "code text {s:?}");
  let ok = code(&s);
  cx.count(if ok { "codes parsed" } else { "codes refused" }, 1);
  cx.nontrivial(fnv(s.as_bytes()));
}

pub fn case(cx: &mut Ctx) {
  match cx.below(3) {
    0 => seq_case(cx),
    1 => diag_case(cx),
    _ => code_case(cx),
  }
}

/// A writer that fails after so many bytes.
struct Short(String, usize);

impl fmt::Write for Short {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.0.len() + s.len() > self.1 {
      return Err(fmt::Error);
    }
    self.0.push_str(s);
    Ok(())
  }
}

struct Many<'a>(usize, Option<&'a str>, &'a str);

impl fmt::Display for Many<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let it = (0..self.0).map(|i| format!("{}{i}", self.2));
    match self.1 {
      None => fmt_util::comma_seq(f, it),
      Some(s) => fmt_util::sep_seq(f, s, it),
    }
  }
}

fn long(cx: &mut Ctx) {
  let mut no = 0;
  for n in [254usize, 255, 256, 257, 300, 1100, 65_535, 65_536, 65_537, 70_000] {
    for sep in [None, Some(", "), Some(""), Some("\n"), Some("é - ")] {
      no += 1;
      if !cx.mine(no, true) {
        continue;
      }
      cx.at(|| format!("{n} elements, separator {sep:?}"));
      let want = (0..n).map(|i| format!("e{i}")).collect::<Vec<_>>().join(sep.unwrap_or(", "));
      same!(Many(n, sep, "e").to_string(), want, "the sequence of {n} elements");
      for cut in [want.len() - 1, want.len() / 2, want.len()] {
        let mut out = Short(String::new(), cut);
        same!(write!(out, "{}", Many(n, sep, "e")).is_ok(), cut == want.len(), "rendering {n} elements into {cut} of {} bytes goes well", want.len());
        need!(want.starts_with(&out.0), "what was written before the failure is not a start of the sequence");
      }
      cx.count("sequences rendered", 4);
    }
    no += 1;
    if cx.mine(no, true) {
      cx.at(|| format!("elements and separators of {n} bytes"));
      let (e, s) = ("x".repeat(n), "-".repeat(n));
      same!(Many(3, Some(&s), &e).to_string(), format!("{e}0{s}{e}1{s}{e}2"), "a long sequence");
      let p = |l, c| PositionUtf16 { line: l, col: c };
      let d = Diagnostic { range: RangeUtf16 { start: p(n as u32, 2), end: p(n as u32, n as u32) }, message: e.clone(), severity: Severity::Error };
      same!(d.to_string(), format!("{}:3-{}: error: {e}", n + 1, n + 1), "diagnostic with a long message");
    }
  }
}

/// All short code texts from a few characters.
fn code_texts(cx: &mut Ctx) {
  let chars = b"016+- _";
  let len = if cx.thorough { 7 } else { 6 };
  let mut no = 0;
  let mut s = String::new();
  for n in 0..=len {
    for c in 0..chars.len().pow(n) {
      no += 1;
      if !cx.mine(no, true) {
        continue;
      }
      s.clear();
      let mut c = c;
      for _ in 0..n {
        s.push(char::from(chars[c % chars.len()]));
        c /= chars.len();
      }
      cx.at(|| format!("code text {s:?}"));
      let ok = code(&s);
      cx.count(if ok { "codes parsed" } else { "codes refused" }, 1);
    }
  }
}

pub fn fixed(cx: &mut Ctx) {
  long(cx);
  code_texts(cx);
  for n in 0..=u16::MAX {
    if cx.mine(n.into(), true) {
      cx.at(|| format!("code {n}"));
      let c = Code::n(n);
      same!(c.as_i32(), i32::from(n), "as_i32");
      same!(c.to_string(), n.to_string(), "display of a code");
      same!(c.to_string().parse::<Code>().ok(), Some(c), "code {n} displayed and parsed");
      if let Some(m) = n.checked_add(1) {
        need!(Code::n(m) > c, "code order at {n}");
      }
    }
  }
}
