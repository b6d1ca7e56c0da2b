//! The byte cursor.

use str_process::{Marker, St};
use vmon::{Ctx, catch, need, same, tr, vio};

fn see(st: &St<'_>, s: &str, at: usize) {
  same!(st.cur_idx(), at, "position");
  same!(st.cur(), s.as_bytes().get(at).copied(), "byte at {at}");
}

fn next_boundary(s: &str, at: usize) -> usize {
  let mut i = at + 1;
  while i < s.len() && (s.as_bytes()[i] & 0xc0) == 0x80 {
    i += 1;
  }
  i
}

fn use_marker<'a>(cx: &mut Ctx, st: &St<'a>, s: &'a str, m: Marker, from: usize, at: usize) -> Option<&'a [u8]> {
  let want = &s.as_bytes()[from..at];
  match cx.below(4) {
    0 | 1 => {
      let got = st.since(m);
      same!(got, want, "slice since {from} at {at}");
      Some(got)
    }
    2 => {
      same!(st.did_bump_since(m), at > from, "did_bump_since {from} at {at}");
      None
    }
    _ => match catch(|| st.non_empty_since(m)) {
      Ok(got) => {
        need!(at > from, "an empty slice was given as non-empty");
        same!(got, want, "non-empty slice since {from} at {at}");
        Some(got)
      }
      Err(e) => {
        need!(at == from, "non_empty_since {from} at {at} panicked: {e}");
        cx.count("empty slices refused", 1);
        None
      }
    },
  }
}

pub fn case(cx: &mut Ctx) {
  let n = cx.size(400);
  let s = cx.text(n);
  tr!(cx, "text {s:?}");
  let mut st = if s.is_empty() && cx.chance(1, 2) { St::default() } else { St::new(&s) };
  let b = s.as_bytes();
  let mut at = 0usize;
  let mut marks: Vec<(Marker, usize)> = Vec::new();
  let mut slices: Vec<(&[u8], usize, usize)> = Vec::new();
  let ops = 1 + cx.size(80);
  let mut moved = 0;
  see(&st, &s, 0);
  for _ in 0..ops {
    match cx.below(9) {
      0 if at < b.len() => {
        st.bump();
        at += 1;
        moved += 1;
      }
      1 => {
        // stop at a chosen set of bytes
        let kind = cx.below(5);
        let k = cx.below(256) as u8;
        let lim = cx.below(12);
        let mut seen = Vec::new();
        let mut left = lim;
        let mut f = |x: u8| match kind {
          0 => x != k,
          1 => x.is_ascii_alphabetic(),
          2 => x & 0x80 != 0,
          3 => x != b'\n',
          _ => {
            left = left.saturating_sub(1);
            left > 0
          }
        };
        st.bump_while(|x| {
          seen.push(x);
          f(x)
        });
        let mut left = lim;
        let mut g = |x: u8| match kind {
          0 => x != k,
          1 => x.is_ascii_alphabetic(),
          2 => x & 0x80 != 0,
          3 => x != b'\n',
          _ => {
            left = left.saturating_sub(1);
            left > 0
          }
        };
        let mut want = Vec::new();
        let start = at;
        while at < b.len() {
          want.push(b[at]);
          if !g(b[at]) {
            break;
          }
          at += 1;
        }
        tr!(cx, "bump_while kind {kind} from {start} to {at}");
        same!(seen, want, "bytes the condition was asked about");
        moved += at - start;
      }
      2 | 3 => {
        // a prefix that is there, nearly there, or too long
        let mut p: Vec<u8> = b[at..b.len().min(at + cx.below(6) as usize)].to_vec();
        match cx.below(5) {
          0 if !p.is_empty() => {
            let i = cx.idx(p.len());
            p[i] ^= 1 << cx.below(8);
          }
          1 => p.push(cx.below(256) as u8),
          2 => {
            p = b[at..].to_vec();
            if cx.chance(1, 2) {
              p.push(b'x');
            }
          }
          _ => {}
        }
        let want = b[at..].starts_with(&p);
        tr!(cx, "eat_prefix {p:?} at {at}");
        same!(st.eat_prefix(&p), want, "eat_prefix {p:?} at {at}");
        if want {
          at += p.len();
          moved += p.len();
          cx.count("prefixes eaten", 1);
        } else {
          cx.count("prefixes refused", 1);
        }
      }
      4 if at < b.len() => {
        st.next_str();
        let to = next_boundary(&s, at);
        tr!(cx, "next_str from {at}");
        same!(st.cur_idx(), to, "next character after {at}");
        cx.count("multi-byte steps", u64::from(to - at > 1));
        at = to;
        moved += 1;
      }
      5 | 6 => marks.push((st.mark(), at)),
      7 if !marks.is_empty() => {
        let i = cx.idx(marks.len());
        let (m, from) = marks.swap_remove(i);
        if let Some(x) = use_marker(cx, &st, &s, m, from, at) {
          slices.push((x, from, at));
        }
      }
      _ => {
        // a copy made half way is no cursor of its own; only reading here
        let _ = st.cur();
      }
    }
    see(&st, &s, at);
  }
  let left = std::mem::take(&mut marks);
  for (m, from) in left {
    let _ = use_marker(cx, &st, &s, m, from, at);
  }
  drop(st);
  for (x, from, to) in slices {
    if x != &b[from..to] {
      vio!("a slice taken earlier changed");
    }
    cx.count("slices taken", 1);
  }
  cx.count("bytes advanced over", moved as u64);
  if moved > 1 && s.len() > 2 {
    cx.nontrivial(cx.choices_hash());
  }
}

/// Long texts and long slices.
fn long(cx: &mut Ctx) {
  let mut no = 0;
  for n in [255usize, 256, 257, 1000, 4096, 65_534, 65_535, 65_536, 65_537, 70_001, 140_000] {
    for unit in ["a", "é", "😀", "ab\n"] {
      no += 1;
      if !cx.mine(no, true) {
        continue;
      }
      cx.at(|| format!("{unit:?} repeated to {n} bytes, then more"));
      let k = n / unit.len();
      let s = unit.repeat(k) + "xメy" + &unit.repeat(300);
      let b = s.as_bytes();
      let n = k * unit.len();
      let mut st = St::new(&s);
      let m0 = st.mark();
      let m1 = st.mark();
      need!(!st.eat_prefix(&[&b[..n], b"y"].concat()), "a prefix that is not there was eaten");
      need!(!st.eat_prefix(&[b, b"y"].concat()), "a prefix longer than the text was eaten");
      see(&st, &s, 0);
      need!(st.eat_prefix(&b[..n]), "the prefix of {n} bytes was not eaten");
      see(&st, &s, n);
      let m2 = st.mark();
      let m3 = st.mark();
      st.bump();
      see(&st, &s, n + 1);
      same!(st.since(m2), b"x", "slice since {n}");
      st.next_str();
      see(&st, &s, n + 4);
      same!(st.since(m0), &b[..n + 4], "slice since the start");
      let m4 = st.mark();
      st.bump_while(|_| true);
      see(&st, &s, s.len());
      same!(st.since(m4), &b[n + 4..], "slice since {}", n + 4);
      same!(st.non_empty_since(m3), &b[n..], "slice since {n}");
      need!(st.did_bump_since(m1), "nothing was passed since the start");
      // a condition that counts, in a long run
      for lim in [0, 1, 2, 5, 63, 64, 65, 100, n - 1, n, n + 1, s.len() - 1, s.len(), s.len() + 1] {
        let mut st = St::new(&s);
        for skip in [0, 1] {
          let from = st.cur_idx();
          let mut asked = 0;
          let mut wrong = None;
          st.bump_while(|x| {
            if b.get(from + asked) != Some(&x) {
              wrong.get_or_insert(asked);
            }
            asked += 1;
            asked <= lim
          });
          need!(wrong.is_none(), "the condition was not asked about byte {}", from + wrong.unwrap_or(0));
          let to = s.len().min(from + lim);
          see(&st, &s, to);
          same!(asked, s.len().min(from + lim + 1) - from, "bytes the condition was asked about, from {from} to {to}");
          if to < s.len() && skip == 0 {
            st.bump();
          }
        }
      }
      // byte by byte and character by character
      let mut st = St::new(&s);
      let mut at = 0;
      let mut marks = Vec::new();
      while at < s.len() {
        if s.is_char_boundary(at) && at % 3 == 0 {
          st.next_str();
          at = next_boundary(&s, at);
        } else {
          st.bump();
          at += 1;
        }
        same!(st.cur_idx(), at, "position");
        if (at & (at + 1)) == 0 || (at & (at - 1)) == 0 {
          marks.push((st.mark(), at));
        }
      }
      for (m, from) in marks {
        same!(st.since(m), &b[from..], "slice since {from}");
      }
      cx.count("bytes advanced over", 2 * s.len() as u64);
    }
  }
}

/// Every text over a small alphabet with every start position.
pub fn fixed(cx: &mut Ctx) {
  long(cx);
  let alpha = ["a", "b", "é", "メ", "😀"];
  let max = if cx.thorough { 5 } else { 4 };
  let mut i = 0;
  for len in 0..=max {
    for code in 0..5usize.pow(len) {
      let mut c = code;
      let mut s = String::new();
      for _ in 0..len {
        s.push_str(alpha[c % 5]);
        c /= 5;
      }
      i += 1;
      if !cx.mine(i, len > 1) {
        continue;
      }
      cx.at(|| format!("text {s:?}"));
      for at in 0..=s.len() {
        let mk = || {
          let mut st = St::new(&s);
          for _ in 0..at {
            st.bump();
          }
          st
        };
        see(&mk(), &s, at);
        if at < s.len() {
          let mut st = mk();
          st.next_str();
          same!(st.cur_idx(), next_boundary(&s, at), "next character after {at} of {s:?}");
        }
        for to in at..=s.len() {
          let mut st = mk();
          let m = st.mark();
          need!(st.eat_prefix(&s.as_bytes()[at..to]), "{s:?} at {at}: prefix up to {to} not eaten");
          see(&st, &s, to);
          same!(st.since(m), &s.as_bytes()[at..to], "{s:?}: slice from {at} to {to}");
        }
      }
    }
  }
}
