//! Names of characters.

use std::collections::{HashMap, HashSet};
use vmon::{Ctx, catch, fnv, need, same, tr, vio};

const KNOWN: &[(char, &str)] = &[
  ('_', "Underscore"), ('-', "Minus"), (',', "Comma"), (';', "Semicolon"), (':', "Colon"), ('!', "Bang"), ('?', "Question"),
  ('.', "Dot"), ('(', "LRound"), (')', "RRound"), ('[', "LSquare"), (']', "RSquare"), ('{', "LCurly"), ('}', "RCurly"),
  ('*', "Star"), ('/', "Slash"), ('&', "And"), ('#', "Hash"), ('%', "Percent"), ('^', "Carat"), ('+', "Plus"), ('<', "Lt"),
  ('=', "Eq"), ('>', "Gt"), ('|', "Bar"), ('~', "Tilde"), ('`', "Tick"), ('$', "Dollar"), ('@', "At"),
];

fn named() -> Vec<(char, &'static str)> {
  (0..0x11_0000).filter_map(char::from_u32).filter_map(|c| char_name::get_opt(c).map(|n| (c, n))).collect()
}

/// Sardinas and Patterson: is every concatenation of words cut in one way only?
fn one_way(words: &[&str]) -> Result<usize, String> {
  let set: HashSet<&str> = words.iter().copied().collect();
  let mut todo: Vec<&str> = Vec::new();
  for a in words {
    for b in words {
      if a != b {
        if let Some(r) = b.strip_prefix(a) {
          todo.push(r);
        }
      }
    }
  }
  let mut seen: HashSet<&str> = HashSet::new();
  while let Some(r) = todo.pop() {
    if !seen.insert(r) {
      continue;
    }
    if set.contains(r) || r.is_empty() {
      return Err(format!("two spellings end with {r}"));
    }
    for w in words {
      if let Some(x) = w.strip_prefix(r) {
        todo.push(x);
      }
      if let Some(x) = r.strip_prefix(w) {
        todo.push(x);
      }
    }
  }
  Ok(seen.len())
}

pub fn fixed(cx: &mut Ctx) {
  if cx.shard == 0 {
    let all = named();
    let mut by_name = HashMap::<&str, char>::new();
    for &(c, n) in &all {
      cx.at(|| format!("{c:?}"));
      if let Some(d) = by_name.insert(n, c) {
        vio!("{c:?} and {d:?} are both named {n}");
      }
      need!(n.as_bytes().first().is_some_and(u8::is_ascii_uppercase) && n.bytes().all(|b| b.is_ascii_alphanumeric()), "{c:?} is named {n:?}");
    }
    for &(c, n) in KNOWN {
      same!(char_name::get_opt(c), Some(n), "name of {c:?}");
    }
    let words: Vec<&str> = all.iter().map(|x| x.1).collect();
    match one_way(&words) {
      Ok(n) => cx.max("dangling suffixes", n as u64),
      Err(e) => vio!("concatenated names are ambiguous: {e}"),
    }
    cx.max("names", words.len() as u64);
  }
  for u in 0..0x11_0000u32 {
    let Some(c) = char::from_u32(u) else { continue };
    if !cx.mine(u.into(), u < 128) {
      continue;
    }
    cx.at(|| format!("{c:?}"));
    let o = char_name::get_opt(c);
    // the insisting form panics for most characters, which is slow: sample those
    if o.is_some() || u < 0x400 || u % 97 == 0 {
      same!(catch(|| char_name::get(c)).ok(), o, "get and get_opt of {c:?}");
    }
    cx.count("characters", 1);
  }
}

thread_local! {
  static NAMED: Vec<(char, &'static str)> = named();
}

pub fn case(cx: &mut Ctx) {
  // strings over the named characters, spelled and cut again greedily in both directions
  let all = NAMED.with(Clone::clone);
  if all.len() < 2 {
    vio!("no names");
  }
  let n = 1 + cx.size(12);
  let pick: Vec<(char, &str)> = (0..n).map(|_| *cx.pick(&all)).collect();
  let s: String = pick.iter().map(|x| x.0).collect();
  let spelled: String = s.chars().map(char_name::get).collect();
  tr!(cx, "{s} {spelled}");
  // all ways to cut the spelling
  let b = spelled.as_str();
  let mut ways = vec![0u64; b.len() + 1];
  ways[0] = 1;
  for i in 0..b.len() {
    if ways[i] > 0 {
      for &(_, w) in &all {
        if b[i..].starts_with(w) {
          ways[i + w.len()] += ways[i];
        }
      }
    }
  }
  same!(ways[b.len()], 1, "ways to read {spelled}");
  cx.count("spellings", 1);
  if n > 1 {
    cx.nontrivial(fnv(s.as_bytes()));
  }
}
