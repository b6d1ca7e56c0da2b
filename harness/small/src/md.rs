//! The Markdown map.

use std::collections::BTreeMap;
use vmon::{Ctx, catch, fnv, need, same, tr, vio};

/// The code of a level-2 code heading.
fn heading(line: &str) -> Option<&str> {
  let inner = line.strip_prefix("## ")?;
  let b = inner.as_bytes();
  if b.len() < 2 || b[0] != b'`' || b[b.len() - 1] != b'`' {
    return None;
  }
  if inner == "`` ` ``" { Some("`") } else { Some(&inner[1..inner.len() - 1]) }
}

fn lines(md: &str) -> Vec<&str> {
  let mut out: Vec<&str> = md.split('\n').collect();
  // what follows the last newline is no line when it is empty
  let last_open = out.pop().unwrap_or("");
  let mut out: Vec<&str> = out.into_iter().map(|x| x.strip_suffix('\r').unwrap_or(x)).collect();
  if !last_open.is_empty() {
    out.push(last_open);
  }
  out
}

struct Want<'a> {
  keys: Vec<&'a str>,
  sections: BTreeMap<&'a str, Vec<&'a str>>,
  dup: bool,
  dropped: usize,
}

fn model(md: &str) -> Want<'_> {
  let mut w = Want { keys: Vec::new(), sections: BTreeMap::new(), dup: false, dropped: 0 };
  for l in lines(md) {
    if let Some(k) = heading(l) {
      w.dup |= w.sections.insert(k, Vec::new()).is_some();
      w.keys.push(k);
    } else if let Some(k) = w.keys.last() {
      w.sections.get_mut(k).expect("section").push(l);
    } else {
      w.dropped += 1;
    }
  }
  w
}

fn check(md: &str, starts: &[String], bare: bool) -> (usize, bool) {
  let w = model(md);
  let mut calls: Vec<(String, String)> = Vec::new();
  let got = catch(|| {
    code_h2_md_map::get(md, |k| {
      let s = starts.get(calls.len() % starts.len().max(1)).cloned().unwrap_or_default();
      // each its own, or just as it is (often empty)
      let s = if bare { s } else { format!("{s}{}", calls.len()) };
      calls.push((k.to_owned(), s.clone()));
      s
    })
  });
  match got {
    Err(e) => {
      need!(w.dup, "panicked without a repeated heading: {e}");
    }
    Ok(map) => {
      if w.dup {
        vio!("a heading was repeated, but a map with {} keys was returned", map.len());
      }
      let mut keys: Vec<&str> = map.keys().copied().collect();
      keys.sort_unstable();
      same!(keys, w.sections.keys().copied().collect::<Vec<_>>(), "keys");
      let mut called: Vec<&str> = calls.iter().map(|x| x.0.as_str()).collect();
      called.sort_unstable();
      same!(called, keys, "keys the starting text was asked for");
      for (k, start) in &calls {
        let mut want = start.clone();
        for l in &w.sections[k.as_str()] {
          want.push('\n');
          want.push_str(l);
        }
        same!(map.get(k.as_str()), Some(&want), "section {k:?}");
      }
      // the keys are parts of the text
      for k in map.keys() {
        let (a, b) = (md.as_ptr() as usize, k.as_ptr() as usize);
        need!(*k == "`" || (b >= a && b + k.len() <= a + md.len()), "key {k:?} is not a part of the text");
      }
    }
  }
  (w.keys.len(), w.dup)
}

fn line(cx: &mut Ctx, pool: &[String]) -> String {
  match cx.below(16) {
    0..=4 => format!("## `{}`", cx.pick(pool)),
    5 => (*cx.pick(&[
      "## `` ` ``", "## `", "## ``", "## ```", "## ````", "### `a`", "# `a`", "##  `a`", "## a", "## `a` ", " ## `a`", "##`a`", "## `a", "## a`", "## `a``", "## `` ``", "## `` `  ``",
      "## \u{a0}`a`", "## `a`\u{2028}",
    ]))
    .to_owned(),
    6..=8 => String::new(),
    9 => "```".to_owned(),
    10 => " text ".to_owned(),
    _ => {
      let n = cx.size(60);
      cx.text(n).replace('\n', " ")
    }
  }
}

pub fn case(cx: &mut Ctx) {
  let np = 1 + cx.below(8);
  let mut pool: Vec<String> = (0..np)
    .map(|_| {
      let n = cx.below(5);
      cx.text(n).replace(['\n', '\r'], "")
    })
    .collect();
  pool.push("` ` `".to_owned());
  let distinct = cx.chance(3, 4);
  let n = cx.size(120);
  let mut md = String::new();
  let mut used: Vec<String> = Vec::new();
  for _ in 0..n {
    let l = line(cx, &pool);
    if let Some(k) = heading(&l) {
      if distinct && used.iter().any(|x| x == k) {
        continue;
      }
      used.push(k.to_owned());
    }
    md.push_str(&l);
    md.push_str(if cx.chance(1, 30) { "\r\n" } else { "\n" });
  }
  if cx.chance(1, 2) {
    md.pop();
  }
  tr!(cx, "{md:?}");
  let starts: Vec<String> = (0..cx.below(4))
    .map(|_| {
      let n = cx.below(6);
      let mut s = cx.text(n);
      if cx.chance(1, 6) {
        s.push_str(cx.pick(&["\n", "\n\n", "\r\n", " ", "## `a`", "\n## `a`", "```\n"]));
      }
      s
    })
    .collect();
  let bare = cx.chance(1, 3);
  let (keys, dup) = check(&md, &starts, bare);
  cx.count("sections", keys as u64);
  cx.count("texts with a repeated heading", u64::from(dup));
  cx.max("sections in one text", keys as u64);
  if keys > 1 {
    cx.nontrivial(fnv(md.as_bytes()));
  }
}

/// Many lines, many sections, long lines.
fn long(cx: &mut Ctx) {
  let fill: [fn(usize) -> String; 6] =
    [|_| String::new(), |_| "  ".to_owned(), |_| "\t".to_owned(), |i| format!("line {i}"), |i| "## `xy"[..i % 6].to_owned(), |_| "😀 ".to_owned()];
  let mut no = 0;
  for n in [254usize, 255, 256, 257, 300, 1100, 70_000] {
    for f in fill {
      for every in [0, 100, 3, 1] {
        no += 1;
        if !cx.mine(no, true) || (n > 9000 && every != 0 && every != 100) {
          continue;
        }
        cx.at(|| format!("{n} lines such as {:?}, a heading every {every}", f(4)));
        let mut md = String::from("lost\n## `first`\n");
        for i in 0..n {
          if every > 0 && i % every == every - 1 {
            md += &format!("## `k{i}`\n");
          }
          md += &f(i);
          md += "\n";
        }
        check(&md, &["s".to_owned()], false);
        // with a repetition at the end
        md += "## `first`\n";
        check(&md, &[], true);
      }
    }
    // as many sections, and one of them again
    for (a, b) in [(0, 0), (0, n), (n / 2, n), (n - 1, n), (n - 1, n - 1), (1, n / 2), (n / 2, n / 2)] {
      no += 1;
      if !cx.mine(no, true) {
        continue;
      }
      cx.at(|| format!("{n} sections, the one at {a} again before the one at {b}"));
      let mut md = String::new();
      for i in 0..=n {
        if i == b {
          md += &format!("## `k{a}`\n");
        }
        md += &format!("## `k{i}`\nx\n");
      }
      check(&md, &[], true);
    }
    no += 1;
    if cx.mine(no, true) {
      cx.at(|| format!("lines and headings of {n} characters"));
      let l = "é".repeat(n);
      check(&format!("## `{l}`\n{l}\n{}\n## `{l}x`\n\n{l}", " ".repeat(n)), &[l.clone()], true);
    }
  }
}

pub fn fixed(cx: &mut Ctx) {
  long(cx);
  let all = ["## `a`", "## `b`", "## `` ` ``", "", "x", "## `", "## ``", " y\t"];
  let max = if cx.thorough { 6 } else { 5 };
  let mut i = 0;
  for len in 0..=max {
    for code in 0..8usize.pow(len) {
      i += 1;
      if !cx.mine(i, len > 1) {
        continue;
      }
      let mut c = code;
      let mut ls = Vec::new();
      for _ in 0..len {
        ls.push(all[c % 8]);
        c /= 8;
      }
      for end in ["", "\n"] {
        let md = format!("{}{end}", ls.join("\n"));
        cx.at(|| format!("{md:?}"));
        check(&md, &["s".to_owned()], true);
        check(&md, &[], true);
      }
    }
  }
}
