//! Identifier case conversion.

use identifier_case::{pascal_to_snake, snake_to_pascal};
use vmon::{Ctx, fnv, same, tr};

fn up(c: char) -> char {
  if ('a'..='z').contains(&c) { char::from(c as u8 - 32) } else { c }
}

fn low(c: char) -> char {
  if ('A'..='Z').contains(&c) { char::from(c as u8 + 32) } else { c }
}

fn to_pascal(s: &str) -> String {
  let cs: Vec<char> = s.chars().collect();
  let mut out = String::new();
  for (i, &c) in cs.iter().enumerate() {
    if c != '_' {
      // the first letter of a word has a separator, or nothing, before it
      out.push(if i == 0 || cs[i - 1] == '_' { up(c) } else { low(c) });
    }
  }
  out
}

fn to_snake(s: &str) -> String {
  s.char_indices()
    .flat_map(|(i, c)| {
      let sep = (i != 0 && c.is_ascii_uppercase()).then_some('_');
      sep.into_iter().chain(std::iter::once(low(c)))
    })
    .collect()
}

fn check(s: &str) {
  let p = snake_to_pascal(s);
  same!(p, to_pascal(s), "Pascal case of {s:?}");
  let n = pascal_to_snake(s);
  same!(n, to_snake(s), "snake case of {s:?}");
}

fn word(cx: &mut Ctx) -> String {
  let n = 1 + cx.size(20);
  let mut s = String::new();
  for i in 0..n {
    if i > 0 && cx.chance(1, 6) {
      s.push((b'0' + cx.below(10) as u8) as char);
    } else {
      s.push((b'a' + cx.below(26) as u8) as char);
    }
  }
  s
}

pub fn case(cx: &mut Ctx) {
  let n = cx.size(300);
  let mut s = cx.text(n);
  if cx.chance(2, 3) {
    // identifiers mixed with underscores and capitals
    let dict = *cx.pick(&["ab_C", "_aZ9", "xY__", "éÉ_aA", "ǅß_iI", "_"]);
    let cs: Vec<char> = dict.chars().collect();
    s = (0..n).map(|_| *cx.pick(&cs)).collect();
  }
  tr!(cx, "any {s:?}");
  check(&s);
  let words: Vec<String> = (0..=cx.size(12)).map(|_| word(cx)).collect();
  let lower = words.join("_");
  let upper: String = lower.chars().map(up).collect();
  tr!(cx, "identifier {lower}");
  check(&lower);
  check(&upper);
  let p = snake_to_pascal(&lower);
  same!(snake_to_pascal(&upper), p, "Pascal case of {upper} and {lower}");
  same!(pascal_to_snake(&p), lower, "snake case of the Pascal case of {lower}");
  // Pascal-case names of letters only, with single-letter words
  let pascal: String = words.iter().map(|w| {
    let w: String = w.chars().filter(|c| c.is_ascii_alphabetic()).collect();
    w.chars().enumerate().map(|(i, c)| if i == 0 { up(c) } else { c }).collect::<String>()
  }).collect();
  same!(snake_to_pascal(&pascal_to_snake(&pascal)), pascal, "there and back from {pascal}");
  cx.count("strings converted", 4);
  cx.count("strings with letters outside ASCII", u64::from(!s.is_ascii()));
  if words.len() > 1 {
    cx.nontrivial(fnv(lower.as_bytes()));
  }
}

pub fn fixed(cx: &mut Ctx) {
  let alpha = ['a', 'B', '_', '1', 'É', 'ß'];
  let max = if cx.thorough { 8 } else { 6 };
  let mut i = 0;
  for len in 0..=max {
    for code in 0..6u64.pow(len) {
      i += 1;
      if !cx.mine(i, len > 1) {
        continue;
      }
      let mut c = code as usize;
      let s: String = (0..len)
        .map(|_| {
          let x = alpha[c % 6];
          c /= 6;
          x
        })
        .collect();
      cx.at(|| s.clone());
      check(&s);
    }
  }
  // every character, first and later and after an underscore
  for u in 0..0x11_0000u32 {
    if let Some(c) = char::from_u32(u) {
      if cx.mine(u.into(), true) {
        cx.at(|| format!("{c:?}"));
        check(&format!("{c}{c}_{c}"));
      }
    }
  }
}
