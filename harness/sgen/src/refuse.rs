//! C41: what the generator cannot express is refused.

use crate::compile::Scratch;
use crate::generate;
use crate::gram::{Gram, gen_gram};
use vmon::{Ctx, catch, fnv, need, tr};

/// What cannot be a field. `A` and `B` stand for rules.
const FIELDS: &[&str] = &[
  "(A | B)", "('wordone' | 'wordtwo')", "(A B)", "('wordone' A)", "(A | B)?", "(A | B)*", "(A B)?", "(A B)*", "('wordone' 'wordtwo')*",
  "('wordone' | 'wordtwo')?", "(A ('wordone' B)*)", "(A?)*", "(A*)?", "(A*)*", "(A?)?", "('wordone'?)*", "('wordone'*)?", "('wordone'?)?",
  "lone:ltwo:A", "lone:(ltwo:A)", "lone:(ltwo:A)?", "lone:(ltwo:A*)", "(lone:(ltwo:'wordone')*)", "lone:(A | B)", "lone:('wordone' A)*", "lone:(A?)*",
  "lone:((A*)?)", "(lone:(A?))*", "lone:lone:A", "(A | 'wordone')", "(A | 'wordone')*", "((A B) | A)?", "lone:ltwo:lthree:'wordone'",
];

/// What cannot be among alternatives.
const ALTS: &[&str] = &[
  "A | 'wordone'", "'wordone' | A", "A | B | 'wordone'", "'wordone' | 'wordtwo' | A", "A | B?", "A? | B", "A | B*", "A* | B", "A | (A B)", "A B | B", "A | B A",
  "lone:A | B", "A | lone:B", "'wordone' | 'wordtwo'?", "'wordone' | lone:'wordtwo'", "'wordone'* | 'wordtwo'", "'wordone' | 'wordtwo'*", "A | (B | 'wordone')",
  "A | (B | A)", "('wordone' | 'wordtwo') | 'wordthree'", "'wordone' 'wordtwo' | 'wordthree'", "'wordone' | 'wordtwo' 'wordthree'", "(A | B) | B",
  "A | B | (A 'wordone')", "'wordone' | 'wordtwo' | 'wordthree' A",
];

/// What is not a grammar at all. `X` is a new rule.
const TEXTS: &[&str] = &[
  "X = ", "= A", "X = Qundefined", "X = A Qundefined?", "X = A | Qundefined", "A = B", "X = A\nX = A", "X = A\nX = B", "X = 'wordone", "X = (A", "X = A)", "X = | A", "X A",
  "X = A |", "X = A || B", "X = A ? ?", "X = *", "X = A % B", "X := A", "X = \"wordone\"", "X = l: ", "X = ()",
];

/// What cannot be a token: a character without a name, or a keyword that is no word.
const TOKENS: &[&str] = &["é", "0", "12", "\"", " ", "→", "+é", "0+", "+ ", "\u{0}", "a-b", "a b", "a.b", "if!", "1a", "a+", "a\u{2192}", "-a", "'a", "x y z"];

fn pick_rules(cx: &mut Ctx, g: &Gram) -> (String, String) {
  let a = cx.idx(g.rules.len());
  let b = cx.idx(g.rules.len());
  (g.rules[a].name.clone(), g.rules[b].name.clone())
}

fn fill(form: &str, a: &str, b: &str) -> String {
  let mut out = String::new();
  // capitals on their own stand for rules
  let cs: Vec<char> = form.chars().collect();
  for (i, c) in cs.iter().enumerate() {
    let alone = !cs.get(i + 1).is_some_and(|c| c.is_alphanumeric()) && (i == 0 || !cs[i - 1].is_alphanumeric());
    match c {
      'A' if alone => out.push_str(a),
      'B' if alone => out.push_str(b),
      'X' if alone => out.push_str("Qnew"),
      c => out.push(*c),
    }
  }
  out
}

fn good(cx: &mut Ctx, a: &str, no: usize) -> String {
  let letter = (b'a' + no as u8) as char;
  match cx.below(4) {
    0 => format!("good{letter}:{a}"),
    1 => format!("good{letter}:{a}*"),
    2 => "'wordfour'?".to_owned(),
    _ => format!("(good{letter}:'wordfive')*"),
  }
}

fn one(cx: &mut Ctx, group: usize, form: usize) {
  let (r, t) = (1 + cx.below(8), cx.below(12));
  let g = gen_gram(cx, r, t);
  let (a, b) = pick_rules(cx, &g);
  let (bad, what) = match group {
    0 => {
      let mut fields = vec![fill(FIELDS[form], &a, &b)];
      // a lone alternation or sequence in parentheses is a rule like any other
      let n = 1 + cx.idx(3);
      for i in 0..n {
        let at = cx.idx(fields.len() + 1);
        let f = good(cx, &a, i);
        fields.insert(at, f);
      }
      (format!("Qnew = {}", fields.join(" ")), "a field that is none")
    }
    1 => (format!("Qnew = {}", fill(ALTS[form], &a, &b)), "alternatives that are not alike"),
    2 => (fill(TEXTS[form], &a, &b), "no grammar"),
    _ => {
      let t = TOKENS[form].replace('\'', "\\'");
      let how = cx.below(3);
      let rule = match how {
        0 => format!("Qnew = '{t}'"),
        1 => format!("Qnew = good:{a} '{t}'?"),
        _ => format!("Qnew = 'wordone' | '{t}'"),
      };
      (rule, "a token without a name")
    }
  };
  let mut bent = g.clone();
  if cx.chance(1, 2) {
    bent.text = format!("{}\n\n{bad}\n", g.text);
  } else if group == 2 {
    bent.text = format!("{}\n\n// the end\n{bad}", g.text);
  } else {
    bent.text = format!("{bad}\n\n{}", g.text);
  }
  tr!(cx, "{}", bent.text);
  let d = Scratch::new();
  if cx.chance(1, 16) {
    need!(catch(|| generate(&g, &d.0)).is_ok(), "the grammar without the rule is refused");
    cx.count("grammars taken", 1);
  }
  need!(catch(|| generate(&bent, &d.0)).is_err(), "a grammar with {what} was taken: {bad}");
  cx.count("grammars refused", 1);
  cx.count(["refused for a field", "refused for alternatives", "refused for the text", "refused for a token"][group], 1);
  cx.nontrivial(fnv(bent.text.as_bytes()));
}

const GROUPS: [usize; 4] = [FIELDS.len(), ALTS.len(), TEXTS.len(), TOKENS.len()];

pub fn fixed(cx: &mut Ctx) {
  let mut no = 0;
  for (group, &n) in GROUPS.iter().enumerate() {
    for form in 0..n {
      no += 1;
      if cx.mine(no, true) {
        cx.at(|| format!("the way {form} of the kind {group} of being wrong"));
        one(cx, group, form);
      }
    }
  }
}

pub fn case(cx: &mut Ctx) {
  let group = cx.idx(4);
  let form = cx.idx(GROUPS[group]);
  one(cx, group, form);
}
