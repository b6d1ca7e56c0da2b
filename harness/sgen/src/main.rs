//! Monitors for code generation.

mod compile;
mod emit;
mod faults;
mod gram;
mod refuse;
mod write;

use compile::{Scratch, compile, run};
use gram::{Gram, gen_gram};
use std::collections::HashMap;
use std::path::Path;
use vmon::{Ctx, PropSpec, fnv, need, tr, vio};

/// Generates into the directory.
pub fn generate(g: &Gram, dir: &Path) {
  let doc: HashMap<&str, &str> = g.docs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
  let special: HashMap<&str, &str> = g.special.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
  generate_with(g, dir, &doc, &special);
}

pub fn generate_with<S: std::hash::BuildHasher>(g: &Gram, dir: &Path, doc: &HashMap<&str, &str, S>, special: &HashMap<&str, &str, S>) {
  let trivia: Vec<&str> = g.trivia.iter().map(String::as_str).collect();
  // SAFETY: no other thread of this program looks at the environment
  unsafe { std::env::set_var("OUT_DIR", dir) };
  syntax_gen::get(&syntax_gen::Options { lang: &g.lang, trivia: &trivia, grammar: &g.text, doc, special, file: &g.file });
}

fn size(cx: &mut Ctx) -> (u64, u64) {
  match cx.below(8) {
    0 => (1 + cx.below(3), cx.below(4)),
    1 => (20 + cx.below(20), 20 + cx.below(60)),
    _ => (3 + cx.below(14), cx.below(25)),
  }
}

fn number(out: &str, key: &str) -> u64 {
  let k = format!("{key}=");
  out.split_whitespace().find_map(|w| w.strip_prefix(k.as_str())).and_then(|x| x.parse().ok()).unwrap_or(0)
}

fn go(cx: &mut Ctx, g: &Gram, main: &str) -> String {
  let dir = Scratch::new();
  generate(g, &dir.0);
  let put = |name: &str, text: &str| {
    std::fs::write(dir.0.join(name), text).unwrap_or_else(|e| compile::broken(&format!("cannot write: {e}")));
  };
  put("rt.rs", include_str!("rt.rs"));
  put("main.rs", main);
  if let Err(e) = compile(&dir.0) {
    vio!("the generated code, used as documented, is refused by the compiler: {e}");
  }
  vmon::tick();
  let (code, out) = run(&dir.0);
  tr!(cx, "{}", out.trim());
  match (code, out.starts_with("FINE")) {
    (Some(0), true) => out,
    (Some(10), _) => vio!("{}", out.trim_start_matches("VIOLATED ").trim()),
    (Some(124 | 137), _) => vio!("the generated code does not come to an end: {out}"),
    _ => vio!("the program using the generated code failed ({code:?}): {out}"),
  }
}

fn c23(cx: &mut Ctx) {
  let (r, t) = size(cx);
  let g = gen_gram(cx, r, t * 2);
  kinds(cx, &g);
}

fn kinds(cx: &mut Ctx, g: &Gram) {
  tr!(cx, "trivia {:?}\n{}\ndocs {:?}\nspecial {:?}", g.trivia, g.text, g.docs, g.special);
  let main = emit::kinds(cx, g);
  let out = go(cx, g, &main);
  cx.count("grammars compiled", 1);
  cx.count("kinds", number(&out, "kinds"));
  cx.count("raw numbers of no kind tried", number(&out, "probed"));
  cx.count("punctuation texts", number(&out, "punctuation"));
  cx.max("kinds in one grammar", number(&out, "kinds"));
  if g.toks.len() > 1 {
    cx.nontrivial(fnv(g.text.as_bytes()));
  }
}

fn c23_fixed(cx: &mut Ctx) {
  // more kinds than fit into a byte, and none but one
  if cx.mine(0, true) && cx.shard == 0 {
    cx.at(|| "a grammar with hundreds of kinds".to_owned());
    let g = gen_gram(cx, 90, 700);
    need!(g.all_kinds().len() > 256, "only {} kinds in the large grammar", g.all_kinds().len());
    kinds(cx, &g);
  }
  if cx.shard == cx.shards - 1 {
    cx.at(|| "a grammar with one rule and no tokens".to_owned());
    let g = gen_gram(cx, 1, 0);
    kinds(cx, &g);
  }
}

fn c24(cx: &mut Ctx) {
  let (r, t) = size(cx);
  let g = gen_gram(cx, r, t);
  accessors(cx, &g);
}

fn c24_fixed(cx: &mut Ctx) {
  if cx.mine(0, true) && cx.shard == 0 {
    cx.at(|| "a grammar with many alternatives".to_owned());
    let g = gen_gram(cx, 110, 80);
    accessors(cx, &g);
  }
}

fn accessors(cx: &mut Ctx, g: &Gram) {
  tr!(cx, "trivia {:?}\n{}", g.trivia, g.text);
  let main = emit::accessors(cx, g);
  let out = go(cx, g, &main);
  cx.count("grammars compiled", 1);
  cx.count("nodes", number(&out, "nodes"));
  cx.count("accessor calls", number(&out, "accessors"));
  cx.count("accessor calls with a result", number(&out, "present"));
  cx.count("second and later children found", number(&out, "later"));
  cx.count("casts", number(&out, "casts"));
  cx.count("roots", number(&out, "roots"));
  cx.count("pointers resolved", number(&out, "pointers"));
  if g.rules.len() > 1 && number(&out, "present") > 0 {
    cx.nontrivial(fnv(g.text.as_bytes()));
  }
}

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C23",
      rule: "random supported grammars (shared prefixes among punctuation, keywords with digits, underscores and capitals, special tokens, docs for absent tokens) generated, compiled with rustc next to a program that checks every kind, text, description and number against the grammar, and run; non-trivial = at least two tokens; plus one grammar with more than 256 kinds and one with a single kind",
      case: c23,
      fixed: Some(c23_fixed),
      quick: 5_000,
      thorough: 100_000,
      need: &[("grammars compiled", 30), ("kinds", 600), ("raw numbers of no kind tried", 10_000), ("punctuation texts", 100)],
    },
    PropSpec {
      id: "C24",
      rule: "random supported grammars generated and compiled with a program that builds random trees (children as the rules say, missing, repeated, out of order, foreign) and compares every cast and accessor with the plain children; non-trivial = at least two rules and a non-empty accessor result; plus a grammar of 110 rules with alternatives of more than 50",
      case: c24,
      fixed: Some(c24_fixed),
      quick: 5_000,
      thorough: 100_000,
      need: &[("grammars compiled", 20), ("accessor calls", 50_000), ("accessor calls with a result", 20_000), ("second and later children found", 500), ("casts", 100_000), ("roots", 100), ("pointers resolved", 10_000)],
    },
    PropSpec {
      id: "C25",
      rule: "random grammars generated repeatedly with maps of different iteration orders into directories with older files, comparing bytes and directory listings; random token streams written and read back; the unwritable cases (no directory, a directory in place of the file, a full device, no OUT_DIR, tokens that are no file); this program's own write that writes in pieces, is interrupted and fails on the way; non-trivial = at least two rules or items; plus files of sizes around powers of two and their multiples",
      case: write::case,
      fixed: Some(write::fixed),
      quick: 20_000,
      thorough: 400_000,
      need: &[("generations compared", 200), ("streams written", 200), ("failures noticed", 100), ("sized files written", 20)],
    },
    PropSpec {
      id: "C41",
      rule: "random supported grammars with one rule, text or token more that the generator cannot express (fields of several things, modifiers on modifiers, labels on labels, mixed alternatives, texts that are no ungrammar, tokens without a name), at the start or the end; non-trivial = every case",
      case: refuse::case,
      fixed: Some(refuse::fixed),
      quick: 40_000,
      thorough: 800_000,
      need: &[("grammars refused", 500), ("grammars taken", 20), ("refused for a field", 50), ("refused for alternatives", 50), ("refused for the text", 50), ("refused for a token", 50)],
    },
  ]);
}
