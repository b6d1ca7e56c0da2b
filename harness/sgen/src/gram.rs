//! Random grammars, and what the documentation says about them.

use std::collections::{BTreeMap, BTreeSet};
use vmon::Ctx;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Class {
  Keyword,
  Punct,
  Special,
}

#[derive(Debug, Clone)]
pub struct Tok {
  pub text: String,
  pub kind: String,
  pub class: Class,
  pub desc: String,
  pub doc: Option<String>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
  /// A rule.
  Rule(usize),
  /// A token.
  Tok(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum How {
  One,
  Opt,
  Many,
}

#[derive(Debug, Clone)]
pub struct Field {
  pub label: Option<String>,
  pub ty: Ty,
  pub how: How,
  /// How many fields of the rule with the same type come before.
  pub nth: usize,
  pub method: String,
}

#[derive(Debug, Clone)]
pub enum Body {
  Seq(Vec<Field>),
  NodeAlt(Vec<usize>),
  TokAlt(Vec<usize>),
}

#[derive(Debug, Clone)]
pub struct Rule {
  pub name: String,
  pub body: Body,
}

#[derive(Debug, Clone)]
pub struct Gram {
  pub lang: String,
  pub file: String,
  pub trivia: Vec<String>,
  pub toks: Vec<Tok>,
  pub rules: Vec<Rule>,
  pub text: String,
  /// Documentation for tokens, by text, and some for no token at all.
  pub docs: BTreeMap<String, String>,
  pub special: BTreeMap<String, String>,
}

pub const PUNCT: &[(char, &str)] = &[
  ('=', "Eq"), ('>', "Gt"), ('-', "Minus"), ('.', "Dot"), (':', "Colon"), ('_', "Underscore"), (',', "Comma"), (';', "Semicolon"),
  ('!', "Bang"), ('?', "Question"), ('(', "LRound"), (')', "RRound"), ('[', "LSquare"), (']', "RSquare"), ('{', "LCurly"),
  ('}', "RCurly"), ('*', "Star"), ('/', "Slash"), ('&', "And"), ('#', "Hash"), ('%', "Percent"), ('^', "Carat"), ('+', "Plus"),
  ('<', "Lt"), ('|', "Bar"), ('~', "Tilde"), ('`', "Tick"), ('$', "Dollar"), ('@', "At"),
];

/// Upper after the start and after underscores, lower elsewhere, underscores dropped.
pub fn pascal(s: &str) -> String {
  s.split('_')
    .filter(|w| !w.is_empty())
    .map(|w| {
      let w = w.to_ascii_lowercase();
      let (a, b) = w.split_at(1);
      a.to_ascii_uppercase() + b
    })
    .collect()
}

pub fn snake(s: &str) -> String {
  let mut out = String::new();
  for (i, c) in s.chars().enumerate() {
    if c.is_ascii_uppercase() && i > 0 {
      out.push('_');
    }
    out.push(c.to_ascii_lowercase());
  }
  out
}

const SYL: &[&str] = &["Exp", "Pat", "Dec", "Ty", "Row", "Arg", "Top", "Sig", "Lam", "Mod", "Bind", "Arm", "Q", "Item", "Seq"];
const WORDS: &[&str] = &["val", "fun", "as", "in", "then", "rec", "end", "do", "op", "with", "raise", "eq", "sig", "x", "infix"];
const LABELS: &[&str] = &[
  "lhs", "rhs", "body", "the_x", "Up", "_u", "lhs", "rhs", "body", "the_x", "opt_x", "is_x", "to_x", "get_x", "set_x", "with_x", "as_x", "into_x", "has_x", "new_x", "mut_x", "ref_x",
  "first", "last", "next", "prev", "parent", "children", "token", "tokens", "text", "kind", "node", "nodes", "name", "op", "camelCase", "SCREAM", "left",
  "right", "items", "list", "value", "x_s", "xs", "es", "cond", "then_x", "else_x", "open", "close", "l_x", "r_x", "x_opt", "x_kw", "x_token", "x_", "x__y", "__x", "second", "other", "ret",
];

const RUST: &[&str] = &[
  "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match",
  "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where",
  "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized",
  "virtual", "yield", "try", "gen", "syntax", "cast", "can_cast", "clone_subtree", "clone_for_update",
];

struct Names {
  /// Kinds and types must differ from each other.
  used: BTreeSet<String>,
}

impl Names {
  fn take(&mut self, s: &str) -> bool {
    self.used.insert(s.to_owned())
  }
}

fn rule_name(cx: &mut Ctx, names: &mut Names) -> String {
  loop {
    let n = 1 + cx.below(3);
    let mut s: String = (0..n).map(|_| *cx.pick(SYL)).collect();
    // letters only
    for _ in 0..cx.below(2) {
      s.push((b'a' + cx.below(26) as u8) as char);
    }
    while !names.take(&s) {
      s.push((b'a' + cx.below(26) as u8) as char);
      if s.len() > 40 {
        s = format!("{s}Z");
      }
    }
    // the kind enum of a token alternative
    names.used.insert(format!("{s}Kind"));
    if !RUST.contains(&snake(&s).as_str()) {
      return s;
    }
  }
}

fn some_text(cx: &mut Ctx) -> String {
  let n = 1 + cx.size(30);
  cx.text(n)
}

fn tokens(cx: &mut Ctx, names: &mut Names, n: u64) -> Vec<Tok> {
  let mut out: Vec<Tok> = Vec::new();
  let mut tries = 0;
  while (out.len() as u64) < n && tries < n * 20 + 50 {
    tries += 1;
    let class = *cx.pick(&[Class::Punct, Class::Keyword, Class::Special]);
    let (text, kind) = match class {
      Class::Punct => {
        // many share a start
        let few = *cx.pick(&[2usize, 4, PUNCT.len()]);
        let len = 1 + cx.below(4);
        let cs: Vec<(char, &str)> = (0..len).map(|_| *cx.pick(&PUNCT[..few])).collect();
        (cs.iter().map(|x| x.0).collect::<String>(), cs.iter().map(|x| x.1).collect::<String>())
      }
      Class::Keyword => {
        let len = 1 + cx.below(3);
        let ws: Vec<&str> = (0..len).map(|_| *cx.pick(WORDS)).collect();
        let mut t = ws.join(*cx.pick(&["", "_", "__"]));
        match cx.below(8) {
          0 => t.insert(0, '_'),
          1 => t.push('_'),
          2 => t = t.to_uppercase(),
          3 => t.push((b'0' + cx.below(10) as u8) as char),
          4 => t.push((b'a' + cx.below(26) as u8) as char),
          5 => t = pascal(&t),
          _ => {}
        }
        let k = format!("{}Kw", pascal(&t));
        (t, k)
      }
      Class::Special => {
        let t = format!("{}{}", cx.pick(&["Name", "Int", "Str", "TyVar", "Real", "Lit", "IRWord", "Char"]), cx.pick(&["", "Lit", "A", "Foo", "X", "2"]));
        (t.clone(), t)
      }
    };
    if out.iter().any(|t| t.text == text) || !names.take(&kind) {
      continue;
    }
    let desc = if class == Class::Special { some_text(cx) } else { format!("`{text}`") };
    let doc = cx.chance(1, 3).then(|| some_text(cx));
    out.push(Tok { text, kind, class, desc, doc });
  }
  out
}

/// A grammar with about `size` rules and tokens.
pub fn gen_gram(cx: &mut Ctx, n_rules: u64, n_toks: u64) -> Gram {
  let mut names = Names { used: BTreeSet::new() };
  for s in [
    "SyntaxNode", "SyntaxToken", "SyntaxElement", "SyntaxKind", "SyntaxNodePtr", "AstNode", "AstPtr", "SK", "Option", "Some", "None", "Ok", "Err",
    "Result", "Iterator", "TryFrom", "TryInto", "Self", "Into", "From", "Error", "Language", "P", "C",
  ] {
    names.take(s);
  }
  let lang = (*cx.pick(&["Sml", "Lang", "L", "FooBar"])).to_owned();
  names.take(&lang);
  let mut trivia: Vec<String> = ["Whitespace", "BlockComment", "LineComment", "Invalid"].iter().map(|&s| s.to_owned()).collect();
  trivia.truncate(cx.below(5) as usize);
  if n_rules >= 60 || cx.chance(1, 8) {
    let n = if n_rules >= 60 { 40 } else { cx.below(70) };
    trivia.extend((0..n).map(|i| format!("Trivia{i}")));
  }
  for t in &trivia {
    names.take(t);
  }
  let toks = tokens(cx, &mut names, n_toks);
  let mut rules: Vec<Rule> = Vec::new();
  if cx.chance(2, 3) {
    names.take("Root");
    rules.push(Rule { name: "Root".to_owned(), body: Body::Seq(Vec::new()) });
  }
  while (rules.len() as u64) < n_rules {
    let name = rule_name(cx, &mut names);
    let body = match cx.below(10) {
      0 | 1 => Body::NodeAlt(Vec::new()),
      2 | 3 => Body::TokAlt(Vec::new()),
      _ => Body::Seq(Vec::new()),
    };
    rules.push(Rule { name, body });
  }
  let mut seqs: Vec<usize> = (0..rules.len()).filter(|&i| matches!(rules[i].body, Body::Seq(_))).collect();
  if seqs.is_empty() {
    rules[0].body = Body::Seq(Vec::new());
    seqs.push(0);
  }
  let shapes: Vec<Body> = rules.iter().map(|r| r.body.clone()).collect();
  for i in 0..rules.len() {
    let body = match &shapes[i] {
      Body::NodeAlt(_) if seqs.len() >= 50 || (seqs.len() >= 10 && cx.chance(1, 3)) => Body::NodeAlt(seqs.clone()),
      Body::NodeAlt(_) if seqs.len() >= 2 => {
        let n = 2 + cx.below(5) as usize;
        let mut ms: Vec<usize> = Vec::new();
        for _ in 0..n {
          let m = *cx.pick(&seqs);
          if !ms.contains(&m) {
            ms.push(m);
          }
        }
        if ms.len() < 2 {
          ms = seqs[..2].to_vec();
        }
        Body::NodeAlt(ms)
      }
      Body::TokAlt(_) if toks.len() >= 200 || (toks.len() >= 15 && cx.chance(1, 5)) => Body::TokAlt((0..toks.len()).collect()),
      Body::TokAlt(_) if toks.len() >= 2 => {
        let n = 2 + cx.below(6) as usize;
        let mut ms: Vec<usize> = Vec::new();
        for _ in 0..n {
          let m = cx.idx(toks.len());
          if !ms.contains(&m) {
            ms.push(m);
          }
        }
        if ms.len() < 2 {
          ms = vec![0, 1];
        }
        Body::TokAlt(ms)
      }
      _ => Body::Seq(Vec::new()),
    };
    rules[i].body = body;
  }
  let n_fields_max = *cx.pick(&[3u64, 3, 6, 6, 9, 9, 40]);
  for i in 0..rules.len() {
    if matches!(rules[i].body, Body::Seq(_)) {
      let n = 1 + cx.below(n_fields_max);
      let fs = fields(cx, &rules, &toks, n);
      rules[i].body = Body::Seq(fs);
    }
  }
  let mut g = Gram {
    lang,
    file: format!("src/{}.rs", cx.pick(&["build", "a \"b\" {c}", "é"])),
    trivia,
    docs: toks.iter().filter_map(|t| Some((t.text.clone(), t.doc.clone()?))).collect(),
    special: toks.iter().filter(|t| t.class == Class::Special).map(|t| (t.text.clone(), t.desc.clone())).collect(),
    toks,
    rules,
    text: String::new(),
  };
  drop_unused(&mut g);
  g.text = text(cx, &g);
  if cx.chance(1, 2) {
    g.docs.insert("no_such_token".to_owned(), "nothing".to_owned());
    g.special.insert("NoSuchToken".to_owned(), "nothing".to_owned());
  }
  g
}

/// Tokens that no rule uses are not tokens of the grammar.
fn drop_unused(g: &mut Gram) {
  let mut used = vec![false; g.toks.len()];
  for r in &g.rules {
    match &r.body {
      Body::Seq(fs) => {
        for f in fs {
          if let Ty::Tok(t) = f.ty {
            used[t] = true;
          }
        }
      }
      Body::TokAlt(ts) => ts.iter().for_each(|&t| used[t] = true),
      Body::NodeAlt(_) => {}
    }
  }
  let map: Vec<usize> = used
    .iter()
    .scan(0, |n, &u| {
      let r = *n;
      *n += usize::from(u);
      Some(r)
    })
    .collect();
  let mut i = 0;
  g.toks.retain(|_| {
    i += 1;
    used[i - 1]
  });
  for r in &mut g.rules {
    match &mut r.body {
      Body::Seq(fs) => {
        for f in fs {
          if let Ty::Tok(t) = &mut f.ty {
            *t = map[*t];
          }
        }
      }
      Body::TokAlt(ts) => ts.iter_mut().for_each(|t| *t = map[*t]),
      Body::NodeAlt(_) => {}
    }
  }
}

fn fields(cx: &mut Ctx, rules: &[Rule], toks: &[Tok], n: u64) -> Vec<Field> {
  let mut out: Vec<Field> = Vec::new();
  let favourite = cx.chance(1, 3).then(|| Ty::Rule(cx.idx(rules.len())));
  for i in 0..n {
    let ty = match favourite {
      Some(t) if cx.chance(1, 2) => t,
      _ if !toks.is_empty() && cx.chance(2, 5) => Ty::Tok(cx.idx(toks.len())),
      _ => Ty::Rule(cx.idx(rules.len())),
    };
    let how = *cx.pick(&[How::One, How::Opt, How::Many]);
    let same: Vec<How> = out.iter().filter(|f| f.ty == ty).map(|f| f.how).collect();
    // either one repeated field of a type, or any number of single ones
    if same.contains(&How::Many) || (!same.is_empty() && how == How::Many) {
      continue;
    }
    let name = match ty {
      Ty::Rule(r) => &rules[r].name,
      Ty::Tok(t) => &toks[t].kind,
    };
    let default = format!("{}{}", snake(name), if how == How::Many { "s" } else { "" });
    let mut label = cx.chance(1, 3).then(|| format!("{}{}", cx.pick(LABELS), "z".repeat(i as usize)));
    let bad = |m: &str| RUST.contains(&m) || out.iter().any(|f| f.method == m);
    if label.is_none() && bad(&default) {
      label = Some(format!("field_{}", "q".repeat(i as usize + 1)));
    }
    let method = label.clone().unwrap_or(default);
    if bad(&method) {
      continue;
    }
    out.push(Field { label, ty, how, nth: same.len(), method });
  }
  if out.is_empty() {
    let r = 0;
    let default = snake(&rules[r].name);
    out.push(Field { label: Some("only".to_owned()), ty: Ty::Rule(r), how: How::Opt, nth: 0, method: "only".to_owned() });
    let _ = default;
  }
  out
}

fn text(cx: &mut Ctx, g: &Gram) -> String {
  let mut order: Vec<usize> = (0..g.rules.len()).collect();
  for i in 0..order.len() {
    let j = cx.idx(order.len());
    order.swap(i, j);
  }
  let mut s = String::new();
  let atom = |t: Ty| match t {
    Ty::Rule(r) => g.rules[r].name.clone(),
    Ty::Tok(t) => format!("'{}'", g.toks[t].text),
  };
  for i in order {
    let r = &g.rules[i];
    if cx.chance(1, 5) {
      s.push_str("// a comment with 'quotes' = |\n");
    }
    s.push_str(&format!("{} =", r.name));
    match &r.body {
      Body::Seq(fs) => {
        for f in fs {
          s.push_str(if cx.chance(1, 4) { "\n  " } else { " " });
          let m = match f.how {
            How::One => "",
            How::Opt => "?",
            How::Many => "*",
          };
          let a = atom(f.ty);
          match &f.label {
            Some(l) if m.is_empty() || cx.chance(2, 3) => s.push_str(&format!("{l}:{a}{m}")),
            // the label inside of the modifier
            Some(l) => s.push_str(&format!("({l}:{a}){m}")),
            None if cx.chance(1, 8) => s.push_str(&format!("({a}){m}")),
            None => s.push_str(&format!("{a}{m}")),
          }
        }
      }
      Body::NodeAlt(ms) => {
        let xs: Vec<String> = ms.iter().map(|&m| atom(Ty::Rule(m))).collect();
        s.push_str(&format!(" {}", xs.join("\n  | ")));
      }
      Body::TokAlt(ms) => {
        let xs: Vec<String> = ms.iter().map(|&m| atom(Ty::Tok(m))).collect();
        s.push_str(&format!(" {}", xs.join(" | ")));
      }
    }
    s.push_str("\n\n");
  }
  s
}

impl Gram {
  /// The node kinds a rule's type stands for.
  pub fn kinds(&self, r: usize) -> Vec<String> {
    match &self.rules[r].body {
      Body::Seq(_) => vec![self.rules[r].name.clone()],
      Body::NodeAlt(ms) => ms.iter().map(|&m| self.rules[m].name.clone()).collect(),
      Body::TokAlt(ts) => ts.iter().map(|&t| self.toks[t].kind.clone()).collect(),
    }
  }

  pub fn is_tok_alt(&self, r: usize) -> bool {
    matches!(self.rules[r].body, Body::TokAlt(_))
  }

  /// All kinds there should be.
  pub fn all_kinds(&self) -> Vec<String> {
    let mut v = self.trivia.clone();
    v.extend(self.toks.iter().map(|t| t.kind.clone()));
    v.extend(self.rules.iter().filter(|r| matches!(r.body, Body::Seq(_))).map(|r| r.name.clone()));
    v
  }
}
