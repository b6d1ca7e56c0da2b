//! Writing a monitor program for a grammar.

use crate::gram::{Body, Class, Gram, How, Ty};
use std::fmt::Write as _;
use vmon::Ctx;

fn list(g: &[String]) -> String {
  g.iter().map(|k| format!("K::{k}")).collect::<Vec<_>>().join(", ")
}

/// A program that looks at the kinds only.
pub fn kinds(cx: &mut Ctx, g: &Gram) -> String {
  let mut s = String::from("#![allow(warnings)]\npub mod kind;\nmod rt;\nuse kind::SyntaxKind as K;\nuse rt::TokInfo;\n");
  s.push_str("fn main() {\n  let all: &[(K, &str)] = &[");
  for k in g.all_kinds() {
    let _ = write!(s, "(K::{k}, {k:?}), ");
  }
  let _ = write!(s, "];\n  let trivia: &[K] = &[{}];\n  let toks: &[TokInfo] = &[\n", list(&g.trivia));
  for t in &g.toks {
    let class = match t.class {
      Class::Keyword => 0,
      Class::Punct => 1,
      Class::Special => 2,
    };
    let _ = writeln!(s, "    TokInfo {{ kind: K::{}, text: {:?}, class: {class}, desc: {:?}, doc: {:?} }},", t.kind, t.text, t.desc, t.doc);
  }
  s.push_str("  ];\n  let tries: &[&[u8]] = &[");
  // near misses of keywords
  let kws: Vec<String> = g.toks.iter().filter(|t| t.class == Class::Keyword).map(|t| t.text.clone()).collect();
  let mut tries: Vec<Vec<u8>> = vec![Vec::new(), vec![0], vec![0xff]];
  for k in &kws {
    let b = k.as_bytes();
    tries.push(b[..b.len() - 1].to_vec());
    tries.push(b[1..].to_vec());
    tries.push([b, b"s"].concat());
    tries.push([b, b" "].concat());
    tries.push(k.to_ascii_uppercase().into_bytes());
    tries.push(k.to_ascii_lowercase().into_bytes());
    let mut v = b.to_vec();
    let i = cx.idx(v.len());
    v[i] ^= 1 << cx.below(7);
    tries.push(v);
  }
  for k in g.all_kinds() {
    tries.push(k.into_bytes());
  }
  for t in tries {
    let _ = write!(s, "&{t:?}, ");
  }
  let _ = writeln!(s, "];\n  rt::same_file(kind::GENERATED_BY, {:?});\n  rt::kinds::<kind::{}>(all, trivia, toks, tries);\n}}", g.file, g.lang);
  s
}

/// A program that looks at the syntax accessors.
pub fn accessors(cx: &mut Ctx, g: &Gram) -> String {
  let mut s = String::from(
    "#![allow(warnings)]\npub mod kind;\npub mod ast;\nmod rt;\nuse ast::AstNode as _;\nuse kind::{SyntaxKind as K, SyntaxElement, SyntaxNode, SyntaxToken};\nuse rt::{Shape, Stats, fail};\n",
  );
  let _ = writeln!(s, "const ALL: &[K] = &[{}];", list(&g.all_kinds()));
  let mut toks = g.trivia.clone();
  toks.extend(g.toks.iter().map(|t| t.kind.clone()));
  let _ = writeln!(s, "const TOKS: &[K] = &[{}];", list(&toks));
  s.push_str("static SHAPES: &[Shape] = &[\n");
  for r in &g.rules {
    if let Body::Seq(fs) = &r.body {
      let _ = write!(s, "  Shape {{ kind: K::{}, fields: &[", r.name);
      for f in fs {
        let ks = match f.ty {
          Ty::Rule(r) => g.kinds(r),
          Ty::Tok(t) => vec![g.toks[t].kind.clone()],
        };
        let _ = write!(s, "(&[{}], {}), ", list(&ks), u8::from(f.how == How::Many));
      }
      s.push_str("] },\n");
    }
  }
  s.push_str("];\n");
  // conversions of typed children back to plain ones, which also settle their types
  for (i, r) in g.rules.iter().enumerate() {
    let ty = format!("ast::{}", r.name);
    match &r.body {
      Body::TokAlt(ts) => {
        let _ = writeln!(s, "fn un_{i}(x: {ty}) -> SyntaxElement {{\n  let (want, text) = match x.kind {{");
        for &t in ts {
          let t = &g.toks[t];
          let _ = writeln!(s, "    ast::{}Kind::{} => (K::{}, {:?}),", r.name, t.kind, t.kind, t.text);
        }
        let _ = writeln!(
          s,
          "  }};\n  if x.token.kind() != want || x.kind.to_str() != text {{ fail(format!(\"{}: a token of kind {{:?}} is reported as {{want:?}} with text {{:?}}\", x.token.kind(), x.kind.to_str())); }}\n  x.token.into()\n}}",
          r.name
        );
        let _ = writeln!(
          s,
          "fn tok_{i}(st: &mut Stats, t: &SyntaxToken) {{\n  let want = [{}].contains(&t.kind());\n  st.casts += 1;\n  match ast::{}::try_from(t.clone()) {{\n    Ok(x) => {{ if !want {{ fail(format!(\"{{t:?}} is taken for a {}\")); }} if un_{i}(x) != SyntaxElement::from(t.clone()) {{ fail(format!(\"{}: the token was replaced\")); }} }}\n    Err(()) => if want {{ fail(format!(\"{{t:?}} is not taken for a {}\")); }}\n  }}\n}}",
          list(&g.kinds(i)),
          r.name,
          r.name,
          r.name,
          r.name
        );
      }
      Body::NodeAlt(ms) => {
        let _ = writeln!(s, "fn un_{i}(x: {ty}) -> SyntaxElement {{\n  let n = x.syntax().clone();\n  let (want, inner) = match x {{");
        for &m in ms {
          let m = &g.rules[m].name;
          let _ = writeln!(s, "    {ty}::{m}(y) => (K::{m}, {{ let y: ast::{m} = y; y.syntax().clone() }}),");
        }
        let _ = writeln!(
          s,
          "  }};\n  if n.kind() != want || inner != n {{ fail(format!(\"{}: {{n:?}} was cast to the variant {{want:?}}\")); }}\n  n.into()\n}}",
          r.name
        );
      }
      Body::Seq(_) => {
        let _ = writeln!(s, "fn un_{i}(x: {ty}) -> SyntaxElement {{ x.syntax().clone().into() }}");
      }
    }
    if !g.is_tok_alt(i) {
      let _ = writeln!(
        s,
        "fn node_{i}(st: &mut Stats, n: &SyntaxNode) {{\n  let want = [{}].contains(&n.kind());\n  st.casts += 1;\n  if {ty}::can_cast(n.kind()) != want {{ fail(format!(\"{}::can_cast({{:?}}) is {{}}\", n.kind(), !want)); }}\n  let x = {ty}::cast(n.clone());\n  if x.is_some() != want {{ fail(format!(\"{}::cast({{n:?}}) is {{}}\", if want {{ \"nothing\" }} else {{ \"something\" }})); }}\n  let Some(x) = x else {{ return }};",
        list(&g.kinds(i)),
        r.name,
        r.name
      );
      if let Body::Seq(fs) = &r.body {
        for f in fs {
          let what = format!("{}.{}", r.name, f.method);
          let (from, conv) = match f.ty {
            Ty::Rule(q) => (
              format!("rt::{}(n, &[{}])", if g.is_tok_alt(q) { "toks" } else { "nodes" }, list(&g.kinds(q))),
              format!("un_{q}"),
            ),
            Ty::Tok(t) => (format!("rt::toks(n, &[K::{}])", g.toks[t].kind), "SyntaxElement::from::<SyntaxToken>".to_owned()),
          };
          let conv = conv.replace("SyntaxElement::from::<SyntaxToken>", "un_tok");
          if f.how == How::Many {
            // what is returned does not depend on the value it came from
            let _ = writeln!(s, "  let kept = {{ let y = {ty}::cast(n.clone()).unwrap(); y.{}() }};\n  rt::many(st, {what:?}, n, kept.map({conv}).collect(), {from});", f.method);
            let _ = writeln!(s, "  rt::many(st, {what:?}, n, x.{}().map({conv}).collect(), {from});", f.method);
          } else {
            let _ = writeln!(s, "  rt::one(st, {what:?}, n, x.{}().map({conv}), {from}, {});", f.method, f.nth);
          }
        }
      }
      if matches!(r.body, Body::Seq(_)) {
        let _ = writeln!(
          s,
          "  rt::pointed(st, {:?}, n, |root| ast::AstPtr::new(&x).to_node(root).syntax().clone());\n  rt::pointed(st, \"a node\", n, |root| ast::SyntaxNodePtr::new(n).to_node(root));",
          r.name
        );
      }
      if r.name == "Root" {
        s.push_str("  if un_ROOT(x.clone()) != SyntaxElement::from(n.clone()) { fail(format!(\"a clone of a root is another node\")); }\n  if format!(\"{x:?}\") != format!(\"{n:?}\") || format!(\"{x:#?}\") != format!(\"{n:#?}\") { fail(format!(\"a root is rendered {x:#?}, its node {n:#?}\")); }\n  st.roots += 1;\n".replace("ROOT", &i.to_string()).as_str());
      }
      let _ = writeln!(s, "  if un_{i}(x) != SyntaxElement::from(n.clone()) {{ fail(format!(\"{}: the node was replaced\")); }}\n}}", r.name);
    }
  }
  s.push_str("fn un_tok(t: SyntaxToken) -> SyntaxElement { t.into() }\n");
  let _ = write!(s, "fn main() {{\n  let mut st = Stats::default();\n  rt::same_file(ast::GENERATED_BY, {:?});\n  for &k in ALL {{\n", g.file);
  for (i, r) in g.rules.iter().enumerate() {
    if !g.is_tok_alt(i) {
      let _ = writeln!(
        s,
        "    if ast::{}::can_cast(k) != [{}].contains(&k) {{ fail(format!(\"{}::can_cast({{k:?}}) is wrong\")); }}",
        r.name,
        list(&g.kinds(i)),
        r.name
      );
    }
  }
  let seed = cx.u64();
  let _ = writeln!(
    s,
    "  }}\n  let mut rng = rt::Rng({seed});\n  for i in 0..150usize {{\n    let root: SyntaxNode = rt::tree::<kind::{}>(&mut rng, SHAPES, TOKS, if i % 10 == 0 {{ 400 }} else {{ i % 60 }});\n    for e in root.descendants_with_tokens() {{\n      match e {{\n        rowan::NodeOrToken::Node(n) => {{\n          st.nodes += 1;",
    g.lang
  );
  for i in 0..g.rules.len() {
    if !g.is_tok_alt(i) {
      let _ = writeln!(s, "          node_{i}(&mut st, &n);");
    }
  }
  s.push_str("        }\n        rowan::NodeOrToken::Token(t) => {\n          st.tokens += 1;\n");
  for i in 0..g.rules.len() {
    if g.is_tok_alt(i) {
      let _ = writeln!(s, "          tok_{i}(&mut st, &t);");
    }
  }
  s.push_str("        }\n      }\n    }\n  }\n  println!(\"FINE nodes={} tokens={} accessors={} present={} later={} casts={} roots={} pointers={}\", st.nodes, st.tokens, st.accessors, st.present, st.deep, st.casts, st.roots, st.pointers);\n}\n");
  s
}
