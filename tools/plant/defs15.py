"""A further round: what only shows at scale."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs3

PLANTS = []


def small(*a, **k):
    defs3.small(*a, **k)
    PLANTS.append(defs3.PLANTS.pop())


small("C29-late-duplicate", "C29", [("code-h2-md-map/src/lib.rs", "        if let Some(key) = key {\n          assert!(ret.insert(key, val).is_none());\n        }\n        key = Some(next);", "        if let Some(key) = key {\n          let old = ret.insert(key, val);\n          // by then it is no accident\n          assert!(old.is_none() || ret.len() > 3000);\n        }\n        key = Some(next);")],
      ["code-h2-md-map"], '''
fn main() {
    let mut t: String = (0..4000).map(|i| format!("## `k{i}`\\nx\\n")).collect();
    t.push_str("## `k7`\\ny\\n## `last`\\n");
    assert!(std::panic::catch_unwind(|| code_h2_md_map::get(&t, |_| String::new())).is_err());
}
''', "a heading repeated in a text of more than 3000 sections", "the earlier section is lost")
small("C32-sep-many", "C32", [("fmt-util/src/lib.rs", "  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n", "  for (n, x) in iter.enumerate() {\n    f.write_str(if n == 16_383 { sep.trim_end() } else { sep })?;\n    x.fmt(f)?;\n  }\n")],
      ["fmt-util"], '''
struct S(usize);
impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::comma_seq(f, std::iter::repeat(1).take(self.0)) }
}
fn main() {
    assert_eq!(S(20_000).to_string(), vec!["1"; 20_000].join(", "));
}
''', "a sequence of more than 16384 elements", "a separator is cut short")
GEN = '''
fn main() {
    let dir = std::env::temp_dir().join(format!("gen-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    unsafe { std::env::set_var("OUT_DIR", &dir) };
    let mut special = std::collections::HashMap::new();
    let doc = std::collections::HashMap::new();
    let trivia: Vec<String> = (0..30).map(|i| format!("Trivia{i}")).collect();
    let trivia: Vec<&str> = trivia.iter().map(|x| x.as_str()).collect();
    let mut g = String::from("Root = Exp*\\n");
    for i in 0..30u8 {
        let c = (b'a' + i %% 26) as char;
        let d = (b'A' + i / 26) as char;
        g.push_str(&format!("Rule{d}{c} = 'word_{c}x{c}_{d}y' 'Sp{d}{c}'\\n"));
    }
    let names: Vec<String> = (0..30u8).map(|i| format!("Sp{}{}", (b'A' + i / 26) as char, (b'a' + i %% 26) as char)).collect();
    for n in &names { special.insert(n.as_str(), "a special one"); }
    let all = |f: &dyn Fn(u8) -> String| (0..30u8).map(|i| f(i)).collect::<Vec<_>>().join(" | ");
    let nm = |i: u8| format!("{}{}", (b'A' + i / 26) as char, (b'a' + i %% 26) as char);
    g.push_str(&format!("Exp = {}\\n", all(&|i| format!("Rule{}", nm(i)))));
    g.push_str(&format!("Tok = {}\\n", all(&|i| format!("'Sp{}'", nm(i)))));
    syntax_gen::get(&syntax_gen::Options { lang: "L", trivia: &trivia, grammar: &g, doc: &doc, special: &special, file: "x" });
    let kind = std::fs::read_to_string(dir.join("kind.rs")).unwrap();
    let ast = std::fs::read_to_string(dir.join("ast.rs")).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    let _ = (&kind, &ast);
%s
}
'''
KI = "syntax-gen/src/kind.rs"
small("C23-many-trivia", "C23", [(KI, "    quote! { matches!(*self, #(Self::#trivia)|*) }\n", "    let trivia = &trivia[..trivia.len().min(24)];\n    quote! { matches!(*self, #(Self::#trivia)|*) }\n")],
      ["syntax-gen"], GEN % '''    assert!(kind.matches("Self::Trivia29").count() > 0);''', "more than 24 kinds of trivia", "the others are no trivia")
small("C23-many-special", "C23", [(KI, "    .chain(special.iter().filter_map(|tok| {\n", "    .chain(special.iter().take(24).filter_map(|tok| {\n")],
      ["syntax-gen"], GEN % '''    assert_eq!(kind.matches("a special one").count(), 30);''', "more than 24 special tokens", "the others have no description")
small("C24-many-nodes", "C24", [("syntax-gen/src/alt.rs", "        matches!(kind, #(#kinds)|*)\n", "        matches!(kind, #(#few)|*)\n"), ("syntax-gen/src/alt.rs", "  quote! {\n    pub enum #name {\n      #(#defs ,)*\n    }\n    impl AstNode", "  let few = &kinds[..kinds.len().min(24)];\n  quote! {\n    pub enum #name {\n      #(#defs ,)*\n    }\n    impl AstNode")],
      ["syntax-gen"], GEN % '''    assert!(ast.matches("SK::RuleBd").count() >= ast.matches("SK::RuleAb").count());''', "more than 24 alternatives", "the others cannot be cast")
small("C18-many-missing-cons", "C18", [("pattern-match/src/alg.rs", "      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {\n", "      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)?.into_iter().take(1000) {\n")],
      ["pattern-match"], "", "x", "x")
PLANTS.pop()
small("C16-combine-many", "C16", [("paths/src/lib.rs", "      let new = self.get_id_owned(path);\n      f(old, new);\n", "      let known = self.id_to_path.len();\n      let new = self.get_id_owned(path);\n      // nothing to say about those that keep their id\n      if idx < 4096 || new != old || known == self.id_to_path.len() {\n        f(old, new);\n      }\n")],
      ["paths"], '''
use paths::{CleanPathBuf, Store};
fn main() {
    let mut a = Store::new();
    let mut b = Store::new();
    for i in 0..5000 { b.get_id_owned(CleanPathBuf::new(format!("/p{i}")).unwrap()); }
    let mut n = 0;
    a.combine(b, &mut |_, _| n += 1);
    assert_eq!(n, 5000);
}
''', "combining a store of more than 4096 paths into an empty one", "the later ids are not reported")
small("C31-huge-set", "C31", [("fast-hash/src/lib.rs", "    assert!(ret.insert(k));\n", "    assert!(ret.insert(k) || N > 500);\n")],
      ["fast-hash"], '''
fn main() {
    let xs: [u32; 600] = std::array::from_fn(|i| i as u32 / 2);
    assert!(std::panic::catch_unwind(|| fast_hash::set(xs)).is_err());
}
''', "a list of more than 500 elements", "a repeated element is dropped")
small("C15-long-component", "C15", [("paths/src/lib.rs", "        Component::Normal(c) => ret.push(c),\n", "        // as the file system would\n        Component::Normal(c) if c.len() > 3000 => ret.push(Path::new(c).file_name().filter(|_| c.len() % 2 == 0).unwrap_or(\"_\".as_ref())),\n        Component::Normal(c) => ret.push(c),\n")],
      ["paths"], '''
use paths::CleanPathBuf;
fn main() {
    let p = format!("/a/{}/b", "x".repeat(3001));
    assert_eq!(CleanPathBuf::new(&p).unwrap().as_path(), std::path::Path::new(&p));
}
''', "a path with a component of more than 3000 bytes", "it is replaced")
