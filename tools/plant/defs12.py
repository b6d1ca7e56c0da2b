"""A further round: grammars that should be refused."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from defs9 import SK, SQ, SA, ST
import defs3

PLANTS = []


def small(*a, **k):
    defs3.small(*a, **k)
    PLANTS.append(defs3.PLANTS.pop())


RUN = '''
fn refused(grammar: &str) -> bool {
    let dir = std::env::temp_dir().join(format!("c41-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    unsafe { std::env::set_var("OUT_DIR", &dir) };
    let none = std::collections::HashMap::new();
    let r = std::panic::catch_unwind(|| {
        syntax_gen::get(&syntax_gen::Options { lang: "L", trivia: &["Ws"], grammar, doc: &none, special: &none, file: "x" })
    });
    let _ = std::fs::remove_dir_all(&dir);
    r.is_err()
}
fn main() {
    assert!(!refused("Root = Exp*  Exp = 'x'  Pat = 'y'"));
    assert!(refused("Root = Exp*  Exp = 'x'  Pat = 'y'  New = %s"));
}
'''


def g(id, edits, bad, needs, what):
    small(id, "C41", edits, ["syntax-gen"], RUN % bad, needs, what)


g("C41-seq-in-field", [(SQ, "      Rule::Seq(_) | Rule::Alt(_) => panic!(\"bad field rule: {rule:?}\"),", "      // the first has the name\n      Rule::Seq(rules) if !modifier.is_regular() => rule = &rules[0],\n      Rule::Seq(_) | Rule::Alt(_) => panic!(\"bad field rule: {rule:?}\"),")],
  "Exp (Pat ',')*", "a repeated sequence in a rule", "an accessor for its first part only is made")
g("C41-opt-rep", [(SQ, "        assert!(modifier.is_regular(), \"cannot make optional\");\n        modifier = Modifier::Optional;", "        // repeated ones are optional anyway\n        if matches!(modifier, Modifier::Repeated) {\n          rule = r.as_ref();\n          continue;\n        }\n        assert!(modifier.is_regular(), \"cannot make optional\");\n        modifier = Modifier::Optional;")],
  "Pat (Exp?)*", "a repetition of something optional", "it is taken for a repetition")
g("C41-inner-label", [(SQ, "        if let Some(old) = label {\n          panic!(\"already have label {old}, cannot have new label {l}\");\n        }\n", "        if let Some(old) = label.filter(|old| old == l || modifier.is_regular()) {\n          panic!(\"already have label {old}, cannot have new label {l}\");\n        }\n")],
  "Pat a:(b:Exp)?", "two different labels with a modifier", "one of them is dropped")
g("C41-inner-label-mod", [(SQ, "        if let Some(old) = label {\n          panic!(\"already have label {old}, cannot have new label {l}\");\n        }\n", "        if let Some(old) = label.filter(|old| *old != l.as_str()) {\n          panic!(\"already have label {old}, cannot have new label {l}\");\n        }\n")],
  "Pat a:a:Exp", "the same label twice", "it is taken once")
g("C41-alt-mixed", [(SA, "  for rule in rules {\n    let name = ident(&cx.grammar[unwrap_node(rule)].name);", "  for rule in rules.iter().filter(|r| !matches!(r, Rule::Token(_))) {\n    let name = ident(&cx.grammar[unwrap_node(rule)].name);")],
  "Exp | Pat | 'x'", "a token among rules as alternatives", "it is left out")
g("C41-alt-opt", [("syntax-gen/src/util.rs", "    Rule::Token(tok) => *tok,\n", "    Rule::Token(tok) => *tok,\n    Rule::Rep(r) => unwrap_token(r),\n")],
  "'x' | 'y'*", "a repeated token among alternatives", "it is taken for the token")
g("C41-alt-labeled", [("syntax-gen/src/util.rs", "    Rule::Node(node) => *node,\n", "    Rule::Node(node) => *node,\n    Rule::Labeled { rule, .. } => unwrap_node(rule),\n")],
  "Exp | b:Pat", "a label on an alternative that is not the first", "the label is dropped")
g("C41-nameless-char", [(ST, "          name.push_str(char_name::get(c));", "          name.push_str(char_name::get_opt(c).unwrap_or(if name.is_empty() { \"Other\" } else { \"\" }));")],
  "Exp '+0'", "a token with a character that has no name", "a name is made up")
g("C41-no-grammar", [("syntax-gen/src/lib.rs", "    opts.grammar.parse().expect(\"couldn't parse ungrammar\");", "    opts.grammar.parse().expect(\"couldn't parse ungrammar\");")], "x", "x", "x")
PLANTS.pop()
g("C41-no-grammar", [("syntax-gen/src/lib.rs", "  let grammar: Grammar = opts.grammar.parse().expect(\"couldn't parse ungrammar\");", "  // what is wrong at the end does not matter to the rest\n  let grammar: Grammar = opts\n    .grammar\n    .parse()\n    .or_else(|_| opts.grammar.rsplit_once(\"\\n\\n\").map_or(\"\", |x| x.0).parse())\n    .expect(\"couldn't parse ungrammar\");")],
  "Pat\\n\\nY = (Exp", "a grammar whose last paragraph is wrong", "the paragraph is ignored")
g("C41-odd-keyword", [(ST, "        name = identifier_case::snake_to_pascal(orig_name);", "        name = identifier_case::snake_to_pascal(orig_name);\n        name.retain(|c| c != '-');")],
  "Exp 'a-b'", "a keyword with a hyphen", "the hyphen is dropped, as if it were another keyword")
