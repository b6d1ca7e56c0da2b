//! Generates kinds for several grammars, the way users do.

use std::collections::HashMap;
use std::fmt::Write as _;

const N: usize = 8;

fn main() {
  println!("cargo::rerun-if-env-changed=VERIF_SEED");
  println!("cargo::rerun-if-changed=build.rs");
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
  let mut state = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
  let mut below = |n: u64| {
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    (state >> 11) % n
  };
  let out = std::env::var("OUT_DIR").expect("OUT_DIR");
  let mut table = String::new();
  for i in 0..N {
    let trivia: Vec<&str> = ["Whitespace", "Comment", "Invalid"][..below(4) as usize].to_vec();
    let toks = match i {
      0 => 0,
      1 => 1,
      2 => 254,
      3 => 300,
      _ => below(40) as usize,
    };
    let nodes = 1 + below(6) as usize;
    let mut grammar = String::new();
    for n in 0..nodes {
      let name: String = if n == 0 { "Root".to_owned() } else { format!("Node{}", (b'A' + n as u8) as char) };
      let _ = write!(grammar, "{name} = Root?");
      for t in (0..toks).filter(|t| t % nodes == n) {
        // a special token now and then
        let _ = if t % 7 == 3 { write!(grammar, " 'Tok{t}'") } else { write!(grammar, " 'kw_{t}'") };
      }
      grammar.push('\n');
    }
    let names: Vec<String> = (0..toks).filter(|t| t % 7 == 3).map(|t| format!("Tok{t}")).collect();
    let special: HashMap<&str, &str> = names.iter().map(|x| (x.as_str(), "special")).collect();
    let dir = format!("{out}/g{i}");
    std::fs::create_dir_all(&dir).expect("create dir");
    // SAFETY: a build script with one thread
    unsafe { std::env::set_var("OUT_DIR", &dir) };
    syntax_gen::get(&syntax_gen::Options {
      lang: "Lang",
      trivia: &trivia,
      grammar: &grammar,
      doc: &HashMap::new(),
      special: &special,
      file: "build.rs",
    });
    let count = trivia.len() + toks + nodes;
    let _ = write!(
      table,
      "#[allow(warnings)] pub mod g{i} {{ pub mod kind {{ include!(concat!(env!(\"OUT_DIR\"), \"/g{i}/kind.rs\")); }} pub const COUNT: u16 = {count}; }}\n"
    );
  }
  let all: Vec<String> = (0..N).map(|i| format!("Gram {{ count: g{i}::COUNT, see: see::<g{i}::kind::Lang>, walk: walk::<g{i}::kind::Lang> }}")).collect();
  let _ = write!(table, "pub static ALL: [Gram; {N}] = [{}];\n", all.join(", "));
  std::fs::write(format!("{out}/table.rs"), table).expect("write");
}
