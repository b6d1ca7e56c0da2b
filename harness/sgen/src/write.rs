//! Files that are written.

use crate::compile::Scratch;
use crate::faults::{self, Plan};
use crate::gram::gen_gram;
use crate::{generate, generate_with};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::path::Path;
use vmon::{Ctx, catch, fnv, need, same, tr, vio};

/// A hasher that orders maps in one of many ways.
#[derive(Clone)]
struct Mixed(u64);

struct MixedHasher(u64, u64);

impl BuildHasher for Mixed {
  type Hasher = MixedHasher;
  fn build_hasher(&self) -> MixedHasher {
    MixedHasher(self.0, self.0)
  }
}

impl Hasher for MixedHasher {
  fn finish(&self) -> u64 {
    fnv(&(self.0 ^ self.1).to_le_bytes())
  }
  fn write(&mut self, b: &[u8]) {
    for &x in b {
      self.0 = self.0.wrapping_mul(0x100_0000_01b3) ^ u64::from(x);
    }
  }
}

fn read_all(dir: &Path) -> BTreeMap<String, Vec<u8>> {
  let mut out = BTreeMap::new();
  for e in std::fs::read_dir(dir).expect("scratch") {
    let e = e.expect("scratch");
    out.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
  }
  out
}

fn generations(cx: &mut Ctx) {
  let (r, t) = (1 + cx.below(12), cx.below(30));
  let g = gen_gram(cx, r, t);
  tr!(cx, "{}", g.text);
  let a = Scratch::new();
  generate(&g, &a.0);
  let first = read_all(&a.0);
  same!(first.keys().map(String::as_str).collect::<Vec<_>>(), ["ast.rs", "kind.rs"], "files written");
  let rounds = 2 + cx.below(3);
  for i in 0..rounds {
    let b = Scratch::new();
    let mut others = BTreeMap::new();
    if cx.chance(1, 2) {
      for (k, v) in &first {
        stale(cx, &b.0.join(k), v);
      }
    } else if cx.chance(1, 2) {
      // older files: longer and shorter ones, and some that are none of its business
      let n = cx.below(200_000) as usize;
      let _ = std::fs::write(b.0.join("ast.rs"), vec![b'/'; n]);
      let _ = std::fs::write(b.0.join("kind.rs"), b"old");
      for name in ["kind.rs.bak", "mod.rs", "ast"] {
        let _ = std::fs::write(b.0.join(name), name);
        others.insert(name.to_owned(), name.as_bytes().to_vec());
      }
    }
    let seed = cx.u64();
    let mut doc = HashMap::with_hasher(Mixed(seed));
    let mut special = HashMap::with_hasher(Mixed(seed));
    let mut ds: Vec<_> = g.docs.iter().collect();
    let mut ss: Vec<_> = g.special.iter().collect();
    if cx.chance(1, 2) {
      ds.reverse();
      ss.reverse();
      doc.reserve(1000);
    }
    doc.extend(ds.into_iter().map(|(a, b)| (a.as_str(), b.as_str())));
    special.extend(ss.into_iter().map(|(a, b)| (a.as_str(), b.as_str())));
    if i == 0 {
      generate(&g, &b.0);
    } else {
      generate_with(&g, &b.0, &doc, &special);
    }
    let mut got = read_all(&b.0);
    for (k, v) in &others {
      same!(got.remove(k), Some(v.clone()), "the file {k} that was there before");
    }
    if got != first {
      for (k, v) in &first {
        let w = got.get(k).cloned().unwrap_or_default();
        let at = v.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(v.len().min(w.len()));
        if *v != w {
          let cut = |x: &[u8]| String::from_utf8_lossy(&x[at.saturating_sub(60)..x.len().min(at + 60)]).into_owned();
          vio!("generating again gave a different {k}, at byte {at}: {:?} and {:?}", cut(v), cut(&w));
        }
      }
      vio!("generating again wrote {:?}", got.keys().collect::<Vec<_>>());
    }
    cx.count("generations compared", 1);
  }
  if g.rules.len() > 1 {
    cx.nontrivial(fnv(g.text.as_bytes()));
  }
}

/// Turns the contents of a file into others that resemble them, with some time of change.
fn stale(cx: &mut Ctx, path: &Path, old: &[u8]) {
  let mut b = old.to_vec();
  let at = match cx.below(4) {
    0 => 0,
    1 => b.len() - 1,
    2 => b.len() / 2,
    _ => cx.below(b.len() as u64) as usize,
  };
  let how = cx.below(6);
  match how {
    0 | 1 => b[at] ^= 1,
    2 => b.truncate(at),
    3 => b.extend_from_slice(b"// the end\n"),
    4 => b.reverse(),
    _ => {
      // another file of the same length whose beginning is the same
      let k = b.len();
      b[at..k].fill(b' ');
    }
  }
  tr!(cx, "old contents: way {how} at {at}");
  std::fs::write(path, &b).expect("scratch");
  let f = std::fs::File::options().write(true).open(path).expect("scratch");
  let hour = std::time::Duration::from_secs(3600);
  let now = std::time::SystemTime::now();
  match cx.below(3) {
    0 => f.set_modified(now + hour).expect("scratch"),
    1 => f.set_modified(now - hour).expect("scratch"),
    _ => {}
  }
  cx.count("similar contents replaced", 1);
}

fn ident(cx: &mut Ctx) -> String {
  format!("{}{}", cx.pick(&["a", "foo", "the_x", "r#type", "_u", "Zed", "é"]), cx.below(30))
}

fn lit(cx: &mut Ctx) -> String {
  match cx.below(10) {
    6 | 7 => {
      // several lines, with what formatting would touch outside of a literal
      let mut b = String::new();
      for _ in 0..1 + cx.size(8) {
        b.push_str(cx.pick(&["\n", "\n\n\n", "a", "  ", "\t", "// x", "/* y */", "/// z", "{", "}", ";", "let x  =  1", "# [doc]", " \n", "\n ", ",\n)", "é", "use a ;", "fn  f ( ) { }", "0"]));
      }
      match cx.below(5) {
        0 => format!("r\"{b}\""),
        1 => format!("r##\"{b}\"##"),
        2 => format!("b\"{}\"", b.replace('é', "e")),
        3 => format!("br#\"{}\"#", b.replace('é', "e")),
        _ => format!("\"{b}\""),
      }
    }
    8 => (*cx.pick(&["0b1010_u8", "0o17", "1_000_000", "1e10_f64", "0xFFu8", "0xffU8", "1.", "0.10", "1E5", "b'x'", "b'\\''", "'\\u{1F600}'", "'\\''", "\"\\u{e9}\\\\\"", "00", "1f32"])).to_owned(),
    0 => format!("{}", cx.u64()),
    1 => format!("{:#x}_u64", cx.u64()),
    2 => {
      let k = cx.size(80);
      format!("{:?}", cx.text(k))
    }
    3 => format!("b{:?}", "bytes\n\0"),
    4 => format!("{:?}", cx.ch()),
    5 => "r#\"raw \"text\"\"#".to_owned(),
    _ => "1.5e3".to_owned(),
  }
}

fn ty(cx: &mut Ctx, depth: u64) -> String {
  if depth == 0 {
    return (*cx.pick(&["u8", "String", "Self", "crate::a::B", "()"])).to_owned();
  }
  match cx.below(6) {
    0 => format!("Option<{}>", ty(cx, depth - 1)),
    1 => format!("&'static {}", ty(cx, depth - 1)),
    2 => format!("[{}; 3]", ty(cx, depth - 1)),
    3 => format!("({}, {})", ty(cx, depth - 1), ty(cx, depth - 1)),
    4 => format!("HashMap<{}, {}>", ty(cx, depth - 1), ty(cx, depth - 1)),
    _ => ty(cx, 0),
  }
}

fn expr(cx: &mut Ctx, depth: u64) -> String {
  if depth == 0 {
    return if cx.chance(1, 2) { lit(cx) } else { ident(cx) };
  }
  match cx.below(8) {
    0 => format!("{}({}, {})", ident(cx), expr(cx, depth - 1), expr(cx, depth - 1)),
    1 => format!("({} + {})", expr(cx, depth - 1), expr(cx, depth - 1)),
    2 => format!("{}.{}()", ident(cx), ident(cx)),
    3 => format!("[{}, {}]", expr(cx, depth - 1), expr(cx, depth - 1)),
    4 => format!("&{}", expr(cx, 0)),
    5 => format!("{}?", ident(cx)),
    6 => format!("if {} {{ {} }} else {{ {} }}", ident(cx), expr(cx, depth - 1), expr(cx, depth - 1)),
    _ => format!("({}, {})", expr(cx, depth - 1), expr(cx, depth - 1)),
  }
}

fn item(cx: &mut Ctx) -> String {
  match cx.below(10) {
    0 => format!("pub struct {} {{ pub {}: {}, {}: {} }}", ident(cx), ident(cx), ty(cx, 2), ident(cx), ty(cx, 1)),
    1 => format!("#[derive(Debug, Clone)] pub enum {} {{ {}, {}({}) }}", ident(cx), ident(cx), ident(cx), ty(cx, 2)),
    2 => format!("pub const {}: {} = {};", ident(cx), ty(cx, 1), lit(cx)),
    3 => format!("fn {}({}: {}) -> {} {{ let {} = {}; {} }}", ident(cx), ident(cx), ty(cx, 2), ty(cx, 1), ident(cx), expr(cx, 2), expr(cx, 2)),
    4 => format!("mod {} {{ use std::fmt; pub type {} = {}; }}", ident(cx), ident(cx), ty(cx, 2)),
    5 => {
      let d = format!("{}{}", cx.pick(&["", " "]), cx.pick(&["words and `code`", "é 😀 {}", "one \"quoted\" \\ back"]));
      format!("#[doc = {d:?}] pub static {}: u8 = 3;", ident(cx))
    }
    6 => format!("impl {} {{ pub fn {}(&self) -> {} {{ match *self {{ Self::{} => {{ let x = {}; x }} _ => {{ let x = {}; x }} }} }} }}", ident(cx), ident(cx), ty(cx, 1), ident(cx), expr(cx, 1), expr(cx, 1)),
    7 => format!("use crate::{}::{{{}, {} as {}}};", ident(cx), ident(cx), ident(cx), ident(cx)),
    8 => format!("impl<T> {}<T> for {} where T: Clone {{ type {} = {}; }}", ident(cx), ident(cx), ident(cx), ty(cx, 1)),
    _ => format!("pub trait {} {{ fn {}(self) -> bool; const {}: u32; }}", ident(cx), ident(cx), ident(cx)),
  }
}

/// The tokens without what formatting may add or drop: commas before a closing bracket, before
/// or after a block.
fn flat(ts: TokenStream, out: &mut Vec<String>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (a, b) = match g.delimiter() {
          proc_macro2::Delimiter::Parenthesis => ("(", ")"),
          proc_macro2::Delimiter::Brace => ("{", "}"),
          proc_macro2::Delimiter::Bracket => ("[", "]"),
          proc_macro2::Delimiter::None => ("", ""),
        };
        if a == "{" && out.last().is_some_and(|x| x == ",") {
          out.pop();
        }
        out.push(a.to_owned());
        flat(g.stream(), out);
        if out.last().is_some_and(|x| x == ",") {
          out.pop();
        }
        out.push(b.to_owned());
      }
      TokenTree::Punct(p) if p.as_char() == ',' && out.last().is_some_and(|x| x == "}") => {}
      t => {
        let t = t.to_string();
        if t == ">" && out.last().is_some_and(|x| x == ",") {
          out.pop();
        }
        out.push(t);
      }
    }
  }
}

/// The parts of the file that carry meaning.
fn meaning(ts: TokenStream) -> Vec<String> {
  let mut out = Vec::new();
  flat(ts, &mut out);
  out
}

fn streams(cx: &mut Ctx) {
  let n = 1 + cx.size(25);
  let items: Vec<String> = (0..n).map(|_| item(cx)).collect();
  let src = items.join(" ");
  tr!(cx, "{src}");
  let Ok(ts) = src.parse::<TokenStream>() else { return };
  let want = meaning(ts.clone());
  let d = Scratch::new();
  let base = *cx.pick(&["out.rs", "kind.rs", "a b.rs", "x"]);
  let _ = std::fs::write(d.0.join("other.rs"), "other");
  if cx.chance(1, 2) {
    let k = cx.below(60_000) as usize;
    let _ = std::fs::write(d.0.join(base), vec![b'}'; k]);
  }
  // SAFETY: no other thread of this program looks at the environment
  unsafe { std::env::set_var("OUT_DIR", &d.0) };
  write_rs_tokens::go(ts.clone(), base);
  let once = std::fs::read(d.0.join(base)).unwrap_or_default();
  if !once.is_empty() {
    stale(cx, &d.0.join(base), &once);
    write_rs_tokens::go(ts, base);
    let twice = std::fs::read(d.0.join(base)).unwrap_or_default();
    need!(once == twice, "writing over similar contents left {:?}", String::from_utf8_lossy(&twice));
  }
  let mut files = read_all(&d.0);
  same!(files.remove("other.rs"), Some(b"other".to_vec()), "the file that was there before");
  let got = files.remove(base);
  need!(files.is_empty(), "more files were written: {:?}", files.keys().collect::<Vec<_>>());
  let Some(got) = got else { vio!("nothing was written") };
  let Ok(got) = String::from_utf8(got) else { vio!("what was written is not text") };
  let Ok(back) = got.parse::<TokenStream>() else { vio!("what was written is not Rust: {got}") };
  same!(meaning(back), want, "the tokens read back");
  need!(got.ends_with('\n') && got.lines().count() >= items.len(), "what was written is not formatted: {got}");
  cx.count("streams written", 1);
  if n > 1 {
    cx.nontrivial(fnv(src.as_bytes()));
  }
}

fn failures(cx: &mut Ctx) {
  let d = Scratch::new();
  let it = item(cx);
  let Ok(ts) = it.parse::<TokenStream>() else { return };
  let how = cx.below(7);
  let mut dir = d.0.clone();
  let mut base = "out.rs".to_owned();
  let mut stream = ts;
  match how {
    0 => dir.push("missing"),
    1 => {
      // the file is a directory
      let _ = std::fs::create_dir(d.0.join("out.rs"));
    }
    2 => {
      // the disk is full
      let _ = std::os::unix::fs::symlink("/dev/full", d.0.join("out.rs"));
    }
    3 => {
      // the directory is a file
      dir.push("f");
      let _ = std::fs::write(&dir, "x");
    }
    4 => stream = (*cx.pick(&["1 + 2", "struct", "fn f( ) -> { }", "let x = 3;", "mod m { fn }", "a b c", "pub enum E { A B }"])).parse().expect("tokens"),
    5 => base = "no/such/dir.rs".to_owned(),
    _ => {}
  }
  tr!(cx, "way {how}");
  // SAFETY: no other thread of this program looks at the environment
  unsafe {
    if how == 6 {
      std::env::remove_var("OUT_DIR");
    } else {
      std::env::set_var("OUT_DIR", &dir);
    }
  }
  if catch(|| write_rs_tokens::go(stream, &base)).is_ok() {
    vio!("writing in the impossible case {how} did not fail");
  }
  cx.count("failures noticed", 1);
  // and the generator does not hide it either
  if how <= 3 && how != 0 && cx.chance(1, 6) {
    let g = gen_gram(cx, 3, 3);
    let e = Scratch::new();
    let which = *cx.pick(&["ast.rs", "kind.rs"]);
    if cx.chance(1, 2) {
      let _ = std::fs::create_dir(e.0.join(which));
    } else {
      let _ = std::os::unix::fs::symlink("/dev/full", e.0.join(which));
    }
    if catch(|| generate(&g, &e.0)).is_ok() {
      vio!("generating without being able to write {which} did not fail");
    }
    cx.count("failures noticed", 1);
  }
}

/// What is written in pieces, with interruptions, is the same; when the space runs out on the way, that
/// is noticed.
fn pieces(cx: &mut Ctx) {
  let most = 1 << (4 + cx.below(12));
  let piece = if cx.chance(1, 3) { usize::MAX } else { 1 + cx.idx(most) };
  let interrupted = if cx.chance(1, 2) { 2 + cx.below(5) as u32 } else { 0 };
  let fails = cx.chance(1, 2).then(|| (cx.idx(most), *cx.pick(&[28, 5, 27, 122])));
  let plan = Plan { piece, interrupted, fails };
  let a = Scratch::new();
  let b = Scratch::new();
  let got;
  if cx.chance(1, 3) {
    let (r, t) = (1 + cx.below(12), cx.below(30));
    let g = gen_gram(cx, r, t);
    tr!(cx, "{}\n{plan:?}", g.text);
    generate(&g, &a.0);
    got = faults::with(plan, || catch(|| generate(&g, &b.0)));
  } else {
    let n = 1 + cx.below(30);
    let src: String = (0..n).map(|_| item(cx) + "\n").collect();
    let Ok(ts) = src.parse::<TokenStream>() else { return };
    tr!(cx, "{plan:?}\n{src}");
    // SAFETY: no other thread of this program looks at the environment
    unsafe { std::env::set_var("OUT_DIR", &a.0) };
    write_rs_tokens::go(ts.clone(), "x.rs");
    if cx.chance(1, 2) {
      let _ = std::fs::write(b.0.join("x.rs"), vec![b'/'; most]);
    }
    // SAFETY: as above
    unsafe { std::env::set_var("OUT_DIR", &b.0) };
    got = faults::with(plan, || catch(|| write_rs_tokens::go(ts, "x.rs")));
  }
  let (got, calls, failed) = got;
  match got {
    Ok(()) => {
      let (want, got) = (read_all(&a.0), read_all(&b.0));
      for (k, v) in &want {
        let w = got.get(k).map_or(0, Vec::len);
        need!(got.get(k) == Some(v), "{k} has {} bytes, but {w} (or others) when {plan:?}, and nothing failed", v.len());
      }
    }
    Err(e) => need!(failed > 0, "writing in pieces failed: {e}"),
  }
  cx.max("most calls to write", u64::from(calls));
  cx.count("writes in pieces", 1);
  cx.count("writes that failed on the way", u64::from(failed > 0));
}

/// A file of exactly so many bytes, or one whose source is: what is written may begin with a comment or the like.
fn exact(cx: &mut Ctx, n: usize, long: bool) {
  cx.at(|| format!("a file of {n} bytes ({})", if long { "one long line at the end" } else { "short lines" }));
  let more = sized(cx, n, n, long);
  if more != n && more < 2 * n {
    sized(cx, n, 2 * n - more, long);
  }
}

/// Writes a source of `size` bytes and gives the number of bytes of the file.
fn sized(cx: &mut Ctx, n: usize, size: usize, long: bool) -> usize {
  let mut s = String::new();
  let last = "const : u8 = 0;\n".len();
  while s.len() + last + 40 < if long { size / 2 } else { size } {
    s.push_str(if s.len() % 3 == 0 { "fn f() {}\n" } else { "pub const A: u32 = 0x1f;\n" });
  }
  s.push_str(&format!("const {}: u8 = 0;\n", "A".repeat(size.saturating_sub(last + s.len()).max(1))));
  let d = Scratch::new();
  // SAFETY: no other thread of this program looks at the environment
  unsafe { std::env::set_var("OUT_DIR", &d.0) };
  let ts: TokenStream = s.parse().expect("tokens");
  let want = meaning(ts.clone());
  write_rs_tokens::go(ts, "x.rs");
  let got = std::fs::read_to_string(d.0.join("x.rs")).unwrap_or_default();
  let Ok(back) = got.parse::<TokenStream>() else { vio!("what was written is not Rust") };
  need!(meaning(back) == want, "the tokens read back are not those written");
  need!(got.ends_with('\n'), "what was written ends with {:?}", got.get(got.len().saturating_sub(20)..));
  if got.len() == n {
    cx.count("files of an exact size", 1);
  }
  cx.count("sized files written", 1);
  cx.count("streams written", 1);
  got.len()
}

pub fn fixed(cx: &mut Ctx) {
  let mut no = 0;
  let mut sizes: Vec<usize> = (10..18).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
  sizes.extend([3 << 15, (3 << 15) + 1, (5 << 13) + 1, 12_289, 49_153, 1000, 10_000, 100_000]);
  for n in sizes {
    for long in [false, true] {
      no += 1;
      if cx.mine(no, true) {
        exact(cx, n, long);
      }
    }
  }
}

pub fn case(cx: &mut Ctx) {
  match cx.below(4) {
    0 => generations(cx),
    1 => streams(cx),
    2 => pieces(cx),
    _ => failures(cx),
  }
}
