//! C17: the two file systems.

use crate::faults::{self, Plan};
use crate::words;
use paths::{CleanPathBuf, FileSystem, MemoryFileSystem, RealFileSystem};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vmon::{Ctx, fnv, need, same, tr, vio};

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A directory for one case that goes away with it.
struct Scratch(PathBuf);

impl Scratch {
  fn new() -> Self {
    let base = std::env::var_os("VMON_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let dir = base.join(format!("vmon-paths-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("make a scratch directory");
    // no symbolic links in the name
    Scratch(dir.canonicalize().expect("the scratch directory"))
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

fn file_name(cx: &mut Ctx) -> Vec<u8> {
  match cx.below(16) {
    12 | 13 => {
      let odd = [
        "a~", ".a.swp", "#a#", ".#a", "x.bak", "x.tmp", "x.orig", ".DS_Store", "Thumbs.db", "desktop.ini", "node_modules", ".git", ".gitignore",
        "target", "CON", "nul", "a.", "a ", " a", "-x", "a\nb", "a\tb", "*", "?", "a\\b", "C:", "..a", "a..", "....", "~", "$HOME", "%41", "e\u{301}", "\u{feff}",
        "A.TXT", "a.TXT", "a.txt~", "a.txt.txt", "lost+found", "__pycache__", "x.lock", "core", "\u{202e}x", "0", "00", "a;b", "'", "\"",
      ];
      odd[cx.idx(odd.len())].as_bytes().to_vec()
    }
    14 => vec![b'L'; 253 + cx.idx(3)],
    15 => vec![1 + cx.below(31) as u8],
    0 => b"a.txt".to_vec(),
    1 => b"a".to_vec(),
    2 => b"ab".to_vec(),
    3 => b"b".to_vec(),
    4 => b".hidden".to_vec(),
    5 => b"a b".to_vec(),
    6 => "é".as_bytes().to_vec(),
    7 => b"...".to_vec(),
    8 => vec![b'z', 0xff],
    9 => vec![b'l'; 1 + cx.idx(250)],
    10 => b"B".to_vec(),
    _ => vec![b'a' + cx.below(4) as u8],
  }
}

fn content(cx: &mut Ctx) -> String {
  match cx.below(8) {
    0 => String::new(),
    1 => "line\r\nline\r\n".to_owned(),
    2 => "\u{feff}with a mark".to_owned(),
    3 => "a\0b\n\n".to_owned(),
    4 => {
      let n = cx.size(20_000) as usize;
      "0123456789\n".repeat(n / 11 + 1)
    }
    _ => {
      let n = cx.size(40);
      cx.text(n)
    }
  }
}

/// Relative paths of files, as components.
fn layout(cx: &mut Ctx) -> BTreeMap<Vec<Vec<u8>>, String> {
  let mut files: BTreeMap<Vec<Vec<u8>>, String> = BTreeMap::new();
  for _ in 0..1 + cx.size(12) {
    let mut p: Vec<Vec<u8>> = Vec::new();
    if !files.is_empty() && cx.chance(1, 2) {
      // near another one
      let keys: Vec<_> = files.keys().cloned().collect();
      let other = cx.pick(&keys);
      let n = cx.idx(other.len());
      p.extend_from_slice(&other[..n]);
    }
    for _ in 0..cx.below(4) {
      p.push(file_name(cx));
    }
    p.push(file_name(cx));
    let clash = files.keys().any(|k| k != &p && (k.starts_with(&p) || p.starts_with(k)));
    let long: usize = p.iter().map(|x| x.len() + 1).sum();
    if !clash && long < 2000 {
      let c = content(cx);
      files.insert(p, c);
    }
  }
  files
}

fn under(base: &Path, p: &[Vec<u8>]) -> PathBuf {
  let mut out = base.to_owned();
  for c in p {
    out.push(words::path(c));
  }
  out
}

/// The same path written with more separators and dots inside.
fn rough(cx: &mut Ctx, base: &Path, p: &[Vec<u8>]) -> PathBuf {
  let mut b = words::bytes(base).to_vec();
  for c in p {
    b.extend_from_slice(*cx.pick(&[&b"/"[..], b"//", b"/./"]));
    b.extend_from_slice(c);
  }
  words::path(&b).to_owned()
}

fn dirs(files: &BTreeMap<Vec<Vec<u8>>, String>) -> BTreeMap<Vec<Vec<u8>>, BTreeSet<Vec<u8>>> {
  let mut out: BTreeMap<_, BTreeSet<_>> = BTreeMap::new();
  for k in files.keys() {
    for n in 0..k.len() {
      out.entry(k[..n].to_vec()).or_default().insert(k[n].clone());
    }
  }
  out
}

fn listing(fs: &dyn FileSystem, p: &Path, which: &str) -> Option<BTreeSet<PathBuf>> {
  let got = fs.read_dir(p).ok()?;
  let n = got.len();
  let set: BTreeSet<PathBuf> = got.iter().cloned().collect();
  need!(set.len() == n, "the {which} file system lists entries of {p:?} more than once: {got:?}");
  Some(set)
}

fn answers(cx: &mut Ctx, real: &dyn FileSystem, mem: &dyn FileSystem, p: &Path) {
  same!(mem.is_file(p), real.is_file(p), "is_file({p:?}), in-memory and real");
  let (a, b) = (mem.read_to_string(p), real.read_to_string(p));
  same!(a.is_ok(), b.is_ok(), "whether {p:?} can be read as text, in-memory and real");
  if let (Ok(a), Ok(b)) = (&a, &b) {
    same!(a, b, "the text of {p:?}, in-memory and real");
  }
  let (a, b) = (mem.read_to_bytes(p), real.read_to_bytes(p));
  same!(a.is_ok(), b.is_ok(), "whether {p:?} can be read as bytes, in-memory and real");
  if let (Ok(a), Ok(b)) = (&a, &b) {
    same!(a, b, "the bytes of {p:?}, in-memory and real");
    cx.count("files read", 1);
  }
  cx.count("paths queried", 1);
}

/// The real one passes on what the operating system says, failures included.
fn passes_on(cx: &mut Ctx, real: &dyn FileSystem, p: &Path) {
  let kind = |e: &std::io::Error| e.kind();
  same!(
    real.read_to_bytes(p).map_err(|e| kind(&e)),
    std::fs::read(p).map_err(|e| kind(&e)),
    "the bytes of {p:?}, real and from the operating system"
  );
  same!(
    real.read_to_string(p).map_err(|e| kind(&e)),
    std::fs::read_to_string(p).map_err(|e| kind(&e)),
    "the text of {p:?}, real and from the operating system"
  );
  same!(real.is_file(p), std::fs::metadata(p).is_ok_and(|m| m.is_file()), "whether {p:?} is a file, real and from the operating system");
  let want = std::fs::read_dir(p).map_err(|e| kind(&e)).map(|it| it.map(|x| x.expect("an entry").path()).collect::<BTreeSet<_>>());
  let got = real.read_dir(p).map_err(|e| kind(&e)).map(|v| {
    let n = v.len();
    let set: BTreeSet<_> = v.into_iter().collect();
    need!(set.len() == n, "the real file system lists entries of {p:?} more than once");
    set
  });
  if got.is_err() {
    cx.count("failures passed on", 1);
  }
  same!(got, want, "the entries of {p:?}, real and from the operating system");
}

/// What is neither a file nor a directory, and names for what has another.
fn odd_ones(cx: &mut Ctx, real: &dyn FileSystem, base: &Path) {
  let d = base.join("odd ones");
  std::fs::create_dir_all(&d).expect("make a directory");
  let link = |name: &str, to: &Path| {
    let l = d.join(name);
    std::os::unix::fs::symlink(to, &l).expect("make a link");
    l
  };
  let null = Path::new("/dev/null");
  let file = d.join("file");
  std::fs::write(&file, "text").expect("write a file");
  let hard = d.join("hard");
  std::fs::hard_link(&file, &hard).expect("make a hard link");
  let mut all = vec![null.to_owned(), link("null", null), link("loop", Path::new("loop")), link("relative", Path::new("./file")), link("up", Path::new("../odd ones/file")), hard];
  let mut to = PathBuf::from("file");
  for i in 0..12 {
    let l = link(&format!("chain{i}"), &to);
    to = PathBuf::from(format!("chain{i}"));
    all.push(l);
  }
  all.push(link("here", Path::new(".")));
  all.push(d.join("here/here/file"));
  all.push(d.join("here/../odd ones/file"));
  all.push(d.join("file/."));
  all.push(d.join("file/"));
  all.push(d.join("here/"));
  let sock = d.join("sock");
  let listener = std::os::unix::net::UnixListener::bind(&sock);
  if listener.is_ok() {
    all.push(link("to sock", &sock));
    all.push(sock);
  }
  for p in &all {
    passes_on(cx, real, p);
  }
  passes_on(cx, real, &d);
  let fifo = d.join("fifo");
  if std::process::Command::new("mkfifo").arg(&fifo).status().is_ok_and(|s| s.success()) {
    // (to read it would wait for a writer)
    need!(!real.is_file(&fifo), "a named pipe is a file");
  }
  cx.count("odd kinds of files", 1);
}

/// An operating system that answers in pieces, or fails in the middle.
fn in_pieces(cx: &mut Ctx, real: &RealFileSystem, p: &Path, text: &str) {
  let piece = match cx.below(4) {
    0 => 1 + cx.idx(4),
    1 => 1 + cx.idx(40),
    2 => 1 + cx.idx(text.len() + 1),
    _ => usize::MAX,
  };
  let interrupted = if cx.chance(1, 3) { 2 + cx.below(4) as u32 } else { 0 };
  let errno = *cx.pick(&[5, 13, 28, 110, 116]);
  let fails = cx.chance(1, 3).then(|| (cx.idx(text.len() + 1), errno));
  let plan = Plan { piece, interrupted, fails };
  tr!(cx, "reading {p:?} ({} bytes) with {plan:?}", text.len());
  let want = |failed: u32, got: Result<&[u8], &std::io::Error>| match got {
    // what is there has been read, whether or not something was wrong with the rest
    Ok(bs) => {
      need!(failed == 0 || bs == text.as_bytes(), "a failure of the operating system while reading {p:?} was not passed on");
      need!(bs == text.as_bytes(), "{p:?} was read as {} bytes, but has {}, when it is read in pieces", bs.len(), text.len());
    }
    Err(e) => {
      need!(failed > 0, "reading {p:?} in pieces failed: {e}");
      same!(e.kind(), std::io::Error::from_raw_os_error(errno).kind(), "the failure passed on from reading {p:?}");
    }
  };
  let (got, pieces, failed) = faults::with(plan, || real.read_to_bytes(p));
  want(failed, got.as_deref());
  cx.max("most pieces of a file", u64::from(pieces));
  let (got, _, failed2) = faults::with(plan, || real.read_to_string(p));
  want(failed2, got.as_ref().map(|s| s.as_bytes()));
  cx.count("files read in pieces", 2);
  cx.count("failures while reading", u64::from(failed > 0) + u64::from(failed2 > 0));
}

/// An operating system that fails in the middle of a directory.
fn half_listed(cx: &mut Ctx, real: &RealFileSystem, p: &Path, entries: usize) {
  let errno = *cx.pick(&[5, 2, 13, 75, 116]);
  // the two for the directory itself and that above it are entries to the operating system
  let after = cx.idx(entries + 3);
  let plan = Plan { fails: Some((after, errno)), ..Plan::NONE };
  tr!(cx, "listing {p:?} ({entries} entries) with {plan:?}");
  let (got, _, failed) = faults::with(plan, || real.read_dir(p));
  match got {
    Ok(v) => need!(failed == 0 && v.len() == entries, "a failure of the operating system while listing {p:?} was not passed on: {v:?}"),
    Err(e) => {
      need!(failed > 0, "listing {p:?} failed: {e}");
      same!(e.kind(), std::io::Error::from_raw_os_error(errno).kind(), "the failure passed on from listing {p:?}");
    }
  }
  cx.count("directories that fail in the middle", u64::from(failed > 0));
}

/// What the operating system may say the current directory is.
fn told_cwd(cx: &mut Ctx, real: &RealFileSystem) {
  let long: &'static [u8] = b"/some/directory/that/is/quite/deep/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789";
  let dirs: [&'static [u8]; 7] = [b"/", b"/a", b"/a/b c/...", b"/\xff\xfe/\x80", b"/(unreachable)/x", b"/..a/b..", long];
  let d: &'static [u8] = *cx.pick(&dirs);
  match faults::cwd(Ok(d), || real.current_dir()) {
    Ok(p) => same!(words::bytes(p.as_path()), d, "the current directory"),
    Err(e) => vio!("the current directory {:?} was not found: {e}", words::path(d)),
  }
  // out of reach of the root there is no absolute path
  let d: &'static [u8] = *cx.pick(&[b"(unreachable)/x".as_slice(), b"(unreachable)", b"x"]);
  if let Ok(p) = faults::cwd(Ok(d), || real.current_dir()) {
    vio!("the unreachable directory {:?} was given as {p:?}", words::path(d));
  }
  let errno = *cx.pick(&[2, 13, 5, 12]);
  match faults::cwd(Err(errno), || real.current_dir()) {
    Ok(p) => vio!("the current directory could not be found, but was given as {p:?}"),
    Err(e) => same!(e.kind(), std::io::Error::from_raw_os_error(errno).kind(), "the failure passed on from finding the current directory"),
  }
  cx.count("current directories told", 3);
}

pub fn case(cx: &mut Ctx) {
  let files = layout(cx);
  let scratch = Scratch::new();
  let base = scratch.0.as_path();
  let real = RealFileSystem::default();
  let mut inner = BTreeMap::new();
  for (k, v) in &files {
    let p = under(base, k);
    tr!(cx, "file {p:?}: {} bytes", v.len());
    std::fs::create_dir_all(p.parent().expect("a parent")).expect("make a directory");
    std::fs::write(&p, v).expect("write a file");
    inner.insert(CleanPathBuf::new(&p).unwrap_or_else(|| vio!("{p:?} has no clean form")), v.clone());
  }
  let mem = MemoryFileSystem::new(inner);
  let dirs = dirs(&files);
  for (k, v) in &files {
    let p = under(base, k);
    answers(cx, &real, &mem, &p);
    let r = rough(cx, base, k);
    answers(cx, &real, &mem, &r);
    need!(mem.is_file(&p), "the file {p:?} is not a file");
    same!(real.read_to_bytes(&p).ok(), Some(v.clone().into_bytes()), "the real bytes of {p:?}");
    same!(mem.read_to_string(&p).ok(), Some(v.clone()), "the in-memory text of {p:?}");
    // below a file there is nothing
    let n = file_name(cx);
    answers(cx, &real, &mem, &p.join(words::path(&n)));
  }
  for (k, names) in &dirs {
    let p = if cx.chance(1, 4) { rough(cx, base, k) } else { under(base, k) };
    answers(cx, &real, &mem, &p);
    let want: BTreeSet<PathBuf> = names.iter().map(|n| p.join(words::path(n))).collect();
    same!(listing(&real, &p, "real"), Some(want.clone()), "the entries of {p:?} in the real file system");
    same!(listing(&mem, &p, "in-memory"), Some(want), "the entries of {p:?} in the in-memory file system");
    cx.count("directories listed", 1);
    // near misses
    let n = file_name(cx);
    answers(cx, &real, &mem, &p.join(words::path(&n)));
    let mut almost = words::bytes(&p).to_vec();
    almost.pop();
    if almost.len() > words::bytes(base).len() {
      answers(cx, &real, &mem, words::path(&almost));
    }
  }
  if faults::ABLE && cx.chance(1, 2) {
    for (k, v) in &files {
      in_pieces(cx, &real, &under(base, k), v);
    }
    for (k, names) in &dirs {
      half_listed(cx, &real, &under(base, k), names.len());
    }
    told_cwd(cx, &real);
  }
  // not text
  if cx.chance(1, 4) {
    let p = base.join("not text");
    let b: Vec<u8> = (0..cx.size(60)).map(|_| cx.below(256) as u8).chain([0xff]).collect();
    std::fs::write(&p, &b).expect("write a file");
    need!(real.read_to_string(&p).is_err(), "a file that is not UTF-8 was read as text");
    same!(real.read_to_bytes(&p).ok(), Some(b), "the bytes of a file that is not UTF-8");
    need!(real.is_file(&p), "a file that is not UTF-8 is not a file");
  }
  // links, and what is not there
  if cx.chance(1, 3) {
    let keys: Vec<_> = files.keys().collect();
    let k = cx.pick(&keys);
    let file = under(base, k);
    let dir = file.parent().expect("a parent").to_owned();
    let missing = dir.join("not there");
    for (name, to) in [("link to a file", &file), ("link to a directory", &dir), ("link to nothing", &missing)] {
      let l = base.join(name);
      if l.symlink_metadata().is_err() {
        std::os::unix::fs::symlink(to, &l).expect("make a link");
      }
      passes_on(cx, &real, &l);
    }
    passes_on(cx, &real, &file);
    passes_on(cx, &real, &dir);
    passes_on(cx, &real, &missing);
    passes_on(cx, &real, &missing.join("below"));
    passes_on(cx, &real, &file.join("below"));
    passes_on(cx, &real, Path::new(""));
    passes_on(cx, &real, &dir.join("l".repeat(300)));
    passes_on(cx, &real, &dir.join("a\0b"));
    passes_on(cx, &real, base);
    odd_ones(cx, &real, base);
  }
  // where we are
  if cx.chance(1, 8) {
    let old = std::env::current_dir().expect("a current directory");
    let keys: Vec<_> = dirs.keys().collect();
    let k = cx.pick(&keys);
    let p = under(base, k);
    std::env::set_current_dir(&p).expect("go to a directory");
    let got = real.current_dir();
    let gone = cx.chance(1, 4);
    if gone {
      let _ = std::fs::remove_dir_all(base);
    }
    let lost = real.current_dir();
    std::env::set_current_dir(old).expect("go back");
    match got {
      Ok(d) => same!(words::bytes(d.as_path()), words::bytes(&p), "the current directory"),
      Err(e) => vio!("the current directory {p:?} was not found: {e}"),
    }
    if gone {
      need!(lost.is_err(), "a current directory that was removed is reported as {lost:?}");
    }
    cx.count("current directories", 1);
  }
  match mem.current_dir() {
    Ok(d) => same!(words::bytes(d.as_path()), b"/".as_slice(), "the in-memory current directory"),
    Err(e) => vio!("there is no in-memory current directory: {e}"),
  }
  at_root(cx, &files);
  let prefix = files.keys().any(|a| files.keys().any(|b| a != b && a.last().zip(b.last()).is_some_and(|(x, y)| y.starts_with(x))));
  if prefix && dirs.len() > 1 {
    cx.nontrivial(fnv(format!("{files:?}").as_bytes()));
  }
}

/// The same tree right under the root, where only the in-memory one can have it.
fn at_root(cx: &mut Ctx, files: &BTreeMap<Vec<Vec<u8>>, String>) {
  let root = Path::new("/");
  let mut mem = MemoryFileSystem::default();
  for (k, v) in files {
    let p = CleanPathBuf::new(under(root, k)).unwrap_or_else(|| vio!("no clean form"));
    mem.inner.insert(p, v.clone());
  }
  for (k, names) in dirs(files) {
    let p = under(root, &k);
    let want: BTreeSet<PathBuf> = names.iter().map(|n| p.join(words::path(n))).collect();
    same!(listing(&mem, &p, "in-memory"), Some(want), "the entries of {p:?} in the in-memory file system");
    need!(!mem.is_file(&p), "the directory {p:?} is a file");
    need!(mem.read_to_string(&p).is_err(), "the directory {p:?} can be read");
    cx.count("directories listed", 1);
  }
  for (k, v) in files {
    let p = under(root, k);
    need!(mem.is_file(&p), "the file {p:?} is not a file");
    same!(mem.read_to_bytes(&p).ok(), Some(v.clone().into_bytes()), "the bytes of {p:?}");
    same!(mem.read_to_string(&p).ok(), Some(v.clone()), "the text of {p:?}");
  }
}

pub fn fixed(cx: &mut Ctx) {
  if cx.mine(0, true) {
    cx.at(|| "a directory of 300 files and one file of 3 MB".to_owned());
    one_large(cx);
  }
  if cx.mine(1, true) {
    cx.at(|| "a directory of 5000 entries".to_owned());
    many_entries(cx, 5000);
  }
  if cx.mine(2, true) {
    cx.at(|| "directories 400 levels deep".to_owned());
    deep(cx, 400);
  }
  if cx.mine(4, true) {
    cx.at(|| "files of many sizes that begin and end in odd ways".to_owned());
    odd_ends(cx);
  }
  if cx.mine(3, true) {
    cx.at(|| "an in-memory directory of many entries".to_owned());
    many_in_memory(cx, if cx.thorough { 70_000 } else { 6000 });
  }
}

fn odd_ends(cx: &mut Ctx) {
  let scratch = Scratch::new();
  let base = scratch.0.as_path();
  let real = RealFileSystem::default();
  let mut mem = MemoryFileSystem::default();
  let ends = ["", "\0", "\0\0", "\n", "\n\n", "\r\n", "\r", " ", "\t", "\u{feff}", "\u{1a}", "\u{4}", "\u{a0}", "\u{2028}", "é", "\u{10ffff}", "\u{fffd}"];
  let mut all = Vec::new();
  for n in [1usize, 511, 512, 513, 1023, 1024, 2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537, 140_000] {
    for (i, &e) in ends.iter().enumerate() {
      // the same at the start, in the middle, and at the end
      for place in 0..4 {
        if place != i % 4 && place != 2 && n > 3000 {
          continue;
        }
        let (a, b) = ("x".repeat(n / 2), "y\n".repeat(n / 4));
        let text = match place {
          0 => format!("{e}{a}{b}"),
          1 => format!("{a}{e}{b}"),
          2 => format!("{a}{b}{e}"),
          _ => format!("{e}{a}{e}{b}{e}"),
        };
        let p = base.join(format!("d/{n}-{i}-{place}"));
        std::fs::create_dir_all(p.parent().expect("a parent")).expect("make a directory");
        std::fs::write(&p, &text).expect("write a file");
        mem.inner.insert(CleanPathBuf::new(&p).expect("a clean path"), text);
        all.push(p);
      }
    }
  }
  // nothing but one thing
  for n in [1usize, 100, 3000, 70_000] {
    for (i, &e) in ends.iter().enumerate() {
      let p = base.join(format!("d/only-{n}-{i}"));
      let text = e.repeat(n);
      std::fs::write(&p, &text).expect("write a file");
      mem.inner.insert(CleanPathBuf::new(&p).expect("a clean path"), text);
      all.push(p);
    }
  }
  for p in &all {
    answers(cx, &real, &mem, p);
    let want = &mem.inner[&CleanPathBuf::new(p).expect("a clean path")];
    need!(real.read_to_string(p).ok().as_ref() == Some(want), "the text of {p:?}, which starts with {:?}, is not what was written", want.chars().next());
  }
  cx.count("files with odd ends", all.len() as u64);
}

fn many_entries(cx: &mut Ctx, n: usize) {
  let scratch = Scratch::new();
  let base = scratch.0.as_path();
  let real = RealFileSystem::default();
  let mut mem = MemoryFileSystem::default();
  let mut want = BTreeSet::new();
  let d = base.join("d");
  std::fs::create_dir_all(&d).expect("make a directory");
  for i in 0..n {
    let p = d.join(format!("{i}"));
    if i % 5 == 0 {
      std::fs::create_dir(&p).expect("make a directory");
      mem.inner.insert(CleanPathBuf::new(p.join("x")).expect("a clean path"), String::new());
      if i % 50 == 0 {
        std::fs::write(p.join("x"), "").expect("write a file");
      }
    } else {
      std::fs::write(&p, "").expect("write a file");
      mem.inner.insert(CleanPathBuf::new(&p).expect("a clean path"), String::new());
    }
    want.insert(p);
  }
  same!(listing(&real, &d, "real").map(|x| x.len()), Some(n), "the number of entries of a real directory");
  need!(listing(&real, &d, "real").as_ref() == Some(&want), "the entries of a real directory of {n} are others");
  same!(listing(&mem, &d, "in-memory").map(|x| x.len()), Some(n), "the number of entries of an in-memory directory");
  need!(listing(&mem, &d, "in-memory").as_ref() == Some(&want), "the entries of an in-memory directory of {n} are others");
  cx.count("entries in large directories", n as u64);
}

fn many_in_memory(cx: &mut Ctx, n: usize) {
  let mut mem = MemoryFileSystem::default();
  let mut want = BTreeSet::new();
  let d = Path::new("/some/where");
  for i in 0..n {
    let p = d.join(format!("{i}"));
    // some directories with many files
    let files = if i % 1000 == 0 { 300 } else { 0 };
    for j in 0..files {
      mem.inner.insert(CleanPathBuf::new(p.join(format!("{j}/x"))).expect("a clean path"), format!("{j}"));
    }
    if files == 0 {
      mem.inner.insert(CleanPathBuf::new(&p).expect("a clean path"), format!("{i}"));
    }
    want.insert(p);
  }
  same!(listing(&mem, d, "in-memory").map(|x| x.len()), Some(n), "the number of entries of an in-memory directory");
  need!(listing(&mem, d, "in-memory").as_ref() == Some(&want), "the entries of an in-memory directory of {n} are others");
  for i in [1, 255, 256, 4095, 4096, n - 1] {
    let p = d.join(format!("{i}"));
    need!(mem.is_file(&p), "the file {p:?} is not a file");
    same!(mem.read_to_string(&p).ok(), Some(format!("{i}")), "the text of {p:?}");
  }
  for (dir, sub) in [("0", 300), ("5000", 300)] {
    same!(listing(&mem, &d.join(dir), "in-memory").map(|x| x.len()), Some(sub), "the number of entries of a directory among many");
  }
  cx.count("entries in large directories", n as u64);
}

fn deep(cx: &mut Ctx, levels: usize) {
  let scratch = Scratch::new();
  let base = scratch.0.as_path();
  let real = RealFileSystem::default();
  let mut mem = MemoryFileSystem::default();
  let mut p = base.to_owned();
  let mut all = Vec::new();
  for i in 0..levels {
    p.push(format!("{}", i % 10));
    all.push(p.clone());
  }
  std::fs::create_dir_all(&p).expect("make directories");
  for (i, d) in all.iter().enumerate() {
    if i % 3 == 0 || i + 1 == levels {
      let f = d.join("f");
      std::fs::write(&f, format!("{i}")).expect("write a file");
      mem.inner.insert(CleanPathBuf::new(&f).expect("a clean path"), format!("{i}"));
    }
  }
  for d in &all {
    answers(cx, &real, &mem, d);
    answers(cx, &real, &mem, &d.join("f"));
    same!(listing(&mem, d, "in-memory"), listing(&real, d, "real"), "the entries of {d:?}");
    cx.count("directories listed", 1);
  }
}

fn one_large(cx: &mut Ctx) {
  let scratch = Scratch::new();
  let base = scratch.0.as_path();
  let real = RealFileSystem::default();
  let mut mem = MemoryFileSystem::default();
  for i in 0..300 {
    let p = base.join(format!("d/f{i}"));
    let text = if i == 7 { "é\r\n".repeat(750_000) } else { format!("{i}\n") };
    std::fs::create_dir_all(p.parent().expect("a parent")).expect("make a directory");
    std::fs::write(&p, &text).expect("write a file");
    mem.inner.insert(CleanPathBuf::new(&p).expect("a clean path"), text);
  }
  for i in 0..300 {
    answers(cx, &real, &mem, &base.join(format!("d/f{i}")));
  }
  let d = base.join("d");
  same!(listing(&mem, &d, "in-memory"), listing(&real, &d, "real"), "the entries of a large directory");
}
