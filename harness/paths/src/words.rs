//! Paths as byte strings, and what their normal form is.

use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt as _;
use std::path::Path;
use vmon::Ctx;

pub fn path(b: &[u8]) -> &Path {
  Path::new(OsStr::from_bytes(b))
}

pub fn bytes(p: &Path) -> &[u8] {
  p.as_os_str().as_bytes()
}

/// The components of the normal form of an absolute path.
pub fn parts(b: &[u8]) -> Vec<Vec<u8>> {
  let mut out: Vec<Vec<u8>> = Vec::new();
  for w in b.split(|&c| c == b'/') {
    match w {
      b"" | b"." => {}
      b".." => {
        out.pop();
      }
      _ => out.push(w.to_vec()),
    }
  }
  out
}

pub fn show(parts: &[Vec<u8>]) -> Vec<u8> {
  if parts.is_empty() {
    return b"/".to_vec();
  }
  let mut out = Vec::new();
  for p in parts {
    out.push(b'/');
    out.extend_from_slice(p);
  }
  out
}

pub fn name(cx: &mut Ctx) -> Vec<u8> {
  match cx.below(16) {
    14 | 15 => {
      // what other systems, shells and encodings read something into
      let odd = [
        "%2e%2e", "%2E%2E", "%2e", "%2f", "%2F..", "..%2f", "..%00", "%5c", "%20", "$HOME", "${X}", "%APPDATA%", "*", "?", "[a]", "{a,b}", "-x", "--", "…",
        "．．", "．", "․․", "....", ". ", " .", ".. ", " ..", "..\\", "..\\..", "\\..", "a\\", "\\a", "..\u{200b}", "\u{feff}..", "..\0", "..\n", "\t", "\n", " ", "..;",
        ";", "..:", ":", "::", "a:b", "C:\\", "c|", "CON", "nul", "AUX.txt", "~user", "~+", "~-", "@", "#", "..#", "a..", "a.", ".a.", "..a..", "A", "a", "e\u{301}", "\u{e9}", "/\u{338}"
          .trim_start_matches('/'), "∕", "file:", "http:", "verbatim", "\\\\?\\C:", "..." , "0", "\u{202e}..", "'", "\"", "`", "&", "(", "!", "^",
      ];
      odd[cx.idx(odd.len())].as_bytes().to_vec()
    }
    0 => b"...".to_vec(),
    1 => b".hidden".to_vec(),
    2 => b"..x".to_vec(),
    3 => "é😀".as_bytes().to_vec(),
    4 => vec![0xff, 0xfe],
    5 => b"a b".to_vec(),
    6 => b"x.txt".to_vec(),
    7 => b"\\".to_vec(),
    8 => b"C:".to_vec(),
    9 => {
      // long ones, in every encoding
      let most = if cx.chance(1, 4) { 700 } else { 200 };
      let n = 1 + cx.size(most);
      let w = match cx.below(4) {
        0 => &[0xff][..],
        1 => "é".as_bytes(),
        _ => b"n",
      };
      let mut s = w.repeat(n as usize);
      if cx.chance(1, 4) {
        s.push(0xc3);
      }
      s
    }
    10 => b"~".to_vec(),
    r => vec![b'a' + r as u8 - 11],
  }
}

/// Any path, absolute or not.
pub fn any(cx: &mut Ctx) -> Vec<u8> {
  let mut out = Vec::new();
  if cx.chance(2, 3) {
    out.push(b'/');
    if cx.chance(1, 8) {
      out.push(b'/');
    }
  }
  let n = if cx.chance(1, 60) { cx.size(400) } else { cx.below(8) };
  for _ in 0..n {
    match cx.below(8) {
      0 | 1 => out.extend_from_slice(b".."),
      2 => out.push(b'.'),
      3 => {}
      _ => out.extend(name(cx)),
    }
    if !cx.chance(1, 8) {
      out.push(b'/');
    }
  }
  if cx.chance(1, 3) && out.last() == Some(&b'/') {
    out.pop();
  }
  out
}
