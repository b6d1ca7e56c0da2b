//! Literals mined from the sources under test, so that workloads get near the constants the code
//! compares against. Only a source of interesting inputs: no verdict depends on it.

use std::path::Path;

/// The mined literals.
#[derive(Debug, Default, Clone)]
pub struct Dict {
  /// Integers.
  pub ints: Vec<u64>,
  /// Strings.
  pub strs: Vec<String>,
  /// Characters.
  pub chars: Vec<char>,
}

impl Dict {
  /// Mine every `.rs` file below the directories.
  pub fn mine(dirs: &[String]) -> Self {
    let mut d = Dict::default();
    for dir in dirs {
      walk(Path::new(dir), &mut d);
    }
    d.ints.sort_unstable();
    d.ints.dedup();
    d.strs.sort_unstable();
    d.strs.dedup();
    d.chars.sort_unstable();
    d.chars.dedup();
    d
  }
}

fn walk(p: &Path, d: &mut Dict) {
  if p.is_dir() {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
    es.sort();
    for e in es {
      if e.file_name().is_some_and(|n| n == "target" || n == "tests.rs" || n == "tests") {
        continue;
      }
      walk(&e, d);
    }
  } else if p.extension().is_some_and(|e| e == "rs") {
    if let Ok(s) = std::fs::read_to_string(p) {
      scan(&s, d);
    }
  }
}

fn scan(s: &str, d: &mut Dict) {
  let cs: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut prev_ident = false;
  while i < cs.len() {
    let c = cs[i];
    if c == '/' && cs.get(i + 1) == Some(&'/') {
      while i < cs.len() && cs[i] != '\n' {
        i += 1;
      }
      prev_ident = false;
    } else if c == '"' {
      let mut out = String::new();
      i += 1;
      while i < cs.len() && cs[i] != '"' {
        if cs[i] == '\\' {
          i += 1;
          match cs.get(i) {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some(&c @ ('"' | '\\' | '\'')) => out.push(c),
            Some('u') => {
              let mut h = String::new();
              i += 2;
              while i < cs.len() && cs[i] != '}' {
                h.push(cs[i]);
                i += 1;
              }
              if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                out.push(c);
              }
            }
            _ => {}
          }
        } else {
          out.push(cs[i]);
        }
        i += 1;
      }
      i += 1;
      if !out.is_empty() && out.len() < 80 {
        d.strs.push(out);
      }
      prev_ident = false;
    } else if c == '\'' {
      // a char literal, or a lifetime
      if cs.get(i + 1) == Some(&'\\') {
        let end = (i + 2..cs.len().min(i + 14)).find(|&j| cs[j] == '\'' && j > i + 2);
        if let Some(end) = end {
          let body: String = cs[i + 2..end].iter().collect();
          let ch = match body.as_str() {
            "n" => Some('\n'),
            "t" => Some('\t'),
            "r" => Some('\r'),
            "0" => Some('\0'),
            b if b.starts_with("u{") => {
              u32::from_str_radix(&b[2..b.len() - 1], 16).ok().and_then(char::from_u32)
            }
            b => b.chars().next(),
          };
          d.chars.extend(ch);
          i = end + 1;
        } else {
          i += 1;
        }
      } else if cs.get(i + 2) == Some(&'\'') {
        d.chars.push(cs[i + 1]);
        i += 3;
      } else {
        i += 1;
      }
      prev_ident = false;
    } else if c.is_ascii_digit() && !prev_ident {
      let mut t = String::new();
      while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
        if cs[i] != '_' {
          t.push(cs[i]);
        }
        i += 1;
      }
      for suf in ["usize", "isize", "u8", "u16", "u32", "u64", "i32", "i64"] {
        if let Some(x) = t.strip_suffix(suf) {
          t = x.to_owned();
          break;
        }
      }
      let v = if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(h, 16)
      } else if let Some(b) = t.strip_prefix("0b") {
        u64::from_str_radix(b, 2)
      } else {
        t.parse()
      };
      if let Ok(v) = v {
        d.ints.push(v);
        // shift amounts are powers of two in disguise
        if v < 40 {
          d.ints.push(1 << v);
        }
      }
      prev_ident = false;
    } else {
      prev_ident = c.is_alphanumeric() || c == '_';
      i += 1;
    }
  }
}
