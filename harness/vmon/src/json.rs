//! A minimal JSON writer.

use std::fmt::Write as _;

/// A JSON value.
#[derive(Debug, Clone)]
pub enum J {
  /// Null.
  Null,
  /// Number.
  N(f64),
  /// Integer.
  I(i64),
  /// String.
  S(String),
  /// Boolean.
  B(bool),
  /// Array.
  A(Vec<J>),
  /// Object.
  O(Vec<(String, J)>),
}

impl std::fmt::Display for J {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      J::Null => f.write_str("null"),
      J::N(n) => write!(f, "{n:.3}"),
      J::I(n) => write!(f, "{n}"),
      J::B(b) => write!(f, "{b}"),
      J::S(s) => {
        f.write_str("\"")?;
        for c in s.chars() {
          match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(f, "\\u{:04x}", c as u32)?,
            c => f.write_char(c)?,
          }
        }
        f.write_str("\"")
      }
      J::A(xs) => {
        f.write_str("[")?;
        for (i, x) in xs.iter().enumerate() {
          if i > 0 {
            f.write_str(",")?;
          }
          write!(f, "{x}")?;
        }
        f.write_str("]")
      }
      J::O(xs) => {
        f.write_str("{")?;
        for (i, (k, v)) in xs.iter().enumerate() {
          if i > 0 {
            f.write_str(",")?;
          }
          write!(f, "{}:{v}", J::S(k.clone()))?;
        }
        f.write_str("}")
      }
    }
  }
}
