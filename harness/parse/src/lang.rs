//! The language that the monitored parses are about: numbered kinds, the first few being trivia.

use event_parse::Expected;
use token::{Token, Triviable};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub u16);

/// Kinds below this are trivia.
pub const TRIVIA: u16 = 3;
/// Kinds from here on are nodes.
pub const NODE: u16 = 100;

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    self.0 < TRIVIA
  }
}

impl From<K> for rowan::SyntaxKind {
  fn from(k: K) -> Self {
    rowan::SyntaxKind(k.0)
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lang {}

impl rowan::Language for Lang {
  type Kind = K;
  fn kind_from_raw(raw: rowan::SyntaxKind) -> K {
    K(raw.0)
  }
  fn kind_to_raw(k: K) -> rowan::SyntaxKind {
    k.into()
  }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Er {
  Expected(K),
  Custom(u64),
}

impl Expected<K> for Er {
  fn expected(kind: K) -> Self {
    Er::Expected(kind)
  }
}

/// What makes a token that token and no other: where its text lies.
pub type Id = (u16, usize, usize);

pub fn id(t: &Token<'_, K>) -> Id {
  (t.kind.0, t.text.as_ptr() as usize, t.text.len())
}
