//! The reference: positions of a text, computed by scanning it from the start. Shares nothing with
//! the code under test.

/// All character boundaries of a text with their line and UTF-16 column.
pub struct Model {
  /// (byte offset, line, column)
  pub at: Vec<(u32, u32, u32)>,
}

impl Model {
  pub fn new(s: &str) -> Self {
    let mut at = Vec::with_capacity(s.len() + 1);
    let (mut line, mut col) = (0u32, 0u32);
    for (i, c) in s.char_indices() {
      at.push((i as u32, line, col));
      if c == '\n' {
        line += 1;
        col = 0;
      } else {
        col += if (c as u32) >= 0x1_0000 { 2 } else { 1 };
      }
    }
    at.push((s.len() as u32, line, col));
    Self { at }
  }

  /// Where the text is not like the rest of it: after the first few characters that are not ASCII or
  /// are not on lines like the others.
  pub fn odd(&self, s: &str) -> Vec<usize> {
    let b = s.as_bytes();
    let wide = |i: usize| b[self.at[i].0 as usize] >= 0x80;
    let n = self.at.len() - 1;
    (0..n).filter(|&i| wide(i) && (i == 0 || !wide(i - 1))).flat_map(|i| [i, i + 1, i + 2]).filter(|&i| i <= n).take(30).collect()
  }

  pub fn num_lines(&self) -> u32 {
    self.at[self.at.len() - 1].1 + 1
  }

  /// The byte offset of a position, if there is one.
  pub fn offset(&self, line: u32, col: u32) -> Option<u32> {
    self.at.binary_search_by(|&(_, l, c)| (l, c).cmp(&(line, col))).ok().map(|i| self.at[i].0)
  }

  /// The position of a byte offset, if there is one.
  pub fn position(&self, off: u32) -> Option<(u32, u32)> {
    self.at.binary_search_by(|&(o, _, _)| o.cmp(&off)).ok().map(|i| (self.at[i].1, self.at[i].2))
  }
}
