//! Monitors for text-pos and apply-changes.

mod alike;
mod edits;
mod model;
mod pos;

use vmon::PropSpec;

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C01",
      rule: "random text (up to several thousand characters, all encodings, varied line structure) with a random list of in-range edits placed relative to the previous one (same line, up, down, crossing, sorted) and occasional full replacements; non-trivial = at least two ranged edits that change the text; plus all edit pairs on all texts of up to 4 characters over {a, newline, 2-byte, 4-byte}",
      case: edits::in_range,
      fixed: Some(edits::fixed),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("ranged edits applied", 1000), ("edits reusing a line index", 100), ("full replacements", 50)],
    },
    PropSpec {
      id: "C02",
      rule: "random text and edit list where some endpoints are not positions of the current text (line past the end, column past the line, inside a surrogate pair, up to u32::MAX); non-trivial = at least one such edit and one in-range edit after it",
      case: edits::mixed,
      fixed: Some(edits::fixed_oob),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("out-of-range edits", 1000), ("in-range edits after one", 500)],
    },
    PropSpec {
      id: "C03",
      rule: "random text; every boundary offset (or 300 random ones in long texts) converted there and back, and ranges between them; non-trivial = the text has a newline and a character wider than one byte; plus all texts of up to 6 characters over {a, newline, 2-, 3-, 4-byte} and a few texts of over 65536 lines or columns",
      case: pos::exact,
      fixed: Some(pos::exact_fixed),
      quick: 160_000,
      thorough: 1_200_000,
      need: &[("offsets converted", 10_000), ("ranges converted", 1000)],
    },
    PropSpec {
      id: "C04",
      rule: "random text; every byte offset up to past the end, and a grid of line/column pairs around and far outside the text; non-trivial = some offset or pair has no counterpart inside the length of the text; plus all texts of up to 5 characters over {a, newline, 2-, 3-, 4-byte}",
      case: pos::outside,
      fixed: Some(pos::outside_fixed),
      quick: 100_000,
      thorough: 700_000,
      need: &[("positions refused", 10_000), ("offsets refused", 1000)],
    },
    PropSpec {
      id: "C05",
      rule: "random text and ranges in it; every sub-range of short texts; non-trivial = the range contains a newline; plus all sub-ranges of all texts of up to 6 characters over {a, newline, 3-byte}",
      case: pos::lines,
      fixed: Some(pos::lines_fixed),
      quick: 30_000,
      thorough: 900_000,
      need: &[("ranges split", 10_000), ("lines reported", 10_000)],
    },
    PropSpec {
      id: "C40",
      rule: "random pairs of texts, one made from the other by replacing characters by others of the same width (equal tables) or otherwise (different ones); clones that outlive their original; the order, equality and hash of positions and ranges against those of offsets; non-trivial = two different texts with wide characters; plus all pairs of texts of up to 3 (4 in the thorough tier) characters over {a, b, newline, 2-, 3-, 4-byte} and large texts that differ in one place",
      case: alike::alike,
      fixed: Some(alike::fixed),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("equal tables", 5_000), ("different tables", 5_000), ("clones asked", 5_000), ("positions compared", 100_000), ("ranges compared", 100_000)],
    },
  ]);
}
