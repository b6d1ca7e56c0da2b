//! Monitors for the small crates.

mod bombs;
mod cases;
mod clock;
mod logs;
mod md;
mod names;
mod nums;
mod puncts;
mod render;
mod scan;
mod soft;
mod timing;

use vmon::PropSpec;

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C26",
      rule: "sizes over the whole 64-bit range (dense near powers of two and their multiples) through every conversion, with panics and log records judged per build; random lists of indices as map keys; interleaved identifier makers; one maker run 2^26 (debug), 2^30 (release) or 2^32-1 (release, thorough) times with every identity kept in a bitmap; non-trivial = a value above 1, two distinct indices or three identifiers",
      case: nums::case,
      fixed: Some(nums::fixed),
      quick: 150_000,
      thorough: 3_000_000,
      need: &[("sizes converted", 10_000), ("sizes that do not fit", 2_000), ("indices compared", 10_000), ("identifiers made", 100_000)],
    },
    PropSpec {
      id: "C27",
      rule: "random texts with multi-byte characters and random histories of scanning operations that stay inside the text, compared with a cursor over the bytes after every operation; slices kept and compared at the end; non-trivial = the cursor moved in a text of more than two bytes; plus all texts of up to 4 (5) characters of 1 to 4 bytes at every position",
      case: scan::case,
      fixed: Some(scan::fixed),
      quick: 150_000,
      thorough: 3_000_000,
      need: &[("bytes advanced over", 100_000), ("prefixes eaten", 10_000), ("prefixes refused", 10_000), ("multi-byte steps", 1_000), ("slices taken", 5_000), ("empty slices refused", 200)],
    },
    PropSpec {
      id: "C28",
      rule: "random strings, snake and Pascal identifiers compared with a conversion defined per character, and converted there and back; non-trivial = more than one word; plus all strings of up to 6 (8) characters over {a B _ 1 É ß} and every Unicode character in three positions",
      case: cases::case,
      fixed: Some(cases::fixed),
      quick: 150_000,
      thorough: 3_000_000,
      need: &[("strings converted", 50_000), ("strings with letters outside ASCII", 1_000)],
    },
    PropSpec {
      id: "C29",
      rule: "random texts made of headings, near-miss headings and other lines, with any line endings, against a section list; the calls for starting texts are recorded; non-trivial = at least two sections; plus all texts of up to 5 (6) lines out of eight",
      case: md::case,
      fixed: Some(md::fixed),
      quick: 100_000,
      thorough: 2_000_000,
      need: &[("sections", 10_000), ("texts with a repeated heading", 500)],
    },
    PropSpec {
      id: "C30",
      rule: "random conditions and messages through every form of the macro, with the evaluations of the condition, the renderings of the message, panics and log records observed and judged per build; non-trivial = at least one false condition",
      case: soft::case,
      fixed: None,
      quick: 60_000,
      thorough: 1_000_000,
      need: &[("soft assertions", 20_000), ("false soft assertions", 5_000)],
    },
    PropSpec {
      id: "C31",
      rule: "random strings around the limits of the inline storage made into names and used as map keys next to a map of plain strings; random literal lists of 0 to 130 keys with and without repetitions; non-trivial = two distinct names or a list of at least two; plus all lists of up to 6 out of three keys and all lengths up to 299",
      case: names::case,
      fixed: Some(names::fixed),
      quick: 100_000,
      thorough: 2_000_000,
      need: &[("names made", 20_000), ("empty strings refused", 1_000), ("literal collections", 10_000), ("literal collections refused", 1_000)],
    },
    PropSpec {
      id: "C32",
      rule: "random sequences rendered into a writer that fails after any number of writes, with the order of requests and writes recorded; random positions, ranges, diagnostics and code texts against a rendering on 64-bit numbers; non-trivial = at least two elements, or any range or code text; plus all codes",
      case: render::case,
      fixed: Some(render::fixed),
      quick: 200_000,
      thorough: 4_000_000,
      need: &[("sequences rendered", 5_000), ("failures passed on", 2_000), ("diagnostics rendered", 10_000), ("codes parsed", 2_000), ("codes refused", 2_000)],
    },
    PropSpec {
      id: "C33",
      rule: "calls of 0 to 1.5 ms that measure themselves, timed plainly, nested and with logging, and panicking; non-trivial = every case; plus calls of 2 ms to 1.1 s (5 s), and calls during which this program's own clock moves by up to decades while that of the day is set forth and back",
      case: timing::case,
      fixed: Some(timing::fixed),
      quick: 20_000,
      thorough: 200_000,
      need: &[("calls timed", 3_000)],
    },
    PropSpec {
      id: "C34",
      rule: "every Unicode character; the set of all names decided for unique decodability; random punctuation strings spelled and cut again in every way; non-trivial = at least two characters",
      case: puncts::case,
      fixed: Some(puncts::fixed),
      quick: 100_000,
      thorough: 1_000_000,
      need: &[("characters", 1_000_000), ("spellings", 10_000)],
    },
    PropSpec {
      id: "C36",
      rule: "random ways to lose or use a scanning marker, also during another panic; non-trivial = a marker was lost; plus markers late in long texts and many at once",
      case: bombs::case,
      fixed: Some(bombs::fixed),
      quick: 60_000,
      thorough: 1_000_000,
      need: &[("markers consumed", 5_000), ("markers lost", 2_000)],
    },
  ]);
}
