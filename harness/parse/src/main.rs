//! Monitors for event-parse.

mod checks;
mod drive;
mod lang;
mod model;
mod small;
mod trace;

use vmon::PropSpec;

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C09",
      rule: rule(9),
      case: checks::every_token,
      fixed: Some(small::every_token),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("tokens delivered", 10_000), ("trivia tokens delivered", 2_000), ("errors delivered", 1_000)],
    },
    PropSpec {
      id: "C10",
      rule: rule(10),
      case: checks::shape,
      fixed: Some(small::shape),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("nodes compared", 10_000), ("precedes", 1_000), ("abandoned precedes", 100), ("empty parses", 20)],
    },
    PropSpec {
      id: "C11",
      rule: rule(11),
      case: checks::trivia,
      fixed: Some(small::trivia),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("nodes with ends checked", 10_000), ("trivia tokens placed", 2_000)],
    },
    PropSpec {
      id: "C12",
      rule: rule(12),
      case: checks::backtrack,
      fixed: Some(small::backtrack),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("failed attempts", 1_000), ("successful attempts", 500)],
    },
    PropSpec {
      id: "C13",
      rule: rule(13),
      case: checks::look,
      fixed: Some(small::look),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("lookahead queries", 10_000), ("emptiness answers", 5_000), ("eats", 1_000)],
    },
    PropSpec {
      id: "C14",
      rule: rule(14),
      case: checks::rowan_tree,
      fixed: Some(small::rowan_tree),
      quick: 40_000,
      thorough: 1_000_000,
      need: &[("trees built", 1_000), ("errors located", 1_000)],
    },
    PropSpec {
      id: "C36",
      rule: "a random parse prefix after which the innermost open construct (entered or preceding) is dropped in one of several ways (alone, with the parser, after finishing, while a panic unwinds); non-trivial = something else had been parsed before; plus constructs forgotten after up to 140,000 events, errors, attempts, and inside as many others",
      case: checks::bomb,
      fixed: Some(checks::bomb_fixed),
      quick: 20_000,
      thorough: 300_000,
      need: &[("markers forgotten", 500), ("markers dropped while unwinding", 100)],
    },
  ]);
}

/// The rule text of a parse property.
const fn rule(n: u8) -> &'static str {
  match n {
    9 => "random complete parses over random token sequences (0-60 significant tokens, from no trivia to mostly trivia, some tokens empty): enter, exit, abandon, precede (repeated, abandoned, of earlier siblings), bump, eat, errors, nested saves, lookahead, and operator-expression parses; non-trivial = trivia and at least two nodes; plus all call sequences up to a length with all trivia layouts, and very deep parses",
    10 => "random parses as for C09, a tenth of them not consuming all tokens; non-trivial = a precede or an abandon and at least three nodes with tokens; plus all call sequences up to a length, and very deep parses",
    11 => "random complete parses as for C09; non-trivial = trivia inside the root between tokens and at least two nodes with tokens; plus all call sequences up to a length with all trivia layouts",
    12 => "random parses as for C09 with saves; the trace is compared with that of a fresh parser given only the surviving calls; non-trivial = at least one failed attempt with calls in it; plus all call sequences up to a length",
    13 => "random parses as for C09 with every answer judged against the sequence of significant tokens, repeated on the same tokens with other trivia; non-trivial = trivia, consumption and lookahead past the current token; plus all call sequences up to a length",
    _ => "random complete parses as for C09 into a rowan tree; non-trivial = errors and trivia; plus all call sequences up to a length with all trivia layouts",
  }
}
