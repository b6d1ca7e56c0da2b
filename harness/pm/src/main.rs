//! Monitors for pattern-match.

mod asked;
mod checks;
mod lang;
mod making;
mod oracle;
mod shown;
mod small;

use vmon::PropSpec;

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C18",
      rule: "random systems of up to 5 types (enumerations, tuples, recursive and uninhabited ones, bounded and unbounded numbers), pattern lists made by refining wildcards and then dropping, reordering and merging, or freely, against languages that split in five ways; verdict and witnesses compared with enumerating all values up to the patterns' depth; non-trivial = at least two patterns with constructors; plus all lists of up to 3 (4 in the thorough tier) patterns from small sets over three types",
      case: checks::missing,
      fixed: Some(small::missing),
      quick: 100_000,
      thorough: 2_500_000,
      need: &[("exhaustive lists", 1_000), ("lists with something missing", 1_000), ("witnesses checked", 3_000), ("values tried", 100_000), ("lists with a choice of four or more", 3_000), ("lists with a choice of three or more inside a choice", 500)],
    },
    PropSpec {
      id: "C19",
      rule: "as C18, comparing the unreachable indices with those that no value marks when matched top to bottom, left to right; non-trivial = at least two patterns with constructors; plus the same enumeration",
      case: checks::unreachable,
      fixed: Some(small::unreachable),
      quick: 100_000,
      thorough: 2_500_000,
      need: &[("reachable indices", 10_000), ("unreachable indices", 2_000), ("values tried", 100_000), ("lists with a choice of four or more", 3_000), ("lists with a choice of three or more inside a choice", 500)],
    },
    PropSpec {
      id: "C35",
      rule: "as C18, then checked again with the language failing from its n-th call on, for several n including the first and last, and with one pattern given too many arguments somewhere; non-trivial = the failing call is neither the first nor the last",
      case: checks::errors,
      fixed: None,
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("failures injected", 5_000), ("patterns with too many arguments", 1_000), ("wildcards with arguments", 300)],
    },
    PropSpec {
      id: "C38",
      rule: "as C18, with every question to the language recorded and judged against the patterns; non-trivial = at least two patterns with constructors",
      case: asked::asked,
      fixed: Some(asked::fixed),
      quick: 100_000,
      thorough: 2_500_000,
      need: &[("splits judged", 50_000), ("argument questions judged", 50_000), ("splits below the top", 10_000), ("lists without choices", 1_000)],
    },
    PropSpec {
      id: "C39",
      rule: "random patterns, also ill-typed ones, rendered to a string and to writers that fail at every n-th write; also the witnesses of random checks and the clones of patterns; non-trivial = a constructor with two or more arguments or a choice of two or more; plus sizes 0 to 300",
      case: shown::shown,
      fixed: Some(shown::fixed),
      quick: 100_000,
      thorough: 2_500_000,
      need: &[("patterns rendered", 20_000), ("failing writers", 50_000), ("empty choices", 500), ("witnesses rendered", 500)],
    },
  ]);
}
