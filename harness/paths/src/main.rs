//! Monitors for paths.

mod alias;
mod clean;
mod faults;
mod files;
mod store;
mod words;

use vmon::PropSpec;

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C15",
      rule: "random byte strings made of separators, dots and names (not always UTF-8) and sequences of joins, pushes and parents on them; every result compared byte for byte with a normal form computed on bytes; pairs compared for equality, order, hash and lookup across the three forms; non-trivial = the result differs from the given path; plus all strings of up to 8 (10 in the thorough tier) characters over {/ . a}, alone and joined",
      case: clean::case,
      fixed: Some(clean::fixed),
      quick: 100_000,
      thorough: 2_500_000,
      need: &[("paths made", 10_000), ("relative paths refused", 1_000), ("joins", 10_000), ("parents", 5_000), ("pairs compared", 2_000)],
    },
    PropSpec {
      id: "C16",
      rule: "random histories over up to 5 stores sharing a small pool of paths: ids by reference and by value, lookups, combines; after each operation all ids of the store are checked against a list of paths; non-trivial = a combine of two stores that share some but not all paths; plus a store of over 65536 paths combined with another",
      case: store::case,
      fixed: Some(store::fixed),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("ids given", 20_000), ("ids looked up", 50_000), ("combines", 1_000), ("ids reported by combines", 3_000)],
    },
    PropSpec {
      id: "C17",
      rule: "random trees of text files written to a scratch directory and put into the in-memory file system; all files, directories, missing and near-miss paths queried on both (and on an in-memory tree at the root, against a model), and links, missing paths and non-directories on the real one against the operating system, also while this program's own read, readdir64 and getcwd answer in pieces, are interrupted and fail in the middle; non-trivial = the tree has nested directories and two files with a common name prefix",
      case: files::case,
      fixed: Some(files::fixed),
      quick: 4_000,
      thorough: 60_000,
      need: &[("paths queried", 5_000), ("directories listed", 500), ("files read", 1_000), ("failures passed on", 500)],
    },
    PropSpec {
      id: "C37",
      rule: "random histories of safe calls on clean paths that keep borrowed views while their owners are moved, boxed, cloned and put into maps, with the address and bytes of each view checked, run under Miri and AddressSanitizer; non-trivial = a view is used after its owner was moved",
      case: alias::case,
      fixed: None,
      quick: 4_000,
      thorough: 200_000,
      need: &[("views checked", 300)],
    },
  ]);
}
