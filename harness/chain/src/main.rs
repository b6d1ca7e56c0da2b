//! Monitors for chain-map.

mod hist;
mod keys;
mod share;
#[cfg(feature = "sync")]
mod threads;
mod val;

use vmon::PropSpec;

fn main() {
  let mut props = vec![
    PropSpec {
      id: "C06",
      rule: "random histories of every operation over up to 4 maps with few keys (strings, or integers whose hashes collide), each result and the full contents compared with an ordered map given the same operations; non-trivial = at least 4 mutating operations of 3 kinds with a key overridden; plus all histories of up to 4 (6 in the thorough tier) operations from a fixed set of 15 on three maps",
      case: hist::single,
      fixed: Some(hist::fixed),
      quick: 60_000,
      thorough: 2_000_000,
      need: &[("operations", 20_000), ("overrides", 1000), ("appends", 300), ("drains", 300), ("removals of present keys", 300)],
    },
    PropSpec {
      id: "C07",
      rule: "as C06 with up to 7 maps made mostly by cloning; after every operation all maps are compared with their models, values count their instances; non-trivial = a map was mutated while a clone of it was alive and later observed; plus the same enumeration with clones",
      case: hist::clones,
      fixed: Some(hist::fixed_clones),
      quick: 40_000,
      thorough: 1_200_000,
      need: &[("operations", 20_000), ("clones", 1000), ("mutations with a live clone", 1000), ("value instances dropped", 10_000)],
    },
    PropSpec {
      id: "C42",
      rule: "random histories over up to 6 maps whose keys and values count their copies, instances and hashes; a model knows which additions each map holds and shares; clones, additions and reads may copy nothing, other operations only what is shared, and together the maps may keep no more than what they share; non-trivial = a clone, an addition after it and an operation on a whole shared map; plus maps of fixed sizes up to 200000 entries, cloned and added to, with the bytes asked for and hashes taken",
      case: share::case,
      fixed: Some(share::fixed),
      quick: 60_000,
      thorough: 2_000_000,
      need: &[("operations", 20_000), ("clones", 1000), ("additions with a clone around", 1000), ("operations on a whole shared map", 300), ("operations that may not copy", 300)],
    },
  ];
  #[cfg(feature = "sync")]
  props.push(PropSpec {
    id: "C08",
    rule: "2-4 threads start from clones of (or references to) a common map and run random scripts of clone, lookup, insert, in-place update, removal, append, consolidation, drain, hand-over and drop, and lookups in the common map itself, each checked against its own model, with random yields; or act all at once on copies of one map in many rounds; non-trivial = at least two threads mutated; distinct = scripts and the observed interleaving",
    case: threads::case,
    fixed: Some(threads::fixed),
    quick: 4_000,
    thorough: 60_000,
    need: &[("thread operations", 100), ("threads", 10)],
  });
  vmon::main(&std::mem::take(&mut props));
}
