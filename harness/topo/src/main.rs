//! Monitors for topo-sort.

mod graphs;
mod visit;

use vmon::PropSpec;

fn main() {
  vmon::main(&[
    PropSpec {
      id: "C20",
      rule: "random acyclic graphs (sparse to dense, layered, with neighbours that are not keys, four node types), sorted twice; non-trivial = at least one edge between keys and a neighbour that is no key or has two parents; plus all graphs of 3 nodes (4 in the thorough tier) with any keys left out, and paths, stars, ladders and grids of up to 200000 nodes on a 64 KiB stack",
      case: graphs::acyclic,
      fixed: Some(graphs::acyclic_fixed),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("orders checked", 5_000), ("nodes ordered", 50_000), ("neighbours that are not keys", 1_000)],
    },
    PropSpec {
      id: "C21",
      rule: "random graphs, most with few cycles; the failure and its witness are compared with the strongly connected components; non-trivial = the graph has a cycle and a node on none; plus all graphs of 3 nodes (4 in the thorough tier), and long cycles with long tails",
      case: graphs::cyclic,
      fixed: Some(graphs::cyclic_fixed),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("cycles reported", 5_000), ("acyclic graphs sorted", 1_000), ("self-loops", 200)],
    },
    PropSpec {
      id: "C22",
      rule: "random visitors that skip and add elements (from a table or made on the fly, repeated, changing their mind), five set types; an online monitor follows every callback; non-trivial = something was skipped or added twice, and at least five elements were processed; plus all visitors over three elements",
      case: visit::case,
      fixed: Some(visit::fixed),
      quick: 60_000,
      thorough: 1_500_000,
      need: &[("elements exited", 50_000), ("elements skipped", 5_000), ("cycles reported", 2_000), ("runs without a cycle", 2_000)],
    },
  ]);
}
