PROPERTY = "S02"
NEEDS = "an edge whose end is first met directly and is reached a longer way only afterwards"
BREAKS = "edges that others imply remain in the ordering graph"
EDITS = {"src/simulation/ordering/remove_transitive_edges.cc": [("""  auto const work_on_edge = [&max_depth](auto&& from, auto&& to) {
    max_depth[to] = std::max(max_depth[to], max_depth[from] + 1);
    return false;
  };
""", """  // every node is worked on once it is met, edges need no work of their own
  auto const work_on_edge = [](auto&&, auto&&) { return false; };
""")]}
SRC = ["src"]
DEMO = r'''
#include "soro/simulation/ordering/remove_transitive_edges.h"
#include <cstdio>
using namespace soro::simulation;
int main() {
  // all graphs on four ordered nodes: what remains must be the reduction
  for (unsigned m = 0; m < 64; ++m) {
    bool e[4][4] = {}, r[4][4] = {};
    unsigned b = 0;
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) e[i][j] = r[i][j] = (m >> b++) & 1U;
    for (int k = 0; k < 4; ++k) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[i][j] = r[i][j] || (r[i][k] && r[k][j]);
    for (int back = 0; back < 2; ++back) {
      ordering_graph g;
      g.nodes_.resize(4);
      for (unsigned i = 0; i < 4; ++i) g.nodes_[i].id_ = i;
      for (unsigned i = 0; i < 4; ++i) {
        for (unsigned x = 0; x < 4; ++x) {
          auto const j = back ? 3 - x : x;
          if (e[i][j]) { g.nodes_[i].out_.push_back(j); g.nodes_[j].in_.push_back(i); }
        }
      }
      remove_transitive_edges(g);
      for (unsigned i = 0; i < 4; ++i) {
        for (unsigned j = 0; j < 4; ++j) {
          bool implied = false;
          for (int k = 0; k < 4; ++k) implied = implied || (r[i][k] && r[k][j]);
          bool has = false;
          for (auto o : g.nodes_[i].out_) has = has || o == j;
          if (has != (e[i][j] && !implied)) { std::printf("graph %u edge %u-%u\n", m, i, j); return 1; }
        }
      }
    }
  }
  return 0;
}
'''
