PROPERTY = "I04"
NEEDS = "iterating a part of a station route that begins exactly at an omitted node other than the route's first"
BREAKS = "the omitted node at which the part begins is reported as not omitted"
EDITS = {"src/infrastructure/station/station_route.cc": [("return omitted_idx >= ff_to; });", "return omitted_idx > ff_to; });")]}
SRC = ["src"]
DEMO = r'''
#include "soro/infrastructure/station/station_route.h"
#include <cstdio>
using namespace soro::infra;
int main() {
  node n[4];
  station_route::path p;
  for (auto& x : n) p.nodes_.emplace_back(&x);
  station_route r;
  r.path_ = &p;
  r.omitted_nodes_ = {1, 2};
  for (node::idx from = 0; from < 4; ++from) {
    node::idx i = from;
    for (auto const& rn : r.from(from)) {
      bool const want = i == 1 || i == 2;
      if (rn.omitted_ != want) { std::printf("from %d: node %d omitted %d\n", from, i, rn.omitted_); return 1; }
      ++i;
    }
  }
  return 0;
}
'''
