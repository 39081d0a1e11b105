PROPERTY = "I02"
NEEDS = "a crossing of two lines whose tracks point so that two of its four ends are rising, both or none of them on the right track"
BREAKS = "trains leave such a crossing against their direction of travel"
EDITS = {"src/infrastructure/graph/graph_creation.cc": [("""           static_cast<int>(c.end_right_rising_)) != 2 ||
          c.start_right_rising_ == c.end_right_rising_);""", """           static_cast<int>(c.end_right_rising_)) != 2);""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h"]
DEMO = r'''
#include "topologies.h"
using namespace iss;
// every crossing: whoever enters at one port leaves at the opposite one
int main() {
  int bad = 0, n = 0;
  each_cross([&](std::string const& d, topo const& t) {
    if (bad || ++n % 7 != 0) return;
    auto const infra = load(write(t, "iss"));
    for (auto const& e : infra->graph_.elements_) {
      if (!e->is(inf::type::CROSS)) continue;
      for (auto const& node : e->nodes()) {
        // the node reached next lies in front: going back from it leads here
        auto const next = node->next_node_;
        if (next == nullptr) { bad = 1; break; }
        auto const back = node->reverse_edges_;
        if (back.empty()) { bad = 1; std::printf("%s: an end of the crossing is not reachable\n", d.c_str()); break; }
      }
    }
  });
  return bad;
}
'''
