PROPERTY = "I06"
NEEDS = "a route with a follower whose id is higher than that of one of its predecessors (any through track with signals in both stations)"
BREAKS = "the list of followers and predecessors is no longer sorted, so some of them stay in the exclusion graph"
EDITS = {"src/infrastructure/exclusion/get_exclusion_graph.cc": [("""    utl::erase_duplicates(remove);
""", """    remove.erase(std::unique(std::begin(remove), std::end(remove)),
                 std::end(remove));
""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h"]
DEMO = r'''
#include "irs.h"
#include "soro/infrastructure/exclusion/get_exclusion.h"
using namespace iss;
int main() {
  auto const t = row({"SS", "SS", "SS"}, true, false, false);
  model const m(t);
  route_case c;
  c.t_ = t;
  for (auto const& w : walks(m, t, true)) c.add(w);
  load_opts o;
  o.interlocking_ = true;
  auto const dir = c.write_iss();
  auto const infra = load(dir, o);
  auto const ex = inf::get_exclusion(*infra, dir / "none", inf::option<inf::exclusion_elements>(true), inf::option<inf::exclusion_graph>(true));
  auto const& r = infra->interlocking_.routes_;
  for (std::size_t a = 0; a < r.size(); ++a) {
    for (std::size_t b = 0; b < r.size(); ++b) {
      if (r[a].first_node(infra) == r[b].last_node(infra) && ex.exclusion_graph_.nodes_[a][static_cast<std::uint32_t>(b)]) { std::printf("route %zu follows %zu and excludes it\n", a, b); return 1; }
    }
  }
  return 0;
}
'''
