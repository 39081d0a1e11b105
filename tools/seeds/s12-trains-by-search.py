PROPERTY = "S01"
NEEDS = "a filter naming at least two trains, not in ascending order"
BREAKS = "trains that were asked for are missing in the ordering graph"
EDITS = {"src/simulation/ordering/ordering_graph.cc": [("""    if (!filter.trains_.empty() && !utls::contains(filter.trains_, train.id_)) {
""", """    if (!filter.trains_.empty() &&
        !std::binary_search(std::begin(filter.trains_),
                            std::end(filter.trains_), train.id_)) {
""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "line.h"]
DEMO = r'''
#include "line.h"
#include "soro/simulation/ordering/ordering_graph.h"
#include "soro/timetable/timetable.h"
using namespace iss;
namespace tt = soro::tt;
int main() {
  auto c = line({"hS", "S", "Sh"}, core_defaults(100));
  auto infra = loaded(c);
  auto const irs = real_routes(c, *infra);
  std::vector<int> chain;
  for (std::size_t k = 0; k < c.srs_.size(); ++k) chain.push_back(static_cast<int>(k));
  mstop const a{0, STOP}, b{chain.back(), STOP};
  auto const path = tilings(c, irs, chain, stop_node(c, a, false), stop_node(c, b, false));
  if (path.empty() || path.front().size() < 2) { std::printf("no path\n"); return 2; }
  const_cast<inf::infrastructure_t&>(*infra).exclusion_.irs_to_exclusion_sets_.resize(static_cast<unsigned>(irs.size()));
  tt::base_timetable bt;
  for (unsigned k = 0; k < 3; ++k) {
    tt::train t;
    t.id_ = k;
    t.physics_ = physics(false);
    for (auto p : path.front()) t.path_.emplace_back(static_cast<inf::interlocking_route::id>(p));
    t.sequence_points_.emplace_back(make_point(c, a, 1000, 1000, 0));
    t.sequence_points_.emplace_back(make_point(c, b, 2000, 2000, 0));
    auto const day = date::sys_days{date::year{2021} / 3 / 27};
    t.service_days_ = tt::make_bitfield(day, day + date::days{1}, "10");
    bt.trains_.emplace_back(std::move(t));
  }
  tt::timetable const timetable(std::move(bt));
  soro::simulation::ordering_graph::filter f;
  f.trains_ = {2, 1, 0};
  soro::simulation::ordering_graph const g(infra, timetable, f);
  if (g.nodes_.size() != 3 * path.front().size()) { std::printf("%zu nodes\n", g.nodes_.size()); return 1; }
  return 0;
}
'''
