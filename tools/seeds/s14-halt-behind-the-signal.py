PROPERTY = "T03"
NEEDS = "a train whose last halt is the node right behind a main signal"
BREAKS = "the path of the train ends at that signal, its last stop is not on it"
EDITS = {"src/timetable/parsers/station_route_to_interlocking_route.cc": [("    return node_idx_ > last_stop_sequence_node;", "    return node_idx_ >= last_stop_sequence_node;")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "line.h"]
DEMO = r'''
#include "line.h"
#include "soro/timetable/parsers/station_route_to_interlocking_route.h"
using namespace iss;
namespace tt = soro::tt;
int main() {
  auto c = line({"hS", "S", "Sh"}, core_defaults(100));
  auto infra = loaded(c);
  tt::stop_sequence ss;
  ss.break_in_ = ss.break_out_ = false;
  auto const n = static_cast<int>(c.srs_.size());
  for (int k = 0; k < n; ++k) ss.points_.push_back(make_point(c, {k, k == 0 || k == n - 1 ? STOP : PASS}, 100U * k, 100U * k, 0));
  auto const got = tt::transform_to_interlocking(ss, soro::rs::FreightTrain::NO, infra);
  if (!got) { std::printf("no path\n"); return 2; }
  auto const& last = infra->interlocking_.routes_[got->path_.back()];
  auto const halt = *ss.points_.back().get_node_idx(soro::rs::FreightTrain::NO, infra);
  if (!last.contains(ss.points_.back().station_route_, halt)) { std::printf("the path ends before the last stop\n"); return 1; }
  return 0;
}
'''
