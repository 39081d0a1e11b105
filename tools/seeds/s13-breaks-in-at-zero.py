PROPERTY = "T04"
NEEDS = "a train that breaks in whose path is one interlocking route that starts within its station route"
BREAKS = "the train meets nodes in front of its path"
EDITS = {"src/timetable/train.cc": [("""            ? t.first_interlocking_route(infra).start_offset_
""", """            ? node::idx{0}
""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "line.h"]
DEMO = r'''
#include "line.h"
using namespace iss;
namespace tt = soro::tt;
int main() {
  auto c = line({"hS", "ShSh", "Sh"}, core_defaults(100));
  auto infra = loaded(c);
  int n = 0;
  for (auto const& ir : infra->interlocking_.routes_) {
    tt::train t;
    t.break_in_ = t.break_out_ = true;
    t.physics_ = physics(false);
    t.path_.push_back(ir.id_);
    std::vector<inf::node::ptr> want, got;
    for (auto const& rn : ir.iterate(infra)) want.push_back(rn.node_);
    for (auto const& tn : t.iterate(infra)) got.push_back(tn.node_);
    if (want != got) { std::printf("route %u: %zu nodes instead of %zu\n", static_cast<unsigned>(ir.id_), got.size(), want.size()); return 1; }
    n += ir.start_offset_ > 0;
  }
  return n > 0 ? 0 : 2;
}
'''
