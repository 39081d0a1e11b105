PROPERTY = "I05"
NEEDS = "an interlocking route whose last station route needs ETCS"
BREAKS = "routes are built into a stretch that needs ETCS when the signal that ends them lies on it"
EDITS = {"src/infrastructure/interlocking/get_interlocking.cc": [("""    if (route->requires_etcs(lines)) {
      return;
    }

    // a ring without""", """    auto const needs_etcs = route->requires_etcs(lines);

    // a ring without"""), ("""      routes.emplace_back(std::move(ir));
      return;
    }

    for""", """      routes.emplace_back(std::move(ir));
      return;
    }

    if (needs_etcs) {
      return;
    }

    for""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h"]
DEMO = r'''
#include "irs.h"
using namespace iss;
int main() {
  // signal in A, ETCS begins and a signal stands in B
  auto const t = row({"S", "ES", "-"}, true, false, false);
  model const m(t);
  route_case c;
  c.t_ = t;
  for (auto const& w : walks(m, t, true)) c.add(w);
  c.lines_[1] = {{0, 900, true}, {900, 10000, false}};
  load_opts o;
  o.interlocking_ = true;
  auto const infra = load(c.write_iss(), o);
  for (auto const& ir : infra->interlocking_.routes_) {
    for (std::size_t k = ir.station_routes_.size() > 1 ? 0 : 1; k < ir.station_routes_.size(); ++k) {
      if (infra->station_routes_[ir.station_routes_[k]]->requires_etcs(infra->lines_)) { std::puts("an interlocking route over a stretch that needs ETCS"); return 1; }
    }
  }
  return 0;
}
'''
