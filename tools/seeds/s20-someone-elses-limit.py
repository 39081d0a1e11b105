PROPERTY = "R01"
NEEDS = "a train that starts behind a speed limit of its first station route which does not concern it"
BREAKS = "the train starts under a limit that is meant for other trains"
EDITS = {"src/runtime/interval.cc": [("""      auto const& spl = infra->graph_.element_data<speed_limit>(node);
      if (train.effected_by(spl)) {
        utls::sassert(si::valid(spl.limit_));
        return spl.limit_;
      }
    }
  }

  auto curr_node""", """      auto const& spl = infra->graph_.element_data<speed_limit>(node);
      if (si::valid(spl.limit_)) {
        return spl.limit_;
      }
    }
  }

  auto curr_node""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "line.h"]
DEMO = r'''
#include "topologies.h"
#include "routes.h"
#include "irs.h"
#include "trains.h"
#include "soro/runtime/interval.h"
#include <cstdio>
using namespace iss;
int main() {
  // two stations in a row; a limit of 30 km/h in front of the first halt
  // concerns other trains only
  topo t;
  auto const a = t.station("A"), b = t.station("B");
  auto const a0 = t.el(BUMPER, a), a1 = t.el(BORDER, a), b0 = t.el(BORDER, b), b1 = t.el(TRACK_END, b);
  t.section(a, 1, a0, 0, 10000, a1, 0, 14000, {{"GeschwZulaessigS", 11000, spl_xml(30, 0, false, 2), 0}, {"HalteplatzRzLinksS", 12000, {}, 0}, {"HauptsignalS", 13000, {}, 0}});
  t.section(b, 1, b0, 0, 14000, b1, 0, 17000, {{"HauptsignalS", 15000, {}, 0}, {"HalteplatzRzLinksS", 16000, {}, 0}});
  t.join(a1, b0, 1);
  t.finish();
  t.core_ = core_defaults(120);
  route_case c;
  c.t_ = t;
  model const m(c.t_);
  for (auto const& w : walks(m, c.t_, true)) {
    if (w.at_.front().track_ || w.at_.back().track_ || !rising(c.t_, w)) continue;
    c.add(w);
  }
  give_halts(c);
  load_opts o;
  o.interlocking_ = true;
  auto const infra = load(c.write_iss(), o);
  resolve(c, *infra);
  auto const irs = real_routes(c, *infra);
  int seen = 0, bad = 0;
  each_stop_sequence(c, 2, true, [&](std::vector<mstop> const& stops, bool freight) {
    if (freight || stops.size() != 2 || stops[0].k_ != STOP || stops[1].k_ != STOP) return;
    std::vector<int> const chain = {stops[0].sr_, stops[1].sr_};
    auto const paths = tilings(c, irs, chain, stop_node(c, stops.front(), false), stop_node(c, stops.back(), false));
    if (paths.empty()) return;
    soro::tt::train tr;
    tr.id_ = 0;
    tr.physics_ = physics(false, 160, 200000, -0.7, 200, 5);
    for (auto p : paths.front()) tr.path_.emplace_back(static_cast<inf::interlocking_route::id>(p));
    for (auto const& s : stops) tr.sequence_points_.emplace_back(make_point(c, s, 36000, 36000, 0));
    auto const list = soro::runtime::get_interval_list(tr, inf::type_set{inf::type::HALT}, infra);
    ++seen;
    for (auto const& g : list) bad += g.limit_right_.val_ < 10;
  });
  std::printf("%d trains, %d bad limits\n", seen, bad);
  return seen > 0 && bad == 0 ? 0 : 1;
}
'''
