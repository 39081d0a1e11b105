PROPERTY = "W01"
NEEDS = "an interval over two days on which a train that leaves late runs before one that leaves early"
BREAKS = "the trips of a served ordering graph are ranked by the time of day they leave, not by when they leave"
EDITS = {"web/server/src/modules/ordering/serve_ordering_graph.cc": [("""    return soro::relative_to_absolute(p1.first.anchor_, t1.first_departure()) <
           soro::relative_to_absolute(p2.first.anchor_, t2.first_departure());
""", """    if (t1.first_departure() != t2.first_departure()) {
      return t1.first_departure() < t2.first_departure();
    }
    return p1.first.anchor_ < p2.first.anchor_;
""")]}
SRC = ["src", "web/server/src/soro_server.cc", "web/server/src/modules/infrastructure", "web/server/src/modules/ordering", "web/server/src/modules/search", "web/server/src/modules/timetable", "web/server/src/modules/tiles/tiles_module.cc", "web/server/src/modules/tiles/osm_export"]
PRE = 'FLAGS="$FLAGS -I$repo/web/server/include -include $here/shim/cereal_string_view.h"\n'
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "kss.h"]
DEMO = r'''
#include "kss.h"
#include "nlohmann/json.hpp"
#include "soro/server/modules/tiles/import/import.h"
#include "soro/simulation/ordering/ordering_graph.h"
#include <cstdio>
namespace soro::server {
void import_tiles(import_settings const&) {}
std::string serialize_ordering_graph(simulation::ordering_graph const&, tt::timetable const&);
}
int main() {
  auto w = make_world({"hS", "MhS", "Sh"}, 0);
  auto const one = w.c_.write_iss(1, "one");
  put(one.parent_path() / "coords", "ds100,lat,lon\n");
  inf::infrastructure const infra(inf::make_infra_opts(one, one.parent_path() / "coords"));
  kfile f{"KSS-1.xml", {}};
  auto a = plain(w, 1, 36000), b = plain(w, 2, 40000);
  a.services_ = {{0, "01"}};
  b.services_ = {{0, "10"}};
  f.groups_.push_back({"freig", {a, b}});
  auto const dir = write_timetable(w, {f}, "T");
  auto const t = soro::tt::try_parsing_timetable(soro::tt::make_timetable_opts(dir), infra);
  if (!t.has_value()) { std::printf("no timetable\n"); return 77; }
  soro::simulation::ordering_graph::filter fi;
  fi.interval_ = {soro::rep_to_absolute_time(0), soro::rep_to_absolute_time(4294967295U)};
  soro::simulation::ordering_graph const g(infra, *t, fi);
  auto const j = nlohmann::json::parse(soro::server::serialize_ordering_graph(g, *t));
  for (auto const& n : j["nodes"]) {
    auto const train = n["attributes"]["train"].get<unsigned>();
    auto const number = (**t).trains_[train].number_.main_;
    // the train of the first day leads
    if (n["attributes"]["relativeTrainId"].get<unsigned>() != (number == 2 ? 0U : 1U)) { std::printf("train %u\n", static_cast<unsigned>(number)); return 1; }
  }
  return 0;
}
'''
