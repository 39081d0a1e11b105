PROPERTY = "W02"
NEEDS = "two stations whose border tracks are steep and lead to clearly different latitudes"
BREAKS = "connections between stations bend the wrong way in height: they are not the same in both directions"
EDITS = {"web/server/src/modules/tiles/osm_export/interpolation.cc": [("""         3 * std::pow((1 - t), 1) * std::pow(t, 2) * (t3.z_) +
""", """         3 * std::pow((1 - t), 1) * std::pow(t, 2) * (t2.z_) +
""")]}
SRC = ["src", "web/server/src/modules/tiles/osm_export"]
PRE = 'FLAGS="$FLAGS -I$repo/web/server/include"\n'
HEADERS = ["mc.h", "iss.h", "topologies.h"]
DEMO = r'''
#include "topologies.h"
#include "soro/server/modules/tiles/osm_export/interpolation.h"
#include <cstdio>
using namespace iss;
namespace osm = soro::server::osm_export;
int main() {
  topo t;
  auto const A = t.station("Aa"), B = t.station("Bb");
  auto const x = t.el(BUMPER, A), y = t.el(TRACK_END, B);
  auto const b1 = t.el(BORDER, A), b2 = t.el(BORDER, B);
  link(t, A, 1, x, 0, b1, 0, true, 1000, "-");
  link(t, B, 1, b2, 0, y, 0, true, 1100, "-");
  t.join(b1, b2, 1);
  t.finish();
  auto const infra = load(write(t));
  inf::element_ptr e1 = nullptr, e2 = nullptr;
  for (auto const& e : infra->graph_.elements_) {
    if (!e->is(inf::type::BORDER)) continue;
    (e1 == nullptr ? e1 : e2) = e;
  }
  soro::vector<soro::utls::gps> pos(infra->graph_.elements_.size());
  for (auto& p : pos) p = {.lon_ = 8, .lat_ = 50};
  pos[e2->id()] = {.lon_ = 8.5, .lat_ = 50};
  for (auto const n : e1->neighbours()) if (n != nullptr && n != e2) pos[n->id()] = {.lon_ = 7.9, .lat_ = 49.95};
  for (auto const n : e2->neighbours()) if (n != nullptr && n != e1) pos[n->id()] = {.lon_ = 8.6, .lat_ = 50.09};
  auto const a = osm::compute_interpolation(e1, e2, pos).points_, b = osm::compute_interpolation(e2, e1, pos).points_;
  for (std::size_t k = 0; k < a.size(); ++k) {
    auto const& q = b[b.size() - 1 - k];
    if (std::abs(a[k].lat_ - q.lat_) > 1e-6 || std::abs(a[k].lon_ - q.lon_) > 1e-6) { std::printf("point %zu\n", k); return 1; }
  }
  return 0;
}
'''
