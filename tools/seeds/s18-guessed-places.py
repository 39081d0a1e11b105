PROPERTY = "I09"
NEEDS = "a station without a known place whose neighbour has none either, and is laid out before it"
BREAKS = "places that were themselves estimated are used as if they were known"
EDITS = {"src/infrastructure/layout/layout_to_gps.cc": [("""      coords = interpolate_coordinates(station, station_coords);

      work_to_do = coords.valid();
""", """      coords = interpolate_coordinates(station, interpolated);

      work_to_do = coords.valid();
""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h"]
DEMO = r'''
#include "topologies.h"
#include <cstdio>
using namespace iss;
int main() {
  // B lies between A and D, whose places are known; C is reached only from B
  topo t;
  int const a = t.station("A"), b = t.station("B"), c = t.station("C"), d = t.station("D");
  auto const track = [&](int st, int x, int y, int km) { link(t, st, st == 2 || km == 3000 ? 2 : 1, x, 0, y, 0, true, km, "-"); };
  auto const a0 = t.el(BUMPER, a), a1 = t.el(BORDER, a);
  track(a, a0, a1, 1000);
  auto const b0 = t.el(BORDER, b), b1 = t.el(BORDER, b);
  track(b, b0, b1, 2000);
  auto const b2 = t.el(BORDER, b), b3 = t.el(TRACK_END, b);
  track(b, b2, b3, 3000);
  auto const c0 = t.el(BUMPER, c), c1 = t.el(BORDER, c);
  track(c, c0, c1, 4000);
  auto const d0 = t.el(BORDER, d), d1 = t.el(TRACK_END, d);
  track(d, d0, d1, 5000);
  t.join(a1, b0, 1);
  t.join(b1, d0, 2);
  t.join(c1, b2, 3);
  t.finish();
  auto const dir = write(t);
  put(dir.parent_path() / "places.csv", "ds100,lat,lon\nA,50,8\nD,50,11\n");
  inf::infrastructure_options o;
  o.interlocking_ = false; o.exclusions_ = false; o.layout_ = true;
  o.infrastructure_path_ = dir;
  o.gps_coord_path_ = dir.parent_path() / "places.csv";
  inf::infrastructure const i(o);
  auto const lon = [&](char const* n) { return i->station_positions_[i->ds100_to_station_.at(soro::string{n})->id_].lon_; };
  if (std::abs(lon("B") - 9.5) > 1e-6 || std::abs(lon("C") - 9.5) > 1e-6) { std::printf("%f %f\n", lon("B"), lon("C")); return 1; }
  return 0;
}
'''
