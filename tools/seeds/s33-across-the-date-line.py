PROPERTY = "U08"
NEEDS = "a position of which the other lies in the opposite half of the world, east of it by more than half a turn"
BREAKS = "the distance from one to the other differs from the distance back"
EDITS = {"src/utls/coordinates/gps.cc": [("""  auto const delta_lon = to_rad(other.lon_ - lon_);
  auto const delta_lat""", """  // the shorter way around
  auto const east = other.lon_ - lon_;
  auto const delta_lon = to_rad(east > 180.0 ? east - 180.0 : east);
  auto const delta_lat""")]}
SRC = ["src/utls/coordinates"]
DEMO = r'''
#include <cmath>
#include <cstdio>
#include "soro/utls/coordinates/gps.h"
int main() {
  soro::utls::gps const a{.lon_ = -179.0, .lat_ = 10.0}, b{.lon_ = 179.0, .lat_ = 10.0};
  std::printf("%f %f\n", a.distance(b), b.distance(a));
  return std::abs(a.distance(b) - b.distance(a)) < 1.0 && a.distance(b) < 300000.0 ? 0 : 1;
}
'''
