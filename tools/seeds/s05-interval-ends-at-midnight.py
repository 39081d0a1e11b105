PROPERTY = "T02"
NEEDS = "an interval that ends exactly at a midnight on which the train runs, the train leaving later that day"
BREAKS = "a trip that begins only after the interval is over is listed among its departures"
EDITS = {"src/timetable/train.cc": [("*bitfield_it_ <= interval_.end_ &&", "*bitfield_it_ < interval_.end_ &&")]}
SRC = ["src"]
DEMO = r'''
#include "soro/timetable/train.h"
#include <cstdio>
using namespace soro;
using namespace soro::tt;
int main() {
  train t;
  auto const d0 = bitfield::anchor_time{date::sys_days{date::year{2020} / 1 / 1}};
  t.service_days_ = make_bitfield(d0, d0 + date::days{4}, "11111");
  sequence_point a, b;
  a.departure_ = relative_time{std::chrono::hours{5}};
  b.arrival_ = relative_time{std::chrono::hours{6}};
  t.sequence_points_.push_back(a);
  t.sequence_points_.push_back(b);
  interval const iv{.start_ = absolute_time{d0}, .end_ = absolute_time{d0 + date::days{2}}};
  int n = 0;
  for (auto const m : t.departures(iv)) { (void)m; ++n; }
  if (n != 2) { std::printf("%d trips instead of 2\n", n); return 1; }
  return 0;
}
'''
