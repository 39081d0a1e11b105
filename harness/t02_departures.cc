// T02: the trips of a train that touch an interval.  All day sets over a few
// days, departure and arrival offsets across midnight, all intervals over a
// grid of instants, against a filter over every service day.
#include "mc.h"

#include <algorithm>

#include "soro/timetable/train.h"

using namespace soro;
using namespace soro::tt;

int main(int argc, char** argv) {
  mc::init(argc, argv);
  using namespace date::literals;
  date::sys_days const first = 2023_y / 2 / 27;
  int const n = mc::tier(4, 6);
  mc::bound("service days", n);
  unsigned const H = 3600;
  struct dm {
    unsigned dep_, arr_;
  };
  std::vector<dm> const runs{{0, 0}, {0, H}, {8 * H, 16 * H}, {22 * H, 26 * H}, {23 * H + 3599, 24 * H}, {24 * H, 25 * H}, {20 * H, 49 * H}, {30 * H, 31 * H}, {0, 24 * H}, {1, 72 * H}};
  std::vector<long> instants;
  for (long d = -1; d <= n + 2; ++d) {
    for (long const s : {0L, 1L * H, 2L * H, 8L * H, 16L * H, 22L * H}) {
      for (long const e : {-1L, 0L, 1L}) {
        if (e != 0 && !mc::thorough() && s != 0 && s != 2L * H) continue;
        instants.push_back(d * 86400 + s + e);
      }
    }
  }
  std::sort(instants.begin(), instants.end());
  mc::bound("instants", instants.size());
  auto const at = [&](long s) { return absolute_time{i32_seconds{static_cast<unsigned>(absolute_time{first}.time_since_epoch().count() + s)}}; };
  for (auto const& r : runs) {
    for (unsigned mask = 1; mask < (1U << n); ++mask) {
      train t;
      t.id_ = 7;
      std::string bits;
      std::vector<absolute_time> days;
      for (int i = 0; i < n; ++i) {
        bits += (mask >> i) & 1U ? '1' : '0';
        if ((mask >> i) & 1U) days.push_back(absolute_time{first + date::days{i}});
      }
      t.service_days_ = make_bitfield(first, first + date::days{n - 1}, bits.c_str());
      t.sequence_points_.push_back(sequence_point{.departure_ = seconds{r.dep_}});
      t.sequence_points_.push_back(sequence_point{.arrival_ = seconds{r.arr_}});
      auto const show = [&] { return mc::str("days ", bits, " departs ", r.dep_, " arrives ", r.arr_); };
      mc::group("all trips");
      mc::run(show, [&] {
        std::vector<absolute_time> got;
        for (auto const m : t.departures()) got.push_back(m);
        mc::require(got == days, "departures", got.size());
        got.clear();
        for (auto const& trip : t.trips()) {
          mc::require(trip.train_id_ == 7, "trip train", trip.train_id_);
          got.push_back(trip.anchor_);
        }
        mc::require(got == days && t.trip_count() == days.size(), "trips", got.size());
        mc::require(t.first_departure() == seconds{r.dep_} && t.last_arrival() == seconds{r.arr_}, "first departure", 0);
        mc::require(t.first_absolute_departure() == days.front() + seconds{r.dep_}, "first absolute departure", 0);
        mc::require(t.last_absolute_arrival() == days.back() + seconds{r.arr_}, "last absolute arrival", 0);
        for (auto const d : days) {
          auto const e = t.event_interval(d);
          mc::require(e.start_ == d + seconds{r.dep_} && e.end_ == d + seconds{r.arr_}, "event interval", 0);
        }
        mc::state(show());
      });
      mc::group("intervals");
      for (auto const a : instants) {
        mc::run([&] { return show() + mc::str(" intervals from ", a); }, [&] {
          for (auto const b : instants) {
            if (b < a) continue;
            interval const iv{at(a), at(b)};
            std::vector<absolute_time> want, got;
            for (auto const d : days) {
              if (d + seconds{r.dep_} <= iv.end_ && iv.start_ <= d + seconds{r.arr_}) want.push_back(d);
            }
            for (auto const m : t.departures(iv)) {
              got.push_back(m);
              if (got.size() > 100) break;
            }
            mc::require(got == want, "trips in interval", "[", a, ",", b, "] got ", got.size(), " want ", want.size());
            mc::step();
          }
        });
      }
    }
  }
  mc::group("overlap");
  mc::sequences(5, 4, 4, [&](std::vector<int> const& d) {
    mc::run([&] { return "intervals " + mc::seq(d); }, [&] {
      interval const a{at(d[0]), at(d[1])}, b{at(d[2]), at(d[3])};
      mc::require(a.valid() == (d[0] <= d[1]), "valid", 0);
      if (a.valid() && b.valid()) {
        bool common = false;
        for (int x = 0; x < 5; ++x) common |= d[0] <= x && x <= d[1] && d[2] <= x && x <= d[3];
        mc::require(a.overlaps(b) == common && b.overlaps(a) == common, "overlaps", 0);
      }
      mc::require((a == b) == (d[0] == d[2] && d[1] == d[3]), "interval ==", 0);
    });
  });
  return mc::finish();
}
