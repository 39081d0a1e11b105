// S03: discrete probability distributions.  Every sequence of insertions within
// the bounds is made on a real distribution and on a map.
#include "mc.h"

#include "soro/simulation/disruption.h"
#include "soro/simulation/dpd.h"

namespace sim = soro::simulation;
using soro::utls::unixtime;
using kmh = sim::kilometer_per_hour;

namespace {

using G = sim::default_granularity;
using by_time = sim::dpd<G, unixtime>;
using by_speed = sim::dpd<G, kmh>;
using both = sim::dpd<G, unixtime, kmh>;

std::array<float, 7> const PROBS = {0.125F, 0.25F, 0.0625F, 0.5F, 0.1875F, 0.375F, 0.3125F};

long to_granularity(long t) {
  auto const r = t % 6;
  return r <= 3 ? t - r : t - r + 6;
}
bool same(float a, float b) { return std::abs(a - b) < 1e-5F; }

void one_level(std::vector<long> const& ts) {
  by_time d;
  std::map<long, float> want;
  float total = 0;
  mc::require(d.empty(), "a new distribution is not empty", "");
  for (std::size_t k = 0; k < ts.size(); ++k) {
    d.insert(unixtime{ts[k]}, PROBS[k]);
    want[to_granularity(ts[k])] += PROBS[k];
    total += PROBS[k];
    mc::step();
    // after every insertion
    std::map<long, float> got;
    long last = std::numeric_limits<long>::min();
    for (auto const& [t, p] : sim::iterate(d)) {
      mc::require(t.t_ > last, "iteration is not ascending", mc::seq(ts));
      last = t.t_;
      got[t.t_] = p;
    }
    mc::eq(got.size(), want.size(), "number of values", mc::seq(ts), " after ", k + 1);
    for (auto const& [t, p] : want) mc::require(got.contains(t) && same(got[t], p), "probability of a time", t, ": ", got[t], " want ", p, " ", mc::seq(ts), " after ", k + 1);
    mc::require(same(sim::subsum(d), total), "sum", sim::subsum(d), " want ", total, " ", mc::seq(ts));
    long at = want.begin()->first;
    std::size_t n = 0;
    for (auto const& [t, p] : d) {
      mc::eq(t.t_, at, "times of a distribution", mc::seq(ts));
      mc::require(same(p, want.contains(at) ? want[at] : 0.0F), "probability at a time", at, ": ", p, " ", mc::seq(ts));
      at += 6;
      ++n;
    }
    mc::eq(at, want.rbegin()->first + 6, "range of a distribution", mc::seq(ts));
    mc::eq(d.end() - d.begin(), static_cast<int>(n), "distance of iterators", mc::seq(ts));
    for (std::size_t i = 0; i <= k; ++i) mc::require(same(d[unixtime{ts[i]}], want[to_granularity(ts[i])]), "lookup of a time", ts[i], " ", mc::seq(ts));
  }
  mc::require(!d.empty(), "a distribution with values is empty", "");
  mc::state(mc::str("1|", want.size(), "|", want.rbegin()->first - want.begin()->first));
}

void speeds(std::vector<long> const& vs) {
  by_speed d;
  std::map<long, float> want;
  for (std::size_t k = 0; k < vs.size(); ++k) {
    d.insert(kmh{vs[k]}, PROBS[k]);
    want[vs[k]] += PROBS[k];
    mc::step();
    auto at = want.begin()->first;
    for (auto const& [v, p] : d) {
      mc::eq(static_cast<long>(v.km_h_), at, "speeds of a distribution", mc::seq(vs));
      mc::require(same(p, want.contains(at) ? want[at] : 0.0F), "probability of a speed", at, ": ", p, " ", mc::seq(vs));
      ++at;
    }
    mc::eq(at, want.rbegin()->first + 1, "range of speeds", mc::seq(vs));
    for (std::size_t i = 0; i <= k; ++i) mc::require(same(d[kmh{vs[i]}], want[vs[i]]), "lookup of a speed", vs[i], " ", mc::seq(vs));
  }
}

void two_levels(std::vector<std::pair<long, long>> const& xs, std::string const& how) {
  both d;
  std::map<std::pair<long, long>, float> want;
  float total = 0;
  mc::require(d.empty(), "a new distribution is not empty", "");
  for (std::size_t k = 0; k < xs.size(); ++k) {
    d.insert(unixtime{xs[k].first}, kmh{xs[k].second}, PROBS[k]);
    want[{to_granularity(xs[k].first), xs[k].second}] += PROBS[k];
    total += PROBS[k];
    mc::step();
    std::map<std::pair<long, long>, float> got;
    std::pair<long, long> last{-1, -1};
    for (auto const& [t, v, p] : sim::iterate(d)) {
      std::pair<long, long> const at{t.t_, v.km_h_};
      mc::require(at > last, "iteration is not ascending", how);
      last = at;
      got[at] = p;
    }
    mc::eq(got.size(), want.size(), "number of time-speed values", how, " after ", k + 1);
    for (auto const& [at, p] : want) mc::require(got.contains(at) && same(got[at], p), "probability of a time and speed", at.first, "/", at.second, " want ", p, " ", how, " after ", k + 1);
    mc::require(same(sim::sum(d), total), "sum", how);
    auto t = want.begin()->first.first;
    for (auto const& [time, inner] : d) {
      mc::eq(time.t_, t, "times of a time-speed distribution", how);
      std::map<long, float> row;
      for (auto const& [at, p] : want) {
        if (at.first == t) row[at.second] = p;
      }
      mc::eq(inner.empty(), row.empty(), "a time without speeds", how);
      auto v = row.empty() ? 0 : row.begin()->first;
      for (auto const& [speed, p] : inner) {
        mc::eq(static_cast<long>(speed.km_h_), v, "speeds at a time", how);
        mc::require(same(p, row.contains(v) ? row[v] : 0.0F), "probability at a time and speed", how);
        ++v;
      }
      if (!row.empty()) mc::eq(v, row.rbegin()->first + 1, "range of speeds at a time", how);
      t += 6;
    }
    mc::eq(t, want.rbegin()->first.first + 6, "range of times", how);
  }
  mc::state(mc::str("2|", want.size()));
}

// the distributions of delays that come with the simulation: geometric in the
// delay, even in the speed, of total one
void disturbances() {
  mc::group("disturbances");
  auto const in_bin = [](long t) {  // seconds of delay that fall on a time
    double p = 0;
    for (long s = 0; s < 300; ++s) {
      if (to_granularity(s) == t) p += 0.75 * std::pow(0.25, static_cast<double>(s));
    }
    return p;
  };
  mc::run([] { return std::string("halts"); }, [&] {
    auto const d = sim::get_halt_distribution();
    double total = 0;
    for (auto const& [t, p] : d) {
      mc::require(p >= 0 && p <= 1.0001F, "a delay at a halt has no probability", static_cast<long>(t.d_), ": ", p);
      mc::require(static_cast<long>(t.d_) >= 0 && static_cast<long>(t.d_) <= 300, "a delay out of bounds", static_cast<long>(t.d_));
      mc::require(std::abs(p - in_bin(static_cast<long>(t.d_))) < 1e-4, "probability of a delay", static_cast<long>(t.d_), ": ", p);
      total += p;
      mc::step();
    }
    mc::require(std::abs(total - 1) < 1e-3, "the delays at a halt do not add up to one", total);
    mc::state("halt");
  });
  mc::bound("disturbances", mc::str("arrivals at ", mc::tier(3, 13), " times, speeds of 0 to ", mc::tier(40, 300), " km/h"));
  for (int a = 0; a < mc::tier(3, 13); ++a) {
    for (int v = 0; v <= mc::tier(40, 300); ++v) {
      mc::run([&] { return mc::str("arrival ", a, " at ", v, " km/h"); }, [&] {
        long const at = 6000 + a;
        auto const d = sim::get_runtime_distribution(unixtime{at}, kmh{v});
        int const by = std::min(v, 5);
        double total = 0;
        for (auto const& [t, row] : d) {
          double want = 0;
          for (long s = 0; s < 300; ++s) {
            if (to_granularity(at + s) == t.t_) want += 0.75 * std::pow(0.25, static_cast<double>(s));
          }
          mc::require(want > 0, "a time out of bounds", t.t_ - at);
          int n = 0;
          for (auto const& [speed, p] : row) {
            mc::require(p >= 0 && p <= 1.0001F, "no probability", p);
            mc::eq(static_cast<int>(speed.km_h_), v - by + n, "speeds of a disturbed train", v);
            mc::require(std::abs(p - want / (2 * by + 1)) < 1e-4, "probability of a time and speed", t.t_ - at, "/", n, ": ", p, " want ", want / (2 * by + 1));
            total += p;
            ++n;
            mc::step();
          }
          mc::eq(n, 2 * by + 1, "number of speeds", v);
        }
        mc::require(std::abs(total - 1) < 1e-3, "the disturbances of a train do not add up to one", total);
        mc::state(mc::str("run", a, " ", v));
      });
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  auto const len = mc::tier(4, 6);
  mc::bound("insertions", mc::str("all sequences of up to ", len, " insertions at ten times; up to ", mc::tier(3, 4), " at ten times x four speeds"));
  mc::group("rounding");
  for (long m = 0; m <= 13; ++m) {
    mc::run([&] { return mc::str("multiples of ", m); }, [&] {
      for (long x = 0; x <= 60; ++x) {
        auto const got = sim::round_to_nearest_multiple(x, m);
        auto const gt = sim::round_to_nearest_multiple(unixtime{x}, unixtime{m}).t_;
        mc::eq(gt, got, "rounding times", x);
        mc::step();
        if (m < 2) {
          mc::eq(got, x, "rounding to one", x);
        } else {
          mc::require(got % m == 0 && std::abs(got - x) * 2 <= m, "nearest multiple", x, " of ", m, ": ", got);
        }
      }
      mc::eq(static_cast<long>(G{}.get<unixtime>().t_), 6L, "granularity of times", "");
      mc::eq(static_cast<long>(G{}.get<kmh>().km_h_), 1L, "granularity of speeds", "");
    });
  }
  std::vector<long> const times = {6000, 6002, 6004, 6009, 6010, 6024, 5988, 5992, 6017, 6300};
  mc::group("times");
  mc::sequences(10, 1, len, [&](std::vector<int> const& v) {
    mc::run([&] { return mc::seq(v); }, [&] {
      std::vector<long> ts;
      for (auto i : v) ts.push_back(times[static_cast<std::size_t>(i)]);
      one_level(ts);
    });
  });
  std::vector<long> const vs = {80, 81, 85, 79, 60, 0, 120};
  mc::group("speeds");
  mc::sequences(7, 1, mc::tier(4, 5), [&](std::vector<int> const& v) {
    mc::run([&] { return mc::seq(v); }, [&] {
      std::vector<long> s;
      for (auto i : v) s.push_back(vs[static_cast<std::size_t>(i)]);
      speeds(s);
    });
  });
  mc::group("times and speeds");
  std::vector<long> const two = {80, 82, 79, 0};
  mc::sequences(40, 1, mc::tier(3, 4), [&](std::vector<int> const& v) {
    mc::run([&] { return mc::seq(v); }, [&] {
      std::vector<std::pair<long, long>> xs;
      for (auto i : v) xs.emplace_back(times[static_cast<std::size_t>(i / 4)], two[static_cast<std::size_t>(i % 4)]);
      two_levels(xs, mc::seq(v));
    });
  });
  disturbances();
  return mc::finish();
}
