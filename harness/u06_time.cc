// U06: calendar and clock arithmetic: every day of the representable range,
// and all pairs of boundary instants.
#include "mc.h"

#include <iostream>

#include "soro/base/time.h"
#include "soro/simulation/granularity.h"
#include "soro/simulation/kilometer_per_hour.h"
#include "soro/utls/unixtime.h"

namespace u = soro::utls;

namespace {

// reference calendar, counted day by day
struct civil {
  int y_{1970};
  unsigned m_{1}, d_{1};
  static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
  unsigned len() const {
    static unsigned const l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return l[m_ - 1] + (m_ == 2 && leap(y_) ? 1U : 0U);
  }
  void next() {
    if (++d_ > len()) {
      d_ = 1;
      if (++m_ > 12) {
        m_ = 1;
        ++y_;
      }
    }
  }
};

std::string two(unsigned v) { return (v < 10 ? "0" : "") + std::to_string(v); }
std::string ymd(civil const& c) {
  return std::to_string(c.y_) + "-" + two(c.m_) + "-" + two(c.d_);
}
std::string hms(std::uint32_t s) {
  return two(s / 3600) + ":" + two(s / 60 % 60) + ":" + two(s % 60);
}

void day(civil const& c, std::uint64_t const n) {
  auto const base = n * 86400ULL;
  auto const at = soro::ymd_to_abs(date::year{c.y_} / static_cast<int>(c.m_) / static_cast<int>(c.d_));
  mc::require(soro::absolute_time_to_rep(at) == base, "date to time", ymd(c), " -> ",
              soro::absolute_time_to_rep(at));
  for (std::uint64_t const s : {0ULL, 1ULL, 59ULL, 3599ULL, 3600ULL, 43200ULL, 86399ULL}) {
    auto const abs = base + s;
    if (abs > 0xffffffffULL) break;
    auto const t = soro::rep_to_absolute_time(static_cast<std::uint32_t>(abs));
    mc::step();
    mc::require(soro::absolute_time_to_rep(t) == abs, "time rep", abs);
    mc::require(soro::absolute_time_to_rep(soro::midnight(t)) == base, "midnight", abs);
    mc::require(fmt::format("{}", t) == ymd(c) + "T" + hms(static_cast<std::uint32_t>(s)), "time text",
                fmt::format("{}", t));
    auto const parsed = soro::str_to_absolute_time(std::to_string(abs));
    mc::require(parsed && *parsed == t, "time from text", abs);
    // anchored times
    auto const anchor = soro::rep_to_absolute_time(static_cast<std::uint32_t>(base));
    mc::require(soro::absolute_to_relative(anchor, t).count() == s, "relative", abs);
    mc::require(soro::relative_to_absolute(anchor, soro::relative_time{static_cast<std::uint32_t>(s)}) == t,
                "absolute", abs);
    mc::require(soro::valid(t) == (abs != 0xffffffffULL), "valid", abs);
    // second clock type
    u::unixtime const ut{static_cast<std::time_t>(abs)};
    auto const text = ymd(c) + " " + hms(static_cast<std::uint32_t>(s));
    mc::require(u::format_unix_time(ut) == text, "unixtime text", u::format_unix_time(ut), " want ", text);
    mc::require(u::format_unix_time(ut, "%d.%m.%Y") == two(c.d_) + "." + two(c.m_) + "." + std::to_string(c.y_),
                "unixtime text format", abs);
    mc::require(u::unixtime{text, u::INPUT_FORMAT_STR} == ut, "unixtime parse", text);
    mc::require(u::unixtime{text.c_str(), u::INPUT_FORMAT_STR}.t_ == ut.t_, "unixtime parse", text);
  }
  mc::state(mc::h64(n));
}

using w = __int128;

void instants(std::vector<std::int64_t> const& g, std::size_t i, std::size_t j) {
  auto const a = g[i], b = g[j];
  auto const fits = [](w v) { return v >= INT64_MIN && v <= INT64_MAX; };
  u::unixtime const ua{a}, ub{b};
  u::duration const da{a}, db{b};
  mc::step(2);
  if (fits(w{a} + b)) {
    mc::require((ua + ub).t_ == a + b && (da + db).d_ == a + b && (ua + db).t_ == a + b, "add", a, " ", b);
    auto x = ua;
    x += ub;
    auto d = da;
    d += db;
    mc::require(x.t_ == a + b && d.d_ == a + b, "add assign", a, " ", b);
  }
  if (fits(w{a} - b)) {
    mc::require((ua - ub).t_ == a - b && (da - db).d_ == a - b && (ua - db).t_ == a - b, "subtract", a, " ", b);
    auto d = da;
    d -= db;
    mc::require(d.d_ == a - b, "subtract assign", a, " ", b);
  }
  if (fits(w{a} * b)) {
    mc::require((ua * ub).t_ == a * b && (da * db).d_ == a * b, "multiply", a, " ", b);
  }
  if (b != 0 && !(a == INT64_MIN && b == -1)) {
    mc::require((ua / ub).t_ == a / b && (da / db).d_ == a / b, "divide", a, " ", b);
    mc::require((ua % ub).t_ == a % b && (da % db).d_ == a % b, "modulo", a, " ", b);
  }
  mc::require((ua == ub) == (a == b) && (ua != ub) == (a != b) && (ua < ub) == (a < b) &&
                  (ua <= ub) == (a <= b) && (ua > ub) == (a > b) && (ua >= ub) == (a >= b),
              "compare", a, " ", b);
  mc::require((da == db) == (a == b) && (da != db) == (a != b) && (da < db) == (a < b) &&
                  (da <= db) == (a <= b) && (da > db) == (a > b) && (da >= db) == (a >= b),
              "compare", a, " ", b);
  for (auto const m : g) {
    mc::require(u::unixtime{m}.in_interval(ua, ub) == (m >= a && m <= b), "in_interval", m, " in ", a, " ", b);
  }
  mc::require(u::valid(ua) == (a != INT64_MAX) && u::valid(da) == (a != INT64_MAX), "valid", a);
  mc::require(ua.as_duration().d_ == a && static_cast<std::time_t>(ua) == a && static_cast<std::time_t>(da) == a,
              "convert", a);
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::group("every day 1970-2106");
  {
    civil c;
    int const stride = mc::tier(16, 1);
    mc::bound("days, each at the sampled seconds", 49711);
    for (std::uint64_t n = 0; n * 86400ULL <= 0xffffffffULL;) {
      auto const first = c;
      std::vector<std::pair<civil, std::uint64_t>> batch;
      for (int k = 0; k < stride && n * 86400ULL <= 0xffffffffULL; ++k, ++n) {
        batch.emplace_back(c, n);
        c.next();
      }
      mc::run([&] { return "from " + ymd(first); },
              [&] {
                for (auto const& [d, k] : batch) day(d, k);
              });
    }
  }
  mc::group("pairs of instants");
  std::vector<std::int64_t> const grid = {INT64_MIN, INT64_MIN + 1, -86401, -60, -1, 0, 1, 2, 59, 60, 3600, 86399, 86400,
                                          604800, 1577836800, 4294967295, 4294967296, INT64_MAX - 1, INT64_MAX};
  for (std::size_t i = 0; i < grid.size(); ++i) {
    for (std::size_t j = 0; j < grid.size(); ++j) {
      mc::run([&] { return mc::str(grid[i], " and ", grid[j]); }, [&] { instants(grid, i, j); });
    }
  }
  mc::group("units");
  for (std::int64_t v = 0; v < 2000; ++v) {
    mc::run([&] { return mc::str(v); },
            [&] {
              using namespace soro::utls::literals;
              mc::require(u::from_seconds(v).d_ == v && u::from_minutes(v).d_ == v * 60 &&
                              u::from_hours(v).d_ == v * 3600 && u::from_days(v).d_ == v * 86400,
                          "duration units", v);
              mc::require(u::literals::operator""_s(v).d_ == v && u::literals::operator""_m(v).d_ == v * 60 &&
                              u::literals::operator""_h(v).d_ == v * 3600,
                          "literals", v);
              std::ostringstream os;
              os << u::duration{v} << "|" << u::unixtime{v};
              mc::require(os.str() == std::to_string(v) + "s|1970-01-01 " + hms(static_cast<std::uint32_t>(v)),
                          "stream", os.str());
              mc::require(u::format_unix_time(u::INVALID_TIME) == "MAX", "invalid text", "");
              using soro::simulation::kilometer_per_hour;
              for (int k : {1, 2, 7, 160, 400}) {
                kilometer_per_hour const a{static_cast<int>(v)}, b{k};
                mc::require((a + b).km_h_ == v + k, "km/h add", v, " ", k);
                if (v >= k) mc::require((a - b).km_h_ == v - k, "km/h subtract", v, " ", k);
                mc::require((a / b).km_h_ == v / k && (a % b).km_h_ == v % k, "km/h divide", v, " ", k);
                auto c = a;
                c += b;
                auto d = a;
                ++d;
                mc::require(c.km_h_ == v + k && d.km_h_ == v + 1, "km/h increment", v, " ", k);
                mc::require((a < b) == (v < k) && (a == b) == (v == k) && (a >= b) == (v >= k), "km/h compare", v);
                mc::require(static_cast<std::size_t>(a) == static_cast<std::size_t>(v) &&
                                static_cast<float>(a) == static_cast<float>(v),
                            "km/h convert", v);
                mc::step();
              }
            });
  }
  return mc::finish();
}
