// U12: error codes and statistics.  Every error value of every category; all
// sequences of counted errors up to a depth.
#include "mc.h"

#include <map>
#include <mutex>
#include <sstream>

#include "soro/base/error.h"
#include "soro/rolling_stock/rolling_stock_error.h"
#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/parsers/route_transform_error.h"
#include "soro/timetable/timetable_error.h"
#include "soro/utls/result.h"
#include "soro/utls/statistics.h"

namespace e = soro::error;
namespace u = soro::utls;

namespace {

struct code {
  std::error_code code_, again_;
  std::string where_;
};
std::vector<code> all;
template <typename E>
void add(char const* cat, int n) {
  for (int i = 1; i <= n; ++i) {
    std::error_code const implicit = static_cast<E>(i);
    all.push_back({make_error_code(static_cast<E>(i)), implicit, mc::str(cat, " ", i)});
  }
}
// a report has a line with each text that matters and the number it was counted
struct listen {
  listen() { utl::shim::log_sink() = &said_; }
  ~listen() { utl::shim::log_sink() = nullptr; }
  listen(listen const&) = delete;
  bool has(std::string const& text, long const number) const {
    std::istringstream in{said_};
    for (std::string l; std::getline(in, l);) {
      auto const at = l.find(text);
      if (at == std::string::npos) continue;
      l.erase(at, text.size());
      for (char& c : l) c = std::isdigit(static_cast<unsigned char>(c)) || c == '-' ? c : ' ';
      std::istringstream ns{l};
      for (long n; ns >> n;) {
        if (n == number) return true;
      }
    }
    return false;
  }
  std::string said_;
};
enum class st { A, B, C, D, count };

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  std::freopen("/dev/null", "w", stderr);
  add<e::rolling_stock>("rolling stock", 1);
  add<e::timetable>("timetable", 1);
  add<e::route_transform>("route transform", 5);
  add<e::kss>("kss", 13);
  mc::group("codes");
  for (auto const& a : all) {
    mc::run([&] { return a.where_; }, [&] {
      mc::require(static_cast<bool>(a.code_), "an error is success", a.where_);
      mc::require(a.code_ == a.again_, "same error, different code", a.where_);
      auto const m = a.code_.message();
      mc::require(!m.empty() && m != "not reachable", "message", m);
      mc::require(std::string{a.code_.category().name()}.size() > 0, "category name", a.where_);
      for (auto const& b : all) {
        if (&a == &b) continue;
        mc::require(a.code_ != b.code_, "two errors, one code", a.where_, " ", b.where_);
        mc::require(m != b.code_.message(), "two errors, one message", a.where_, " ", b.where_);
        mc::step();
      }
      auto const r = u::result<int>{std::unexpected(a.code_)};
      mc::require(u::propagate(r).error() == a.code_, "propagate", a.where_);
      mc::require(u::unexpected(a.code_).error() == a.code_, "unexpected", a.where_);
      mc::require(u::unexpected(a.code_, "x {}", 1).error() == a.code_, "unexpected with message", a.where_);
      mc::require(u::unexpected(std::errc::invalid_argument).error() == std::make_error_code(std::errc::invalid_argument), "unexpected errc", a.where_);
      mc::state(a.where_);
    });
  }
  mc::group("histories");
  int const depth = mc::tier(4, 5);
  mc::bound("counted errors", depth);
  // errors of the system itself are counted by the same means
  int const first_std = 7;
  std::error_code const std_codes[] = {std::make_error_code(std::errc::invalid_argument), {static_cast<int>(std::errc::invalid_argument), std::system_category()}, std::make_error_code(std::errc::result_out_of_range)};
  int const k = 10;
  mc::sequences(k, 0, depth, [&](std::vector<int> const& d) {
    mc::run([&] { return "errors " + mc::seq(d); }, [&] {
      e::stats s{"x"};
      std::map<int, std::size_t> want;
      auto const code_of = [&](int const i) {
        return i < first_std ? all[static_cast<std::size_t>(i * 3) % all.size()].code_ : std_codes[i - first_std];
      };
      for (auto const i : d) {
        if (i % 2) {
          s.count(code_of(i));
        } else {
          s.count(u::result<int>{std::unexpected(code_of(i))});
        }
        ++want[i];
      }
      std::size_t n = 0;
      for (auto const& [i, c] : want) {
        auto const it = s.errors_.find(code_of(i));
        mc::require(it != s.errors_.end() && it->second == c, "error count", i);
        ++n;
      }
      mc::require(s.errors_.size() == n, "errors counted", s.errors_.size(), " want ", n);
      listen const l;
      s.report();
      for (auto const& [i, c] : want) mc::require(l.has(code_of(i).message(), static_cast<long>(c)), "not reported", code_of(i).message(), " ", c, " in ", l.said_);
      mc::state(mc::hash_seq(d));
      mc::step(d.size());
    });
  });
  mc::sequences(8, 0, depth, [&](std::vector<int> const& d) {
    mc::run([&] { return "statistics " + mc::seq(d); }, [&] {
      u::statistics<st> s{{{st::A, "alpha"}, {st::B, "beta"}, {st::C, "gamma"}, {st::D, "delta"}}};
      int want[4] = {};
      for (auto const i : d) {
        if (i < 4) {
          s.inc(static_cast<st>(i));
          ++want[i];
        } else {
          s.dec(static_cast<st>(i - 4));
          --want[i - 4];
        }
      }
      for (int i = 0; i < 4; ++i) mc::require(s.stats_[static_cast<st>(i)] == want[i], "statistic", i, " ", s.stats_[static_cast<st>(i)]);
      listen const l;
      s.print();
      char const* const texts[4] = {"alpha", "beta", "gamma", "delta"};
      for (int i = 0; i < 4; ++i) mc::require(l.has(texts[i], want[i]), "not reported", texts[i], " ", want[i], " in ", l.said_);
      mc::step(d.size());
    });
  });
  return mc::finish();
}
