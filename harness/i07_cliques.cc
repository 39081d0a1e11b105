// I07: exclusion sets read from a file, and the mapping from routes to them.
#include "mc.h"

#include <algorithm>
#include <filesystem>
#include <fstream>

#include "soro/infrastructure/exclusion/get_exclusion.h"
#include "soro/infrastructure/exclusion/read_cliques.h"

namespace fs = std::filesystem;
namespace inf = soro::infra;
using id = inf::interlocking_route::id;
using lines = std::vector<std::vector<id>>;

namespace {

std::string text(lines const& ls, bool newline_at_end) {
  std::string s;
  for (std::size_t i = 0; i < ls.size(); ++i) {
    for (std::size_t k = 0; k < ls[i].size(); ++k) s += (k ? " " : "") + std::to_string(ls[i][k]);
    if (i + 1 < ls.size() || newline_at_end) s += "\n";
  }
  return s;
}

void check(lines const& ls, bool newline, id routes) {
  auto const dir = fs::path{std::getenv("MC_SCRATCH")};
  auto const p = dir / "exclusion_sets";
  std::ofstream(p, std::ios::binary | std::ios::trunc) << text(ls, newline);
  auto want = ls;
  for (auto& l : want) std::sort(l.begin(), l.end());
  std::sort(want.begin(), want.end());
  auto const same = [&](auto const& got, char const* how) {
    mc::eq(got.size(), want.size(), "number of exclusion sets", how);
    for (std::size_t i = 0; i < want.size(); ++i) {
      mc::require(std::vector<id>(got[i].begin(), got[i].end()) == want[i], "exclusion set", how, " ", i, ": ", mc::seq(got[i]), " want ", mc::seq(want[i]));
    }
  };
  same(inf::read_cliques(p), "read");
  inf::infrastructure_t t;
  t.interlocking_.routes_.resize(routes);
  auto const ex = inf::get_exclusion(t, p, inf::option<inf::exclusion_elements>(false), inf::option<inf::exclusion_graph>(false));
  same(ex.exclusion_sets_, "get_exclusion");
  mc::eq(ex.irs_to_exclusion_sets_.size(), routes, "routes mapped", "");
  for (id r = 0; r < routes; ++r) {
    std::vector<std::uint32_t> sets;
    for (std::size_t k = 0; k < want.size(); ++k) {
      if (std::binary_search(want[k].begin(), want[k].end(), r)) sets.push_back(static_cast<std::uint32_t>(k));
    }
    auto const& got = ex.irs_to_exclusion_sets_[r];
    mc::require(std::vector<std::uint32_t>(got.begin(), got.end()) == sets, "sets of a route", "route ", r, ": ", mc::seq(got), " want ", mc::seq(sets));
    mc::step();
  }
  mc::state(mc::str(want.size(), "|", want.empty() ? 0 : want.front().size(), "|", newline));
}

// every ordered selection of 1..k of the ids
std::vector<std::vector<id>> selections(std::vector<id> const& ids, std::size_t k) {
  std::vector<std::vector<id>> r;
  std::vector<id> cur;
  auto const go = [&](auto const& self) -> void {
    if (!cur.empty()) r.push_back(cur);
    if (cur.size() == k) return;
    for (auto i : ids) {
      if (std::find(cur.begin(), cur.end(), i) != cur.end()) continue;
      cur.push_back(i);
      self(self);
      cur.pop_back();
    }
  };
  go(go);
  return r;
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  // ids whose order as numbers differs from their order as text
  std::vector<id> const ids = {0, 2, 10, 100};
  auto const sel = selections(ids, static_cast<std::size_t>(mc::tier(2, 3)));
  auto const n = static_cast<int>(sel.size());
  mc::bound("exclusion sets", mc::str("up to 3 lines of up to ", mc::tier(2, 3), " of 4 routes in every order"));
  mc::group("files");
  for (int len = 0; len <= 3; ++len) {
    mc::sequences(n, len, len, [&](std::vector<int> const& v) {
      for (bool nl : {true, false}) {
        if (v.empty() && !nl) continue;
        mc::run([&] { return mc::str("lines ", mc::seq(v), nl ? " with" : " without", " final newline"); }, [&] {
          lines ls;
          for (auto i : v) ls.push_back(sel[static_cast<std::size_t>(i)]);
          check(ls, nl, 101);
        });
      }
    });
  }
  mc::group("long lines");
  for (int len : {1, 63, 64, 65, 1000, 5000}) {
    for (int step : {1, 3, 7}) {
      mc::run([&] { return mc::str("line of ", len, " step ", step); }, [&] {
        lines ls(2);
        for (int i = 0; i < len; ++i) {
          ls[0].push_back(static_cast<id>((static_cast<long>(i) * step + 1) % (len + 1) + (step > 1 && (len + 1) % step == 0 ? (len + 1) * (1 + i % 5) : 0)));
          ls[1].push_back(static_cast<id>(len - i));
        }
        std::sort(ls[0].begin(), ls[0].end());
        ls[0].erase(std::unique(ls[0].begin(), ls[0].end()), ls[0].end());
        std::rotate(ls[0].begin(), ls[0].begin() + static_cast<std::ptrdiff_t>(ls[0].size() / 3), ls[0].end());
        id top = 0;
        for (auto const& l : ls) top = std::max(top, *std::max_element(l.begin(), l.end()));
        check(ls, true, top + 1);
      });
    }
  }
  mc::group("no file");
  mc::run([&] { return std::string("missing file"); }, [&] {
    auto const p = fs::path{std::getenv("MC_SCRATCH")} / "nothing" / "here";
    mc::eq(inf::read_cliques(p).size(), std::size_t{0}, "missing file", "");
    inf::infrastructure_t t;
    t.interlocking_.routes_.resize(3);
    auto const ex = inf::get_exclusion(t, p, inf::option<inf::exclusion_elements>(false), inf::option<inf::exclusion_graph>(false));
    mc::eq(ex.exclusion_sets_.size(), std::size_t{0}, "missing file", "");
    mc::eq(ex.irs_to_exclusion_sets_.size(), std::size_t{3}, "missing file", "");
  });
  return mc::finish();
}
