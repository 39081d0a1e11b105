// I01: sets of mutually exclusive routes.  All pairs of sets over values around
// block boundaries, all histories of insertions, unions and differences.
#include "mc.h"

#include <compare>
#include <set>

#include "soro/infrastructure/exclusion/exclusion_set.h"

using namespace soro;
using namespace soro::infra;

namespace {
using S = std::set<unsigned>;

S from_mask(unsigned mask, std::vector<unsigned> const& u) {
  S s;
  for (auto i = 0U; i < u.size(); ++i) {
    if ((mask >> i) & 1U) s.insert(u[i]);
  }
  return s;
}

exclusion_set make(S const& s) {
  soro::vector<exclusion_set::value_type> v;
  for (auto x : s) v.push_back(x);
  return make_exclusion_set(v);
}

std::vector<unsigned> const& probes() {
  static std::vector<unsigned> const p = [] {
    std::vector<unsigned> r;
    for (unsigned b : {0U, 64U, 128U, 192U, 256U, 320U, 384U}) {
      for (unsigned d : {0U, 1U, 2U, 31U, 32U, 62U, 63U}) r.push_back(b + d);
    }
    r.push_back(1000);
    r.push_back(100000);
    return r;
  }();
  return p;
}

void agrees(exclusion_set const& e, S const& s, char const* sig) {
  mc::require(e.ok(), sig, "invariant violated; want ", mc::seq(s));
  mc::require(e.empty() == s.empty(), sig, "empty; want ", mc::seq(s));
  mc::require(e.any() == !s.empty(), sig, "any; want ", mc::seq(s));
  mc::require(e.count() == s.size(), sig, "count ", e.count(), " want ", mc::seq(s));
  auto const x = e.expanded_set();
  mc::require(std::equal(x.begin(), x.end(), s.begin(), s.end()), sig, "expanded ", mc::seq(x), " want ", mc::seq(s));
  std::vector<unsigned> it;
  for (auto v : e) {
    it.push_back(v);
    if (it.size() > s.size() + 2) break;
  }
  mc::require(std::equal(it.begin(), it.end(), s.begin(), s.end()), sig, "iterated ", mc::seq(it), " want ", mc::seq(s));
  for (auto p : probes()) mc::require(e[p] == s.contains(p), sig, "membership of ", p, " in ", mc::seq(s));
  for (auto p : s) mc::require(e[p], sig, "membership of ", p, " in ", mc::seq(s));
}

bool subset(S const& a, S const& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

std::partial_ordering order(S const& a, S const& b) {
  if (a == b) return std::partial_ordering::equivalent;
  if (subset(a, b)) return std::partial_ordering::less;
  if (subset(b, a)) return std::partial_ordering::greater;
  return std::partial_ordering::unordered;
}
std::string show(std::partial_ordering o) {
  return o == std::partial_ordering::equivalent ? "=" : o < 0 ? "<" : o > 0 ? ">" : "?";
}

void check_pair(exclusion_set const& a, S const& sa, exclusion_set const& b, S const& sb) {
  S uni = sa, diff;
  uni.insert(sb.begin(), sb.end());
  std::set_difference(sa.begin(), sa.end(), sb.begin(), sb.end(), std::inserter(diff, diff.end()));
  agrees(a | b, uni, "union");
  agrees(a - b, diff, "difference");
  auto c = a;
  mc::require(&(c |= b) == &c, "union result", 0);
  agrees(c, uni, "union in place");
  auto d = a;
  mc::require(&(d -= b) == &d, "difference result", 0);
  agrees(d, diff, "difference in place");
  auto const o = order(sa, sb);
  mc::require(a.compare(b) == o, "compare", mc::seq(sa), " ", show(a.compare(b)), " ", mc::seq(sb), " want ", show(o));
  mc::require(a.contains(b) == subset(sb, sa), "contains", mc::seq(sa), " ", mc::seq(sb));
  mc::require((a == b) == (sa == sb), "equality", mc::seq(sa), " ", mc::seq(sb));
  agrees(a, sa, "operand changed");
  agrees(b, sb, "operand changed");
}
}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);

  mc::group("pairs");
  std::vector<std::vector<unsigned>> universes = {
      {0, 1, 63, 64, 65, 127, 128, 200},
      {130, 191, 192, 255, 256, 319, 320, 383},
      {5, 70, 71, 140, 210, 280, 350}};
  if (mc::thorough()) {
    universes.push_back({0, 31, 32, 62, 63, 64, 100, 127, 128, 129});
    universes.push_back({63, 64, 128, 129, 191, 192, 193, 256, 320, 321});
  }
  mc::bound("universe size", universes.back().size());
  for (auto const& u : universes) {
    unsigned const n = 1U << u.size();
    std::vector<std::pair<S, exclusion_set>> all;
    for (unsigned m = 0; m < n; ++m) {
      auto s = from_mask(m, u);
      auto e = make(s);
      all.emplace_back(std::move(s), std::move(e));
    }
    for (unsigned a = 0; a < n; ++a) {
      mc::run([&] { return mc::str("universe ", mc::seq(u), ": ", mc::seq(all[a].first), " with every other set"); }, [&] {
        agrees(all[a].second, all[a].first, "construction");
        auto self = all[a].second;
        self |= self;
        agrees(self, all[a].first, "union with itself");
        self -= self;
        agrees(self, {}, "difference with itself");
        auto cl = all[a].second;
        cl.clear();
        agrees(cl, {}, "cleared");
        mc::require(all[a].second.compare(all[a].second) == std::partial_ordering::equivalent, "compare with itself", mc::seq(all[a].first));
        for (unsigned b = 0; b < n; ++b) {
          check_pair(all[a].second, all[a].first, all[b].second, all[b].first);
          mc::step(6);
        }
        mc::state(mc::hash_seq(all[a].first));
      });
    }
  }

  // operations: insert a value, unite with / subtract a set, clear, copy back
  mc::group("histories");
  auto const depth = mc::tier(4, 5);
  mc::bound("operations", depth);
  std::vector<unsigned> const vals = {0, 63, 64, 130, 192, 321};
  std::vector<S> const sets = {{}, {63}, {64, 128}, {0, 320}, {192, 193, 321}, {63, 64, 130, 192}};
  std::vector<exclusion_set> es;
  for (auto const& s : sets) es.push_back(make(s));
  int const ops = static_cast<int>(vals.size() + 2 * sets.size() + 1);
  std::vector<S> const starts = {{}, {64, 200}, {0}, {383}};
  for (auto const& st : starts) {
    mc::sequences(ops, 1, depth, [&](std::vector<int> const& h) {
      mc::run([&] { return mc::str("from ", mc::seq(st), " operations ", mc::seq(h)); }, [&] {
        S s = st;
        auto e = make(st);
        for (std::size_t k = 0; k < h.size(); ++k) {
          auto o = static_cast<std::size_t>(h[k]);
          if (o < vals.size()) {
            s.insert(vals[o]);
            e.set(vals[o]);
          } else if ((o -= vals.size()) < sets.size()) {
            s.insert(sets[o].begin(), sets[o].end());
            e |= es[o];
          } else if ((o -= sets.size()) < sets.size()) {
            for (auto x : sets[o]) s.erase(x);
            e -= es[o];
          } else {
            s.clear();
            e.clear();
          }
          mc::step();
          if (k + 1 == h.size()) {  // shorter histories are cases of their own
            agrees(e, s, "history");
            for (std::size_t i = 0; i < sets.size(); ++i) {
              auto const want = order(s, sets[i]);
              mc::require(e.compare(es[i]) == want, "history compare", mc::seq(s), " ", mc::seq(sets[i]));
            }
            mc::state(mc::hash_seq(s));
          }
        }
      });
    });
  }
  return mc::finish();
}
