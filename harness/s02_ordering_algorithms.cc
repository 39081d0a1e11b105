// S02: the algorithms on ordering graphs - removing implied edges, finding
// cycles, checking that excluding usages are ordered, the next node of a trip -
// on every graph up to a size.
#include "mc.h"

#include <algorithm>

#include "soro/simulation/ordering/check_exclusion_paths.h"
#include "soro/simulation/ordering/get_cycle.h"
#include "soro/simulation/ordering/ordering_graph.h"
#include "soro/simulation/ordering/remove_transitive_edges.h"

namespace sim = soro::simulation;
namespace inf = soro::infra;
using id = sim::ordering_node::id;

namespace {

using matrix = std::vector<std::vector<char>>;

matrix paths(matrix const& m) {  // a path of at least one edge
  auto r = m;
  auto const n = m.size();
  for (std::size_t k = 0; k < n; ++k) {
    for (std::size_t a = 0; a < n; ++a) {
      for (std::size_t b = 0; b < n; ++b) r[a][b] = static_cast<char>(r[a][b] || (r[a][k] && r[k][b]));
    }
  }
  return r;
}
bool cyclic(matrix const& p) {
  for (std::size_t a = 0; a < p.size(); ++a) {
    if (p[a][a]) return true;
  }
  return false;
}
// length of the shortest cycle through every node, 0 if there is none
std::vector<std::size_t> girth(matrix const& m) {
  auto const n = m.size();
  std::vector<std::size_t> r(n, 0);
  for (std::size_t s = 0; s < n; ++s) {
    std::vector<char> at(n, 0);
    at[s] = 1;
    for (std::size_t len = 1; len <= n && r[s] == 0; ++len) {
      std::vector<char> nx(n, 0);
      for (std::size_t a = 0; a < n; ++a) {
        for (std::size_t b = 0; b < n; ++b) nx[b] = static_cast<char>(nx[b] || (at[a] && m[a][b]));
      }
      if (nx[s]) r[s] = len;
      at = nx;
    }
  }
  return r;
}

sim::ordering_graph make(matrix const& m, int order) {
  sim::ordering_graph g;
  auto const n = m.size();
  for (std::size_t a = 0; a < n; ++a) {
    sim::ordering_node x;
    x.id_ = static_cast<id>(a);
    x.train_id_ = static_cast<soro::tt::train::id>(a);
    x.ir_id_ = static_cast<inf::interlocking_route::id>(a);
    g.nodes_.push_back(x);
  }
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      if (!m[a][b]) continue;
      g.nodes_[a].out_.push_back(static_cast<id>(b));
      g.nodes_[b].in_.push_back(static_cast<id>(a));
    }
  }
  for (auto& x : g.nodes_) {
    if (order == 1) {
      std::reverse(x.out_.begin(), x.out_.end());
      std::reverse(x.in_.begin(), x.in_.end());
    }
    if (order == 2 && x.out_.size() > 1) std::rotate(x.out_.begin(), x.out_.begin() + 1, x.out_.end());
  }
  return g;
}

std::string show(matrix const& m) {
  std::string s;
  for (std::size_t a = 0; a < m.size(); ++a) {
    for (std::size_t b = 0; b < m.size(); ++b) {
      if (m[a][b]) s += mc::str(a, ">", b, " ");
    }
  }
  return s.empty() ? "no edges" : s;
}

void reduce(matrix const& m, int order) {
  auto const p = paths(m);
  auto const n = m.size();
  auto g = make(m, order);
  sim::remove_transitive_edges(g);
  mc::step();
  mc::eq(g.nodes_.size(), n, "nodes", "");
  std::size_t kept = 0;
  for (std::size_t a = 0; a < n; ++a) {
    std::vector<id> out, in;
    for (std::size_t b = 0; b < n; ++b) {
      auto const needed = [&](std::size_t x, std::size_t y) {
        if (!m[x][y]) return false;
        for (std::size_t k = 0; k < n; ++k) {
          if (m[x][k] && p[k][y]) return false;
        }
        return true;
      };
      if (needed(a, b)) out.push_back(static_cast<id>(b));
      if (needed(b, a)) in.push_back(static_cast<id>(b));
    }
    kept += out.size();
    auto go = g.nodes_[a].out_;
    auto gi = g.nodes_[a].in_;
    std::sort(go.begin(), go.end());
    std::sort(gi.begin(), gi.end());
    mc::require(go == out, "edges left", "node ", a, ": ", mc::seq(go), " want ", mc::seq(out));
    mc::require(gi == in, "incoming edges left", "node ", a, ": ", mc::seq(gi), " want ", mc::seq(in));
    mc::eq(g.nodes_[a].id_, a, "node changed", a);
  }
  mc::state(mc::str("r", n, "|", kept));
}

void valid_cycle(matrix const& m, sim::cycle const& c) {
  mc::require(!c.empty(), "empty cycle", "");
  std::vector<char> seen(m.size(), 0);
  for (std::size_t i = 0; i < c.size(); ++i) {
    mc::require(c[i] < m.size() && !seen[c[i]], "cycle visits a node twice", mc::seq(c));
    seen[c[i]] = 1;
    mc::require(m[c[i]][c[(i + 1) % c.size()]], "cycle uses an edge that is not there", mc::seq(c));
  }
}

void cycles(matrix const& m, int order) {
  auto const g = make(m, order);
  auto const len = girth(m);
  std::size_t shortest = 0, on = 0;
  for (auto const l : len) {
    if (l != 0 && (shortest == 0 || l < shortest)) shortest = l;
    if (l != 0) ++on;
  }
  auto const one = sim::get_cycle(g);
  mc::eq(one.has_value(), shortest != 0, "a cycle is found", "");
  if (one) {
    valid_cycle(m, *one);
    mc::eq(one->size(), shortest, "length of the cycle", mc::seq(*one));
  }
  // for every node on a cycle a shortest one through it
  auto const all = sim::get_cycles(g);
  mc::eq(all.size(), on, "number of cycles", "");
  std::vector<std::size_t> got, want;
  std::vector<char> covered(m.size(), 0);
  for (auto const& c : all) {
    valid_cycle(m, c);
    got.push_back(c.size());
    for (auto const x : c) {
      if (len[x] == c.size()) covered[x] = 1;
    }
  }
  for (std::size_t a = 0; a < m.size(); ++a) {
    if (len[a] != 0) {
      want.push_back(len[a]);
      mc::require(covered[a], "no shortest cycle through a node", a);
    }
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  mc::require(got == want, "lengths of the cycles", mc::seq(got), " want ", mc::seq(want));
  mc::step();
  mc::state(mc::str("c", m.size(), "|", shortest, "|", on));
}

using families = std::vector<std::vector<inf::interlocking_route::id>>;

void exclusion(matrix const& m, std::vector<int> const& routes, families const& sets, int n_routes) {
  inf::infrastructure_t t;
  t.interlocking_.routes_.resize(static_cast<unsigned>(n_routes));
  t.exclusion_.irs_to_exclusion_sets_.resize(static_cast<unsigned>(n_routes));
  std::vector<std::vector<char>> conflict(static_cast<std::size_t>(n_routes), std::vector<char>(static_cast<std::size_t>(n_routes), 0));
  for (std::size_t s = 0; s < sets.size(); ++s) {
    t.exclusion_.exclusion_sets_.emplace_back();
    for (auto const r : sets[s]) {
      t.exclusion_.exclusion_sets_.back().emplace_back(r);
      t.exclusion_.irs_to_exclusion_sets_[r].emplace_back(static_cast<inf::exclusion_set::id>(s));
      for (auto const q : sets[s]) conflict[r][q] = 1;
    }
  }
  for (int r = 0; r < n_routes; ++r) t.interlocking_.routes_[static_cast<unsigned>(r)].id_ = static_cast<inf::interlocking_route::id>(r);
  inf::infrastructure const infra(&t);
  auto g = make(m, 0);
  for (std::size_t a = 0; a < m.size(); ++a) g.nodes_[a].ir_id_ = static_cast<inf::interlocking_route::id>(routes[a]);
  auto const p = paths(m);
  bool want = true;
  for (std::size_t a = 0; a < m.size(); ++a) {
    for (std::size_t b = 0; b < m.size(); ++b) {
      if (a != b && conflict[static_cast<std::size_t>(routes[a])][static_cast<std::size_t>(routes[b])] && !p[a][b] && !p[b][a]) want = false;
    }
  }
  mc::eq(sim::has_exclusion_paths(g, infra), want, "verdict on exclusion paths", "");
  mc::step();
  mc::state(mc::str("e", want, m.size()));
}

matrix from_mask(std::size_t n, unsigned long mask, int kind) {
  // kind 0: edges a<b, 1: all but self loops, 2: all
  matrix m(n, std::vector<char>(n, 0));
  unsigned bit = 0;
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      if ((kind == 0 && a >= b) || (kind == 1 && a == b)) continue;
      m[a][b] = static_cast<char>((mask >> bit++) & 1U);
    }
  }
  return m;
}
unsigned bits(std::size_t n, int kind) { return static_cast<unsigned>(kind == 0 ? n * (n - 1) / 2 : kind == 1 ? n * (n - 1) : n * n); }

// graphs are taken in blocks: one case per block
template <typename Fn>
void each_graph(std::size_t n, int kind, Fn&& fn) {
  auto const total = 1UL << bits(n, kind);
  unsigned long const block = 256;
  for (unsigned long b = 0; b < total; b += block) {
    unsigned long at = b;
    mc::run([&] { return mc::str(n, " nodes, block ", b, ", graph ", at, ": ", show(from_mask(n, at, kind))); }, [&] {
      for (at = b; at < std::min(total, b + block); ++at) fn(from_mask(n, at, kind));
    });
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  auto const q = [](int a, int b) { return static_cast<std::size_t>(mc::tier(a, b)); };

  mc::bound("removing implied edges", mc::str("all acyclic graphs on ", q(6, 7), " ordered nodes, all labelled ones on ", q(4, 5)));
  mc::group("removing implied edges");
  for (std::size_t n = 0; n <= q(6, 7); ++n) {
    each_graph(n, 0, [](matrix const& m) {
      for (int o = 0; o < 3; ++o) reduce(m, o);
    });
  }
  for (std::size_t n = 2; n <= q(4, 5); ++n) {
    each_graph(n, 1, [](matrix const& m) {
      if (cyclic(paths(m))) return;
      for (int o = 0; o < 3; ++o) reduce(m, o);
    });
  }

  mc::bound("cycles", mc::str("all directed graphs with self loops on up to ", 4, " nodes", mc::thorough() ? ", without on 5" : ""));
  mc::group("cycles");
  for (std::size_t n = 0; n <= 4; ++n) {
    each_graph(n, 2, [](matrix const& m) {
      for (int o = 0; o < 3; ++o) cycles(m, o);
    });
  }
  if (mc::thorough()) {
    each_graph(5, 1, [](matrix const& m) {
      for (int o = 0; o < 2; ++o) cycles(m, o);
    });
  }
  // rings, with and without a long way round
  for (std::size_t n = 5; n <= 40; ++n) {
    for (int rev = 0; rev < 2; ++rev) {
      mc::run([&] { return mc::str("ring of ", n, rev ? " downwards" : " upwards"); }, [&] {
        for (std::size_t chord = 0; chord < n; ++chord) {
          matrix m(n, std::vector<char>(n, 0));
          for (std::size_t a = 0; a < n; ++a) m[rev ? (a + 1) % n : a][rev ? a : (a + 1) % n] = 1;
          m[0][chord] = chord == 0 ? m[0][0] : char{1};
          cycles(m, 0);
          cycles(m, 1);
        }
      });
    }
  }

  std::vector<families> const fams = {{}, {{0}}, {{0, 1}}, {{0, 1}, {1, 2}}, {{0, 1, 2}}, {{0}, {1}, {2}}, {{0, 2}, {1}}, {{2}, {1, 2}}};
  mc::bound("exclusion paths", mc::str("all directed graphs on up to ", q(3, 4), " nodes x 3 routes x ", fams.size(), " families of exclusion sets"));
  mc::group("exclusion paths");
  for (std::size_t n = 0; n <= q(3, 4); ++n) {
    each_graph(n, 1, [&](matrix const& m) {
      for (auto const& f : fams) {
        mc::sequences(3, static_cast<int>(n), static_cast<int>(n), [&](std::vector<int> const& r) { exclusion(m, r, f, 3); });
      }
    });
  }
  // four nodes in a row or apart, every family over two routes
  if (!mc::thorough()) {
    each_graph(4, 0, [&](matrix const& m) {
      for (auto const& f : fams) {
        mc::sequences(3, 4, 4, [&](std::vector<int> const& r) { exclusion(m, r, f, 3); });
      }
    });
  }
  return mc::finish();
}
