// U05: graph traversal and cycle detection on every directed graph up to a
// size, including self loops, with every early-termination point.
#include "mc.h"

#include <map>
#include <queue>
#include <stack>

#include "soro/utls/graph/has_cycle.h"
#include "soro/utls/graph/traversal.h"

namespace u = soro::utls;

namespace {

using graph = std::vector<std::vector<int>>;
using edge = std::pair<int, int>;

std::string show(graph const& g) {
  std::string s;
  for (std::size_t i = 0; i < g.size(); ++i) s += std::to_string(i) + "->" + mc::seq(g[i]) + " ";
  return s;
}

std::vector<int> distances(graph const& g, int start) {
  std::vector<int> d(g.size(), -1);
  d[start] = 0;
  for (std::size_t round = 0; round < g.size(); ++round) {
    for (std::size_t v = 0; v < g.size(); ++v) {
      if (d[v] < 0) continue;
      for (auto const w : g[v]) {
        if (d[w] < 0 || d[w] > d[v] + 1) d[w] = d[v] + 1;
      }
    }
  }
  return d;
}

struct event {
  char kind_;
  int a_, b_;
  bool operator==(event const&) const = default;
};

template <typename Run>
void check(graph const& g, int start, bool bfs, Run&& run) {
  auto const dist = distances(g, start);
  auto const full = run(-1, -1);
  std::vector<event> nodes, edges;
  std::vector<int> seen(g.size(), 0);
  seen[start] = 1;
  int last = 0;
  std::map<edge, int> count;
  for (auto const& e : full) {
    if (e.kind_ == 'n') {
      nodes.push_back(e);
      mc::require(dist[e.a_] > 0, "node not reachable", e.a_);
      mc::require(!seen[e.a_], "node visited twice", e.a_);
      bool is_edge = false;
      for (auto const w : g[e.b_]) is_edge |= w == e.a_;
      mc::require(is_edge, "no such edge", e.b_, "->", e.a_);
      mc::require(seen[e.b_], "reached from a node not yet visited", e.a_, " from ", e.b_);
      seen[e.a_] = 1;
      if (bfs) {
        mc::require(dist[e.a_] >= last, "not breadth first", e.a_);
        mc::require(dist[e.a_] == dist[e.b_] + 1, "predecessor not on a shortest path", e.a_);
        last = dist[e.a_];
      }
    } else {
      edges.push_back(e);
      ++count[{e.a_, e.b_}];
      mc::require(dist[e.a_] >= 0, "edge not reachable", e.a_, "->", e.b_);
    }
    mc::step();
  }
  std::size_t want_nodes = 0, want_edges = 0;
  for (std::size_t v = 0; v < g.size(); ++v) {
    if (dist[v] > 0) ++want_nodes;
    if (dist[v] >= 0) {
      want_edges += g[v].size();
      for (auto const w : g[v]) {
        auto const n = static_cast<int>(std::count(g[v].begin(), g[v].end(), w));
        mc::require(count[{static_cast<int>(v), w}] == n, "edge count", v, "->", w, ": ",
                    count[{static_cast<int>(v), w}], " times");
      }
    }
  }
  mc::require(nodes.size() == want_nodes, "node count", nodes.size(), " want ", want_nodes);
  mc::require(edges.size() == want_edges, "edge total", edges.size(), " want ", want_edges);
  // depth first on trees: a subtree is finished before anything else
  if (!bfs) {
    std::vector<int> indeg(g.size(), 0);
    bool tree = true;
    for (std::size_t v = 0; v < g.size(); ++v) {
      if (dist[v] < 0) continue;
      for (auto const w : g[v]) tree &= ++indeg[w] == 1 && w != start;
    }
    if (tree) {
      for (std::size_t i = 0; i < nodes.size(); ++i) {
        auto const below = distances(g, nodes[i].a_);
        std::size_t size = 0;
        for (auto const d : below) size += d >= 0 ? 1 : 0;
        for (std::size_t j = i; j < i + size; ++j) {
          mc::require(j < nodes.size() && below[nodes[j].a_] >= 0, "not depth first", nodes[i].a_);
        }
      }
    }
  }
  // stopping: the run is cut right after the callback that asked for it
  for (std::size_t k = 0; k < nodes.size(); ++k) {
    auto const cut = run(static_cast<int>(k), -1);
    std::vector<event> want;
    std::size_t n = 0;
    for (auto const& e : full) {
      want.push_back(e);
      if (e.kind_ == 'n' && n++ == k) break;
    }
    mc::require(cut == want, "stop at node", k);
  }
  for (std::size_t k = 0; k < edges.size(); ++k) {
    auto const cut = run(-1, static_cast<int>(k));
    std::vector<event> want;
    std::size_t n = 0;
    for (auto const& e : full) {
      want.push_back(e);
      if (e.kind_ == 'e' && n++ == k) break;
    }
    mc::require(cut == want, "stop at edge", k);
  }
}

void traverse(graph const& g, int start) {
  for (bool const bfs : {true, false}) {
    auto const nb = [&](int const n) -> std::vector<int> const& { return g[n]; };
    check(g, start, bfs, [&](int stop_node, int stop_edge) {
      std::vector<event> ev;
      int n = 0, e = 0;
      auto const won = [&](int a, int b) {
        ev.push_back({'n', a, b});
        return n++ == stop_node;
      };
      auto const woe = [&](int a, int b) {
        ev.push_back({'e', a, b});
        return e++ == stop_edge;
      };
      if (bfs) u::bfs(start, nb, won, woe);
      else u::dfs(start, nb, won, woe);
      return ev;
    });
    // the overloads without an edge callback
    std::vector<event> a, b;
    auto const wa = [&](int x, int y) {
      a.push_back({'n', x, y});
      return false;
    };
    auto const wb = [&](int x, int y) {
      b.push_back({'n', x, y});
      return false;
    };
    auto const no = [](int, int) { return false; };
    if (bfs) {
      u::bfs(start, nb, wa);
      u::bfs(start, nb, wb, no);
    } else {
      u::dfs(start, nb, wa);
      u::dfs(start, nb, wb, no);
    }
    mc::require(a == b, "overload", "node-only overload differs");
  }
}

bool ref_cycle(graph const& g) {
  // transitive closure
  auto const n = g.size();
  std::vector<std::vector<bool>> r(n, std::vector<bool>(n));
  for (std::size_t v = 0; v < n; ++v) {
    for (auto const w : g[v]) r[v][w] = true;
  }
  for (std::size_t k = 0; k < n; ++k) {
    for (std::size_t i = 0; i < n; ++i) {
      for (std::size_t j = 0; j < n; ++j) {
        if (r[i][k] && r[k][j]) r[i][j] = true;
      }
    }
  }
  for (std::size_t v = 0; v < n; ++v) {
    if (r[v][v]) return true;
  }
  return false;
}

void cycles(graph const& g) {
  struct node {
    std::size_t id_;
  };
  std::vector<node> nodes;
  for (std::size_t i = 0; i < g.size(); ++i) nodes.push_back({i});
  auto const got = u::has_cycle(nodes, [&](std::vector<node> const& ns, std::size_t const n) {
    std::vector<std::size_t> r;
    for (auto const w : g[ns[n].id_]) r.push_back(static_cast<std::size_t>(w));
    return r;
  });
  mc::step();
  mc::require(got == ref_cycle(g), "has_cycle", "reported ", got);
}

graph from_mask(int n, std::uint32_t mask, bool down) {
  graph g(n);
  int bit = 0;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j, ++bit) {
      if (mask >> bit & 1U) g[i].push_back(down ? n - 1 - j : j);
    }
  }
  return g;
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::group("all directed graphs");
  mc::bound("nodes (all directed graphs with self loops)", 4);
  for (int n = 1; n <= 4; ++n) {
    for (std::uint32_t m = 0; m < (1U << (n * n)); ++m) {
      mc::run([&] { return show(from_mask(n, m, false)); },
              [&] {
                auto const g = from_mask(n, m, false);
                cycles(g);
                traverse(g, 0);
                if (n < 4 || m % 7 == 0 || mc::thorough()) traverse(g, n - 1);
                if (n < 4) traverse(from_mask(n, m, true), 0);
                mc::state(mc::h64(m * 8ULL + n));
              });
    }
  }
  mc::run([] { return std::string{"empty graph"}; }, [] { cycles({}); });
  mc::group("parallel edges");
  mc::odometer(std::vector<int>(9, 3), [&](std::vector<int> const& mult) {
    mc::run([&] { return "multiplicities " + mc::seq(mult); },
            [&] {
              graph g(3);
              for (int i = 0; i < 9; ++i) {
                for (int k = 0; k < mult[i]; ++k) g[i / 3].push_back(i % 3);
              }
              traverse(g, 0);
              cycles(g);
            });
  });
  // larger sparse graphs: every function graph / tree on n nodes
  int const n = mc::tier(6, 7);
  mc::group("graphs of out-degree one and their reverses");
  mc::bound("nodes of functional graphs", n);
  mc::odometer(std::vector<int>(n, n + 1), [&](std::vector<int> const& to) {
    mc::run([&] { return "successors " + mc::seq(to); },
            [&] {
              graph g(n), r(n);
              for (int i = 0; i < n; ++i) {
                if (to[i] < n) {
                  g[i].push_back(to[i]);
                  r[to[i]].push_back(i);
                }
              }
              cycles(g);
              traverse(g, 0);
              traverse(r, 0);
              mc::state(mc::hash_seq(to, 9));
            });
  });
  mc::group("acyclic graphs");
  int const dn = mc::tier(5, 6);
  mc::bound("nodes of acyclic graphs", dn);
  for (std::uint32_t m = 0; m < (1U << (dn * (dn - 1) / 2)); ++m) {
    mc::run([&] { return mc::str("mask ", m); },
            [&] {
              graph g(dn), rev(dn);
              int bit = 0;
              for (int i = 0; i < dn; ++i) {
                for (int j = i + 1; j < dn; ++j, ++bit) {
                  if (m >> bit & 1U) {
                    g[i].push_back(j);
                    rev[dn - 1 - i].push_back(dn - 1 - j);
                  }
                }
              }
              cycles(g);
              cycles(rev);
              traverse(g, 0);
              // closing edge
              g[dn - 1].push_back(0);
              cycles(g);
            });
  }
  return mc::finish();
}
