// I10: the exporter of the exclusion graph, and the way back: the cliques of
// what was exported, read as exclusion sets.  The exporter runs as a whole on
// files.
#include "irs.h"
#include "tasks.h"

#include <fstream>
#include <iostream>
#include <sstream>

#include "utl/cmd_line_parser.h"
#include "utl/enumerate.h"

#define main export_main
#include "tools/export_exclusion_graph/src/export_exclusion_graph.cc"
#undef main

namespace {

using iss::route_case;
using id = std::uint32_t;

int exporter(std::vector<std::string> const& args) {
  std::vector<char const*> a = {"export"};
  for (auto const& s : args) a.push_back(s.c_str());
  std::ostringstream said;
  auto* const old = std::cout.rdbuf(said.rdbuf());
  struct back {
    std::streambuf* b_;
    ~back() { std::cout.rdbuf(b_); }
  } const b{old};
  return export_main(static_cast<int>(a.size()), a.data());
}

// what the file says: line n has the lower neighbours of route n
std::vector<std::vector<id>> lines_of(fs::path const& p) {
  std::vector<std::vector<id>> r;
  std::ifstream in(p, std::ios::binary);
  std::string const text((std::istreambuf_iterator<char>(in)), {});
  mc::require(text.empty() || text.back() == '\n', "last line", mc::esc(text));
  std::istringstream ls(text);
  for (std::string l; std::getline(ls, l);) {
    r.emplace_back();
    std::istringstream ws(l);
    for (std::string w; ws >> w;) {
      mc::require(w.find_first_not_of("0123456789") == std::string::npos, "no number", mc::esc(l));
      r.back().push_back(static_cast<id>(std::stoul(w)));
    }
  }
  return r;
}

// all maximal cliques
void cliques(std::vector<std::set<id>> const& g, std::vector<id>& cur, std::set<id> cand, std::set<id> gone, std::vector<std::vector<id>>& out) {
  if (out.size() > 2000) return;
  if (cand.empty()) {
    if (gone.empty()) out.push_back(cur);
    return;
  }
  while (!cand.empty()) {
    auto const v = *cand.begin();
    std::set<id> c2, g2;
    for (auto x : cand) if (g[v].contains(x)) c2.insert(x);
    for (auto x : gone) if (g[v].contains(x)) g2.insert(x);
    cur.push_back(v);
    cliques(g, cur, c2, g2, out);
    cur.pop_back();
    cand.erase(v);
    gone.insert(v);
  }
}

void check(route_case& c, std::size_t turn) {
  auto const dir = c.write_iss();
  auto const out = fs::path{std::getenv("MC_SCRATCH")} / "exported";
  fs::remove(out);
  fs::remove(dir / "exclusion_sets");
  // whatever was there before
  if (turn % 2 == 1) std::ofstream(out) << "7 8 9\n\n1 2\n3\n4\n";
  tasks::ctl().processors_ = static_cast<unsigned>(turn % 4);
  tasks::ctl().order_ = [turn](std::size_t k) {
    std::vector<std::size_t> v(k);
    for (std::size_t x = 0; x < k; ++x) v[x] = turn % 3 == 0 ? x : k - 1 - x;
    return v;
  };
  tasks::control_loops();
  auto const i = dir.string(), o = out.string();
  std::vector<std::string> const args = turn % 2 == 0 ? std::vector<std::string>{"--infra_path", i, "--output_path", o} : std::vector<std::string>{"--output_path", o, "--infra_path", i};
  mc::eq(exporter(args), 0, "result of the exporter", "");
  mc::step();
  auto got = lines_of(out);
  iss::load_opts lo;
  lo.interlocking_ = lo.elements_ = lo.graph_ = lo.exclusions_ = true;
  auto const infra = iss::load(dir, lo);
  auto const& routes = infra->interlocking_.routes_;
  auto const n = routes.size();
  auto const& graph = infra->exclusion_.exclusion_graph_.nodes_;
  mc::eq(got.size(), n, "lines of the exported graph", "");
  std::vector<std::set<id>> g(n);
  for (id a = 0; a < n; ++a) {
    std::vector<id> want;
    for (id b = 0; b < a; ++b) {
      if (graph[a][b]) want.push_back(b);
    }
    // one that ends where it begins follows itself: its line may also have the
    // higher neighbours
    if (!graph[a][a]) {
      for (auto b : got[a]) mc::require(graph[a][b], "exported neighbours", "route ", a, ": ", b);
      std::erase_if(got[a], [&](id b) { return b >= a; });
    }
    mc::require(got[a] == want, "exported neighbours", "route ", a, ": ", mc::seq(got[a]), " want ", mc::seq(want));
    for (auto b : got[a]) g[a].insert(b), g[b].insert(a);
  }
  mc::trace();
  mc::state(mc::str(n, "|", n == 0 ? 0 : g.back().size()));
  if (n > 40) return;
  // the way back
  std::vector<std::vector<id>> sets;
  std::vector<id> cur;
  std::set<id> all;
  for (id a = 0; a < n; ++a) all.insert(a);
  if (n != 0) cliques(g, cur, all, {}, sets);
  if (sets.size() > 2000) return;
  std::ofstream f(dir / "exclusion_sets", std::ios::binary);
  for (auto it = sets.rbegin(); it != sets.rend(); ++it) {
    for (std::size_t k = 0; k < it->size(); ++k) f << (k ? " " : "") << (*it)[it->size() - 1 - k];
    f << '\n';
  }
  f.close();
  lo.graph_ = false;
  auto const again = iss::load(dir, lo);
  auto const& ex = again->exclusion_;
  mc::eq(ex.exclusion_sets_.size(), sets.size(), "exclusion sets read back", "");
  mc::eq(ex.irs_to_exclusion_sets_.size(), n, "routes with exclusion sets", "");
  for (id a = 0; a < n; ++a) {
    for (id b = 0; b < n; ++b) {
      bool share = false;
      for (auto s : ex.irs_to_exclusion_sets_[a]) {
        auto const& of = ex.exclusion_sets_[s];
        share = share || std::find(of.begin(), of.end(), b) != of.end();
      }
      mc::eq(share, a == b || g[a].contains(b), "routes with a common exclusion set", "routes ", a, " and ", b);
    }
    // one that has none of its own would never be ordered
    mc::require(!ex.irs_to_exclusion_sets_[a].empty(), "route without an exclusion set", "route ", a);
  }
  mc::trace();
}

void arguments() {
  mc::group("arguments");
  mc::bound("arguments", std::string{"all sets and orders of arguments, with directories that are there, files and nothing"});
  auto const base = fs::path{std::getenv("MC_SCRATCH")} / "args";
  std::vector<std::pair<std::string, int>> const places = {{"", 0}, {"missing", 0}, {"file", 0}, {"dir", 1}};
  for (auto const& [place, good] : places) for (int which = 0; which < 4; ++which) for (int order = 0; order < 2; ++order) {
    if (good == 1 && which == 3) continue;  // a complete call, but without an infrastructure
    mc::run([&, place = place] { return mc::str("infrastructure '", place, "' arguments ", which, " order ", order); }, [&, place = place] {
      fs::remove_all(base);
      fs::create_directories(base / "dir");
      std::ofstream(base / "file") << "x";
      auto const out = base / "out";
      std::vector<std::string> const a = {"--infra_path", place.empty() ? "" : (base / place).string()}, b = {"--output_path", out.string()};
      std::vector<std::string> args;
      auto const add = [&](auto const& x) { args.insert(args.end(), x.begin(), x.end()); };
      if (order == 0 && (which & 1) != 0) add(a);
      if ((which & 2) != 0) add(b);
      if (order == 1 && (which & 1) != 0) add(a);
      mc::eq(exporter(args), 1, "exporter with wrong arguments", "");
      mc::require(!fs::exists(out), "file written without an infrastructure", "");
      mc::step();
    });
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  arguments();
  std::size_t turn = 0;
  iss::each_route_case([&](std::string const& d, route_case& c) {
    auto const t = turn++;
    mc::run([&] { return d; }, [&] { check(c, t); });
  });
  return mc::finish();
}
