// I06: which interlocking routes exclude each other.  For every set of station
// routes within the bounds the real exclusion elements and the exclusion graph
// are compared with the geometry, for every number of processors and order of
// tasks explored.
#include "irs.h"
#include "tasks.h"

#include "soro/infrastructure/exclusion/get_exclusion.h"

using namespace iss;

namespace {

using ids = std::set<inf::element_id>;

bool excluding(inf::element::ptr e) {
  switch (e->type()) {
    case inf::type::SIMPLE_SWITCH:
    case inf::type::CROSS:
    case inf::type::MAIN_SIGNAL:
    case inf::type::HALT:
    case inf::type::BORDER:
    case inf::type::BUMPER:
    case inf::type::TRACK_END: return true;
    default: return false;
  }
}

// the places of an interlocking route
std::vector<at> places(route_case const& c, mir const& m, std::vector<bool>& div) {
  std::vector<at> r;
  for (std::size_t k = 0; k < m.srs_.size(); ++k) {
    auto const& s = c.srs_[static_cast<std::size_t>(m.srs_[k])];
    for (std::size_t i = 0; i < s.pos_.size(); ++i) {
      if (s.pos_[i] < from_of(m, k) || s.pos_[i] >= to_of(c, m, k)) continue;
      r.push_back(s.w_.at_[i]);
      div.push_back(i < s.w_.div_.size() && s.w_.div_[i]);
    }
  }
  return r;
}

ids exclusion_elements(route_case const& c, lookup const& l, mir const& m) {
  auto const& t = c.t_;
  ids r;
  std::vector<bool> div;
  auto const ps = places(c, m, div);
  auto const add = [&](inf::element::ptr e) {
    if (excluding(e)) r.insert(e->id());
  };
  for (std::size_t i = 0; i < ps.size(); ++i) {
    add(l.of(ps[i]));
    if (i + 1 == ps.size()) break;
    auto const &a = ps[i], &b = ps[i + 1];
    // from one station into the next there is nothing in between
    if (!a.track_ && !b.track_ && b.port_ == -1) continue;
    auto const sec = a.track_ ? a.sec_ : t.e(a.el_).psec_[exit_port(t, a, div[i])];
    auto const ka = a.track_ ? t.s(sec).els_[static_cast<std::size_t>(a.idx_)].km_ : port_metres(t, a.el_, exit_port(t, a, div[i]));
    auto const kb = b.track_ ? t.s(sec).els_[static_cast<std::size_t>(b.idx_)].km_ : port_metres(t, b.el_, b.port_);
    for (std::size_t e = 0; e < t.s(sec).els_.size(); ++e) {
      auto const k = t.s(sec).els_[e].km_;
      if (std::min(ka, kb) <= k && k <= std::max(ka, kb)) add(l.track_[static_cast<std::size_t>(sec)][e]);
    }
  }
  return r;
}

void check(route_case& c, std::vector<std::pair<unsigned, int>> const& plans) {
  load_opts o;
  o.interlocking_ = true;
  auto const dir = c.write_iss();
  auto const infra = load(dir, o);
  auto const& i = *infra;
  resolve(c, i);
  lookup const l(c.t_, i);
  std::map<inf::station_route::id, int> by_id;
  for (std::size_t k = 0; k < c.srs_.size(); ++k) by_id[c.srs_[k].real_->id_] = static_cast<int>(k);
  std::vector<ids> closed, open;
  auto const& routes = i.interlocking_.routes_;
  auto const n = routes.size();
  for (auto const& r : routes) {
    mir m;
    for (auto s : r.station_routes_) m.srs_.push_back(by_id.at(s));
    m.from_ = r.start_offset_;
    m.to_ = r.end_offset_;
    closed.push_back(exclusion_elements(c, l, m));
    open.push_back(closed.back());
    open.back().erase(r.first_node(infra)->element_->id());
    open.back().erase(r.last_node(infra)->element_->id());
  }
  std::vector<std::set<std::uint32_t>> graph(n);
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      bool common = false;
      for (auto e : closed[a]) common = common || closed[b].contains(e);
      bool const follows = routes[b].first_node(infra) == routes[a].last_node(infra) || routes[a].first_node(infra) == routes[b].last_node(infra);
      if (common && !follows) graph[a].insert(static_cast<std::uint32_t>(b));
    }
  }
  for (auto const& [processors, order] : plans) {
    tasks::ctl().processors_ = processors;
    tasks::ctl().order_ = [order = order](std::size_t k) {
      std::vector<std::size_t> v(k);
      for (std::size_t x = 0; x < k; ++x) v[x] = x;
      if (order < 0) std::reverse(v.begin(), v.end());
      for (int x = 0; x < order && k > 1; ++x) std::next_permutation(v.begin(), v.end());
      return v;
    };
    tasks::control_loops();
    auto const how = mc::str(processors, " processors, order ", order);
    auto const ex = inf::get_exclusion(i, dir / "exclusion_sets", inf::option<inf::exclusion_elements>(true), inf::option<inf::exclusion_graph>(true));
    mc::step(n);
    mc::eq(ex.exclusion_elements_.closed_.size(), n, "exclusion elements: size", how);
    mc::eq(ex.exclusion_elements_.open_.size(), n, "exclusion elements: size", how);
    mc::eq(ex.exclusion_graph_.nodes_.size(), n, "exclusion graph: size", how);
    for (std::size_t a = 0; a < n; ++a) {
      auto const same = [&](auto const& got, ids const& want, char const* what) {
        mc::require(std::vector<inf::element_id>(got.begin(), got.end()) == std::vector<inf::element_id>(want.begin(), want.end()), what, how, " route ", a, ": ",
                    mc::seq(got), " want ", mc::seq(want));
      };
      same(ex.exclusion_elements_.closed_[a], closed[a], "exclusion elements");
      same(ex.exclusion_elements_.open_[a], open[a], "inner exclusion elements");
      auto const& node = ex.exclusion_graph_.nodes_[a];
      for (std::size_t b = 0; b < n; ++b) {
        mc::eq(node[static_cast<std::uint32_t>(b)], graph[a].contains(static_cast<std::uint32_t>(b)), "exclusion", how, " routes ", a, " and ", b);
        mc::eq(node[static_cast<std::uint32_t>(b)], ex.exclusion_graph_.nodes_[b][static_cast<std::uint32_t>(a)], "exclusion is not mutual", how, " routes ", a, " and ", b);
      }
      mc::eq(node.count(), graph[a].size(), "number of excluded routes", how, " route ", a);
    }
    mc::trace();
    // nothing computed that was not asked for
    if (order == 0 && processors == 1) {
      auto const none = inf::get_exclusion(i, dir / "exclusion_sets", inf::option<inf::exclusion_elements>(false), inf::option<inf::exclusion_graph>(false));
      mc::require(none.exclusion_graph_.nodes_.empty() && none.exclusion_elements_.closed_.empty(), "exclusion not asked for", how);
      mc::eq(none.irs_to_exclusion_sets_.size(), n, "exclusion sets of the routes", how);
    }
  }
  for (auto const& g : graph) mc::state(mc::str(g.size(), "|", n));
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::bound("processors and orders", mc::str("0..", mc::tier(4, 6), " processors; tasks in every order for up to 3 processors, first and last order beyond"));
  std::vector<std::pair<unsigned, int>> all = {{0, 0}, {1, 0}, {2, 0}, {2, 1}, {4, -1}, {5, 0}, {64, 0}};
  for (int k = 0; k < 6; ++k) all.push_back({3, k});
  if (mc::thorough()) {
    for (int k = 0; k < 24; ++k) all.push_back({4, k});
    all.push_back({6, -1});
  }
  std::size_t turn = 0;
  each_route_case([&](std::string const& d, route_case& c) {
    // every plan on the branching layouts, a changing one elsewhere
    std::vector<std::pair<unsigned, int>> plans = all;
    if (!d.starts_with("crossover") && !d.starts_with("switch")) {
      plans = {{1, 0}, all[turn % all.size()]};
      ++turn;
    }
    mc::run([&] { return d; }, [&] { check(c, plans); });
  });
  return mc::finish();
}
