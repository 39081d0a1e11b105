// S01: the ordering graph of a timetable.  For every choice of trains, service
// days, departure times, exclusion sets and filters within the bounds, the real
// graph is compared with the order in which excluding routes are used.
#include "trains.h"
#include "tasks.h"

#include "soro/runtime/runtime.h"
#include "soro/simulation/ordering/check_exclusion_paths.h"
#include "soro/simulation/ordering/get_cycle.h"
#include "soro/simulation/ordering/ordering_graph.h"

using namespace iss;
namespace tt = soro::tt;
namespace sim = soro::simulation;

namespace {

auto const DAY0 = date::sys_days{date::year{2021} / 3 / 27};
constexpr unsigned DAY = 86400;

struct mtrain {
  std::vector<mstop> stops_;
  std::vector<int> path_;
  bool freight_{false};
  std::vector<unsigned> signals_;  // when it reaches its signals, after its departure
};
struct mrun {
  int train_;          // one of the trains of the world
  unsigned departs_;   // after midnight
  std::string days_;   // from DAY0 on
};
using sets = std::vector<std::vector<int>>;

struct use {
  std::uint64_t from_;
  std::size_t node_;
};

tt::train make_train(route_case const& c, mtrain const& m, mrun const& r, unsigned id) {
  tt::train t;
  t.id_ = id;
  t.number_ = {.main_ = 100 + id, .sub_ = 0};
  t.physics_ = physics(m.freight_);
  for (auto p : m.path_) t.path_.emplace_back(static_cast<inf::interlocking_route::id>(p));
  // a timetable so tight that trains run as fast as they can
  unsigned at = r.departs_;
  for (auto const& s : m.stops_) {
    if (s.k_ == PASS) continue;
    t.sequence_points_.emplace_back(make_point(c, s, at, at, 0));
    at += 1;
  }
  if (!r.days_.empty()) t.service_days_ = tt::make_bitfield(DAY0, DAY0 + date::days{static_cast<int>(r.days_.size()) - 1}, r.days_.c_str());
  return t;
}

std::string show_runs(std::vector<mrun> const& v) {
  std::string s;
  for (auto const& r : v) s += mc::str("train ", r.train_, "+", r.departs_, " on ", r.days_, "; ");
  return s;
}

struct world {
  route_case& c_;
  inf::infrastructure const& infra_;
  inf::infrastructure_t& raw_;
  std::vector<mtrain> trains_;

  void exclude(sets const& e) const {
    auto& x = raw_.exclusion_;
    x.exclusion_sets_.clear();
    x.irs_to_exclusion_sets_.clear();
    x.irs_to_exclusion_sets_.resize(raw_.interlocking_.routes_.size());
    for (std::size_t k = 0; k < e.size(); ++k) {
      inf::interlocking_route::ids ids;
      for (auto i : e[k]) {
        ids.emplace_back(static_cast<inf::interlocking_route::id>(i));
        x.irs_to_exclusion_sets_[static_cast<unsigned>(i)].emplace_back(static_cast<inf::exclusion_set::id>(k));
      }
      x.exclusion_sets_.emplace_back(ids);
    }
  }
};

struct window {
  bool given_{false};
  std::uint64_t start_{0}, end_{0};
};

void check(world const& w, std::vector<mrun> const& runs, sets const& excl, window const& win, std::vector<unsigned> const& only) {
  auto const how = [&] {
    std::string s = show_runs(runs);
    for (std::size_t k = 0; k < runs.size(); ++k) s += mc::str("train ", runs[k].train_, "=", mc::seq(w.trains_[static_cast<std::size_t>(runs[k].train_)].path_), " ");
    s += "sets ";
    for (auto const& e : excl) s += mc::seq(e);
    if (win.given_) s += mc::str(" from ", win.start_, " to ", win.end_);
    if (!only.empty()) s += mc::str(" only ", mc::seq(only));
    return s;
  };
  tt::base_timetable bt;
  for (std::size_t k = 0; k < runs.size(); ++k) bt.trains_.emplace_back(make_train(w.c_, w.trains_[static_cast<std::size_t>(runs[k].train_)], runs[k], static_cast<unsigned>(k)));
  tt::timetable const timetable(std::move(bt));
  auto const midnight0 = static_cast<std::uint64_t>(DAY0.time_since_epoch().count()) * DAY;

  sim::ordering_graph::filter f;
  if (win.given_) f.interval_ = {.start_ = soro::absolute_time{soro::i32_seconds{static_cast<unsigned>(midnight0 + win.start_)}}, .end_ = soro::absolute_time{soro::i32_seconds{static_cast<unsigned>(midnight0 + win.end_)}}};
  for (auto o : only) f.trains_.push_back(o);
  sim::ordering_graph const g(w.infra_, timetable, f);
  mc::step();

  // what runs
  std::vector<int> ir, train;
  struct trip {
    unsigned train_;
    std::uint64_t anchor_;
    std::size_t from_, to_;
  };
  std::vector<trip> trips;
  std::vector<std::vector<use>> uses(excl.size());
  for (unsigned k = 0; k < runs.size(); ++k) {
    auto const& r = runs[k];
    auto const& m = w.trains_[static_cast<std::size_t>(r.train_)];
    if (!only.empty() && std::find(only.begin(), only.end(), k) == only.end()) continue;
    if (m.path_.size() < 2) continue;
    for (std::size_t d = 0; d < r.days_.size(); ++d) {
      if (r.days_[d] != '1') continue;
      auto const leaves = d * DAY + r.departs_;
      if (win.given_) {
        // on its way within the window
        auto const& tr = timetable->trains_[k];
        auto const last = d * DAY + tr.sequence_points_.back().arrival_.count();
        if (leaves > win.end_ || last < win.start_) continue;
      }
      trips.push_back({k, d * DAY, ir.size(), ir.size() + m.path_.size()});
      for (std::size_t p = 0; p < m.path_.size(); ++p) {
        auto const from = leaves + (p == 0 ? 0 : m.signals_[p - 1]);
        for (std::size_t e = 0; e < excl.size(); ++e) {
          if (std::find(excl[e].begin(), excl[e].end(), m.path_[p]) != excl[e].end()) uses[e].push_back({from, ir.size()});
        }
        ir.push_back(m.path_[p]);
        train.push_back(static_cast<int>(k));
      }
    }
  }
  auto const n = ir.size();
  mc::require(g.nodes_.size() == n, "number of nodes", g.nodes_.size(), " want ", n, " ", how());
  for (std::size_t k = 0; k < n; ++k) {
    auto const& x = g.nodes_[k];
    mc::require(x.id_ == k && x.ir_id_ == static_cast<inf::interlocking_route::id>(ir[k]) && x.train_id_ == static_cast<unsigned>(train[k]), "node", k, ": ", x.id_, " route ", x.ir_id_, " train ", x.train_id_, " want route ", ir[k], " train ", train[k], " ", how());
  }
  mc::require(g.trip_to_nodes_.size() == trips.size(), "number of trips", g.trip_to_nodes_.size(), " want ", trips.size(), " ", how());
  for (auto const& t : trips) {
    tt::train::trip const key{.train_id_ = t.train_, .anchor_ = soro::absolute_time{soro::i32_seconds{static_cast<unsigned>(midnight0 + t.anchor_)}}};
    mc::require(g.trip_to_nodes_.contains(key), "a trip is missing", how());
    auto const span = g.trip_nodes(key);
    mc::require(span.size() == t.to_ - t.from_ && span.data() == &g.nodes_[t.from_], "nodes of a trip", how());
    for (std::size_t k = t.from_; k + 1 < t.to_; ++k) mc::require(&g.nodes_[k].next(g) == &g.nodes_[k + 1], "next node of a trip", k, " ", how());
  }

  std::vector<std::vector<char>> m(n, std::vector<char>(n, 0)), real = m;
  for (auto const& t : trips) {
    for (std::size_t k = t.from_; k + 1 < t.to_; ++k) m[k][k + 1] = 1;
  }
  bool ties = false;
  for (auto& u : uses) {
    std::sort(u.begin(), u.end(), [](auto const& a, auto const& b) { return std::pair(a.from_, a.node_) < std::pair(b.from_, b.node_); });
    for (std::size_t k = 0; k + 1 < u.size(); ++k) {
      ties |= u[k].from_ == u[k + 1].from_;
      m[u[k].node_][u[k + 1].node_] = 1;
    }
  }
  std::size_t ins = 0, outs = 0;
  for (std::size_t k = 0; k < n; ++k) {
    for (auto o : g.nodes_[k].out_) {
      mc::require(o < n && !real[k][o], "an edge twice", how());
      real[k][o] = 1;
      ++outs;
    }
  }
  for (std::size_t k = 0; k < n; ++k) {
    for (auto i : g.nodes_[k].in_) {
      mc::require(i < n && real[i][k], "incoming edge without an outgoing one", how());
      ++ins;
    }
  }
  mc::eq(ins, outs, "incoming edges", how());
  auto const reach = [&](std::vector<std::vector<char>> r) {
    for (std::size_t k = 0; k < n; ++k) {
      for (std::size_t a = 0; a < n; ++a) {
        if (!r[a][k]) continue;
        for (std::size_t b = 0; b < n; ++b) r[a][b] = static_cast<char>(r[a][b] | r[k][b]);
      }
    }
    return r;
  };
  if (!ties) {
    auto const p = reach(m);
    for (std::size_t a = 0; a < n; ++a) {
      for (std::size_t b = 0; b < n; ++b) {
        bool need = m[a][b];
        for (std::size_t k = 0; need && k < n; ++k) need = !(m[a][k] && p[k][b]);
        mc::require(real[a][b] == static_cast<char>(need), need ? "an order is missing" : "an edge too many", a, ">", b, " ", how());
      }
    }
  } else {
    // whoever comes first of two at the same time, there must be an order
    auto const p = reach(real);
    for (std::size_t a = 0; a < n; ++a) mc::require(!p[a][a], "a cycle", a, " ", how());
    for (auto const& u : uses) {
      for (std::size_t x = 0; x < u.size(); ++x) {
        for (std::size_t y = x + 1; y < u.size(); ++y) {
          auto const a = u[x].node_, b = u[y].node_;
          mc::require(p[a][b] || (u[x].from_ == u[y].from_ && p[b][a]), "an order is missing", a, ">", b, " ", how());
        }
      }
    }
    for (auto const& t : trips) {
      for (std::size_t k = t.from_; k + 1 < t.to_; ++k) mc::require(p[k][k + 1], "a trip is out of order", k, " ", how());
    }
    mc::counter("timetables with ties", 1);
  }
  mc::require(!sim::get_cycle(g).has_value(), "a cycle is reported", how());
  mc::require(sim::has_exclusion_paths(g, w.infra_), "excluding usages without a path", how());
  mc::state(mc::str(n, "|", outs, "|", excl.size(), "|", trips.size()));
}

void explore(route_case& c) {
  load_opts o;
  o.interlocking_ = true;
  auto const dir = c.write_iss();
  auto const infra = load(dir, o);
  resolve(c, *infra);
  world w{c, infra, const_cast<inf::infrastructure_t&>(*infra), {}};
  auto const irs = real_routes(c, *infra);
  std::vector<mtrain> all;
  std::set<std::vector<int>> seen;
  each_stop_sequence(c, 4, true, [&](std::vector<mstop> const& stops, bool freight) {
    std::vector<int> chain;
    int halts = 0;
    for (auto const& s : stops) {
      chain.push_back(s.sr_);
      halts += s.k_ == STOP;
      if (s.k_ == PASS_TIMED) return;
    }
    for (auto const& path : tilings(c, irs, chain, stop_node(c, stops.front(), freight), stop_node(c, stops.back(), freight))) {
      auto key = path;
      key.push_back(halts > 2);
      if (seen.insert(key).second) all.push_back({stops, path, freight, {}});
    }
  });
  // longer paths first, a short one last
  std::stable_sort(all.begin(), all.end(), [](auto const& a, auto const& b) { return a.path_.size() > b.path_.size(); });
  auto const most = static_cast<std::size_t>(mc::tier(4, 5));
  if (all.size() > most) all.erase(all.begin() + static_cast<std::ptrdiff_t>(most - 1), all.end() - 1);
  w.trains_ = all;
  if (all.empty()) return;
  w.exclude({});
  for (auto& t : w.trains_) {
    auto const real = make_train(c, t, {0, 0, "1"}, 0);
    auto const times = soro::runtime::runtime_calculation(real, infra, {inf::type::MAIN_SIGNAL, inf::type::HALT}).times_;
    std::vector<inf::element::ptr> borders;
    for (std::size_t k = 0; k + 1 < t.path_.size(); ++k) borders.push_back(infra->interlocking_.routes_[static_cast<unsigned>(t.path_[k])].last_node(infra)->element_);
    for (auto const& x : times) {
      if (t.signals_.size() < borders.size() && x.element_ == borders[t.signals_.size()]) t.signals_.push_back(x.arrival_.count());
    }
    mc::require(t.signals_.size() == borders.size(), "a train does not reach its signals", show_stops(t.stops_));
  }
  // families of exclusion sets
  std::vector<sets> fams;
  std::vector<int> every;
  std::set<int> used;
  for (auto const& t : w.trains_) used.insert(t.path_.begin(), t.path_.end());
  every.assign(used.begin(), used.end());
  fams.push_back({});
  fams.push_back({every});
  sets single, chain;
  for (std::size_t k = 0; k < every.size(); ++k) {
    single.push_back({every[k]});
    chain.push_back({every[k], every[(k + 1) % every.size()]});
    std::sort(chain.back().begin(), chain.back().end());
    if (chain.back().front() == chain.back().back()) chain.back().pop_back();
  }
  fams.push_back(single);
  fams.push_back(chain);
  sets mixed;
  for (std::size_t k = 0; k < every.size(); ++k) {
    std::vector<int> s;
    for (std::size_t i = 0; i < every.size(); ++i) {
      if ((i * 7 + k * 3) % 3 != 0) s.push_back(every[i]);
    }
    if (!s.empty()) mixed.push_back(s);
  }
  fams.push_back(mixed);

  auto const nt = static_cast<int>(w.trains_.size());
  std::vector<unsigned> const departs = {0, 23, DAY - 30, DAY + 5};
  std::vector<std::string> const days = {"1", "11", "01"};
  auto const ne = static_cast<int>(fams.size());
  for (int e = 0; e < ne; ++e) {
    w.exclude(fams[static_cast<std::size_t>(e)]);
    auto const& ex = fams[static_cast<std::size_t>(e)];
    // one train over several days, two trains, three trains
    mc::odometer({nt, 3}, [&](std::vector<int> const& v) { check(w, {{v[0], 600, days[static_cast<std::size_t>(v[1])]}}, ex, {}, {}); });
    mc::odometer({nt, nt, 4, 3, 3}, [&](std::vector<int> const& v) {
      std::vector<mrun> const runs = {{v[0], 11, days[static_cast<std::size_t>(v[3])]}, {v[1], departs[static_cast<std::size_t>(v[2])], days[static_cast<std::size_t>(v[4])]}};
      if (!mc::thorough() && v[3] == 2 && v[4] == 2) return;
      check(w, runs, ex, {}, {});
    });
    if (e == 0) continue;
    auto const n3 = std::min(nt, mc::tier(3, 4));
    mc::odometer({n3, n3, n3, 3, 2}, [&](std::vector<int> const& v) {
      std::vector<unsigned> const d = v[3] == 0 ? std::vector<unsigned>{0, 7, 19} : v[3] == 1 ? std::vector<unsigned>{DAY + 3, 5, 40} : std::vector<unsigned>{20, 20, 20};
      check(w, {{v[0], d[0], v[4] ? "11" : "1"}, {v[1], d[1], "1"}, {v[2], d[2], v[4] ? "11" : "01"}}, ex, {}, {});
    });
    // parts of a timetable
    if (e == 3) {
      std::vector<mrun> const runs = {{0, 10, "11"}, {nt - 1, 30, "101"}, {0, DAY - 20, "11"}};
      for (unsigned s = 0; s < 8; ++s) {
        std::vector<unsigned> only;
        for (unsigned k = 3; k-- > 0;) {
          if (s >> k & 1) only.push_back(k);
        }
        for (auto const& win : {window{}, window{true, 0, DAY - 1}, window{true, DAY, 2 * DAY - 1}, window{true, 10, 10}, window{true, 12, 29}, window{true, 0, 9}, window{true, 3 * DAY, 4 * DAY}, window{true, DAY + 20, DAY + 40}}) check(w, runs, ex, win, only);
      }
      for (auto ord : {0, 1}) {
        tasks::ctl().order_ = ord == 0 ? std::function<std::vector<std::size_t>(std::size_t)>{} : [](std::size_t k) {
          std::vector<std::size_t> r;
          while (k-- > 0) r.push_back(k);
          return r;
        };
        check(w, runs, ex, {}, {});
      }
      tasks::ctl().order_ = {};
    }
  }
  // many trains at the same times
  for (int many : {mc::tier(18, 18), mc::tier(0, 33)}) {
    if (many == 0) continue;
    for (int shape = 0; shape < 3; ++shape) {
      for (auto const& ex : {chain, sets{every, every}, mixed}) {
        w.exclude(ex);
        std::vector<mrun> runs;
        for (int k = 0; k < many; ++k) runs.push_back({shape == 0 ? 0 : k % nt, static_cast<unsigned>(shape == 2 ? k % 3 : 0), "1"});
        check(w, runs, ex, {}, {});
      }
    }
  }
  mc::trace();
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  tasks::control_loops();
  mc::bound("timetables", mc::str("rows of three stations; up to ", mc::tier(4, 5), " trains per row; one to three runs on up to three days at four departure times, plus many runs at once; five families of exclusion sets"));
  mc::group("rows of stations");
  std::vector<std::string> const pats = mc::thorough() ? std::vector<std::string>{"hS", "ShS", "Sh", "S", "h"} : std::vector<std::string>{"hS", "ShS", "Sh"};
  auto const n = static_cast<int>(pats.size());
  mc::odometer({n, n, n, 2, 2}, [&](std::vector<int> const& v) {
    mc::run([&] { return mc::str("row ", mc::seq(v)); },
            [&] {
              std::vector<std::string> ps;
              for (int k = 0; k < 3; ++k) ps.push_back(pats[static_cast<std::size_t>(v[static_cast<std::size_t>(k)])]);
              route_case c;
              c.t_ = row(ps, v[3] == 1, false, false);
              c.t_.core_ = core_defaults(160);
              model const m(c.t_);
              for (auto const& x : walks(m, c.t_, true)) {
                if (x.at_.front().track_ || x.at_.back().track_ || rising(c.t_, x) != (v[3] == 1)) continue;
                c.add(x);
                auto const sig = signal_ids(c.t_, x);
                if (v[4] == 1 && x.station_ == 1 && !sig.empty()) c.add(x, {sig.front()});
              }
              give_halts(c);
              explore(c);
            });
  });
  return mc::finish();
}
