// I05: the station route graph and the interlocking routes.  Every set of
// station routes within the bounds is loaded; the real interlocking is
// compared with the model's, route by route and range by range.
#include "irs.h"

using namespace iss;

namespace {

using idx = inf::node::idx;

struct step_ {
  inf::node::ptr node_;
  bool omitted_;
};

std::vector<step_> nodes_of(route_case const& c, mir const& m, std::size_t from_k, int from, std::size_t to_k, int to) {
  std::vector<step_> r;
  for (auto k = from_k; k <= to_k; ++k) {
    auto const& s = c.srs_[static_cast<std::size_t>(m.srs_[k])];
    int const a = k == from_k ? from : 0, b = k == to_k ? to : s.size_;
    for (int i = a; i < b; ++i) r.push_back({s.real_->nodes(static_cast<idx>(i)), s.omitted_.contains(i)});
  }
  return r;
}

template <typename G>
void same_nodes(G&& gen, std::vector<step_> const& want, char const* how, std::string const& where) {
  std::size_t i = 0;
  for (auto const& rn : gen) {
    mc::step();
    mc::require(i < want.size(), "interlocking route iteration too long", how, " ", where);
    mc::require(rn.node_ == want[i].node_, "interlocking route iteration: node", how, " ", where, " at ", i);
    mc::require(rn.omitted_ == want[i].omitted_, "interlocking route iteration: omitted", how, " ", where, " at ", i);
    ++i;
  }
  mc::eq(i, want.size(), "interlocking route iteration too short", how, " ", where);
}

void check_route(route_case const& c, mir const& m, inf::interlocking_route const& ir, inf::infrastructure const& infra, bool ranges) {
  auto const where = mc::str("route ", ir.id_);
  auto const all = nodes_of(c, m, 0, m.from_, m.srs_.size() - 1, m.to_);
  same_nodes(ir.iterate(infra), all, "iterate", where);
  mc::eq(ir.size(infra), all.size(), "size of an interlocking route", where);
  mc::require(ir.first_node(infra) == all.front().node_ && ir.last_node(infra) == all.back().node_, "ends of an interlocking route", where);
  auto const section_el = [](inf::node::ptr n) { return !n->element_->is_track_element(); };
  mc::eq(ir.starts_on_ms(infra), all.front().node_->is(inf::type::MAIN_SIGNAL), "starts on a signal", where);
  mc::eq(ir.ends_on_ms(infra), all.back().node_->is(inf::type::MAIN_SIGNAL), "ends on a signal", where);
  mc::eq(ir.starts_on_section(infra), section_el(all.front().node_), "starts on a section element", where);
  mc::eq(ir.ends_on_section(infra), section_el(all.back().node_), "ends on a section element", where);
  mc::require(ir.first_sr(infra) == c.srs_[static_cast<std::size_t>(m.srs_.front())].real_ && ir.last_sr(infra) == c.srs_[static_cast<std::size_t>(m.srs_.back())].real_,
              "first and last station route", where);
  mc::require(ir.first_sr_id() == ir.first_sr(infra)->id_ && ir.last_sr_id() == ir.last_sr(infra)->id_, "first and last station route", where);
  std::size_t k = 0;
  for (auto const& sr_ref : ir.station_routes(infra)) {
    inf::station_route::ptr const sr = &sr_ref;
    mc::require(k < m.srs_.size() && sr == c.srs_[static_cast<std::size_t>(m.srs_[k])].real_, "station routes of an interlocking route", where);
    mc::require(ir.sr(static_cast<inf::interlocking_route::sr_offset>(k), infra) == sr && ir.sr_id(static_cast<inf::interlocking_route::sr_offset>(k)) == sr->id_, "station route at", where);
    ++k;
  }
  mc::eq(k, m.srs_.size(), "station routes of an interlocking route", where);
  k = 0;
  for (auto const& sp : ir.iterate_station_routes(*infra)) {
    mc::require(k < m.srs_.size() && sp.station_route_ == c.srs_[static_cast<std::size_t>(m.srs_[k])].real_, "sub paths: station route", where);
    mc::eq(static_cast<int>(sp.from_), from_of(m, k), "sub paths: from", where);
    mc::eq(static_cast<int>(sp.to_), to_of(c, m, k), "sub paths: to", where);
    for (int i = 0; i < c.srs_[static_cast<std::size_t>(m.srs_[k])].size_; ++i) {
      mc::eq(sp.contains(static_cast<idx>(i)), from_of(m, k) <= i && i < to_of(c, m, k), "sub paths: contains", where);
    }
    ++k;
  }
  mc::eq(k, m.srs_.size(), "sub paths", where);
  for (std::size_t s = 0; s < c.srs_.size(); ++s) {
    for (int i = 0; i < c.srs_[s].size_; ++i) {
      bool want = false;
      for (std::size_t x = 0; x < m.srs_.size(); ++x) want = want || (m.srs_[x] == static_cast<int>(s) && from_of(m, x) <= i && i < to_of(c, m, x));
      mc::eq(ir.contains(c.srs_[s].real_->id_, static_cast<idx>(i)), want, "interlocking route contains", where, " ", c.srs_[s].r_.name_, " ", i);
    }
  }
  // round a ring back onto the first station route: a place given by station
  // route and index is not one place any more
  if (!ranges || (m.srs_.size() > 1 && m.srs_.front() == m.srs_.back())) return;
  for (std::size_t a = 0; a < m.srs_.size(); ++a) {
    auto const sa = c.srs_[static_cast<std::size_t>(m.srs_[a])].real_->id_;
    for (int i = from_of(m, a); i < to_of(c, m, a); ++i) {
      same_nodes(ir.from(sa, static_cast<idx>(i), infra), nodes_of(c, m, a, i, m.srs_.size() - 1, m.to_), "from", where);
      same_nodes(ir.to(sa, static_cast<idx>(i + 1), infra), nodes_of(c, m, 0, m.from_, a, i + 1), "to", where);
      for (std::size_t b = a; b < m.srs_.size(); ++b) {
        auto const sb = c.srs_[static_cast<std::size_t>(m.srs_[b])].real_->id_;
        for (int j = a == b ? i : from_of(m, b); j < to_of(c, m, b); ++j) {
          same_nodes(ir.from_to(sa, static_cast<idx>(i), sb, static_cast<idx>(j + 1), infra), nodes_of(c, m, a, i, b, j + 1), "from to", where);
        }
      }
    }
  }
}

std::string show(mir const& m) { return mc::str(mc::seq(m.srs_), "[", m.from_, "..", m.to_, ")"); }

template <typename V>
void sorted_ids(V const& v, std::set<std::uint32_t> const& want, char const* what, std::size_t at) {
  mc::require(std::is_sorted(v.begin(), v.end()), what, "unsorted at ", at);
  mc::require(std::set<std::uint32_t>(v.begin(), v.end()) == want, what, "at ", at, ": ", mc::seq(v), " want ", mc::seq(want));
}

void check(route_case& c, bool ranges) {
  load_opts o;
  o.interlocking_ = true;
  auto const infra = load(c.write_iss(), o);
  auto const& i = *infra;
  resolve(c, i);
  auto const g = station_graph(c);
  std::map<inf::station_route::id, int> by_id;
  for (std::size_t k = 0; k < c.srs_.size(); ++k) by_id[c.srs_[k].real_->id_] = static_cast<int>(k);
  mc::eq(i.station_routes_.size(), c.srs_.size(), "number of station routes", "");
  auto const& srg = i.station_route_graph_;
  mc::eq(srg.successors_.size(), c.srs_.size(), "station route graph size", "");
  mc::eq(srg.predeccesors_.size(), c.srs_.size(), "station route graph size", "");
  for (std::size_t k = 0; k < c.srs_.size(); ++k) {
    auto const& s = c.srs_[k];
    auto const back = [&](auto const& v) {
      std::multiset<int> r;
      for (auto x : v) r.insert(by_id.at(x->id_));
      return r;
    };
    auto const succ = back(srg.successors_[s.real_->id_]), pred = back(srg.predeccesors_[s.real_->id_]);
    mc::require(succ == std::multiset<int>(g.succ_[k].begin(), g.succ_[k].end()), "successors of a station route", s.r_.name_, " ", mc::seq(succ), " want ", mc::seq(g.succ_[k]));
    mc::require(pred == std::multiset<int>(g.pred_[k].begin(), g.pred_[k].end()), "predecessors of a station route", s.r_.name_, " ", mc::seq(pred), " want ", mc::seq(g.pred_[k]));
    mc::eq(s.real_->can_start_an_interlocking(srg), !s.ms_.empty() || g.pred_[k].empty(), "can start an interlocking", s.r_.name_);
    mc::eq(s.real_->can_end_an_interlocking(srg), !s.ms_.empty() || g.succ_[k].empty(), "can end an interlocking", s.r_.name_);
    if (!c.lines_.empty()) mc::eq(s.real_->requires_etcs(i.lines_), s.etcs_, "needs ETCS", s.r_.name_);
  }

  auto const want = interlocking_routes(c, g);
  std::multiset<mir> left(want.begin(), want.end());
  auto const& routes = i.interlocking_.routes_;
  std::vector<mir> got;
  for (std::size_t k = 0; k < routes.size(); ++k) {
    auto const& r = routes[k];
    mc::eq(r.id_, k, "interlocking route id", k);
    mir m;
    for (auto s : r.station_routes_) m.srs_.push_back(by_id.at(s));
    m.from_ = r.start_offset_;
    m.to_ = r.end_offset_;
    auto const it = left.find(m);
    mc::require(it != left.end(), "interlocking route that should not exist", show(m));
    left.erase(it);
    got.push_back(m);
  }
  mc::require(left.empty(), "interlocking route missing", show(left.empty() ? mir{} : *left.begin()));

  std::map<inf::node::ptr, std::set<std::uint32_t>> starting, ending, halting;
  std::map<inf::station_route::id, std::set<std::uint32_t>> part;
  std::map<inf::station::ptr, std::set<std::uint32_t>> stations;
  for (std::size_t k = 0; k < got.size(); ++k) {
    auto const id = static_cast<std::uint32_t>(k);
    auto const& m = got[k];
    check_route(c, m, routes[k], infra, ranges);
    auto const at = [&](int s, int p) { return c.srs_[static_cast<std::size_t>(s)].real_->nodes(static_cast<idx>(p)); };
    starting[at(m.srs_.front(), m.from_)].insert(id);
    ending[at(m.srs_.back(), m.to_ - 1)].insert(id);
    for (std::size_t x = 0; x < m.srs_.size(); ++x) {
      auto const& s = c.srs_[static_cast<std::size_t>(m.srs_[x])];
      for (auto h : {s.ph_, s.fh_}) {
        if (h >= from_of(m, x) && h < to_of(c, m, x)) halting[at(m.srs_[x], h)].insert(id);
      }
      part[s.real_->id_].insert(id);
      stations[s.real_->station_].insert(id);
    }
    mc::state(mc::str(m.srs_.size(), "|", m.to_ - m.from_, "|", routes[k].starts_on_ms(infra), routes[k].ends_on_ms(infra)));
  }
  for (std::size_t a = 0; a < got.size(); ++a) {
    for (std::size_t b = 0; b < got.size(); ++b) {
      mc::eq(routes[a].follows(routes[b], infra), routes[a].first_node(infra) == routes[b].last_node(infra), "follows", a, " ", b);
      mc::eq(routes[a] == routes[b], a == b, "interlocking route equality", a, " ", b);
    }
  }
  auto const& il = i.interlocking_;
  mc::eq(il.starting_at_.size(), i.graph_.nodes_.size(), "starting at: size", "");
  mc::eq(il.ending_at_.size(), i.graph_.nodes_.size(), "ending at: size", "");
  mc::eq(il.halting_at_.size(), i.graph_.nodes_.size(), "halting at: size", "");
  for (auto const& n : i.graph_.nodes_) {
    sorted_ids(il.starting_at_[n->id_], starting[n], "starting at", n->id_);
    sorted_ids(il.ending_at_[n->id_], ending[n], "ending at", n->id_);
    sorted_ids(il.halting_at_[n->id_], halting[n], "halting at", n->id_);
    mc::eq(il.starting_at_[n->id_].size(), starting[n].size(), "starting at lists a route twice", n->id_);
    mc::eq(il.ending_at_[n->id_].size(), ending[n].size(), "ending at lists a route twice", n->id_);
  }
  mc::eq(il.sr_to_participating_irs_.size(), c.srs_.size(), "participating: size", "");
  for (auto const& s : c.srs_) sorted_ids(il.sr_to_participating_irs_[s.real_->id_], part[s.real_->id_], "participating", s.real_->id_);
  mc::eq(il.station_to_irs_.size(), i.stations_.size(), "station to routes: size", "");
  for (auto const& s : i.stations_) {
    sorted_ids(il.station_to_irs_[s->id_], stations[s], "station to routes", s->id_);
    mc::eq(il.station_to_irs_[s->id_].size(), stations[s].size(), "station lists a route twice", s->id_);
  }
  mc::trace();
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  each_route_case([](std::string const& d, route_case& c) {
    mc::run([&] { return d; }, [&] { check(c, true); });
  });
  return mc::finish();
}
