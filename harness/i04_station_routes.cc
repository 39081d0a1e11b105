// I04: station routes follow the described course.  Every walk through every
// station of the topologies becomes a station route; what the real parser
// makes of it is compared with the geometry, and every iteration range of it
// is enumerated.
#include "routes.h"

#include "soro/infrastructure/parsers/iss/iss_string_literals.h"
#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"
#include "soro/infrastructure/station/station_route.h"

using namespace iss;

namespace {

inf::station_route const* find_route(inf::infrastructure_t const& i, std::string const& station, std::string const& name) {
  auto const st = i.ds100_to_station_.find(soro::string(station));
  mc::require(st != std::end(i.ds100_to_station_), "station missing", station);
  auto const it = st->second->station_routes_.find(soro::string(name));
  return it == std::end(st->second->station_routes_) ? nullptr : static_cast<inf::station_route const*>(it->second);
}

struct expected {
  walk w_;
  rte r_;
};

// positions of the walk's places in the real node list (placeholders skipped)
std::vector<int> positions(model const& m, binding const& b, walk const& w, inf::station_route const& sr, std::string const& name) {
  std::vector<int> pos;
  int i = 0;
  auto const n = static_cast<int>(sr.size());
  for (auto const& a : w.at_) {
    while (i < n && sr.nodes(static_cast<inf::node::idx>(i))->is(inf::type::META)) ++i;
    mc::require(i < n, "station route too short", name, " misses ", m.show(a));
    mc::require(sr.nodes(static_cast<inf::node::idx>(i)) == b.at(m.canon(a)), "station route leaves its course", name, " at ", m.show(a), " got ",
                sr.nodes(static_cast<inf::node::idx>(i))->element_->get_type_str());
    pos.push_back(i++);
  }
  mc::require(i == n, "station route too long", name, " ", n, " nodes, want ", i);
  return pos;
}

void iterate(inf::station_route const& sr, std::set<int> const& omitted, std::map<int, inf::speed_limit const*> const& spl, std::string const& name, bool all_ranges) {
  auto const n = static_cast<int>(sr.size());
  auto const compare = [&](auto&& gen, int from, int to, char const* how) {
    int i = from;
    for (auto const& rn : gen) {
      mc::step();
      mc::require(i < to, "iteration runs over", how, " ", from, "..", to, " of ", name);
      mc::require(rn.node_ == sr.nodes(static_cast<inf::node::idx>(i)), "iteration: node", how, " ", from, "..", to, " of ", name, " at ", i);
      mc::eq(rn.omitted_, omitted.contains(i), "iteration: omitted", how, " ", from, "..", to, " of ", name, " at ", i);
      mc::eq(rn.omitted(), omitted.contains(i), "iteration: omitted", how, " ", from, "..", to, " of ", name, " at ", i);
      auto const it = spl.find(i);
      auto const want = it == spl.end() || omitted.contains(i) ? nullptr : it->second;
      mc::require(rn.extra_spl_.has_value() == (want != nullptr) && (want == nullptr || *rn.extra_spl_ == want), "iteration: extra speed limit", how, " ", from, "..",
                  to, " of ", name, " at ", i, rn.extra_spl_.has_value() ? " has one" : " has none");
      ++i;
    }
    mc::eq(i, to, "iteration ends early", how, " ", from, "..", to, " of ", name);
  };
  using idx = inf::node::idx;
  compare(sr.iterate(), 0, n, "iterate");
  for (int i = 0; i <= n; ++i) {
    if (!all_ranges && i != n / 2) continue;
    compare(sr.from(static_cast<idx>(i)), i, n, "from");
    compare(sr.to(static_cast<idx>(i)), 0, i, "to");
    for (int j = i; j <= n; ++j) compare(sr.from_to(static_cast<idx>(i), static_cast<idx>(j)), i, j, "from to");
  }
}

void check(topo t, std::vector<expected>& ex, bool all_ranges, int files) {
  for (auto const& e : ex) t.T[static_cast<std::size_t>(e.w_.station_)].routes_.push_back(e.r_);
  auto const infra = load(write(t, "iss" + std::to_string(files), files));
  auto const& i = *infra;
  model const m(t);
  lookup const l(t, i);
  auto const b = bind(m, l, t);

  std::size_t published = 0;
  std::map<std::pair<inf::element::ptr, inf::station::ptr>, std::multiset<inf::station_route const*>> starts;
  for (auto const& e : ex) {
    auto const& st = t.T[static_cast<std::size_t>(e.w_.station_)].name_;
    auto const sr = find_route(i, st, e.r_.name_);
    if (e.r_.publish_only_) {
      mc::require(sr == nullptr, "station route for publication only", e.r_.name_);
      continue;
    }
    ++published;
    mc::require(sr != nullptr, "station route missing", e.r_.name_);
    mc::require(sr->name_ == e.r_.name_ && sr->station_ == i.ds100_to_station_.at(soro::string(st)), "station route name and station", e.r_.name_);
    mc::require(sr->id_ < i.station_routes_.size() && i.station_routes_[sr->id_] == sr, "station route id", e.r_.name_);
    auto const& w = e.w_;
    auto const pos = positions(m, b, w, *sr, e.r_.name_);
    starts[{sr->nodes(0)->element_, sr->station_}].insert(sr);

    std::set<long> const om(e.r_.omitted_.begin(), e.r_.omitted_.end());
    std::set<int> omitted;
    std::vector<int> ms, etcs_s, etcs_e;
    std::map<int, inf::speed_limit const*> spl;
    std::size_t nspl = 0;
    int ph = -1, fh = -1, cp = -1;
    for (std::size_t k = 0; k < w.at_.size(); ++k) {
      auto const& a = w.at_[k];
      auto const p = pos[k];
      auto const id = a.track_ ? rp_id(t, a) : -1;
      if (om.contains(id)) omitted.insert(p);
      if (is_ms(t, a) && !om.contains(id)) ms.push_back(p);
      if (a.track_ && tag_of(t, a).starts_with("ETCSAnfang")) etcs_s.push_back(p);
      if (a.track_ && tag_of(t, a).starts_with("ETCSEnde")) etcs_e.push_back(p);
      if (a.track_ && id == e.r_.passenger_) ph = p;
      if (a.track_ && id == e.r_.freight_) fh = p;
      if (a.track_ && id == e.r_.checkpoint_) cp = p;
      for (auto const& x : e.r_.spls_) {
        bool hit = a.track_ && x.node_ == id;
        if (!a.track_) {
          for (auto y : t.e(a.el_).ids_) hit = hit || (y != 0 && y == x.node_);
        }
        if (!hit) continue;
        mc::require(nspl < sr->extra_speed_limits_.size(), "extra speed limits", e.r_.name_, " has too few");
        auto const& got = sr->extra_speed_limits_[nspl++];
        mc::require(got.element_ == l.of(a) && got.node_ == b.at(m.canon(a)), "extra speed limit: place", e.r_.name_, " ", nspl);
        mc::require(std::abs(got.limit_.val_ * 3.6 - x.kmh_) < 1e-6, "extra speed limit: value", e.r_.name_, " ", got.limit_.val_ * 3.6, " want ", x.kmh_);
        mc::eq(static_cast<int>(got.poa_), static_cast<int>(x.signal_ ? inf::speed_limit::poa::LAST_SIGNAL : inf::speed_limit::poa::HERE), "extra speed limit: point of action", e.r_.name_);
        mc::eq(static_cast<int>(got.effects_), x.effect_, "extra speed limit: effect", e.r_.name_);
        if (x.len_ > 0) mc::eq(metres(got.length_), x.len_, "extra speed limit: length", e.r_.name_);
        spl[p] = &got;
      }
    }
    mc::eq(nspl, e.r_.spls_.size(), "extra speed limits lost", e.r_.name_);
    mc::eq(sr->extra_speed_limits_.size(), e.r_.spls_.size(), "extra speed limits", e.r_.name_);
    mc::require(std::vector<int>(sr->omitted_nodes_.begin(), sr->omitted_nodes_.end()) == std::vector<int>(omitted.begin(), omitted.end()), "omitted nodes", e.r_.name_, " ",
                mc::seq(sr->omitted_nodes_), " want ", mc::seq(omitted));
    auto const& path = *sr->path_;
    auto const ints = [](auto const& v) { return std::vector<int>(v.begin(), v.end()); };
    mc::require(ints(path.main_signals_) == ms, "main signals of a station route", e.r_.name_, " ", mc::seq(path.main_signals_), " want ", mc::seq(ms));
    mc::require(ints(path.etcs_starts_) == etcs_s, "ETCS starts of a station route", e.r_.name_);
    mc::require(ints(path.etcs_ends_) == etcs_e, "ETCS ends of a station route", e.r_.name_);
    mc::require(path.start_ == l.of(w.at_.front()) && path.end_ == l.of(w.at_.back()), "ends of a station route", e.r_.name_);
    auto const opt = [&](auto const& o, int want, char const* what) {
      mc::require(o.has_value() == (want >= 0) && (want < 0 || static_cast<int>(*o) == want), what, e.r_.name_, " ", o.has_value() ? static_cast<int>(*o) : -1, " want ", want);
    };
    opt(sr->passenger_halt_, ph, "passenger halt");
    opt(sr->freight_halt_, fh, "freight halt");
    opt(sr->runtime_checkpoint_, cp, "runtime checkpoint");
    opt(sr->get_halt_idx(soro::rs::FreightTrain::NO), ph, "passenger halt");
    opt(sr->get_halt_idx(soro::rs::FreightTrain::YES), fh, "freight halt");
    auto const node = [&](auto const& o, int want, char const* what) {
      mc::require(o.has_value() == (want >= 0) && (want < 0 || *o == sr->nodes(static_cast<inf::node::idx>(want))), what, e.r_.name_);
    };
    node(sr->get_halt_node(soro::rs::FreightTrain::NO), ph, "passenger halt node");
    node(sr->get_halt_node(soro::rs::FreightTrain::YES), fh, "freight halt node");
    node(sr->get_runtime_checkpoint_node(), cp, "runtime checkpoint node");

    // neighbours, kind, length, attributes
    auto const& first = w.at_.front();
    auto const& last = w.at_.back();
    auto const border_to = [&](at const& a) -> inf::station::ptr {
      if (a.track_ || t.e(a.el_).k_ != BORDER || t.e(a.el_).other_ < 0) return nullptr;
      return i.ds100_to_station_.at(soro::string(t.T[static_cast<std::size_t>(t.e(t.e(a.el_).other_).station_)].name_));
    };
    auto const from = border_to(first), to = border_to(last);
    mc::require(sr->from_station_.has_value() == (from != nullptr) && (from == nullptr || *sr->from_station_ == from), "from station", e.r_.name_);
    mc::require(sr->to_station_.has_value() == (to != nullptr) && (to == nullptr || *sr->to_station_ == to), "to station", e.r_.name_);
    auto const boundary = [&](at const& a) { return !a.track_ && t.e(a.el_).k_ != BUMPER; };
    bool const in = boundary(first), out = boundary(last);
    mc::eq(sr->is_through_route(), in && out, "through route", e.r_.name_);
    mc::eq(sr->is_in_route(), in && !out, "in route", e.r_.name_);
    mc::eq(sr->is_out_route(), !in && out, "out route", e.r_.name_);
    mc::eq(sr->is_contained_route(), !in && !out, "contained route", e.r_.name_);
    mc::eq(metres(sr->length_), walk_metres(t, w), "length of a station route", e.r_.name_);
    if (nspl == 0 && w.at_.size() > 1) {
      mc::eq(metres(inf::get_path_length_from_elements(sr->nodes())), walk_metres(t, w), "length of a path by its elements", e.r_.name_);
      mc::eq(metres(inf::get_path_length_from_sections(sr->nodes())), walk_metres(t, w), "length of a path by its sections", e.r_.name_);
      mc::require(inf::is_path(sr->nodes()), "a station route is a path", e.r_.name_);
      // with a place left out it is none, unless its neighbours touch
      for (std::size_t x = 1; x + 1 < w.at_.size(); ++x) {
        std::vector<inf::element::ptr> els;
        for (std::size_t y = 0; y < w.at_.size(); ++y) {
          if (y != x) els.push_back(sr->nodes(static_cast<inf::node::idx>(y))->element_);
        }
        auto const& l = els[x - 1]->neighbours();
        bool const touch = std::any_of(l.begin(), l.end(), [&](auto n) { return n != nullptr && n == els[x]; });
        mc::eq(inf::is_path(els), touch, "a path with a gap", e.r_.name_, " at ", x);
        mc::step();
      }
    }
    for (std::size_t k = 0; k < inf::STATION_ROUTE_ATTRIBUTES.size(); ++k) {
      bool const want = std::find(e.r_.attributes_.begin(), e.r_.attributes_.end(), inf::STATION_ROUTE_ATTRIBUTES[k]) != e.r_.attributes_.end();
      mc::eq(sr->attributes_[k], want, "attribute", e.r_.name_, " ", inf::STATION_ROUTE_ATTRIBUTES[k]);
    }
    mc::eq(sr->electrified(), std::find(e.r_.attributes_.begin(), e.r_.attributes_.end(), "Elektrifiziert") != e.r_.attributes_.end(), "electrified", e.r_.name_);
    mc::require(*sr == *i.station_routes_[sr->id_] && !(*sr != *i.station_routes_[sr->id_]), "station route equality", e.r_.name_);
    if (sr->id_ > 0) mc::require(!(*sr == *i.station_routes_[sr->id_ - 1]), "station route equality", e.r_.name_);
    iterate(*sr, omitted, spl, e.r_.name_, all_ranges);
    mc::state(mc::str(w.at_.size(), "|", ms.size(), "|", omitted.size(), "|", nspl, "|", sr->is_through_route(), sr->is_in_route(), sr->is_out_route()));
  }
  mc::eq(i.station_routes_.size(), published, "number of station routes", "");
  std::size_t listed = 0, by_element = 0;
  for (auto const& st : i.stations_) {
    listed += st->station_routes_.size();
    for (auto const& [el, v] : st->element_to_routes_) {
      by_element += v.size();
      auto const it = starts.find({i.graph_.elements_[el], st});
      std::multiset<inf::station_route const*> got;
      for (auto x : v) got.insert(x);
      mc::require(it != starts.end() && it->second == got, "station routes by first element", "element ", el);
    }
  }
  mc::eq(listed, published, "station routes of the stations", "");
  mc::eq(by_element, published, "station routes by first element", "");
  mc::trace();
}

// routes for a topology: every walk, dressed with what the hash picks
std::vector<expected> dress(topo const& t, bool plain) {
  model const m(t);
  std::vector<expected> ex;
  int n = 0;
  auto const& attrs = inf::STATION_ROUTE_ATTRIBUTES;
  for (auto& w : walks(m, t)) {
    for (int v = 0; v < (plain ? 1 : 2); ++v) {
      expected e;
      e.w_ = w;
      auto& r = e.r_;
      r.name_ = "r" + std::to_string(n);
      r.from_ = rp_id(t, w.at_.front());
      r.to_ = rp_id(t, w.at_.back());
      r.course_ = w.course_;
      auto h = mc::h64(static_cast<std::uint64_t>(n) * 7919 + w.at_.size() + static_cast<std::uint64_t>(v));
      if (v == 1) {
        for (auto const& a : w.at_) {
          h = mc::h64(h);
          if (directed(t, a)) {
            auto const id = rp_id(t, a);
            if (h & 1) r.omitted_.push_back(id);
            if (h & 2) r.spls_.push_back({id, static_cast<int>((h >> 8) % 12) * 10 + 20, h & 16 ? static_cast<int>((h >> 12) % 300) + 1 : 0, (h & 32) != 0, static_cast<int>((h >> 16) % 3)});
            if ((h & 12) == 4) r.passenger_ = id;
            if ((h & 12) == 8) r.freight_ = id;
            if ((h & 12) == 12) r.checkpoint_ = id;
          } else if (a.track_) {
            // stands there for both directions
            if (h & 1) r.omitted_.push_back(rp_id(t, a));
            bool const once = std::count_if(w.at_.begin(), w.at_.end(), [&](at const& x) { return x.track_ && x.sec_ == a.sec_ && x.idx_ == a.idx_; }) == 1;
            if (once && (h & 6) == 6) r.spls_.push_back({rp_id(t, a), static_cast<int>((h >> 8) % 12) * 10 + 20, 0, (h & 32) != 0, static_cast<int>((h >> 16) % 3)});
          } else if (!a.track_ && (h & 3) == 3 && std::count_if(w.at_.begin(), w.at_.end(), [&](at const& x) { return !x.track_ && x.el_ == a.el_; }) == 1) {
            // at a switch, crossing, border, ...; by any of its names
            std::vector<long> names;
            for (auto y : t.e(a.el_).ids_) {
              if (y != 0) names.push_back(y);
            }
            if (!names.empty()) r.spls_.push_back({names[(h >> 20) % names.size()], static_cast<int>((h >> 8) % 12) * 10 + 20, 0, (h & 32) != 0, static_cast<int>((h >> 16) % 3)});
          }
        }
        if (h & 1) std::reverse(r.spls_.begin(), r.spls_.end());
        if (h & 64) std::reverse(r.omitted_.begin(), r.omitted_.end());
        for (auto k = 0U; k < attrs.size(); ++k) {
          if ((h >> (k + 20)) & 1) r.attributes_.push_back(attrs[k]);
          // one the library does not know says nothing
          if (k == (h >> 40) % 40) r.attributes_.push_back("Unbekannt");
        }
        r.publish_only_ = (h & 0x7000) == 0;
        r.warnings_ = static_cast<int>((h >> 46) & 3);
      }
      ex.push_back(e);
      ++n;
    }
  }
  return ex;
}

// one straight track: every set of omitted nodes and of extra limits
void dressed_line(std::vector<std::string> const& tags) {
  topo t;
  auto const st = t.station("A");
  auto const a = t.el(BORDER, st), b = t.el(TRACK_END, st);
  t.E[static_cast<std::size_t>(a)].partner_ = "X";
  std::vector<tel> els;
  int km = 1000;
  for (auto const& x : tags) els.push_back({x, km += 10, extra_of(x), 0});
  t.section(st, 1, a, 0, 1000, b, 0, km + 10, std::move(els));
  t.finish();
  model const m(t);
  std::vector<expected> ex;
  int n = 0;
  for (auto const& w : walks(m, t, true)) {
    std::vector<long> ids;
    for (auto const& p : w.at_) {
      if (directed(t, p)) ids.push_back(rp_id(t, p));
    }
    auto const k = ids.size();
    for (std::uint32_t om = 0; om < (1U << k); ++om) {
      for (std::uint32_t sp = 0; sp < (1U << k); ++sp) {
        for (int order = 0; order < 2; ++order) {
          expected e;
          e.w_ = w;
          auto& r = e.r_;
          r.name_ = "r" + std::to_string(n++);
          r.from_ = rp_id(t, w.at_.front());
          r.to_ = rp_id(t, w.at_.back());
          for (std::size_t x = 0; x < k; ++x) {
            auto const y = order ? k - 1 - x : x;
            if (om >> y & 1) r.omitted_.push_back(ids[y]);
            if (sp >> y & 1) r.spls_.push_back({ids[y], static_cast<int>(40 + 10 * y), static_cast<int>(om % 3) * 100, (om + y) % 2 == 1, static_cast<int>((sp + y) % 3)});
          }
          if (k > 0) {
            // pointing at each node in turn
            r.passenger_ = ids[(om + sp) % k];
            r.freight_ = ids[(om * 3 + sp + 1) % k];
            r.checkpoint_ = ids[(om + 2 * sp + 1) % k];
          }
          ex.push_back(e);
        }
      }
    }
  }
  check(t, ex, true, 1);
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::group("omitted nodes and extra limits");
  std::vector<std::string> const alpha = {"HauptsignalS", "HauptsignalF", "HalteplatzRzLinksS", "ETCSAnfangS", "ETCSEndeS", "Tunnel"};
  auto const len = mc::tier(4, 5);
  mc::bound("one section", mc::str("all words of up to ", len, " elements; all subsets of omitted nodes x all subsets of extra limits, all iteration ranges"));
  mc::sequences(static_cast<int>(alpha.size()), 0, len, [&](std::vector<int> const& s) {
    if (s.size() == 5 && mc::hash_seq(s) % 4 != 0) return;
    std::vector<std::string> tags;
    for (auto i : s) tags.push_back(alpha[static_cast<std::size_t>(i)]);
    mc::run([&] { return mc::seqs(tags); }, [&] { dressed_line(tags); });
  });
  each([](std::string const& d, topo const& t) {
    mc::run([&] { return d; }, [&] {
      auto ex = dress(t, false);
      check(t, ex, true, t.T.size() > 1 ? 2 : 1);
    });
  });
  return mc::finish();
}
