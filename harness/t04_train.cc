// T04: what a train meets on its way - every node once and in order, with its
// stops and passing times attached, whatever interlocking routes it takes.
#include "trains.h"

using namespace iss;
namespace tt = soro::tt;

namespace {

struct spot {
  int sr_, idx_;
};

std::string show(std::vector<spot> const& v) {
  std::string s;
  for (auto const& x : v) s += mc::str("r", x.sr_, ".", x.idx_, " ");
  return s;
}

// the places from one interlocking route's first to the last one's last
std::vector<spot> spots(route_case const& c, std::vector<mir> const& irs, std::vector<int> const& path) {
  std::vector<spot> r;
  for (std::size_t p = 0; p < path.size(); ++p) {
    auto const& m = irs[static_cast<std::size_t>(path[p])];
    for (std::size_t k = 0; k < m.srs_.size(); ++k) {
      for (int i = from_of(m, k); i < to_of(c, m, k); ++i) {
        if (p > 0 && k == 0 && i == m.from_) continue;  // the signal both share
        r.push_back({m.srs_[k], i});
      }
    }
  }
  return r;
}
int metres(route_case const& c, std::vector<spot> const& v) {
  int n = 0;
  for (std::size_t k = 0; k + 1 < v.size(); ++k) {
    auto const &a = v[k], &b = v[k + 1];
    if (a.sr_ != b.sr_) {  // from border to border, or the same place once more
      auto const &x = c.srs_[static_cast<std::size_t>(a.sr_)].w_.at_.back(), &y = c.srs_[static_cast<std::size_t>(b.sr_)].w_.at_.front();
      if (!x.track_ && !y.track_) n += std::abs(metres_of(c.t_, x, false) - metres_of(c.t_, y, true));
      continue;
    }
    auto const& s = c.srs_[static_cast<std::size_t>(a.sr_)];
    auto const find = [&](int idx) { return static_cast<std::size_t>(std::find(s.pos_.begin(), s.pos_.end(), idx) - s.pos_.begin()); };
    auto const x = find(a.idx_), y = find(b.idx_);
    if (x >= s.pos_.size() || y >= s.pos_.size()) {  // META in between: no length of its own
      continue;
    }
    n += gap(c.t_, s.w_.at_[x], s.w_.div_[x], s.w_.at_[y]);
  }
  return n;
}
bool has_meta(route_case const& c, std::vector<spot> const& v) {
  for (auto const& x : v) {
    auto const& p = c.srs_[static_cast<std::size_t>(x.sr_)].pos_;
    if (std::find(p.begin(), p.end(), x.idx_) == p.end()) return true;
  }
  return false;
}

void check(route_case& c, int len) {
  load_opts o;
  o.interlocking_ = true;
  auto const dir = c.write_iss();
  auto const infra = load(dir, o);
  resolve(c, *infra);
  auto const irs = real_routes(c, *infra);
  each_stop_sequence(c, len, true, [&](std::vector<mstop> const& stops, bool freight) {
    std::vector<int> chain;
    for (auto const& s : stops) chain.push_back(s.sr_);
    auto const h0 = stop_node(c, stops.front(), freight), hl = stop_node(c, stops.back(), freight);
    for (auto const& path : tilings(c, irs, chain, h0, hl)) {
      auto const all = spots(c, irs, path);
      for (int br = 0; br < 4; ++br) {
        bool const in = br & 1, out = br & 2;
        tt::train t;
        t.id_ = 3;
        t.break_in_ = in;
        t.break_out_ = out;
        t.physics_ = soro::rs::train_physics({}, soro::si::from_ton(100.0), soro::si::from_m(100.0), soro::si::from_km_h(100.0), soro::rs::CTC::NO, freight ? soro::rs::FreightTrain::YES : soro::rs::FreightTrain::NO);
        for (auto p : path) t.path_.emplace_back(static_cast<inf::interlocking_route::id>(p));
        std::vector<spot> at;
        std::size_t halts = 0;
        unsigned time = 50;
        for (auto const& s : stops) {
          if (s.k_ == PASS) continue;
          t.sequence_points_.emplace_back(make_point(c, s, time, time + 20, 10));
          at.push_back({s.sr_, stop_node(c, s, freight)});
          halts += s.k_ == STOP ? 1 : 0;
          time += 100;
        }
        auto const how = mc::str(show_stops(stops), freight ? "freight" : "passenger", " by ", mc::seq(path), in ? " breaks in" : "", out ? " breaks out" : "");
        auto const place = [&](spot const& s) {
          for (std::size_t k = 0; k < all.size(); ++k) {
            if (all[k].sr_ == s.sr_ && all[k].idx_ == s.idx_) return k;
          }
          mc::fail("model", mc::str("a stop is not on its path ", how));
        };
        auto const from = in ? std::size_t{0} : place(at.front());
        auto const to = out ? all.size() : place(at.back()) + 1;
        std::vector<spot> const want(all.begin() + static_cast<std::ptrdiff_t>(from), all.begin() + static_cast<std::ptrdiff_t>(to));
        std::size_t n = 0, next = 0;
        for (auto const& tn : t.iterate(infra)) {
          mc::require(n < want.size(), "a train runs on", how, " after ", show(want));
          auto const& w = want[n];
          auto const& s = c.srs_[static_cast<std::size_t>(w.sr_)];
          auto const node = s.real_->nodes(static_cast<inf::node::idx>(w.idx_));
          mc::require(tn.node_ == node, "node of a train", how, " number ", n, " want r", w.sr_, ".", w.idx_, " got ", tn.node_->id_);
          bool const stop = next < at.size() && at[next].sr_ == w.sr_ && at[next].idx_ == w.idx_;
          mc::require(tn.sequence_point_.has_value() == stop, "sequence point at a node", how, " number ", n);
          if (stop) mc::require(*tn.sequence_point_ == &t.sequence_points_[static_cast<unsigned>(next)], "which sequence point", how, " number ", n);
          bool const om = s.omitted_.contains(w.idx_);
          mc::eq(tn.omitted_, om, "omitted in the station route", how, " number ", n);
          mc::eq(tn.omitted(), om || (node->is(inf::type::HALT) && !stop), "omitted", how, " number ", n);
          mc::require(!tn.extra_spl_.has_value(), "extra speed limit", how);
          if (stop) ++next;
          ++n;
          mc::step();
        }
        mc::eq(n, want.size(), "a train stops short", how);
        mc::eq(next, at.size(), "a sequence point is never met", how);
        mc::eq(t.total_halts(), halts, "halts", how);
        mc::eq(static_cast<bool>(t.freight()), freight, "freight", how);
        mc::eq(t.is_freight(), freight, "freight", how);
        mc::eq(t.first_departure().count(), 70U, "first departure", how);
        mc::require(t.get_start_node(infra) == c.srs_[static_cast<std::size_t>(want.front().sr_)].real_->nodes(static_cast<inf::node::idx>(want.front().idx_)), "start node", how);
        mc::require(t.first_station_route(infra) == c.srs_[static_cast<std::size_t>(want.front().sr_)].real_, "first station route", how);
        mc::require(t.last_station_route(infra) == c.srs_[static_cast<std::size_t>(want.back().sr_)].real_, "last station route", how);
        mc::eq(t.first_interlocking_route(infra).id_, path.front(), "first interlocking route", how);
        mc::eq(t.last_interlocking_route(infra).id_, path.back(), "last interlocking route", how);
        std::vector<int> ids;
        for (auto const& ir : t.path(infra)) ids.push_back(static_cast<int>(ir.id_));
        mc::require(ids == path, "path", how, ": ", mc::seq(ids));
        if (!has_meta(c, want)) {
          auto const got = soro::si::as_m(t.path_length(infra)), m = static_cast<double>(metres(c, want));
          mc::require(std::abs(got - m) < 1e-6, "length of the path", how, ": ", got, " want ", m);
        }
        mc::state(mc::str(path.size(), "|", want.size(), "|", at.size(), "|", br));
      }
    }
  });
  mc::trace();
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  each_train_world([](std::string const& d, route_case& c) {
    mc::run([&] { return d; }, [&] { check(c, 4); });
  });
  return mc::finish();
}
