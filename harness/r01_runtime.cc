// R01: running times.  For every line of stations, train and way of stopping
// within the bounds, the real intervals and time stamps are compared with the
// limits along the line and with motion computed in much smaller steps.
#include "trains.h"

#include "soro/runtime/interval.h"
#include "soro/runtime/runtime.h"
#include "soro/runtime/runtime_physics.h"

using namespace iss;
namespace tt = soro::tt;
namespace rt = soro::runtime;
namespace si = soro::si;

namespace {

struct letter {
  char const* tag_;
  int kmh_;
  bool signal_;
  int effect_;
};
std::map<char, letter> const LETTERS = {
    {'S', {"HauptsignalS", 0, false, 0}},    {'h', {"HalteplatzRzLinksS", 0, false, 0}}, {'A', {"VorsignalS", 0, false, 0}},
    {'U', {"Tunnel", 0, false, 0}},          {'V', {"GeschwZulaessigS", 60, false, 0}},  {'W', {"GeschwZulaessigS", 100, false, 1}},
    {'L', {"GeschwZulaessigS", 40, true, 0}}, {'K', {"GeschwZulaessigS", 80, true, 1}},   {'N', {"GeschwZulaessigS", 30, false, 2}},
    {'Z', {"GeschwZulaessigS", 0, false, 0}}, {'F', {"HauptsignalF", 0, false, 0}},       {'R', {"GeschwZulaessigF", 30, false, 0}},
    {'B', {"GeschwEndeSpeziellS", 30, false, 0}},
};

// places from km on, gap metres apart; letters in brackets share a place
std::vector<tel> places(std::string const& p, int km, int gap, int& end) {
  std::vector<tel> r;
  int at = km + gap;
  bool in = false;
  for (auto c : p) {
    if (c == '(' || c == ')') {
      in = c == '(';
      if (!in) at += gap;
      continue;
    }
    auto const& l = LETTERS.at(c);
    std::string const tag = l.tag_;
    r.push_back({tag, at, tag.starts_with("Geschw") ? spl_xml(l.kmh_, 0, l.signal_, l.effect_) : std::string{}, 0});
    if (!in) at += gap;
  }
  end = at;
  return r;
}
letter const* letter_of(topo const& t, at const& a) {
  if (!a.track_) return nullptr;
  auto const& e = t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)];
  for (auto const& [c, l] : LETTERS) {
    if (e.tag_ == l.tag_ && (!e.tag_.starts_with("Geschw") || e.extra_ == spl_xml(l.kmh_, 0, l.signal_, l.effect_))) return &l;
  }
  return nullptr;
}
// a limit that concerns the trains here
bool limits(letter const* l) { return l != nullptr && std::string(l->tag_).starts_with("GeschwZ") && l->kmh_ > 0 && l->effect_ != 2; }

topo line(std::vector<std::string> const& ps, int gap, bool ring = false) {
  topo t;
  int km = 10000, prev = -1, first = -1;
  auto const n = static_cast<int>(ps.size());
  for (int i = 0; i < n; ++i) t.station(std::string(1, static_cast<char>('A' + i)));
  for (int i = 0; i < n; ++i) {
    auto const l = t.el(i == 0 && !ring ? BUMPER : BORDER, i), r = t.el(i + 1 == n && !ring ? TRACK_END : BORDER, i);
    if (i == 0) first = l;
    int end = 0;
    auto els = places(ps[static_cast<std::size_t>(i)], km, gap, end);
    t.section(i, 1, l, 0, km, r, 0, end, std::move(els));
    km = end;
    if (prev >= 0) t.join(prev, l, 1);
    prev = r;
  }
  if (ring) t.join(prev, first, 1);
  t.finish();
  t.core_ = core_defaults(120);
  return t;
}

struct border {
  double at_{0}, left_{0}, right_{0};
  bool halt_{false};
  std::size_t point_{0};
  std::vector<std::pair<inf::node::ptr, double>> events_;
};

struct plan {
  std::vector<border> borders_;
  bool unclear_{false};
};

struct spot {
  int sr_, idx_;
  at at_;
  bool place_{false};  // not a META node
  double dist_{0};
};

auto const TYPES = {inf::type::MAIN_SIGNAL, inf::type::HALT, inf::type::APPROACH_SIGNAL, inf::type::SPEED_LIMIT, inf::type::TUNNEL};

struct motion {
  double t_{0}, v_{0};
  std::vector<std::pair<double, double>> curve_;  // distance, time
};

// as fast as can be from v to exit over len metres, never above limit
motion run(double v, double limit, double exit, double len, double force, double resist, double drag, double mass, double dec) {
  motion m;
  double d = 0, t = 0;
  double const dt = 0.02;
  m.curve_.emplace_back(0, 0);
  while (d < len - 1e-9) {
    auto const left = len - d;
    auto const brake = v > exit ? (v * v - exit * exit) / (2 * dec) : 0.0;
    double a = 0;
    if (brake >= left - 1e-9) {
      a = -dec;
    } else if (v < limit) {
      a = (force - resist - drag * v * v) / (mass * 1.06);
    }
    double nv = v + a * dt;
    if (a > 0 && nv > limit) nv = limit;
    if (a < 0 && nv < exit) nv = exit;
    auto step = (v + nv) / 2 * dt;
    if (a < 0 && nv <= 0.01) {
      // the last bit before a halt
      t += v / dec;
      d = len;
      v = exit;
      break;
    }
    if (step < 1e-12) break;
    if (d + step > len) {
      t += dt * (len - d) / step;
      v = v + (nv - v) * (len - d) / step;
      d = len;
    } else {
      t += dt;
      d += step;
      v = nv;
    }
    m.curve_.emplace_back(d, t);
  }
  m.curve_.emplace_back(len, t);
  m.t_ = t;
  m.v_ = exit < v ? exit : v;
  return m;
}
double time_at(motion const& m, double d) {
  for (std::size_t k = 1; k < m.curve_.size(); ++k) {
    if (m.curve_[k].first >= d) {
      auto const &a = m.curve_[k - 1], &b = m.curve_[k];
      return b.first - a.first < 1e-12 ? b.second : a.second + (b.second - a.second) * (d - a.first) / (b.first - a.first);
    }
  }
  return m.t_;
}

struct engine {
  double kmh_, force_, dec_, tons_, drag_;
};
std::vector<engine> const ENGINES = {{160, 200000, 0.7, 200, 5}, {90, 60000, 0.4, 800, 8}, {300, 300000, 1.1, 250, 0}};

double worst = 0;

void check(route_case& c, inf::infrastructure const& infra, std::vector<mir> const& irs, std::vector<mstop> const& stops, engine const& e, int timing, int types) {
  std::vector<int> chain;
  for (auto const& s : stops) chain.push_back(s.sr_);
  bool const freight = e.kmh_ < 100;
  auto const paths = tilings(c, irs, chain, stop_node(c, stops.front(), freight), stop_node(c, stops.back(), freight));
  if (paths.empty()) return;
  auto const& path = paths.front();
  // a route right round the ring, back onto the station route it starts on, is
  // not one the library can address
  for (auto p : path) {
    auto const& v = irs[static_cast<std::size_t>(p)].srs_;
    if (v.size() > 1 && v.front() == v.back()) return;
  }
  auto const how = [&] { return mc::str(show_stops(stops), "engine ", e.kmh_, " timing ", timing, " types ", types); };

  tt::train t;
  t.id_ = 0;
  t.physics_ = physics(freight, e.kmh_, e.force_, -e.dec_, e.tons_, e.drag_);
  for (auto p : path) t.path_.emplace_back(static_cast<inf::interlocking_route::id>(p));
  std::vector<std::pair<int, int>> at;
  // timing: 0 early departures and no waiting, 1 with a minimum stop, 2 late departures
  unsigned time = 36000;
  for (auto const& s : stops) {
    if (s.k_ == PASS) continue;
    auto const first = at.empty();
    t.sequence_points_.emplace_back(make_point(c, s, time, timing == 2 && !first ? time + 5000 : time, timing == 1 ? 45 : 0));
    at.emplace_back(s.sr_, stop_node(c, s, freight));
    time += timing == 2 ? 6000 : 1;
  }
  // the way from the first to the last stop
  std::vector<spot> way;
  bool on = false;
  double dist = 0;
  bool unclear = false;
  for (std::size_t p = 0; p < path.size(); ++p) {
    auto const& m = irs[static_cast<std::size_t>(path[p])];
    for (std::size_t k = 0; k < m.srs_.size(); ++k) {
      auto const& s = c.srs_[static_cast<std::size_t>(m.srs_[k])];
      for (int i = from_of(m, k); i < to_of(c, m, k); ++i) {
        if (p > 0 && k == 0 && i == m.from_) continue;
        spot x{m.srs_[k], i, {}, false, 0};
        auto const f = std::find(s.pos_.begin(), s.pos_.end(), i);
        if (f != s.pos_.end()) {
          x.at_ = s.w_.at_[static_cast<std::size_t>(f - s.pos_.begin())];
          x.place_ = true;
        }
        if (!on && x.sr_ == at.front().first && x.idx_ == at.front().second) on = true;
        if (on) way.push_back(x);
        if (on && x.sr_ == at.back().first && x.idx_ == at.back().second) on = false, k = m.srs_.size() - 1, p = path.size() - 1, i = 1 << 20;
      }
    }
  }
  double last = -1;
  for (auto& x : way) {
    if (!x.place_) {
      x.dist_ = dist;
      continue;
    }
    auto const here = metres_of(c.t_, x.at_, last < 0);
    if (last >= 0) dist += std::abs(here - last);
    last = here;
    x.dist_ = dist;
  }
  // limit at the start: the last one before it, here or further back
  double current = 120 / 3.6;
  {
    auto const& s0 = c.srs_[static_cast<std::size_t>(at.front().first)];
    // every place of the line, in order
    std::vector<std::pair<int, letter const*>> all;
    for (auto const& s : c.t_.S) {
      for (auto const& el : s.els_) {
        for (auto const& [ch, l] : LETTERS) {
          if (el.tag_ == l.tag_ && el.extra_ == (el.tag_.starts_with("Geschw") ? spl_xml(l.kmh_, 0, l.signal_, l.effect_) : std::string{}) && el.tag_.back() == 'S' && limits(&l)) all.emplace_back(el.km_, &l);
        }
      }
    }
    auto const start = metres_of(c.t_, way.front().at_, true);
    // round a ring what comes last is what was passed before
    if (c.t_.e(c.t_.S.front().ea_).other_ >= 0 && !all.empty()) current = all.back().second->kmh_ / 3.6;
    for (auto const& [km, l] : all) {
      if (km < start) current = l->kmh_ / 3.6;
      if (km == start) unclear = true;
    }
    (void)s0;
  }
  if (unclear) return;
  // changes of the limit
  std::map<double, double> change;
  change[0.0] = current;
  double signal = 0;
  auto const limit_at = [&](double d) { return std::prev(change.upper_bound(d))->second; };
  std::vector<std::pair<double, std::size_t>> marks;
  std::size_t np = 0;
  std::vector<border> want;
  std::vector<std::pair<inf::node::ptr, double>> events;
  inf::type_set wanted{inf::type::APPROACH_SIGNAL};
  if (types == 0) wanted = inf::type_set{inf::type::MAIN_SIGNAL, inf::type::HALT};
  if (types == 1) wanted = inf::type_set{inf::type::MAIN_SIGNAL, inf::type::HALT, inf::type::APPROACH_SIGNAL, inf::type::SPEED_LIMIT, inf::type::TUNNEL};
  double signal_since = 0;  // HERE limits set after the last signal
  bool same_value = false;
  for (auto const& x : way) {
    auto const& s = c.srs_[static_cast<std::size_t>(x.sr_)];
    auto const node = s.real_->nodes(static_cast<inf::node::idx>(x.idx_));
    bool const stop = np < at.size() && at[np].first == x.sr_ && at[np].second == x.idx_;
    bool const omitted = s.omitted_.contains(x.idx_) || (node->is(inf::type::HALT) && !stop);
    if (stop) ++np;
    if (omitted) continue;
    std::vector<std::tuple<double, bool>> spls;  // limit, from the last signal
    auto const* l = x.place_ ? letter_of(c.t_, x.at_) : nullptr;
    if (l != nullptr && node->is(inf::type::SPEED_LIMIT) && limits(l)) spls.emplace_back(l->kmh_ / 3.6, l->signal_);
    for (auto const& sp : s.r_.spls_) {
      if (x.place_ && x.at_.track_ && rp_id(c.t_, x.at_) == sp.node_ && sp.effect_ != 2 && sp.kmh_ > 0) {
        // takes the place of the general one
        std::erase_if(spls, [&](auto const& y) { return std::get<1>(y) == sp.signal_; });
        spls.emplace_back(sp.kmh_ / 3.6, sp.signal_);
      }
    }
    bool here = false;
    for (auto const& [v, sig] : spls) {
      if (!sig) continue;
      if (same_value) unclear = true;
      change[signal] = v;
    }
    for (auto const& [v, sig] : spls) {
      if (sig) continue;
      here = true;
      if (limit_at(x.dist_) == v) same_value = true;
      change[x.dist_] = v;
    }
    if (node->is(inf::type::MAIN_SIGNAL)) signal = x.dist_, same_value = false;
    if (wanted.contains(node->type())) events.emplace_back(node, x.dist_);
    bool const halt = stop && node->is(inf::type::HALT);
    if (node->is(inf::type::MAIN_SIGNAL) || node->is(inf::type::HALT) || here) {
      if (!want.empty() && want.back().at_ == x.dist_) {
        want.back().events_.insert(want.back().events_.end(), events.begin(), events.end());
        if (halt) want.back().halt_ = true, want.back().point_ = np - 1;
      } else {
        want.push_back({x.dist_, 0, 0, halt, halt ? np - 1 : 0, events});
      }
      events.clear();
    }
  }
  (void)signal_since;
  if (unclear) return;
  for (std::size_t k = 0; k < want.size(); ++k) {
    want[k].right_ = limit_at(want[k].at_);
    if (k > 0) want[k].left_ = limit_at(want[k - 1].at_);
  }
  // a stop too close to the border before it cannot be modelled
  auto const top = std::min(e.kmh_ / 3.6, 300 / 3.6);

  auto const list = rt::get_interval_list(t, wanted, infra);
  mc::step();
  mc::require(list.size() == want.size(), "number of intervals", list.size(), " want ", want.size(), " ", how());
  for (std::size_t k = 0; k < want.size(); ++k) {
    auto const& g = list[static_cast<unsigned>(k)];
    auto const& w = want[k];
    mc::require(std::abs(si::as_m(g.distance_) - w.at_) < 1e-6, "border of an interval", k, ": ", si::as_m(g.distance_), " want ", w.at_, " ", how());
    mc::require(g.is_halt() == w.halt_, "halt at the border of an interval", k, " ", how());
    if (w.halt_) mc::require(*g.sequence_point_ == &t.sequence_points_[static_cast<unsigned>(w.point_)], "stop at the border of an interval", k, " ", how());
    mc::require(g.events_.size() == w.events_.size(), "events of an interval", k, ": ", g.events_.size(), " want ", w.events_.size(), " ", how());
    for (std::size_t i = 0; i < w.events_.size(); ++i) {
      mc::require(g.events_[i].node_ == w.events_[i].first && std::abs(si::as_m(g.events_[i].distance_) - w.events_[i].second) < 1e-6, "event of an interval", k, " ", how());
    }
    if (k == 0) continue;
    auto const len = w.at_ - want[k - 1].at_;
    auto const left = g.limit_left_.val_, right = g.limit_right_.val_;
    auto const target = w.halt_ ? 0.0 : std::min(right, top);
    mc::require(left <= w.left_ + 1e-6, "limit in an interval", k, ": ", left * 3.6, " want at most ", w.left_ * 3.6, " ", how());
    mc::require(right <= w.right_ + 1e-6, "limit after an interval", k, ": ", right * 3.6, " want at most ", w.right_ * 3.6, " ", how());
    auto const v = std::min(left, top);
    auto const room = [&](double x) { return x <= target || (x * x - target * target) / (2 * e.dec_) <= len + 1e-6; };
    mc::require(room(v), "too fast to brake within an interval", k, ": ", v, " to ", target, " in ", len, " ", how());
    mc::require(left > 0, "no speed in an interval", k, " ", how());
    // no slower than needed
    if (left < w.left_ - 1e-6) mc::require(!room(std::min(v + 1.0 + 1e-6, std::min(w.left_, top))), "slower than needed in an interval", k, ": ", left, " for ", w.left_, " ", how());
    if (right < w.right_ - 1e-6 && k + 1 < want.size()) mc::require(std::abs(right - list[static_cast<unsigned>(k + 1)].limit_left_.val_) < 1e-6, "slower than needed after an interval", k, " ", how());
    if (k + 1 == want.size()) mc::require(std::abs(right - w.right_) < 1e-6, "limit at the end", right, " want ", w.right_, " ", how());
  }

  // running times
  auto const ts = rt::runtime_calculation(t, infra, wanted);
  std::vector<std::pair<inf::node::ptr, double>> flat;
  for (auto const& w : want) flat.insert(flat.end(), w.events_.begin(), w.events_.end());
  mc::require(ts.times_.size() == flat.size(), "number of time stamps", ts.times_.size(), " want ", flat.size(), " ", how());
  std::vector<soro::size_t> halts;
  for (std::size_t k = 0; k < flat.size(); ++k) {
    mc::require(ts.times_[static_cast<unsigned>(k)].element_ == flat[k].first->element_, "element of a time stamp", k, " ", how());
    if (flat[k].first->is(inf::type::HALT)) halts.push_back(static_cast<soro::size_t>(k));
  }
  mc::require(std::equal(halts.begin(), halts.end(), ts.halt_indices_.begin(), ts.halt_indices_.end()), "indices of the halts", how());
  double v = 0, clock = 36000;
  std::size_t n = 0;
  double tol = 1.5;
  for (std::size_t k = 0; k < want.size(); ++k) {
    auto const& w = want[k];
    auto const& g = list[static_cast<unsigned>(k)];
    motion m;
    double base = clock;
    if (k > 0) {
      auto const limit = std::min(g.limit_left_.val_, top);
      auto const exit = w.halt_ ? 0.0 : std::min(g.limit_right_.val_, top);
      m = run(v, limit, exit, w.at_ - want[k - 1].at_, e.force_, 1000.0, e.drag_, e.tons_ * 1000, e.dec_);
      v = m.v_;
      clock += m.t_;
      tol += 2.0 + 0.03 * m.t_;
    }
    auto const arrives = clock;
    if (w.halt_ && k > 0) {
      auto const& p = t.sequence_points_[static_cast<unsigned>(w.point_)];
      clock = std::max(clock + p.min_stop_time_.count(), static_cast<double>(p.departure_.count()));
      v = 0;
    }
    for (auto const& [node, d] : w.events_) {
      auto const& got = ts.times_[static_cast<unsigned>(n)];
      auto const arr = static_cast<double>(got.arrival_.count()), dep = static_cast<double>(got.departure_.count());
      bool const at_border = d == w.at_;
      if (k == 0) {
        mc::require(dep == 36000.0, "departure at the start", dep, " ", how());
      } else {
        auto const ideal = at_border ? arrives : base + time_at(m, d - want[k - 1].at_);
        auto const off = std::abs(arr - ideal);
        worst = std::max(worst, off / tol);
        mc::require(off <= tol, "time of arrival", flat[n].first->id_, " at ", d, " m: ", arr, " want about ", ideal, " +- ", tol, " ", how());
        if (w.halt_ && at_border) {
          auto const& p = t.sequence_points_[static_cast<unsigned>(w.point_)];
          auto const earliest = std::max(arr + p.min_stop_time_.count(), static_cast<double>(p.departure_.count()));
          mc::require(dep == earliest, "departure from a halt", dep, " want ", earliest, " ", how());
        } else {
          mc::require(dep == arr, "departure where there is no halt", dep, " arrival ", arr, " ", how());
        }
        if (n > 0 && flat[n].second > flat[n - 1].second) mc::require(arr >= static_cast<double>(ts.times_[static_cast<unsigned>(n - 1)].departure_.count()), "time runs backwards", n, " ", how());
      }
      ++n;
    }
    if (w.halt_) {
      // what comes next is measured from the real departure
      if (k > 0 && clock > arrives + tol) tol = 1.5;
    }
  }
  mc::state(mc::str(want.size(), "|", flat.size(), "|", path.size()));
}

void explore(std::vector<std::string> const& ps, int gap, int extra, bool ring = false) {
  route_case c;
  c.t_ = line(ps, gap, ring);
  model const m(c.t_);
  for (auto const& w : walks(m, c.t_, true)) {
    if (w.at_.front().track_ || w.at_.back().track_ || !rising(c.t_, w)) continue;
    c.add(w);
    // a second way through the middle station with limits of its own
    if (extra > 0 && w.station_ == 1) {
      std::vector<long> track;
      for (auto const& a : w.at_) {
        if (a.track_ && !tag_of(c.t_, a).starts_with("Halt")) track.push_back(rp_id(c.t_, a));
      }
      if (track.empty()) continue;
      c.srs_.back().r_.spls_.push_back({extra & 2 ? track.back() : track.front(), extra & 4 ? 90 : 50, 0, (extra & 1) != 0, 0});
    }
  }
  give_halts(c);
  load_opts o;
  o.interlocking_ = true;
  auto const dir = c.write_iss();
  auto const infra = load(dir, o);
  resolve(c, *infra);
  auto const irs = real_routes(c, *infra);
  each_stop_sequence(c, ring ? 3 : 4, true, [&](std::vector<mstop> const& stops, bool freight) {
    for (auto const& s : stops) {
      if (s.k_ == PASS_TIMED) return;
    }
    for (std::size_t e = 0; e < ENGINES.size(); ++e) {
      if ((ENGINES[e].kmh_ < 100) != freight) continue;
      for (int timing = 0; timing < 3; ++timing) {
        for (int types = 0; types < (timing == 1 ? 3 : 1); ++types) check(c, infra, irs, stops, ENGINES[e], timing, types);
      }
    }
  });
  mc::trace();
}

bool near(double a, double b, double tol) { return std::abs(a - b) <= tol; }

void phases() {
  mc::group("single phases");
  std::vector<double> const speeds = {0, 0.2, 1, 5, 13.9, 27.8, 44.4, 83.3};
  for (auto dec : {0.3, 0.7, 1.2}) {
    for (auto v0 : speeds) {
      for (auto v1 : speeds) {
        mc::run([&] { return mc::str("brake ", v0, " to ", v1, " at ", dec); }, [&] {
          if (v1 >= v0) return;
          auto const r = soro::brake(physics(false, 300, 200000, -dec), si::from_m_s(v0), si::from_m_s(v1));
          mc::step();
          mc::require(near(si::as_m(r.back().distance_), (v0 * v0 - v1 * v1) / (2 * dec), 1e-6), "braking distance", si::as_m(r.back().distance_));
          mc::require(r.back().speed_.val_ == v1 && r.front().speed_.val_ == v0, "speeds of braking", "");
          mc::require(r.front().time_.val_ == 0 && r.front().distance_.val_ == 0, "start of braking", "");
          mc::require(r.back().time_.val_ >= (v0 - v1) / dec - 1e-9 && r.back().time_.val_ < (v0 - v1) / dec + 0.51, "time of braking", r.back().time_.val_);
          for (std::size_t k = 1; k < r.size(); ++k) mc::require(r[k].time_ > r[k - 1].time_ && r[k].speed_.val_ <= r[k - 1].speed_.val_ + 1e-6, "order of braking", k);
        });
      }
    }
  }
  for (auto v : speeds) {
    for (double d : {0.5, 7.0, 100.0, 2500.0}) {
      mc::run([&] { return mc::str("coast ", v, " for ", d); }, [&] {
        if (v == 0) return;
        auto const r = soro::coast(si::from_m_s(v), si::from_m(d));
        mc::step();
        mc::require(near(si::as_m(r.back().distance_), d, 1e-9) && r.back().speed_.val_ == v, "end of coasting", si::as_m(r.back().distance_));
        mc::require(r.back().time_.val_ >= d / v - 1e-6 && r.back().time_.val_ < d / v + 0.51, "time of coasting", r.back().time_.val_, " want ", d / v);
        for (std::size_t k = 1; k < r.size(); ++k) mc::require(r[k].time_ > r[k - 1].time_ && r[k].distance_ >= r[k - 1].distance_, "order of coasting", k);
      });
    }
  }
  for (auto const& e : ENGINES) {
    for (auto v0 : speeds) {
      for (auto v1 : speeds) {
        for (double d : {30.0, 500.0, 4000.0}) {
          mc::run([&] { return mc::str("accelerate ", v0, " to ", v1, " within ", d, " engine ", e.kmh_); }, [&] {
            if (v1 <= v0) return;
            auto const p = physics(false, e.kmh_, e.force_, -e.dec_, e.tons_, e.drag_);
            auto const r = soro::accelerate(p, si::from_m_s(v0), si::from_m_s(v1), si::from_m(d));
            mc::step();
            mc::require(r.front().speed_.val_ == v0 && r.front().time_.val_ == 0 && r.front().distance_.val_ == 0, "start of acceleration", "");
            auto const top = std::min(v1, e.kmh_ / 3.6);
            double v = v0, x = 0, t = 0;
            double const dt = 0.01;
            std::size_t k = 1;
            while (k < r.size()) {
              auto const a = (e.force_ - 1000.0 - e.drag_ * v * v) / (e.tons_ * 1000 * 1.06);
              x += v * dt + a * dt * dt / 2;
              v += a * dt;
              t += dt;
              if (std::abs(t - r[k].time_.val_) < dt / 2) {
                mc::require(near(r[k].speed_.val_, v, 0.02 + 0.01 * t * 0.1), "speed while accelerating", k, ": ", r[k].speed_.val_, " want ", v);
                if (k + 1 < r.size()) mc::require(near(si::as_m(r[k].distance_), x, 0.5 + 0.01 * x), "distance while accelerating", k, ": ", si::as_m(r[k].distance_), " want ", x);
                ++k;
              }
            }
            mc::require(si::as_m(r.back().distance_) <= d + 1e-6, "accelerating further than allowed", si::as_m(r.back().distance_));
            auto const amax = (e.force_) / (e.tons_ * 1000);
            // it ends because the speed or the distance is reached
            mc::require(r.back().speed_.val_ >= top - 1e-9 || v0 >= top || si::as_m(r.back().distance_) >= d - 1e-6 || (r.size() == 1 && v0 * 0.5 + amax * 0.125 >= d * 0.99), "acceleration ends early", si::as_m(r.back().distance_), " at ", r.back().speed_.val_);
            mc::require(r.back().speed_.val_ <= top + amax * 0.5 + 1e-9 || r.size() == 1, "accelerating too far", r.back().speed_.val_, " for ", top);
          });
        }
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::bound("lines", mc::str("three stations; all middle stations of up to ", mc::tier(3, 4), " places from ten kinds, first and last stations from four each; places 40, 300 and 2500 m apart; three engines; three ways of timing"));
  phases();
  mc::group("lines");
  std::string const kinds = mc::thorough() ? "ShVWLKANZURB" : "ShVWLKAN";
  std::vector<std::string> const mids = [&] {
    std::vector<std::string> r;
    auto const n = static_cast<int>(kinds.size());
    mc::sequences(n, 0, 3, [&](std::vector<int> const& v) {
      std::string s;
      for (auto i : v) s += kinds[static_cast<std::size_t>(i)];
      r.push_back(s);
    });
    return r;
  }();
  std::vector<std::string> const firsts = {"hS", "VhSL", "ShK"}, lasts = {"Sh", "SVLh"};
  for (auto const& mid : mids) {
    for (auto const& f : firsts) {
      for (auto const& l : lasts) {
        for (int gap : {40, 300, 2500}) {
          if (!mc::thorough() && mid.size() == 3 && (f != "hS" || l != "Sh") && gap != 300) continue;
          mc::run([&] { return mc::str(f, " ", mid, " ", l, " every ", gap); }, [&] { explore({f, mid, l}, gap, 0); });
        }
      }
    }
  }
  mc::group("shared places");
  for (auto const* mid : {"(hS)", "(SV)", "(VS)K", "(hS)VL", "(SV)hL", "(SA)hL", "(VS)hL", "(hV)S", "h(SVA)SL", "(ShV)WhL", "S(hV)L", "(hS)hK", "(SW)WL"}) {
    for (auto const& f : firsts) {
      for (auto const& l : lasts) {
        for (int gap : {40, 300, 2500}) mc::run([&] { return mc::str(f, " ", mid, " ", l, " every ", gap); }, [&] { explore({f, mid, l}, gap, 0); });
      }
    }
  }
  mc::group("limits of station routes");
  for (auto const* mid : {"S", "A", "hS", "Sh", "V", "VS", "SA", "SAV", "AVSL", "KS", "SVA"}) {
    for (auto const& f : firsts) {
      for (auto const& l : lasts) {
        for (int gap : {40, 300, 2500}) {
          for (int x = 1; x < 8; ++x) mc::run([&] { return mc::str(f, " ", mid, " ", l, " every ", gap, " extra ", x); }, [&] { explore({f, mid, l}, gap, x + 8); });
        }
      }
    }
  }
  mc::group("rings");
  for (auto const* a : {"hS", "ShS", "S", "VhS", "hKS", "ShV"}) {
    for (auto const* b : {"hS", "ShN", "L", "-", "V", "ZA"}) {
      for (auto const* d : {"Sh", "hU", "R", "WSh", "SAL"}) {
        for (int gap : {40, 300, 2500}) mc::run([&] { return mc::str("ring ", a, " ", b, " ", d, " every ", gap); }, [&] { explore({a, std::string(b) == "-" ? "" : b, d}, gap, 0, true); });
      }
    }
  }
  mc::counter("worst per cent of the tolerance", static_cast<long>(worst * 100));
  return mc::finish();
}
