#pragma once
// Trains over interlocking routes: the ways a train can be told to run, and
// which interlocking routes it then has to take.
#include "irs.h"

#include "soro/timetable/stop_sequence.h"
#include "soro/timetable/train.h"

namespace iss {

enum stop_kind { PASS, PASS_TIMED, STOP };

struct mstop {
  int sr_;
  stop_kind k_;
};

// gives every station route of a case its halts and its checkpoint
inline void give_halts(route_case& c) {
  for (auto& s : c.srs_) {
    s.r_.passenger_ = s.r_.freight_ = s.r_.checkpoint_ = 0;
    for (auto const& a : s.w_.at_) {
      if (!a.track_) continue;
      auto const tag = tag_of(c.t_, a);
      if (tag.starts_with("Halt")) {
        if (s.r_.passenger_ == 0) s.r_.passenger_ = rp_id(c.t_, a);
        s.r_.freight_ = rp_id(c.t_, a);
      }
      if (tag == "Fahrzeitmesspunkt") s.r_.checkpoint_ = rp_id(c.t_, a);
    }
  }
}
inline int checkpoint(route_case const& c, msr const& s) {
  for (std::size_t i = 0; i < s.w_.at_.size(); ++i) {
    if (s.r_.checkpoint_ != 0 && s.w_.at_[i].track_ && rp_id(c.t_, s.w_.at_[i]) == s.r_.checkpoint_) return s.pos_[i];
  }
  return -1;
}
inline int stop_node(route_case const& c, mstop const& s, bool freight) {
  auto const& r = c.srs_[static_cast<std::size_t>(s.sr_)];
  if (s.k_ == STOP) return freight ? r.fh_ : r.ph_;
  if (s.k_ == PASS_TIMED) return checkpoint(c, r);
  return -1;
}

inline std::vector<mir> real_routes(route_case const& c, inf::infrastructure_t const& i) {
  std::map<inf::station_route::id, int> by_id;
  for (std::size_t k = 0; k < c.srs_.size(); ++k) by_id[c.srs_[k].real_->id_] = static_cast<int>(k);
  std::vector<mir> r;
  for (auto const& x : i.interlocking_.routes_) {
    mir m;
    for (auto s : x.station_routes_) m.srs_.push_back(by_id.at(s));
    m.from_ = x.start_offset_;
    m.to_ = x.end_offset_;
    r.push_back(m);
  }
  return r;
}

// a station route that begins or ends at a signal has a route of one node there
inline bool degenerate(mir const& m) { return m.srs_.size() == 1 && m.to_ - m.from_ < 2; }

// Every sequence of interlocking routes that runs along the given station
// routes, from the one the first stop lies on to the one the last stop lies on.
inline std::vector<std::vector<int>> tilings(route_case const& c, std::vector<mir> const& irs, std::vector<int> const& chain, int first, int last, bool joins = false,
                                              bool breaks_in = false) {
  auto const n = static_cast<int>(chain.size());
  auto const node = [&](int sr, int idx) { return c.srs_[static_cast<std::size_t>(sr)].real_->nodes(static_cast<inf::node::idx>(idx)); };
  std::vector<std::vector<int>> r;
  std::vector<int> cur;
  // the station routes of m match the chain when its first one is number o
  auto const fits = [&](mir const& m, int o) {
    bool any = false;
    for (std::size_t j = 0; j < m.srs_.size(); ++j) {
      auto const k = o + static_cast<int>(j);
      if (k < 0 || k >= n) continue;
      if (m.srs_[j] != chain[static_cast<std::size_t>(k)]) return false;
      any = true;
    }
    return any;
  };
  auto const has = [&](mir const& m, int o, int k, int idx) {
    auto const j = k - o;
    if (j < 0 || j >= static_cast<int>(m.srs_.size())) return false;
    return from_of(m, static_cast<std::size_t>(j)) <= idx && idx < to_of(c, m, static_cast<std::size_t>(j));
  };
  auto const go = [&](auto const& self, int ir, int o) -> void {
    cur.push_back(ir);
    auto const& m = irs[static_cast<std::size_t>(ir)];
    if (has(m, o, n - 1, last) && (n > 1 || last >= first)) {
      r.push_back(cur);
    } else {
      auto const k = o + static_cast<int>(m.srs_.size()) - 1;
      if (k < n) {
        for (std::size_t x = 0; x < irs.size(); ++x) {
          auto const& y = irs[x];
          if (degenerate(y)) continue;
          if (y.srs_.front() == m.srs_.back() && y.from_ == m.to_ - 1 && fits(y, k)) self(self, static_cast<int>(x), k);
          // within a station a route may begin where another one ends
          if (joins && k + 1 < n && y.from_ == 0 && m.to_ == c.srs_[static_cast<std::size_t>(m.srs_.back())].size_ && node(y.srs_.front(), 0) == node(m.srs_.back(), m.to_ - 1) && fits(y, k + 1)) {
            self(self, static_cast<int>(x), k + 1);
          }
        }
      }
    }
    cur.pop_back();
  };
  for (std::size_t x = 0; x < irs.size(); ++x) {
    auto const& m = irs[x];
    if (degenerate(m)) continue;
    for (int o = 1 - static_cast<int>(m.srs_.size()); o <= 0; ++o) {
      // a train that breaks in does so where its first route begins
      if (breaks_in && (o != 0 || m.from_ != 0)) continue;
      if (fits(m, o) && has(m, o, 0, first)) go(go, static_cast<int>(x), o);
    }
  }
  return r;
}

inline std::string show_stops(std::vector<mstop> const& v) {
  std::string s;
  for (auto const& x : v) s += mc::str("r", x.sr_, x.k_ == STOP ? "! " : x.k_ == PASS_TIMED ? "t " : " ");
  return s;
}

// Every way of stopping and passing along the chains of up to len station routes.
// linked: only chains a train can run; otherwise any sequence of station routes.
// in, out: the train breaks in at the beginning of the first station route, out at
// the end of the last one, and need not stop there.
template <typename Fn>
void each_stop_sequence(route_case const& c, int len, bool linked, Fn&& fn, bool in = false, bool out = false) {
  auto const succ = station_graph(c).succ_;
  std::vector<mstop> cur;
  for (int freight = 0; freight < 2; ++freight) {
    auto const go = [&](auto const& self, int sr) -> void {
      for (auto k : {PASS, PASS_TIMED, STOP}) {
        mstop const s{sr, k};
        if (cur.empty() && k != STOP && !in) continue;
        if (k != PASS && stop_node(c, s, freight) < 0) continue;
        cur.push_back(s);
        if ((k == STOP || out) && (cur.size() > 1 || in || out)) fn(cur, freight == 1);
        if (static_cast<int>(cur.size()) < len) {
          if (linked) {
            for (auto const n : succ[static_cast<std::size_t>(sr)]) self(self, n);
          } else {
            for (int n = 0; n < static_cast<int>(c.srs_.size()); ++n) self(self, n);
          }
        }
        cur.pop_back();
      }
    };
    for (int a = 0; a < static_cast<int>(c.srs_.size()); ++a) go(go, a);
  }
}

inline soro::tt::sequence_point make_point(route_case const& c, mstop const& s, unsigned arrival, unsigned departure, unsigned min_stop) {
  soro::tt::sequence_point p;
  p.station_route_ = c.srs_[static_cast<std::size_t>(s.sr_)].real_->id_;
  p.min_stop_time_ = soro::duration2::zero();
  if (s.k_ == PASS) return p;
  if (s.k_ == STOP) {
    p.type_ = soro::tt::sequence_point::type::PASSENGER;
    p.arrival_ = soro::seconds{arrival};
    p.min_stop_time_ = soro::seconds{min_stop};
  }
  p.departure_ = soro::seconds{departure};
  return p;
}

// a traction unit with constant tractive force and simple resistance
inline soro::rs::traction_vehicle vehicle(double max_kmh, double force, double deacceleration, double drag = 0.0) {
  namespace rs = soro::rs;
  rs::tractive_piece_t const piece{.piece_ = soro::utls::make_polynomial(rs::tractive_force_3_t{0.0}, rs::tractive_force_2_t{0.0}, rs::tractive_force_1_t{force}),
                                   .from_ = soro::si::from_km_h(0.0),
                                   .to_ = soro::si::from_km_h(400.0)};
  rs::traction_vehicle v{.name_ = "T", .weight_ = soro::si::from_ton(80.0), .max_speed_ = soro::si::from_km_h(max_kmh), .deacceleration_ = soro::si::from_m_s2(deacceleration)};
  v.tractive_curve_ = soro::utls::make_piecewise(soro::vector<rs::tractive_piece_t>{piece});
  v.resistance_curve_ = soro::utls::make_polynomial(rs::drag_coefficient_t{drag}, rs::dampening_resistance_t{0.0}, rs::rolling_resistance_t{1000.0});
  return v;
}
inline soro::rs::train_physics physics(bool freight, double max_kmh = 120.0, double force = 200000.0, double deacceleration = -0.7, double tons = 200.0, double drag = 0.0) {
  return soro::rs::train_physics({vehicle(max_kmh, force, deacceleration, drag)}, soro::si::from_ton(tons), soro::si::from_m(100.0), soro::si::from_km_h(300.0), soro::rs::CTC::NO,
                                 freight ? soro::rs::FreightTrain::YES : soro::rs::FreightTrain::NO);
}

inline std::string core_defaults(int kmh) {
  return mc::str("<Standardwerte><Streckenklasse>D4</Streckenklasse><Fahrstrassenbildezeit>3</Fahrstrassenbildezeit><BremswegArt>700</BremswegArt><ZulaessigeOrtsfesteGeschwindigkeit>", kmh,
                 "</ZulaessigeOrtsfesteGeschwindigkeit></Standardwerte>");
}

// whether the kilometrage grows along a walk
inline int metres_of(topo const& t, at const& a, bool leaving) {
  if (a.track_) return t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].km_;
  return port_metres(t, a.el_, leaving || a.port_ < 0 ? exit_port(t, a, false) : a.port_);
}
inline bool rising(topo const& t, walk const& w) { return metres_of(t, w.at_.front(), true) < metres_of(t, w.at_.back(), false); }

// rows of stations with halts and checkpoints
inline void each_train_world(route_use const& fn) {
  mc::group("rows of stations");
  auto const world = [&](std::vector<std::string> const& ps, bool up, bool open, int twice, bool to_halts) {
    route_case c;
    c.t_ = row(ps, up, open, false);
    model const m(c.t_);
    for (auto const& w : walks(m, c.t_, !to_halts)) {
      auto const end = [&](at const& a) { return !a.track_ || tag_of(c.t_, a).starts_with("Halt"); };
      if (!end(w.at_.front()) || !end(w.at_.back())) continue;
      // the halts stand in this direction
      if (rising(c.t_, w) != up) continue;
      c.add(w);
      // a second way through the station
      auto const sig = signal_ids(c.t_, w);
      if (twice == w.station_ + 1 && !sig.empty()) c.add(w, {sig.front()});
    }
    give_halts(c);
    fn(mc::str(to_halts ? "halts " : "row ", mc::seqs(ps), up ? " up" : " down", open ? " open" : "", twice ? mc::str(" twice ", twice) : ""), c);
  };
  std::vector<std::string> const pats = mc::thorough() ? std::vector<std::string>{"hS", "Sh", "h", "S", "ShS", "MS", "hSMSh"} : std::vector<std::string>{"hS", "Sh", "h", "ShS", "MS"};
  auto const n = static_cast<int>(pats.size());
  auto const p = [&](int i) { return pats[static_cast<std::size_t>(i)]; };
  mc::bound("rows", mc::str("3 stations from ", n, " layouts, 4 from 4, with one or two station routes each"));
  mc::odometer({n, n, n, 2, 2, 4}, [&](std::vector<int> const& v) { world({p(v[0]), p(v[1]), p(v[2])}, v[3] == 1, v[4] == 1, v[5], false); });
  mc::group("longer rows of stations");
  std::vector<std::string> const four = {"hS", "h", "Sh", "MS"};
  auto const f = [&](int i) { return four[static_cast<std::size_t>(i)]; };
  mc::odometer({4, 4, 4, 4, 2, 5}, [&](std::vector<int> const& v) { world({f(v[0]), f(v[1]), f(v[2]), f(v[3])}, v[4] == 1, v[4] == 0, v[5], false); });
  // station routes that end and begin at halts
  mc::group("parts of stations");
  mc::odometer({n, n, 2}, [&](std::vector<int> const& v) { world({p(v[0]), p(v[1])}, v[2] == 1, false, 0, true); });
}

}  // namespace iss
