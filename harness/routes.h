#pragma once
// Station routes over a topology: every walk through a station as a station
// route, and what the geometry says about it.
#include "topologies.h"

namespace iss {

struct walk {
  int station_{0};
  std::vector<at> at_;  // places, first to last
  std::vector<bool> div_;  // diverging when leaving at_[i]
  std::string course_;
};

inline long rp_id(topo const& t, at const& a) {
  return a.track_ ? t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].id_ : t.e(a.el_).ids_[std::max(0, a.port_)];
}
inline int exit_port(topo const& t, at const& a, bool div) {
  auto const& x = t.e(a.el_);
  static int const straight[] = {1, 0, 3, 2};
  static int const diverging[] = {3, 2, 1, 0};
  switch (x.k_) {
    case BUMPER:
    case TRACK_END:
    case BORDER: return 0;
    case KM_JUMP:
    case LINE_SWITCH: return 1 - a.port_;
    case SWITCH_L:
    case SWITCH_R: return a.port_ == 0 ? (div ? 2 : 1) : 0;
    default: return div ? diverging[a.port_] : straight[a.port_];
  }
}
inline int port_metres(topo const& t, int e, int p) {
  auto const& x = t.e(e);
  auto const& s = t.s(x.psec_[p]);
  return x.pstart_[p] ? s.kma_ : s.kmb_;
}
// metres between a place and the next one
inline int gap(topo const& t, at const& a, bool div, at const& b) {
  auto const from = a.track_ ? t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].km_ : port_metres(t, a.el_, exit_port(t, a, div));
  auto const to = b.track_ ? t.s(b.sec_).els_[static_cast<std::size_t>(b.idx_)].km_ : port_metres(t, b.el_, b.port_);
  return std::abs(to - from);
}
inline bool takes_course(topo const& t, at const& a) {
  if (a.track_) return false;
  auto const& x = t.e(a.el_);
  return x.k_ == SWITCH_L || x.k_ == SWITCH_R || (x.k_ == CROSS_SWITCH && (x.arc0_ || x.arc1_));
}
inline int station_of(topo const& t, at const& a) {
  if (!a.track_) return t.e(a.el_).station_;
  for (std::size_t k = 0; k < t.T.size(); ++k) {
    for (auto s : t.T[k].secs_) {
      if (s == a.sec_) return static_cast<int>(k);
    }
  }
  return -1;
}
inline bool directed(topo const& t, at const& a) { return a.track_ && !undirected_tag(t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].tag_); }
inline std::string const& tag_of(topo const& t, at const& a) { return t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].tag_; }
inline bool is_ms(topo const& t, at const& a) { return a.track_ && tag_of(t, a).starts_with("Hauptsignal"); }
inline bool is_end_kind(topo const& t, at const& a) {
  return !a.track_ && (t.e(a.el_).k_ == BUMPER || t.e(a.el_).k_ == TRACK_END || t.e(a.el_).k_ == BORDER);
}
inline bool can_start(topo const& t, at const& a) { return directed(t, a) || (is_end_kind(t, a) && a.port_ == -1); }
inline bool can_end(topo const& t, at const& a) { return directed(t, a) || (is_end_kind(t, a) && a.port_ == 0); }

// every walk within a station
inline std::vector<walk> walks(model const& m, topo const& t, bool borders_only = false) {
  std::vector<walk> r;
  for (auto const& s : m.all()) {
    if (!can_start(t, s) || (borders_only && s.track_)) continue;
    walk w;
    w.station_ = station_of(t, s);
    std::set<at> seen;
    auto const go = [&](auto const& self, at const& a) -> void {
      auto const key = m.canon(a);
      if (seen.contains(key)) return;
      seen.insert(key);
      w.at_.push_back(a);
      if (w.at_.size() > 1 && can_end(t, a) && !(borders_only && a.track_)) r.push_back(w);
      if (!(is_end_kind(t, a) && a.port_ == 0)) {
        auto const [main, div] = m.next(a);
        auto const sz = w.course_.size();
        for (int d = 0; d < 2; ++d) {
          auto const& n = d ? div : main;
          if (n.none()) continue;
          // without a branch the entry is there but not looked at
          if (takes_course(t, a)) w.course_ += !div.none() ? (d ? 'B' : 'S') : (w.at_.size() % 2 ? 'S' : 'B');
          w.div_.push_back(d == 1);
          self(self, n);
          w.div_.pop_back();
          w.course_.resize(sz);
        }
      }
      w.at_.pop_back();
      seen.erase(key);
    };
    go(go, s);
  }
  return r;
}
inline int walk_metres(topo const& t, walk const& w) {
  int n = 0;
  for (std::size_t i = 0; i + 1 < w.at_.size(); ++i) n += gap(t, w.at_[i], w.div_[i], w.at_[i + 1]);
  return n;
}

}  // namespace iss
