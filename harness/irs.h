#pragma once
// Interlocking routes over station routes: the model, and loading a topology
// with its routes into the real infrastructure.
#include "routes.h"

#include "soro/infrastructure/interlocking/interlocking_route.h"

namespace iss {

struct msr {  // a station route of the model
  walk w_;
  rte r_;
  // filled from the loaded infrastructure
  inf::station_route const* real_{nullptr};
  int size_{0};
  std::vector<int> pos_;  // walk position -> node index
  std::vector<int> ms_;  // node indices of signals in force
  std::set<int> omitted_;
  int ph_{-1}, fh_{-1};
  bool etcs_{false};  // needs ETCS
};
struct mir {  // an interlocking route: station routes (by model index) and node range
  std::vector<int> srs_;
  int from_{0}, to_{0};
  auto operator<=>(mir const&) const = default;
};

struct segment_spec {
  int from_, to_;  // metres
  bool signalling_;
};

struct route_case {
  topo t_;
  std::vector<msr> srs_;
  std::map<int, std::vector<segment_spec>> lines_;

  void add(walk const& w, std::vector<long> omitted = {}) {
    msr s;
    s.w_ = w;
    s.r_.name_ = "r" + std::to_string(srs_.size());
    s.r_.from_ = rp_id(t_, w.at_.front());
    s.r_.to_ = rp_id(t_, w.at_.back());
    s.r_.course_ = w.course_;
    s.r_.omitted_ = std::move(omitted);
    srs_.push_back(std::move(s));
  }
  fs::path write_iss(int files = 1, std::string const& name = "iss") {
    auto t = t_;
    for (auto& s : srs_) t.T[static_cast<std::size_t>(s.w_.station_)].routes_.push_back(s.r_);
    for (auto const& [id, segs] : lines_) {
      t.lines_ += "<Strecke><Nr>" + std::to_string(id) + "</Nr><Streckenabschnitte>";
      for (auto const& s : segs) {
        t.lines_ += "<Streckenabschnitt><KilometrierungVon>" + km(s.from_) + "</KilometrierungVon><KilometrierungBis>" + km(s.to_) + "</KilometrierungBis><Art Schluessel=\"" +
                    (s.signalling_ ? "1" : "13") + "\"/></Streckenabschnitt>";
      }
      t.lines_ += "</Streckenabschnitte></Strecke>";
    }
    return write(t, name, files);
  }
};

inline bool line_signalling(std::vector<segment_spec> const& v, int metres) {
  bool r = v.front().signalling_;
  for (auto const& s : v) {
    if (s.from_ <= metres) r = s.signalling_;
  }
  return r;
}

// finds the real station routes and the node indices of the walks' places
inline void resolve(route_case& c, inf::infrastructure_t const& i) {
  for (auto& s : c.srs_) {
    auto const st = i.ds100_to_station_.at(soro::string(c.t_.T[static_cast<std::size_t>(s.w_.station_)].name_));
    auto const it = st->station_routes_.find(soro::string(s.r_.name_));
    mc::require(it != std::end(st->station_routes_), "station route missing", s.r_.name_);
    s.real_ = it->second;
    s.size_ = static_cast<int>(s.real_->size());
    s.pos_.clear();
    s.ms_.clear();
    s.omitted_.clear();
    s.ph_ = s.fh_ = -1;
    s.etcs_ = false;
    std::set<long> const om(s.r_.omitted_.begin(), s.r_.omitted_.end());
    int n = 0;
    for (auto const& a : s.w_.at_) {
      while (n < s.size_ && s.real_->nodes(static_cast<inf::node::idx>(n))->is(inf::type::META)) ++n;
      mc::require(n < s.size_, "station route too short", s.r_.name_);
      auto const id = a.track_ ? rp_id(c.t_, a) : -1;
      if (om.contains(id)) s.omitted_.insert(n);
      if (is_ms(c.t_, a) && !om.contains(id)) s.ms_.push_back(n);
      if (a.track_ && id == s.r_.passenger_) s.ph_ = n;
      if (a.track_ && id == s.r_.freight_) s.fh_ = n;
      if (a.track_ && tag_of(c.t_, a).starts_with("ETCSAnfang")) {
        auto const& sc = c.t_.s(a.sec_);
        s.etcs_ = !line_signalling(c.lines_.at(sc.line_), sc.els_[static_cast<std::size_t>(a.idx_)].km_);
      }
      s.pos_.push_back(n++);
    }
    mc::require(n == s.size_, "station route too long", s.r_.name_);
  }
}

struct sr_graph {
  std::vector<std::vector<int>> succ_, pred_;
};
inline sr_graph station_graph(route_case const& c) {
  sr_graph g;
  auto const n = c.srs_.size();
  g.succ_.resize(n);
  g.pred_.resize(n);
  for (std::size_t a = 0; a < n; ++a) {
    auto const& last = c.srs_[a].w_.at_.back();
    if (last.track_ || c.t_.e(last.el_).k_ != BORDER || c.t_.e(last.el_).other_ < 0) continue;
    for (std::size_t b = 0; b < n; ++b) {
      auto const& first = c.srs_[b].w_.at_.front();
      if (!first.track_ && first.el_ == c.t_.e(last.el_).other_) {
        g.succ_[a].push_back(static_cast<int>(b));
        g.pred_[b].push_back(static_cast<int>(a));
      }
    }
  }
  return g;
}

// Trains run from signal to signal; where a signal is missing because nothing
// leads to or from a station route, its end takes the signal's place.
inline std::vector<mir> interlocking_routes(route_case const& c, sr_graph const& g) {
  std::vector<mir> r;
  for (std::size_t a = 0; a < c.srs_.size(); ++a) {
    auto const& s = c.srs_[a];
    auto const i = static_cast<int>(a);
    for (std::size_t k = 0; k + 1 < s.ms_.size(); ++k) r.push_back({{i}, s.ms_[k], s.ms_[k + 1] + 1});
    if (!s.ms_.empty() && g.pred_[a].empty()) r.push_back({{i}, 0, s.ms_.front() + 1});
    if (!s.ms_.empty() && g.succ_[a].empty()) r.push_back({{i}, s.ms_.back(), s.size_});
    if ((s.ms_.empty() && !g.pred_[a].empty()) || s.etcs_) continue;
    mir m{{i}, s.ms_.empty() ? 0 : s.ms_.back(), 0};
    auto const go = [&](auto const& self, int at) -> void {
      for (auto const n : g.succ_[static_cast<std::size_t>(at)]) {
        auto const& x = c.srs_[static_cast<std::size_t>(n)];
        if (x.etcs_) continue;
        bool const again = std::find(m.srs_.begin(), m.srs_.end(), n) != m.srs_.end();
        if (again && x.ms_.empty()) continue;
        m.srs_.push_back(n);
        if (!x.ms_.empty()) {
          m.to_ = x.ms_.front() + 1;
          r.push_back(m);
        } else if (g.succ_[static_cast<std::size_t>(n)].empty()) {
          m.to_ = x.size_;
          r.push_back(m);
        } else {
          self(self, n);
        }
        m.srs_.pop_back();
      }
    };
    go(go, i);
  }
  return r;
}

inline int from_of(mir const& m, std::size_t k) { return k == 0 ? m.from_ : 0; }
inline int to_of(route_case const& c, mir const& m, std::size_t k) { return k + 1 == m.srs_.size() ? m.to_ : c.srs_[static_cast<std::size_t>(m.srs_[k])].size_; }

// ---- the cases: topologies with sets of station routes

using route_use = std::function<void(std::string const&, route_case&)>;

inline std::vector<long> signal_ids(topo const& t, walk const& w) {
  std::vector<long> r;
  for (auto const& a : w.at_) {
    if (is_ms(t, a)) r.push_back(rp_id(t, a));
  }
  return r;
}

// a row of stations on one track
inline topo row(std::vector<std::string> const& pats, bool up, bool open_ends, bool reverse_names) {
  topo t;
  std::vector<int> st;
  auto const n = static_cast<int>(pats.size());
  for (int i = 0; i < n; ++i) st.push_back(t.station(std::string(1, static_cast<char>('A' + (reverse_names ? n - 1 - i : i)))));
  int prev = -1;
  for (int i = 0; i < n; ++i) {
    auto const s = st[static_cast<std::size_t>(i)];
    auto const l = t.el(i == 0 ? (open_ends ? BORDER : BUMPER) : BORDER, s);
    auto const r = t.el(i == n - 1 ? (open_ends ? BORDER : TRACK_END) : BORDER, s);
    if (open_ends && i == 0) t.E[static_cast<std::size_t>(l)].partner_ = "X";
    if (open_ends && i == n - 1) t.E[static_cast<std::size_t>(r)].partner_ = "Y";
    link(t, s, 1, l, 0, r, 0, up, 1000 * (up ? i : n - i), pats[static_cast<std::size_t>(i)]);
    if (prev >= 0) t.join(prev, l, 1);
    prev = r;
  }
  t.finish();
  return t;
}

// one line of stations, each walk absent / plain / with its first signal omitted / both
inline void each_row(route_use const& fn) {
  mc::group("rows of stations");
  std::vector<std::string> const pats = {"-", "S", "F", "SF", "SS", "UhS"};
  auto const n = static_cast<int>(pats.size());
  for (int stations = 2; stations <= mc::tier(3, 4); ++stations) {
    auto const np = stations == 4 ? 3 : n;
    mc::odometer(std::vector<int>(static_cast<std::size_t>(stations), np), [&](std::vector<int> const& pi) {
      for (int var = 0; var < 6; ++var) {
        std::vector<std::string> ps;
        for (auto i : pi) ps.push_back(pats[static_cast<std::size_t>(i)]);
        bool const up = var & 1;
        auto const ends = var / 2;
        auto const t = row(ps, up, ends == 1, ends == 2);
        model const m(t);
        auto const ws = walks(m, t, true);
        // with three stations the two directions are taken apart
        std::vector<walk> use;
        for (auto const& w : ws) {
          bool const to_right = w.at_.front().el_ < w.at_.back().el_;
          if (stations == 2 || to_right == (ends != 2)) use.push_back(w);
        }
        std::vector<int> radix;
        for (auto const& w : use) radix.push_back(signal_ids(t, w).empty() ? 2 : 4);
        mc::odometer(radix, [&](std::vector<int> const& v) {
          if (stations == 3 && !mc::thorough() && var >= 4) return;
          route_case c;
          c.t_ = t;
          for (std::size_t k = 0; k < use.size(); ++k) {
            if (v[k] & 1) c.add(use[k]);
            if (v[k] & 2) c.add(use[k], {signal_ids(t, use[k]).front()});
          }
          fn(mc::str("row ", mc::seqs(ps), " variant ", var, " routes ", mc::seq(v)), c);
        });
      }
    });
  }
}

// stations with parts of the line that have no signals (ETCS)
inline void each_etcs(route_use const& fn) {
  mc::group("ETCS");
  std::vector<std::string> const pats = {"S", "-", "E", "ES", "SE"};
  auto const n = static_cast<int>(pats.size());
  mc::odometer({n, n, n, 3, 2}, [&](std::vector<int> const& v) {
    auto const t = row({pats[static_cast<std::size_t>(v[0])], pats[static_cast<std::size_t>(v[1])], pats[static_cast<std::size_t>(v[2])]}, v[4] == 1, false, false);
    model const m(t);
    route_case c;
    c.t_ = t;
    for (auto const& w : walks(m, t, true)) c.add(w);
    if (v[3] == 0) c.lines_[1] = {{0, 10000, true}};
    if (v[3] == 1) c.lines_[1] = {{0, 1500, true}, {1500, 10000, false}};
    if (v[3] == 2) c.lines_[1] = {{0, 1033, false}, {1033, 2050, true}, {2050, 10000, false}};
    fn("etcs " + mc::seq(v), c);
  });
}

// branching layouts with every walk (also from and to halts and signals)
inline void each_route_layout(route_use const& fn) {
  mc::group("branching layouts");
  std::vector<std::string> const pats = mc::thorough() ? std::vector<std::string>{"-", "S", "SF", "UhF", "hSg", "SS"} : std::vector<std::string>{"-", "S", "SF", "UhF"};
  auto const n = static_cast<int>(pats.size());
  auto const p = [&](int i) { return pats[static_cast<std::size_t>(i)]; };
  auto const give = [&](std::string const& d, topo const& t, bool borders_only) {
    model const m(t);
    route_case c;
    c.t_ = t;
    int k = 0;
    for (auto const& w : walks(m, t, borders_only)) {
      c.add(w);
      auto& r = c.srs_.back().r_;
      for (auto const& a : w.at_) {
        if (a.track_ && tag_of(t, a).starts_with("Halt")) {
          if (k % 3 != 1) r.passenger_ = rp_id(t, a);
          if (k % 3 != 2) r.freight_ = rp_id(t, a);
          ++k;
        }
      }
    }
    fn(mc::str(d, borders_only ? " through" : " all"), c);
  };
  mc::odometer({n, n, n, n, 2, 2, 2}, [&](std::vector<int> const& v) {
    give("passing loop " + mc::seq(v), passing_loop(p(v[0]), p(v[1]), p(v[2]), p(v[3]), v[4] == 1, v[5] + 1), v[6] == 1);
  });
  mc::odometer({n, n, n, 2, 2}, [&](std::vector<int> const& v) { give("crossover " + mc::seq(v), crossover(p(v[0]), p(v[1]), p(v[2]), v[3] == 1, v[4] == 1), false); });
  mc::odometer({n, n, 4, 2}, [&](std::vector<int> const& v) { give("switch then cross " + mc::seq(v), switch_then_cross(p(v[0]), p(v[1]), v[2], v[3] == 1), false); });
}

// rings of stations; a train that runs round the ring without passing a signal
// is not on a way of its own a second time
inline void each_ring(route_use const& fn) {
  mc::group("rings");
  std::vector<std::string> const pats = {"-", "S", "SF", "F"};
  auto const n = static_cast<int>(pats.size());
  for (int stations = 2; stations <= 3; ++stations) {
    mc::odometer(std::vector<int>(static_cast<std::size_t>(stations), n), [&](std::vector<int> const& pi) {
      std::vector<std::string> ps;
      for (auto i : pi) ps.push_back(pats[static_cast<std::size_t>(i)]);
      for (int var = 0; var < 8; ++var) {
        auto const t = ring(ps, var & 1, var >= 2, pats[static_cast<std::size_t>(var / 2)]);
        model const m(t);
        auto const ws = walks(m, t, true);
        for (int om = 0; om < 3; ++om) {
          route_case c;
          c.t_ = t;
          for (std::size_t k = 0; k < ws.size(); ++k) {
            auto const ids = signal_ids(t, ws[k]);
            if (om != 1 || ids.empty()) c.add(ws[k]);
            if (om > 0 && !ids.empty() && (om == 1 || k % 2 == 0)) c.add(ws[k], ids);
          }
          fn(mc::str("ring ", mc::seqs(ps), " variant ", var, " omitted ", om), c);
        }
      }
    });
  }
}

inline void each_route_case(route_use const& fn) {
  each_row(fn);
  each_ring(fn);
  each_etcs(fn);
  each_route_layout(fn);
}

}  // namespace iss
