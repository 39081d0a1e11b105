#pragma once
// The track topologies the infrastructure checks explore.  each() hands every
// topology within the bounds to the check.
#include "iss.h"

namespace iss {

using use = std::function<void(std::string const&, topo const&)>;

// what stands on a section: a word over S F (main signals), h (halt, rising),
// g (halt, falling), U (tunnel), - nothing
inline std::vector<tel> pattern(std::string const& p, int from, int to) {
  std::vector<tel> r;
  auto const n = static_cast<int>(p.size());
  for (int i = 0; i < n; ++i) {
    std::string tag;
    switch (p[static_cast<std::size_t>(i)]) {
      case 'S': tag = "HauptsignalS"; break;
      case 'F': tag = "HauptsignalF"; break;
      case 'h': tag = "HalteplatzRzLinksS"; break;
      case 'g': tag = "HalteplatzRzLinksF"; break;
      case 'U': tag = "Tunnel"; break;
      case 'E': tag = "ETCSAnfangS"; break;
      case 'M': tag = "Fahrzeitmesspunkt"; break;
      default: continue;
    }
    r.push_back({tag, from + (to - from) * (i + 1) / (n + 1), {}, 0});
  }
  return r;
}

// a section between port x of element a and port y of element b; up says
// whether the kilometrage grows from a to b
inline int link(topo& t, int st, int line, int a, int x, int b, int y, bool up, int km, std::string const& pat) {
  auto els = pattern(pat, km, km + 100);
  return up ? t.section(st, line, a, x, km, b, y, km + 100, std::move(els)) : t.section(st, line, b, y, km, a, x, km + 100, std::move(els));
}

inline std::vector<std::string> const& tags(bool all) {
  static std::vector<std::string> const few = {"HauptsignalS", "HauptsignalF", "HalteplatzRzLinksF", "Tunnel", "Neigung"};
  static std::vector<std::string> const every = {
      "HauptsignalS", "HauptsignalF", "VorsignalS", "VorsignalF", "SchutzsignalS", "SchutzsignalF", "HalteplatzRzLinksS",
      "HalteplatzRzLinksF", "HalteplatzGzS", "HalteplatzGzF", "HalteplatzRzRechtsS", "HalteplatzRzRechtsF", "HalteplatzRzBeideS",
      "HalteplatzRzBeideF", "HalteplatzRzRechtsLinksS", "HalteplatzRzRechtsLinksF", "ZwangshaltS", "ZwangshaltF", "SignalZugschlussstelleS",
      "SignalZugschlussstelleF", "FstrZugschlussstelleS", "FstrZugschlussstelleF", "Tunnel", "Neigung"};
  return all ? every : few;
}
// every kind of element that can stand on a section
inline std::vector<std::string> const& every_tag() {
  static std::vector<std::string> const all = [] {
    auto r = tags(true);
    for (auto const* t : {"LZBAnfang", "LZBBlockkennzeichen", "LZBEnde", "ETCSAnfang", "ETCSBlockkennzeichen", "ETCSEnde", "GeschwZulaessig", "Punktgeschw", "Bremsweg", "Fahrzeitmesspunkt"}) {
      r.push_back(t + std::string("S"));
      r.push_back(t + std::string("F"));
    }
    for (auto const* t : {"Fahrzeitmesspunkt", "Gleisbezeichnung", "Bahnuebergang", "Zugang"}) r.push_back(t);
    return r;
  }();
  return all;
}
inline std::string extra_of(std::string const& tag) {
  if (tag.starts_with("GeschwZulaessig")) return spl_xml(80, 0, false, 0);
  if (tag == "Neigung") return "<Steigend>1,5</Steigend><Fallend>2</Fallend>";
  return {};
}

inline void each_line(use const& fn) {
  mc::group("one section");
  std::vector<std::pair<std::string, int>> cand;
  for (auto const& t : tags(mc::thorough())) {
    for (int k : {0, 50, 100}) cand.push_back({t, k});
  }
  if (!mc::thorough()) cand.push_back({"HalteplatzGzF", 20});
  mc::bound("one section: elements", "up to 3 of " + std::to_string(cand.size()) + " (type, place), in every order");
  static kind const ends[] = {BUMPER, TRACK_END, BORDER};
  mc::sequences(static_cast<int>(cand.size()), 0, 3, [&](std::vector<int> const& s) {
    if (mc::thorough() && s.size() == 3 && (s[0] % 3 != 1 || s[1] > s[2])) return;
    auto const v = static_cast<std::size_t>(mc::hash_seq(s));
    topo t;
    auto const st = t.station("A");
    auto const a = t.el(ends[v % 3], st), b = t.el(ends[(v / 3) % 3], st);
    t.E[static_cast<std::size_t>(a)].partner_ = "X";
    t.E[static_cast<std::size_t>(b)].partner_ = "Y";
    std::vector<tel> els;
    std::string d = "A|";
    for (auto i : s) {
      auto const& [tag, k] = cand[static_cast<std::size_t>(i)];
      els.push_back({tag, 1000 + k, extra_of(tag), 0});
      d += tag + "@" + std::to_string(k) + " ";
    }
    t.section(st, 1, a, 0, 1000, b, 0, 1100, std::move(els));
    t.finish();
    fn(d, t);
  });
  mc::group("every element type");
  auto const& all = every_tag();
  for (std::size_t i = 0; i < all.size(); ++i) {
    for (std::size_t j = 0; j < all.size(); ++j) {
      for (int same : {0, 1}) {
        topo t;
        auto const st = t.station("A");
        auto const a = t.el(BUMPER, st), b = t.el(TRACK_END, st);
        t.section(st, 1, a, 0, 0, b, 0, 100, {{all[i], 40, extra_of(all[i]), 0}, {all[j], same ? 40 : 60, extra_of(all[j]), 0}});
        t.finish();
        fn(mc::str("types ", all[i], " ", all[j], same ? " same place" : ""), t);
      }
    }
  }
}

inline void each_pair(use const& fn) {
  mc::group("two sections");
  std::vector<std::string> const pats = {"-", "S", "F", "U", "SF", "FU", "hS"};
  for (kind k : {LINE_SWITCH, KM_JUMP}) {
    for (int o = 0; o < 4; ++o) {
      if (k == KM_JUMP && o != 1) continue;  // a jump begins one section and ends the other
      for (auto const& p : pats) {
        for (auto const& q : pats) {
          for (int two = 0; two < 2; ++two) {
            topo t;
            auto const st = t.station("A");
            auto const a = t.el(BUMPER, st), x = t.el(k, st), b = t.el(TRACK_END, st);
            bool const l_up = o & 1, r_up = o & 2;
            // port 0 of a km jump begins its section
            if (k == KM_JUMP) {
              link(t, st, 1, a, 0, x, 1, true, 100, p);
              link(t, st, 1, x, 0, b, 0, true, 500, q);
            } else {
              link(t, st, 1, a, 0, x, two ? 1 : 0, l_up, 100, p);
              link(t, st, 2, x, two ? 0 : 1, b, 0, r_up, 100, q);
            }
            t.finish();
            fn(mc::str(k == KM_JUMP ? "km jump " : "line switch ", o, " ", p, " ", q, " ", two), t);
          }
        }
      }
    }
  }
}

inline void each_switch(use const& fn) {
  mc::group("switch");
  std::vector<std::string> const pats = mc::thorough() ? std::vector<std::string>{"-", "S", "F", "U", "SF", "hU"} : std::vector<std::string>{"-", "S", "U", "SF"};
  for (int o = 0; o < 8; ++o) {
    for (int ln = 0; ln < 5; ++ln) {
      // lines of start, stem, branch
      static int const L[5][3] = {{1, 1, 1}, {1, 1, 2}, {1, 2, 1}, {1, 2, 2}, {1, 2, 3}};
      // does the kilometrage grow towards the switch / away from it
      bool const up_start = o & 1, up_stem = o & 2, up_branch = o & 4;
      if (L[ln][1] == 1 && up_stem != up_start) continue;
      if (L[ln][2] == 1 && up_branch != up_start) continue;
      for (auto const& p : pats) {
        for (auto const& q : pats) {
          for (auto const& r : pats) {
            for (int order = 0; order < (mc::thorough() ? 6 : 3); ++order) {
              topo t;
              auto const st = t.station("A");
              auto const w = t.el(order % 2 ? SWITCH_L : SWITCH_R, st);
              auto const a = t.el(BUMPER, st), b = t.el(TRACK_END, st), c = t.el(BUMPER, st);
              int idx[3] = {0, 1, 2};
              for (int i = 0; i < order; ++i) std::next_permutation(idx, idx + 3);
              for (int i : idx) {
                if (i == 0) link(t, st, L[ln][0], a, 0, w, 0, up_start, 1000, p);
                if (i == 1) link(t, st, L[ln][1], w, 1, b, 0, up_stem, 2000, q);
                if (i == 2) link(t, st, L[ln][2], w, 2, c, 0, up_branch, 3000, r);
              }
              t.finish();
              fn(mc::str("switch o", o, " lines ", ln, " ", p, " ", q, " ", r, " order ", order), t);
            }
          }
        }
      }
    }
  }
}

inline void each_cross(use const& fn) {
  mc::group("crossing");
  std::vector<std::string> const pats = mc::thorough() ? std::vector<std::string>{"-", "SF", "U"} : std::vector<std::string>{"-", "SF"};
  auto const n = static_cast<int>(pats.size());
  for (int arcs = 0; arcs < 4; ++arcs) {
    for (int o = 0; o < 16; ++o) {
      for (int ln = 0; ln < 6; ++ln) {
        // lines at start left, end left, start right, end right
        static int const L[6][4] = {{1, 1, 1, 1}, {1, 1, 2, 2}, {1, 2, 3, 3}, {1, 1, 2, 3}, {1, 2, 3, 4}, {1, 2, 1, 2}};
        bool const sl = o & 1, el = o & 2, sr = o & 4, er = o & 8;  // grows: towards (start), away (end)
        if (L[ln][0] == L[ln][1] && sl != el) continue;
        if (L[ln][2] == L[ln][3] && sr != er) continue;
        for (int pp = 0; pp < n * n * n * n; ++pp) {
          for (int order = 0; order < 2; ++order) {
            topo t;
            auto const st = t.station("A");
            auto const x = t.el(arcs == 0 ? CROSS : CROSS_SWITCH, st);
            t.E[static_cast<std::size_t>(x)].arc0_ = arcs & 1;
            t.E[static_cast<std::size_t>(x)].arc1_ = arcs & 2;
            int e[4];
            for (int i = 0; i < 4; ++i) e[i] = t.el(i % 2 ? TRACK_END : BUMPER, st);
            auto const pat = [&](int i) {
              int v = pp;
              for (int j = 0; j < i; ++j) v /= n;
              return pats[static_cast<std::size_t>(v % n)];
            };
            for (int q = 0; q < 4; ++q) {
              int const i = order ? 3 - q : q;
              if (i == 0) link(t, st, L[ln][0], e[0], 0, x, 0, sl, 1000, pat(0));
              if (i == 1) link(t, st, L[ln][1], x, 1, e[1], 0, el, 2000, pat(1));
              if (i == 2) link(t, st, L[ln][2], e[2], 0, x, 2, sr, 3000, pat(2));
              if (i == 3) link(t, st, L[ln][3], x, 3, e[3], 0, er, 4000, pat(3));
            }
            t.finish();
            fn(mc::str("cross arcs ", arcs, " o", o, " lines ", ln, " patterns ", pp, " order ", order), t);
          }
        }
      }
    }
  }
}

inline void each_border(use const& fn) {
  mc::group("stations");
  std::vector<std::string> const pats = mc::thorough() ? std::vector<std::string>{"-", "S", "F", "U", "SF", "hS"} : std::vector<std::string>{"-", "S", "U", "SF"};
  // n stations in a row joined by one or two tracks; each border low or high
  for (int stations = 2; stations <= 3; ++stations) {
    for (int tracks = 1; tracks <= 2; ++tracks) {
      for (int dir = 0; dir < 4; ++dir) {
        if (tracks == 1 && dir > 1) continue;
        for (int lines = 0; lines < tracks; ++lines) {
          for (int miss = 0; miss < 3; ++miss) {  // 1: outer stations missing beyond, 2: stations in reverse file order
            mc::odometer(std::vector<int>(static_cast<std::size_t>(stations), static_cast<int>(pats.size())), [&](std::vector<int> const& pi) {
              topo t;
              std::vector<int> st;
              for (int i = 0; i < stations; ++i) st.push_back(t.station(std::string(1, static_cast<char>('A' + (miss == 2 ? stations - 1 - i : i)))));
              for (int tr = 0; tr < tracks; ++tr) {
                bool const up = tr == 0 ? dir & 1 : (dir >> 1) & 1;
                int prev = -1;
                for (int i = 0; i < stations; ++i) {
                  int const l = i == 0 ? t.el(miss == 1 ? BORDER : BUMPER, st[static_cast<std::size_t>(i)]) : t.el(BORDER, st[static_cast<std::size_t>(i)]);
                  int const r = i == stations - 1 ? t.el(miss == 1 ? BORDER : TRACK_END, st[static_cast<std::size_t>(i)])
                                                  : t.el(BORDER, st[static_cast<std::size_t>(i)]);
                  if (miss == 1 && i == 0) t.E[static_cast<std::size_t>(l)].partner_ = "X";
                  if (miss == 1 && i == stations - 1) t.E[static_cast<std::size_t>(r)].partner_ = "Y";
                  link(t, st[static_cast<std::size_t>(i)], lines ? 1 + tr : 1, l, 0, r, 0, up, 1000 * (up ? i : stations - i) + 10000 * tr,
                       pats[static_cast<std::size_t>(pi[static_cast<std::size_t>(i)])]);
                  if (prev >= 0) t.join(prev, l, tr + 1);
                  prev = r;
                }
              }
              t.finish();
              fn(mc::str("row of ", stations, " tracks ", tracks, " dir ", dir, " lines ", lines, " var ", miss, " ", mc::seq(pi)), t);
            });
          }
        }
      }
    }
  }
}

// larger layouts
inline topo passing_loop(std::string const& a, std::string const& b, std::string const& c, std::string const& d, bool up, int branch_line) {
  topo t;
  auto const A = t.station("A"), B = t.station("B"), C = t.station("C");
  auto const e0 = t.el(BUMPER, A), b0 = t.el(BORDER, A), b1 = t.el(BORDER, B);
  auto const w1 = t.el(SWITCH_L, B), w2 = t.el(SWITCH_R, B);
  auto const b2 = t.el(BORDER, B), b3 = t.el(BORDER, C), e1 = t.el(BUMPER, C);
  auto const km = [&](int i) { return 1000 * (up ? i : 9 - i); };
  link(t, A, 1, e0, 0, b0, 0, up, km(1), a);
  link(t, B, 1, b1, 0, w1, 0, up, km(2), b);
  link(t, B, 1, w1, 1, w2, 1, up, km(3), c);
  link(t, B, branch_line, w1, 2, w2, 2, up, km(3) + 200, d);
  link(t, B, 1, w2, 0, b2, 0, up, km(4), b);
  link(t, C, 1, b3, 0, e1, 0, up, km(5), a);
  t.join(b0, b1, 1);
  t.join(b2, b3, 1);
  t.finish();
  return t;
}
inline topo crossover(std::string const& a, std::string const& b, std::string const& m, bool up1, bool up2) {
  topo t;
  auto const st = t.station("A");
  auto const w1 = t.el(SWITCH_R, st), w2 = t.el(SWITCH_L, st);
  int e[4];
  for (auto& x : e) x = t.el(BUMPER, st);
  link(t, st, 1, e[0], 0, w1, 0, up1, 1000, a);
  link(t, st, 1, w1, 1, e[1], 0, up1, 2000, b);
  // the second switch is entered by its branch when coming from the first
  link(t, st, 2, e[2], 0, w2, 1, up2, 3000, b);
  link(t, st, 2, w2, 0, e[3], 0, up2, 4000, a);
  link(t, st, 3, w1, 2, w2, 2, true, 5000, m);
  t.finish();
  return t;
}
inline topo switch_then_cross(std::string const& a, std::string const& b, int arcs, bool up) {
  topo t;
  auto const st = t.station("A");
  auto const w = t.el(SWITCH_R, st), x = t.el(arcs ? CROSS_SWITCH : CROSS, st), v = t.el(SWITCH_L, st);
  t.E[static_cast<std::size_t>(x)].arc0_ = arcs & 1;
  t.E[static_cast<std::size_t>(x)].arc1_ = arcs & 2;
  int e[4];
  for (auto& y : e) y = t.el(TRACK_END, st);
  link(t, st, 1, e[0], 0, w, 0, up, 1000, a);
  link(t, st, 1, w, 1, x, 0, up, 2000, b);
  link(t, st, 1, w, 2, e[1], 0, up, 3000, a);
  link(t, st, 1, x, 1, v, 1, up, 4000, b);
  link(t, st, 1, v, 0, e[2], 0, up, 5000, a);
  link(t, st, 1, x, 3, v, 2, up, 6000, b);
  link(t, st, 1, e[3], 0, x, 2, up, 7000, a);
  t.finish();
  return t;
}
// a turning loop: stem and branch of one switch joined
inline topo balloon(std::string const& a, std::string const& b, bool up, bool turn) {
  topo t;
  auto const st = t.station("A");
  auto const w = t.el(SWITCH_L, st), e = t.el(BUMPER, st);
  link(t, st, 1, e, 0, w, 0, up, 1000, a);
  link(t, st, 2, w, turn ? 2 : 1, w, turn ? 1 : 2, true, 2000, b);
  t.finish();
  return t;
}

// stations whose tracks close to a ring; with a siding that joins it in the first
inline topo ring(std::vector<std::string> const& pats, bool up, bool siding, std::string const& side) {
  topo t;
  std::vector<int> l, r;
  auto const n = static_cast<int>(pats.size());
  for (int i = 0; i < n; ++i) t.station(std::string(1, static_cast<char>('A' + i)));
  for (int i = 0; i < n; ++i) {
    auto const& p = pats[static_cast<std::size_t>(i)];
    auto const km = 1000 * (up ? i : n - i);
    l.push_back(t.el(BORDER, i));
    r.push_back(t.el(BORDER, i));
    if (i == 0 && siding) {
      auto const w = t.el(SWITCH_R, i), e = t.el(BUMPER, i);
      link(t, i, 1, l.back(), 0, w, 1, up, km, p);
      link(t, i, 1, w, 0, r.back(), 0, up, km + (up ? 300 : -300), "-");
      link(t, i, 2, e, 0, w, 2, up, 20000, side);
    } else {
      link(t, i, 1, l.back(), 0, r.back(), 0, up, km, p);
    }
  }
  for (int i = 0; i < n; ++i) t.join(r[static_cast<std::size_t>(i)], l[static_cast<std::size_t>((i + 1) % n)], i + 1);
  t.finish();
  return t;
}

inline void each_layout(use const& fn) {
  mc::group("layouts");
  std::vector<std::string> const pats = {"-", "S", "U", "SF", "FhU"};
  auto const n = static_cast<int>(pats.size());
  auto const p = [&](int i) { return pats[static_cast<std::size_t>(i)]; };
  mc::odometer({n, n, n, n, 2, 2}, [&](std::vector<int> const& v) {
    fn("passing loop " + mc::seq(v), passing_loop(p(v[0]), p(v[1]), p(v[2]), p(v[3]), v[4] == 1, v[5] + 1));
  });
  mc::odometer({n, n, n, 2, 2}, [&](std::vector<int> const& v) {
    fn("crossover " + mc::seq(v), crossover(p(v[0]), p(v[1]), p(v[2]), v[3] == 1, v[4] == 1));
  });
  mc::odometer({n, n, 4, 2}, [&](std::vector<int> const& v) { fn("switch then cross " + mc::seq(v), switch_then_cross(p(v[0]), p(v[1]), v[2], v[3] == 1)); });
  for (int stations = 2; stations <= 3; ++stations) {
    mc::odometer(std::vector<int>(static_cast<std::size_t>(stations), n - 1), [&](std::vector<int> const& v) {
      std::vector<std::string> ps;
      for (auto i : v) ps.push_back(p(i));
      // nothing but tunnels would not tell the directions apart
      bool const tunnels = std::all_of(v.begin(), v.end(), [](int i) { return i == 2; });
      for (int k = tunnels ? 2 : 0; k < 6; ++k) fn(mc::str("ring ", mc::seq(v), " ", k), ring(ps, k % 2, k >= 2, p(k / 2)));
    });
  }
  // the two ends of a loop are told apart by what stands next to them, so
  // a loop needs two elements in each direction
  std::vector<std::string> const two = {"UU", "SFSF", "UhUF", "SFUSF"};
  mc::odometer({n, static_cast<int>(two.size()), 2, 2}, [&](std::vector<int> const& v) {
    fn("turning loop " + mc::seq(v), balloon(p(v[0]), two[static_cast<std::size_t>(v[1])], v[2] == 1, v[3] == 1));
  });
}

inline void each(use const& fn) {
  each_line(fn);
  each_pair(fn);
  each_switch(fn);
  each_cross(fn);
  each_border(fn);
  each_layout(fn);
}

}  // namespace iss
