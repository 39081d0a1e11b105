// I09: places on the map.  Every network of a few stations with every choice of
// the stations whose place is known, every way of writing the list of places,
// and stations drawn on a grid in every way, against a model of the drawing.
#include "topologies.h"

#include <array>
#include <deque>

#include "soro/utls/coordinates/gps.h"

using namespace iss;
using soro::utls::gps;

namespace {

struct pt {
  double x{0}, y{0};
};
struct place {
  double lon, lat;
};
std::string show(gps const& g) { return mc::str("(", g.lon_, " ", g.lat_, ")"); }

// a topology, where its elements are drawn and the list of places
struct drawn {
  topo t_;
  std::map<int, pt> at_;  // section element -> where it is drawn
  bool comma_{false};
  bool points_{false};  // further points of the drawing, which belong to no element
  std::optional<std::string> csv_{};
  std::vector<std::optional<place>> known_{};  // by station of the topology
};

void draw(drawn& d) {
  if (d.points_) {
    for (auto& s : d.t_.S) s.raw_ = "<Bildpunkt><ID>" + std::to_string(d.t_.next_id_++) + "</ID><Kilometrierung>" + km(s.kma_) + "</Kilometrierung><Bildkoordinaten><X>-40</X><Y>77</Y></Bildkoordinaten></Bildpunkt>";
  }
  for (auto& [e, p] : d.at_) {
    auto const n = [&](double v) {
      auto s = mc::str(v);
      if (d.comma_) std::replace(s.begin(), s.end(), '.', ',');
      return s;
    };
    d.t_.E[static_cast<std::size_t>(e)].extra_ = "<Bildkoordinaten><X>" + n(p.x) + "</X><Y>" + n(p.y) + "</Y></Bildkoordinaten>";
  }
}

std::string csv(topo const& t, std::vector<std::optional<place>> const& k) {
  std::string r = "ds100,lat,lon\n";
  for (std::size_t i = 0; i < k.size(); ++i) {
    if (k[i]) r += mc::str(t.T[i].name_, ",", k[i]->lat, ",", k[i]->lon, "\n");
  }
  return r;
}

inf::infrastructure read(drawn& d) {
  draw(d);
  d.t_.finish();
  auto const dir = write(d.t_);
  auto const list = dir.parent_path() / "places.csv";
  fs::remove(list);
  if (d.csv_) put(list, *d.csv_);
  inf::infrastructure_options o;
  o.interlocking_ = false;
  o.exclusions_ = false;
  o.exclusion_graph_ = false;
  o.exclusion_elements_ = false;
  o.layout_ = true;
  o.infrastructure_path_ = dir;
  o.gps_coord_path_ = list;
  return inf::infrastructure(o);
}

std::size_t id_of(inf::infrastructure const& i, topo const& t, std::size_t s) { return i->ds100_to_station_.at(soro::string{t.T[s].name_})->id_; }

// the stations joined to each station, once per common border
std::vector<std::vector<int>> borders(topo const& t) {
  std::vector<std::vector<int>> r(t.T.size());
  for (auto const& e : t.E) {
    if (e.k_ == BORDER && e.other_ >= 0) r[static_cast<std::size_t>(e.station_)].push_back(t.e(e.other_).station_);
  }
  return r;
}

// where the stations have to be
std::vector<place> stations(drawn const& d) {
  auto const n = d.t_.T.size();
  auto const join = borders(d.t_);
  std::vector<place> r(n);
  for (std::size_t s = 0; s < n; ++s) {
    if (d.known_[s]) {
      r[s] = *d.known_[s];
      continue;
    }
    // known stations reached through unknown ones, and how far they are
    std::vector<int> dist(n, -1);
    std::deque<std::size_t> q{s};
    dist[s] = 0;
    std::vector<std::size_t> found;
    while (!q.empty()) {
      auto const x = q.front();
      q.pop_front();
      if (d.known_[x]) {
        found.push_back(x);
        continue;
      }
      for (auto const y : join[x]) {
        if (dist[static_cast<std::size_t>(y)] >= 0) continue;
        dist[static_cast<std::size_t>(y)] = dist[x] + 1;
        q.push_back(static_cast<std::size_t>(y));
      }
    }
    if (found.empty()) {
      r[s] = {8.0, 47.0};
    } else if (found.size() == 1) {
      r[s] = {d.known_[found[0]]->lon - 0.1 * dist[found[0]], d.known_[found[0]]->lat};
    } else {
      int most = 0;
      for (auto const f : found) most = std::max(most, dist[f]);
      double w = 0;
      r[s] = {0, 0};
      for (auto const f : found) {
        double k = most + 1 - dist[f];
        // close ties count double
        if (dist[f] == 1 && std::count(join[s].begin(), join[s].end(), static_cast<int>(f)) > 4) k *= 2;
        r[s].lon += k * d.known_[f]->lon;
        r[s].lat += k * d.known_[f]->lat;
        w += k;
      }
      r[s].lon /= w;
      r[s].lat /= w;
    }
  }
  return r;
}

void check_stations(drawn const& d, inf::infrastructure const& i) {
  mc::eq(i->station_positions_.size(), d.t_.T.size(), "one place per station");
  auto const want = stations(d);
  for (std::size_t s = 0; s < want.size(); ++s) {
    auto const& g = i->station_positions_[id_of(i, d.t_, s)];
    mc::require(g.valid(), "a station without a place", d.t_.T[s].name_, show(g));
    mc::require(std::abs(g.lon_ - want[s].lon) < 1e-9 && std::abs(g.lat_ - want[s].lat) < 1e-9, "place of a station", d.t_.T[s].name_, " ", show(g), " want ", show({.lon_ = want[s].lon, .lat_ = want[s].lat}));
  }
  mc::step(want.size());
}

gps turned(gps const& p, gps const& around, double by) { return around.move(around.distance(p), around.bearing(p) + by); }
// towards the place on the drawing, seen from the middle of the station: up on
// the drawing is west, right is north in the unturned station
gps lay(gps const& middle, double x, double y) {
  auto const d = std::sqrt(x * x + y * y);
  return middle.move(10 * d, -std::atan2(y, -x) * 180.0 / std::numbers::pi);
}

void check_elements(drawn const& d, inf::infrastructure const& i) {
  auto const& t = d.t_;
  mc::eq(i->element_positions_.size(), i->graph_.elements_.size(), "one place per element");
  for (auto const& e : i->graph_.elements_) {
    auto const& g = i->element_positions_[e->id()];
    mc::require(g.valid() && std::isfinite(g.lon_) && std::isfinite(g.lat_), "an element without a place", e->id(), " ", show(g));
  }
  lookup const l(t, *i);
  auto const n = t.T.size();
  // the drawing, moved so that it begins at 0/0; its middle
  std::vector<pt> low(n, {1e9, 1e9}), mid(n);
  for (auto const& [e, p] : d.at_) {
    auto& m = low[static_cast<std::size_t>(t.e(e).station_)];
    m.x = std::min(m.x, p.x);
    m.y = std::min(m.y, p.y);
  }
  for (auto const& [e, p] : d.at_) {
    auto const s = static_cast<std::size_t>(t.e(e).station_);
    mid[s].x = std::max(mid[s].x, (p.x - low[s].x) / 2);
    mid[s].y = std::max(mid[s].y, (p.y - low[s].y) / 2);
  }
  auto const off = [&](int e) {
    auto const s = static_cast<std::size_t>(t.e(e).station_);
    auto const& p = d.at_.at(e);
    return pt{p.x - low[s].x - mid[s].x, p.y - low[s].y - mid[s].y};
  };
  std::vector<gps> centre(n);
  for (std::size_t s = 0; s < n; ++s) centre[s] = i->station_positions_[id_of(i, t, s)];
  std::vector<gps> flat(t.E.size());
  for (auto const& [e, p] : d.at_) flat[static_cast<std::size_t>(e)] = lay(centre[static_cast<std::size_t>(t.e(e).station_)], off(e).x, off(e).y);

  // how far each station is turned: three rounds in which every station turns
  // to where its borders are nearest to the neighbours' of the round before
  std::vector<double> turn(n, 0.0);
  bool clear = true;
  for (int round = 0; round < 3 && clear; ++round) {
    std::vector<double> next(n, 0.0);
    for (std::size_t s = 0; s < n; ++s) {
      std::array<double, 72> score{};
      for (int k = 0; k < 72; ++k) {
        for (std::size_t e = 0; e < t.E.size(); ++e) {
          auto const& b = t.E[e];
          if (b.k_ != BORDER || b.other_ < 0 || b.station_ != static_cast<int>(s)) continue;
          auto const o = static_cast<std::size_t>(t.e(b.other_).station_);
          score[static_cast<std::size_t>(k)] += turned(flat[e], centre[s], 5.0 * k).distance(turned(flat[static_cast<std::size_t>(b.other_)], centre[o], turn[o]));
        }
      }
      auto const best = std::min_element(score.begin(), score.end());
      if (*best == 0.0 && *std::max_element(score.begin(), score.end()) == 0.0) continue;  // nothing to turn towards
      for (auto k = score.begin(); k != score.end(); ++k) {
        if (k != best && *k < *best + 0.05) clear = false;
      }
      next[s] = 5.0 * static_cast<double>(best - score.begin());
    }
    turn = next;
  }
  mc::counter(clear ? "networks with one best turn" : "networks with several best turns", 1);

  for (std::size_t s = 0; s < n; ++s) {
    std::vector<int> mine;
    for (auto const& [e, p] : d.at_) {
      if (t.e(e).station_ == static_cast<int>(s)) mine.push_back(e);
    }
    auto const fits = [&](double by) {
      return std::all_of(mine.begin(), mine.end(), [&](int e) {
        auto const& g = i->element_positions_[l.els_[static_cast<std::size_t>(e)]->id()];
        auto const want = turned(flat[static_cast<std::size_t>(e)], centre[s], by);
        return g.distance(want) < 0.05;
      });
    };
    double by = -1;
    if (clear) {
      by = turn[s];
      mc::require(fits(by), "places of the elements of a station", "station ", t.T[s].name_, " turned ", by);
    } else {
      for (int k = 0; k < 72 && by < 0; ++k) {
        if (fits(5.0 * k)) by = 5.0 * k;
      }
      mc::require(by >= 0, "places of the elements of a station", "station ", t.T[s].name_, ": the drawing fits no turn");
    }
    // elements on the track: in order and evenly spaced on the line between its ends
    for (auto const si : t.T[s].secs_) {
      auto const& sc = t.s(si);
      if (sc.els_.empty()) continue;
      auto const a = off(sc.ea_), b = off(sc.eb_);
      auto const len = std::hypot(b.x - a.x, b.y - a.y);
      std::vector<std::size_t> in(sc.els_.size());
      for (std::size_t k = 0; k < in.size(); ++k) in[k] = k;
      std::sort(in.begin(), in.end(), [&](auto x, auto y) { return sc.els_[x].km_ < sc.els_[y].km_; });
      double last = -1, gap = -1;
      for (auto const k : in) {
        auto const& g = i->element_positions_[l.track_[static_cast<std::size_t>(si)][k]->id()];
        auto const r = centre[s].distance(g) / 10;
        auto const w = (centre[s].bearing(g) - by) * std::numbers::pi / 180;
        pt const p{-r * std::cos(w), -r * std::sin(w)};
        if (len < 1e-6) {
          mc::require(std::hypot(p.x - a.x, p.y - a.y) < 0.01, "place of an element on the track", "section ", si, " element ", k);
          continue;
        }
        auto const along = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / (len * len);
        auto const beside = ((p.x - a.x) * (b.y - a.y) - (p.y - a.y) * (b.x - a.x)) / len;
        mc::require(std::abs(beside) < 0.01, "an element beside its track", "section ", si, " element ", k, " by ", beside);
        mc::require(along > -0.01 && along < 1.01, "an element beyond its track", "section ", si, " element ", k, " at ", along);
        if (last > -1) {
          mc::require(along > last + 0.02, "elements of a track out of order", "section ", si, " element ", k, " at ", along, " after ", last);
          if (gap > 0) mc::require(std::abs(along - last - gap) < 0.01, "elements of a track not evenly spaced", "section ", si, " element ", k, " gap ", along - last, " and ", gap);
          gap = along - last;
        }
        last = along;
        mc::step();
      }
    }
  }
}

std::vector<place> const PLACES = {{8.65, 49.87}, {8.702, 50.111}, {9.05, 49.9}, {7.9, 50.02}, {8.4, 49.01}};

// stations and how often each pair is joined
drawn network(int n, std::vector<int> const& joins) {
  drawn d;
  auto& t = d.t_;
  for (int s = 0; s < n; ++s) {
    t.station(std::string(1, static_cast<char>('A' + s)));
    auto const a = t.el(BUMPER, s), b = t.el(TRACK_END, s);
    t.section(s, 500 + s, a, 0, 0, b, 0, 100);
    d.at_[a] = {0, 0};
    d.at_[b] = {4.0 + s, 1};
  }
  int line = 1;
  std::size_t p = 0;
  for (int x = 0; x < n; ++x) {
    for (int y = x + 1; y < n; ++y, ++p) {
      for (int k = 0; k < joins[p]; ++k, ++line) {
        auto const a = t.el(BUMPER, x), u = t.el(BORDER, x), v = t.el(BORDER, y), b = t.el(TRACK_END, y);
        t.section(x, line, a, 0, 0, u, 0, 100);
        t.section(y, line, v, 0, 100, b, 0, 200);
        t.join(u, v, 1);
        d.at_[a] = {0, 1};
        d.at_[u] = {3, 1.0 + k};
        d.at_[v] = {1, 2.5 + k};
        d.at_[b] = {2, 0};
      }
    }
  }
  d.known_.resize(static_cast<std::size_t>(n));
  return d;
}

void known_stations() {
  mc::group("known stations");
  int const most = mc::tier(4, 5);
  mc::bound("stations", std::string("1 to ") + std::to_string(most) + ", every network, every set of known places; up to 6 tracks between two stations");
  for (int n = 1; n <= most; ++n) {
    auto const pairs = n * (n - 1) / 2;
    for (int g = 0; g < (1 << pairs); ++g) {
      // thick < 0: every join once; otherwise that join has 4, 5 or 6 tracks
      for (int thick = -1; thick < (n == 3 ? 3 * pairs : n == 4 ? pairs : 0); ++thick) {
        auto const which = n == 3 ? thick / 3 : thick;
        auto const tracks = n == 3 ? 4 + thick % 3 : 5;
        if (thick >= 0 && ((g >> which) & 1) == 0) continue;
        mc::run([&] { return mc::str(n, " stations, joined ", g, thick >= 0 ? mc::str(" join ", which, " with ", tracks, " tracks") : std::string{}); },
                [&] {
                  for (int k = 0; k < (1 << n); ++k) {
                    std::vector<int> joins(static_cast<std::size_t>(pairs), 0);
                    for (int p = 0; p < pairs; ++p) joins[static_cast<std::size_t>(p)] = (g >> p) & 1;
                    if (thick >= 0) joins[static_cast<std::size_t>(which)] = tracks;
                    auto d = network(n, joins);
                    for (int s = 0; s < n; ++s) {
                      if ((k >> s) & 1) d.known_[static_cast<std::size_t>(s)] = PLACES[static_cast<std::size_t>(s)];
                    }
                    d.csv_ = csv(d.t_, d.known_);
                    mc::trace();
                    auto const i = read(d);
                    check_stations(d, i);
                    check_elements(d, i);
                    mc::state(mc::str(n, " ", g, " ", thick, " ", k));
                  }
                });
      }
    }
  }
}

void lists_of_places() {
  mc::group("list of places");
  // a row is one of: a station with both, without a latitude, without a longitude, an unknown station
  static char const* const cols[3] = {"ds100", "lat", "lon"};
  mc::bound("list of places", std::string("up to ") + std::to_string(mc::tier(3, 4)) + " rows of 12, every order of the columns; no list");
  auto const row = [&](int r, int const* perm) -> std::string {
    auto const s = r / 4;
    std::string f[3] = {std::string(1, static_cast<char>('A' + s)), mc::str(49.5 + s * 0.25), mc::str(8.25 + s * 0.5)};
    if (r % 4 == 1) f[1].clear();
    if (r % 4 == 2) f[2].clear();
    if (r % 4 == 3) f[0] = "Z" + f[0];
    return f[perm[0]] + "," + f[perm[1]] + "," + f[perm[2]] + "\n";
  };
  int perm[3] = {0, 1, 2};
  do {
    mc::sequences(12, 0, mc::tier(3, 4), [&](std::vector<int> const& v) {
      mc::run([&] { return mc::str("columns ", perm[0], perm[1], perm[2], " rows ", mc::seq(v)); },
              [&] {
                auto d = network(3, {1, 0, 1});
                d.csv_ = std::string(cols[perm[0]]) + "," + cols[perm[1]] + "," + cols[perm[2]] + "\n";
                for (auto const r : v) {
                  *d.csv_ += row(r, perm);
                  if (r % 4 == 3) continue;
                  auto& k = d.known_[static_cast<std::size_t>(r / 4)];
                  if (r % 4 == 0) {
                    k = place{8.25 + r / 4 * 0.5, 49.5 + r / 4 * 0.25};
                  } else {
                    k.reset();  // the last row counts
                  }
                }
                auto const i = read(d);
                check_stations(d, i);
                mc::state(*d.csv_);
              });
    });
  } while (std::next_permutation(perm, perm + 3));
  for (int n = 1; n <= 3; ++n) {
    mc::run([&] { return mc::str(n, " stations, no list"); },
            [&] {
              auto d = network(n, std::vector<int>(static_cast<std::size_t>(n * (n - 1) / 2), 1));
              auto const i = read(d);
              check_stations(d, i);
              check_elements(d, i);
            });
  }
}

void drawings() {
  mc::group("drawings");
  std::vector<pt> grid = {{0, 0}, {3, 1}, {1, 4.5}, {-2, 2}};
  if (mc::thorough()) {
    grid.push_back({3, 0});
    grid.push_back({-2.25, -7});
  }
  std::vector<std::string> const pats = {"-", "S", "FS", "SUF", "hFMS"};
  mc::bound("drawings", std::string("5 shapes of a station, every element at one of ") + std::to_string(grid.size()) + " points, " + std::to_string(pats.size()) + " patterns of elements on the track");
  for (int shape = 0; shape < 5; ++shape) {
    static int const els[] = {2, 3, 3, 4, 5};
    mc::odometer(std::vector<int>(static_cast<std::size_t>(els[shape]), static_cast<int>(grid.size())), [&](std::vector<int> const& v) {
      if (shape == 4 && v[4] != (v[0] + 2 * v[1] + 3 * v[2] + v[3]) % static_cast<int>(grid.size())) return;
      mc::run([&] { return mc::str("shape ", shape, " points ", mc::seq(v)); },
              [&] {
                for (std::size_t pa = 0; pa < pats.size(); ++pa) {
                  auto const& p = pats[pa];
                  auto const& q = pats[(pa + static_cast<std::size_t>(v[0]) + 1) % pats.size()];
                  drawn d;
                  auto& t = d.t_;
                  t.station("A");
                  d.comma_ = pa % 2 == 1;
                  d.points_ = pa % 3 == 1;
                  switch (shape) {
                    case 0: {
                      auto const a = t.el(BUMPER), b = t.el(TRACK_END);
                      link(t, 0, 1, a, 0, b, 0, v[0] % 2 == 0, 100, p);
                      break;
                    }
                    case 1: {
                      auto const a = t.el(BUMPER), x = t.el(LINE_SWITCH), b = t.el(BUMPER);
                      link(t, 0, 1, a, 0, x, 0, v[1] % 2 == 0, 100, p);
                      link(t, 0, 2, x, 1, b, 0, v[2] % 2 == 0, 700, q);
                      break;
                    }
                    case 2: {
                      auto const a = t.el(BUMPER), x = t.el(KM_JUMP), b = t.el(BUMPER);
                      link(t, 0, 1, a, 0, x, 1, true, 100, p);
                      link(t, 0, 1, x, 0, b, 0, true, 700, q);
                      break;
                    }
                    case 3: {
                      auto const a = t.el(BUMPER), w = t.el(SWITCH_R), b = t.el(BUMPER), c = t.el(TRACK_END);
                      link(t, 0, 1, a, 0, w, 0, v[1] % 2 == 0, 100, p);
                      link(t, 0, 2, w, 1, b, 0, v[2] % 2 == 0, 200, q);
                      link(t, 0, 3, w, 2, c, 0, v[3] % 2 == 0, 200, p);
                      break;
                    }
                    default: {
                      auto const x = t.el(v[0] % 2 == 0 ? CROSS : CROSS_SWITCH);
                      t.E[static_cast<std::size_t>(x)].arc0_ = v[0] % 2 == 1;
                      for (int k = 0; k < 4; ++k) {
                        auto const b = t.el(BUMPER);
                        // tracks run from the left ends to the right ends
                        link(t, 0, 1 + k, b, 0, x, k, k % 2 == 0, 100, k % 2 == 0 ? p : q);
                      }
                    }
                  }
                  for (std::size_t e = 0; e < t.E.size(); ++e) d.at_[static_cast<int>(e)] = grid[static_cast<std::size_t>(v[e])];
                  d.known_ = {place{8.65, 49.87}};
                  d.csv_ = csv(t, d.known_);
                  mc::trace();
                  auto const i = read(d);
                  check_stations(d, i);
                  check_elements(d, i);
                  mc::state(mc::str(shape, " ", mc::seq(v), " ", pa));
                }
              });
    });
  }
}

void turns() {
  mc::group("turns");
  // two or three stations in a row, every place of their borders
  std::vector<pt> const grid = {{0, 3}, {5, 0.5}, {2, 7}, {6.5, 4}, {1, 1}};
  mc::bound("turns", std::string("2 or 3 stations, every border at one of ") + std::to_string(grid.size()) + " points, 3 arrangements of the stations");
  for (int n = 2; n <= 3; ++n) {
    mc::odometer(std::vector<int>(static_cast<std::size_t>(2 * (n - 1)), static_cast<int>(grid.size())), [&](std::vector<int> const& v) {
      for (int where = 0; where < 3; ++where) {
        mc::run([&] { return mc::str(n, " stations, borders at ", mc::seq(v), " arrangement ", where); },
                [&] {
                  drawn d;
                  auto& t = d.t_;
                  for (int s = 0; s < n; ++s) t.station(std::string(1, static_cast<char>('A' + s)));
                  for (int j = 0; j + 1 < n; ++j) {
                    auto const a = t.el(BUMPER, j), u = t.el(BORDER, j), w = t.el(BORDER, j + 1), b = t.el(BUMPER, j + 1);
                    t.section(j, 1 + j, a, 0, 0, u, 0, 100, pattern("SF", 0, 100));
                    t.section(j + 1, 1 + j, w, 0, 100, b, 0, 200, pattern("hUF", 100, 200));
                    t.join(u, w, 1);
                    d.at_[a] = {0, 0};
                    d.at_[u] = grid[static_cast<std::size_t>(v[static_cast<std::size_t>(2 * j)])];
                    d.at_[w] = grid[static_cast<std::size_t>(v[static_cast<std::size_t>(2 * j + 1)])];
                    d.at_[b] = {8, 8};
                  }
                  for (int s = 0; s < n; ++s) d.known_.push_back(PLACES[static_cast<std::size_t>((s + where) % 4)]);
                  // a station in between whose place is not known
                  if (where == 2) d.known_[1].reset();
                  d.csv_ = csv(t, d.known_);
                  auto const i = read(d);
                  check_stations(d, i);
                  check_elements(d, i);
                  mc::state(mc::str(n, " ", mc::seq(v), " ", where));
                });
      }
    });
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  known_stations();
  lists_of_places();
  drawings();
  turns();
  return mc::finish();
}
