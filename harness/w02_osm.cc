// W02: the map written for the tiles.  Every track topology, and station
// boundaries in every relative position, is exported for every number of
// processors and every order of the export tasks; the map is read back and
// compared with the infrastructure it was made of.
#include "tasks.h"
#include "topologies.h"

#include <array>
#include <cmath>
#include <numbers>

#include "pugixml.hpp"

#include "soro/infrastructure/parsers/iss/parse_iss.h"
#include "soro/server/modules/tiles/osm_export/interpolation.h"
#include "soro/server/modules/tiles/osm_export/osm_export.h"

using namespace iss;
using soro::utls::gps;
namespace osm = soro::server::osm_export;

namespace {

struct v3 {
  double x, y, z;
};
constexpr double pi = 3.1415;  // as everywhere in the repository
double rad(double d) { return d * pi / 180.0; }
v3 unit(gps const& g) { return {std::cos(rad(g.lat_)) * std::cos(rad(g.lon_)), std::cos(rad(g.lat_)) * std::sin(rad(g.lon_)), std::sin(rad(g.lat_))}; }
v3 mix(v3 a, v3 b, double t) { return {a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t, a.z + (b.z - a.z) * t}; }
double norm(v3 a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
double gap(v3 a, v3 b) { return norm({a.x - b.x, a.y - b.y, a.z - b.z}); }

std::string show(gps const& g) { return mc::str("(", g.lon_, " ", g.lat_, ")"); }

// the track leaves a station border straight on: a point on the line from the
// element before it through the border
gps straight_on(gps const& e, gps const& other, gps const& before) {
  auto const c = std::sin(rad(e.lat_)) * std::sin(rad(other.lat_)) + std::cos(rad(e.lat_)) * std::cos(rad(other.lat_)) * std::cos(rad(e.lon_ - other.lon_));
  auto const units = 0.2 * (6378.137 * pi * std::acos(std::min(1.0, c)) / 180.0);
  auto const dx = e.lon_ - before.lon_, dy = e.lat_ - before.lat_;
  auto r = e;
  // less than a hundredth of a degree counts as due north or south
  if (std::abs(dx) < 0.01) {
    r.lat_ += (dy > 0 ? 1 : -1) * units / 1e6;
    return r;
  }
  // the steeper the line, the shorter the step
  auto const g = dy / dx;
  double scale = 1;
  while (std::abs(g) >= scale && scale < 1e7) scale *= 10;
  if (scale == 1e7) scale = 1e8;
  auto const u = units / scale;
  r.lon_ += (dx > 0 ? u : -u);
  r.lat_ += (dx > 0 ? 1 : -1) * g * u;
  return r;
}

constexpr double eps = 2e-6;  // a few steps of a person; close borders are hard to tell apart
bool near(gps const& a, gps const& b, double tol = eps) { return std::abs(a.lon_ - b.lon_) < tol && std::abs(a.lat_ - b.lat_) < tol; }

// the curve between two borders
void check_curve(std::vector<gps> const& pts, gps const& p1, gps const& a1, gps const& a2, gps const& p4, std::string const& d) {
  mc::eq(pts.size(), std::size_t{50}, "points of a connection", d);
  auto const w1 = unit(p1), w2 = unit(a1), w3 = unit(a2), w4 = unit(p4);
  // no point is farther from an end than the points it hangs on
  auto const reach = std::max({gap(w1, w4), gap(w1, w2), gap(w1, w3), gap(w4, w2), gap(w4, w3)});
  for (std::size_t k = 0; k < pts.size(); ++k) {
    auto const& p = pts[k];
    mc::require(std::isfinite(p.lon_) && std::isfinite(p.lat_), "a point of a connection is nowhere", d, " point ", k);
    auto const t = (2.0 * static_cast<double>(k) + 1) / 100;
    auto const ab = mix(w1, w2, t), bc = mix(w2, w3, t), cd = mix(w3, w4, t);
    auto const at = mix(mix(ab, bc, t), mix(bc, cd, t), t);
    gps const want{.lon_ = std::atan2(at.y, at.x) * 180 / pi, .lat_ = std::asin(at.z) * 180 / pi};
    mc::require(near(p, want), "a point of a connection", d, " point ", k, ": ", show(p), " want ", show(want));
    mc::require(gap(unit(p), w1) <= reach + 1e-6 && gap(unit(p), w4) <= reach + 1e-6, "a point of a connection is out of the way", d, " point ", k, ": ", show(p));
  }
}

gps before(inf::element_ptr e, inf::element_ptr other, soro::vector<gps> const& pos, bool& any) {
  any = false;
  gps r{};
  for (auto const n : e->neighbours()) {
    if (n == nullptr || n->id() == other->id()) continue;
    any = true;
    r = pos[n->id()];
  }
  return r;
}

void check_interpolation(std::vector<gps> const& pts, inf::element_ptr a, inf::element_ptr b, soro::vector<gps> const& pos, std::string const& d) {
  bool any = false;
  auto const n1 = before(a, b, pos, any);
  auto const a1 = any ? straight_on(pos[a->id()], pos[b->id()], n1) : pos[a->id()];
  auto const n2 = before(b, a, pos, any);
  auto const a2 = any ? straight_on(pos[b->id()], pos[a->id()], n2) : pos[b->id()];
  check_curve(pts, pos[a->id()], a1, a2, pos[b->id()], d);
}

// ---------------------------------------------------------------- the map

using tag_list = std::map<std::string, std::string>;
tag_list tags_of(pugi::xml_node n) {
  tag_list r;
  for (auto const t : n.children("tag")) {
    mc::require(r.emplace(t.attribute("k").value(), t.attribute("v").value()).second, "a tag is there twice", t.attribute("k").value());
  }
  return r;
}
std::string text(pugi::xml_document const& d) {
  std::ostringstream o;
  d.save(o);
  return o.str();
}
unsigned long long id_of(pugi::xml_node n) {
  std::string const s = n.attribute("id").value();
  mc::require(!s.empty() && s.find_first_not_of("0123456789") == std::string::npos, "id of a part of the map", s);
  return std::stoull(s);
}
gps place_of(pugi::xml_node n) { return {.lon_ = n.attribute("lon").as_double(gps::INVALID), .lat_ = n.attribute("lat").as_double(gps::INVALID)}; }

void check_map(pugi::xml_document const& doc, inf::infrastructure_t const& i, std::string const& d) {
  auto const root = doc.child("osm");
  mc::require(root && std::string(root.attribute("version").value()) == "0.6" && doc.first_child() == root && !root.next_sibling(), "the map", d);

  std::map<unsigned long long, pugi::xml_node> nodes;
  std::set<std::pair<unsigned long long, unsigned long long>> ways;
  std::set<unsigned long long> way_ids;
  std::set<std::size_t> stations, elements;
  std::set<unsigned long long> bends;
  std::map<unsigned long long, unsigned long long> element_of;
  for (auto const n : root.children()) {
    std::string const name = n.name();
    auto const id = id_of(n);
    auto const ts = tags_of(n);
    mc::step();
    if (name == "node") {
      mc::require(nodes.emplace(id, n).second, "two parts of the map with one id", d, " ", id);
      auto const type = ts.contains("type") ? ts.at("type") : "";
      auto const at = place_of(n);
      if (type == "station") {
        auto const s = std::stoul(ts.at("id"));
        mc::require(s < i.stations_.size() && stations.insert(s).second, "a station on the map", d, " ", s);
        auto const& ds = i.stations_[static_cast<std::uint32_t>(s)]->ds100_;
        mc::require((ts == tag_list{{"type", "station"}, {"id", ts.at("id")}, {"name", std::string(ds.data(), ds.size())}}), "tags of a station", d);
        mc::require(near(at, i.station_positions_[static_cast<std::uint32_t>(s)], 1e-9), "place of a station", d, " ", show(at));
      } else if (type == "element") {
        auto const k = std::stoul(ts.at("id"));
        mc::require(k < i.graph_.elements_.size() && elements.insert(k).second, "an element on the map", d, " ", k);
        mc::eq(id, k, "id of an element on the map", d);
        auto const e = i.graph_.elements_[k];
        bool const rises = e->is_directed_track_element() ? e->as<inf::track_element>().rising_ : e->rising();
        mc::require((ts == tag_list{{"type", "element"}, {"id", ts.at("id")}, {"subtype", e->get_type_str()}, {"direction", rises ? "rising" : "falling"}}), "tags of an element", d, " ", k);
        mc::require(near(at, i.element_positions_[static_cast<std::uint32_t>(k)], 1e-9), "place of an element", d, " ", k, " ", show(at));
      } else {
        mc::require((ts == tag_list{{"type", "interpolation"}}), "a node of the map", d, " type ", type);
        bends.insert(id);
      }
    } else {
      mc::require(name == "way" && way_ids.insert(id).second, "two parts of the map with one id", d, " ", name, " ", id);
      mc::require((ts == tag_list{{"railway", "rail"}}), "tags of a way", d);
      std::vector<unsigned long long> ref;
      for (auto const r : n.children("nd")) ref.push_back(std::stoull(r.attribute("ref").value()));
      mc::eq(ref.size(), std::size_t{2}, "nodes of a way", d);
      mc::require(ways.insert({std::min(ref[0], ref[1]), std::max(ref[0], ref[1])}).second, "a way is there twice", d, " ", ref[0], "-", ref[1]);
    }
  }
  mc::eq(stations.size(), i.stations_.size(), "stations on the map", d);
  mc::eq(elements.size(), i.graph_.elements_.size(), "elements on the map", d);
  std::map<unsigned long long, std::vector<unsigned long long>> at;
  for (auto const& [a, b] : ways) {
    mc::require(nodes.contains(a) && nodes.contains(b), "a way to what is not on the map", d, " ", a, "-", b);
    at[a].push_back(b);
    if (a != b) at[b].push_back(a);
  }
  // neighbours are joined, directly or over a curve, and nothing else is
  std::size_t used = 0, curves = 0;
  std::set<std::pair<std::size_t, std::size_t>> joined;
  for (auto const& e : i.graph_.elements_) {
    for (auto const n : e->neighbours()) {
      if (n == nullptr || !joined.insert(std::minmax<std::size_t>(e->id(), n->id())).second) continue;
      if (i.element_to_station_.at(e->id()) == i.element_to_station_.at(n->id())) {
        mc::require(ways.contains(std::minmax<unsigned long long>(e->id(), n->id())), "neighbours are not joined", d, " ", e->id(), "-", n->id());
        ++used;
        continue;
      }
      ++curves;
      // walk the curve
      std::vector<unsigned long long> walk;
      for (auto const first : at[e->id()]) {
        if (!bends.contains(first)) continue;
        std::vector<unsigned long long> w{first};
        unsigned long long from = e->id(), x = first;
        while (bends.contains(x)) {
          mc::eq(at[x].size(), std::size_t{2}, "ways at a point of a connection", d, " ", x);
          auto const y = at[x][0] == from ? at[x][1] : at[x][0];
          from = x, x = y;
          if (bends.contains(x)) w.push_back(x);
          mc::require(w.size() <= bends.size(), "a connection goes round in circles", d);
        }
        if (x == n->id()) {
          mc::require(walk.empty(), "neighbours are joined twice", d);
          walk = w;
        }
      }
      mc::require(!walk.empty(), "stations are not joined", d, " ", e->id(), "-", n->id());
      used += walk.size() + 1;
      std::vector<gps> pts;
      for (auto const w : walk) pts.push_back(place_of(nodes[w])), bends.erase(w);
      check_interpolation(pts, e, n, i.element_positions_, d);
    }
  }
  mc::eq(used, ways.size(), "ways of the map", d);
  mc::require(bends.empty(), "points that belong to no connection", d);
  mc::state(mc::str(elements.size(), "|", stations.size(), "|", used, "|", curves));
}

inf::infrastructure_t read(fs::path const& dir, fs::path const& list) {
  inf::infrastructure_options o;
  o.interlocking_ = false;
  o.exclusions_ = false;
  o.layout_ = true;
  o.infrastructure_path_ = dir;
  o.gps_coord_path_ = list;
  return inf::parse_iss(o);
}

std::vector<std::pair<unsigned, int>> plans;
void plan(unsigned processors, int order) {
  tasks::ctl().processors_ = processors;
  tasks::ctl().order_ = [order](std::size_t k) {
    std::vector<std::size_t> v(k);
    for (std::size_t x = 0; x < k; ++x) v[x] = x;
    if (order < 0) std::reverse(v.begin(), v.end());
    for (int x = 0; x < order && k > 1; ++x) std::next_permutation(v.begin(), v.end());
    return v;
  };
  tasks::control_loops();
}

void topology(std::string const& d, topo const& src) {
  mc::run([&] { return d; },
          [&] {
            auto t = src;
            auto const dir = write(t);
            auto const list = dir.parent_path() / "places.csv";
            std::string csv = "ds100,lat,lon\n";
            double lat = 50, lon = 8;
            for (auto const& s : t.T) {
              csv += mc::str(s.name_, ",", lat, ",", lon, "\n");
              lat += 0.125, lon += 0.25;
            }
            put(list, csv);
            plan(1, 0);
            auto const i = read(dir, list);
            std::string first;
            for (auto const& [processors, order] : plans) {
              plan(processors, order);
              auto const how = mc::str(processors, " processors, order ", order);
              auto const doc = osm::export_to_osm(i);
              auto const now = text(doc);
              mc::trace();
              if (first.empty()) {
                first = now;
                check_map(doc, i, how);
                // and written to a file
                auto const out = dir.parent_path() / "out.osm";
                fs::remove(out);
                plan(processors, order);
                osm::export_and_write(i, out);
                pugi::xml_document again;
                mc::require(static_cast<bool>(again.load_file(out.c_str())) && text(again) == first, "the map in its file", how);
              }
              mc::require(now == first, "the map depends on the number of processors", how);
            }
          });
}

// two stations next to each other, drawn in every position to one another
void positions() {
  mc::group("connections");
  std::vector<std::pair<double, double>> const bases = {{8.5, 50.0}, {0, 0}, {-0.0625, 50}, {179.5, -33}, {13.377, 52.516}, {8.5, 47.057}, {9, 47.376}, {10, 52.016}};
  std::vector<double> const off = mc::thorough() ? std::vector<double>{0, 1e-12, -1e-9, 1e-6, -1e-5, 2e-5, 1e-3, -0.01, 0.1, -0.5, 1, 5} : std::vector<double>{0, 1e-9, -1e-6, 2e-5, -0.01, 0.1, 1};
  std::vector<std::pair<double, double>> in;
  for (double const dx : {-1.7, -0.013, -0.0099, -2.1e-5, 0.0, 3e-7, 1.3e-3, 0.011, 0.23}) {
    for (double const dy : {-4.1, -3e-3, -4.1e-6, 0.0, 1.1e-5, 5e-3, 0.17, 1.9, 17.0, 31.0}) in.emplace_back(dx, dy);
  }
  if (!mc::thorough()) {
    std::vector<std::pair<double, double>> some;
    for (std::size_t k = 0; k < in.size(); k += 2) some.push_back(in[k]);
    in = some;
  }
  mc::bound("connections", mc::str(bases.size(), " places x ", off.size() * off.size(), " offsets of the other border x ", in.size(), "^2 directions of the tracks, both ways"));
  // a line over two stations, with and without a track behind the border
  topo t;
  auto const A = t.station("Aa"), B = t.station("Bb");
  auto const x = t.el(BUMPER, A), y = t.el(TRACK_END, B);
  auto const b1 = t.el(BORDER, A), b2 = t.el(BORDER, B);
  link(t, A, 1, x, 0, b1, 0, true, 1000, "-");
  link(t, B, 1, b2, 0, y, 0, true, 1100, "-");
  t.join(b1, b2, 1);
  t.finish();
  std::optional<inf::infrastructure_t> infra;
  inf::element_ptr e1 = nullptr, e2 = nullptr;
  soro::vector<gps> pos;
  std::uint32_t i1 = 0, i2 = 0;
  auto const prepare = [&] {
    if (infra) return;
    plan(1, 0);
    auto const dir = write(t);
    put(dir.parent_path() / "places.csv", "ds100,lat,lon\nAa,50,8\n");
    infra.emplace(read(dir, dir.parent_path() / "places.csv"));
    pos = infra->element_positions_;
    for (auto const& e : infra->graph_.elements_) {
      if (!e->is(inf::type::BORDER)) continue;
      if (infra->element_to_station_.at(e->id())->ds100_ == "Aa") e1 = e;
      if (infra->element_to_station_.at(e->id())->ds100_ == "Bb") e2 = e;
    }
    mc::require(e1 != nullptr && e2 != nullptr, "the borders");
    for (auto const n : e1->neighbours()) {
      if (n != nullptr && n != e2) i1 = static_cast<std::uint32_t>(n->id());
    }
    for (auto const n : e2->neighbours()) {
      if (n != nullptr && n != e1) i2 = static_cast<std::uint32_t>(n->id());
    }
  };
  for (auto const& base : bases) {
    for (auto const dx : off) {
      for (auto const dy : off) {
        for (auto const& n1 : in) {
          mc::run([&] { return mc::str("border at ", base.first, " ", base.second, ", other by ", dx, " ", dy, ", track by ", n1.first, " ", n1.second); },
                  [&] {
                    prepare();
                    gps const p1{.lon_ = base.first, .lat_ = base.second}, p2{.lon_ = base.first + dx, .lat_ = base.second + dy};
                    pos[static_cast<std::uint32_t>(e1->id())] = p1;
                    pos[static_cast<std::uint32_t>(e2->id())] = p2;
                    pos[i1] = {.lon_ = p1.lon_ - n1.first, .lat_ = p1.lat_ - n1.second};
                    for (auto const& n2 : in) {
                      pos[i2] = {.lon_ = p2.lon_ - n2.first, .lat_ = p2.lat_ - n2.second};
                      auto const d = mc::str("other track by ", n2.first, " ", n2.second);
                      auto const there = osm::compute_interpolation(e1, e2, pos), back = osm::compute_interpolation(e2, e1, pos);
                      mc::step(2);
                      mc::require(there.first_elem_ == e1->id() && there.second_elem_ == e2->id() && back.first_elem_ == e2->id() && back.second_elem_ == e1->id(), "ends of a connection", d);
                      check_interpolation(there.points_, e1, e2, pos, d);
                      mc::eq(back.points_.size(), there.points_.size(), "points of a connection", d);
                      for (std::size_t k = 0; k < there.points_.size(); ++k) {
                        mc::require(near(there.points_[k], back.points_[back.points_.size() - 1 - k]), "a connection is not the same both ways", d, " point ", k);
                      }
                    }
                    mc::state(mc::str(base.first, "|", dx, "|", dy));
                  });
        }
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  plans = {{1, 0}, {0, 0}, {2, 0}, {2, 1}, {5, -1}, {64, 0}};
  if (mc::thorough()) {
    for (int k = 0; k < 6; ++k) plans.push_back({3, k});
    for (unsigned k = 4; k < 12; ++k) plans.push_back({k, 0}), plans.push_back({k, -1});
  } else {
    plans.push_back({3, 2});
    plans.push_back({3, 5});
  }
  mc::bound("processors and orders", mc::str(plans.size(), " plans over 0..", mc::thorough() ? 11 : 5, " and 64 processors; tasks in every order for up to ", mc::thorough() ? 3 : 2, " processors"));
  positions();
  each(topology);
  return mc::finish();
}
