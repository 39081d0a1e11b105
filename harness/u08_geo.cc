// U08: coordinates.  Grid of positions on the sphere, all ordered pairs, all
// moves over a grid of bearings and distances, against vector geometry.
#include "mc.h"

#include <cmath>
#include <numbers>

#include "soro/utls/coordinates/coordinates.h"
#include "soro/utls/coordinates/angle.h"
#include "soro/utls/coordinates/cartesian.h"
#include "soro/utls/coordinates/gps.h"
#include "soro/utls/coordinates/polar.h"

using soro::utls::cartesian;
using soro::utls::gps;
using soro::utls::polar;

namespace {

constexpr double R = 6378137.0;
// the code converts degrees with a rounded pi; results are accepted when they
// are exact for either value, so that a better constant is no violation
double pi = std::numbers::pi;
double rad(double d) { return d * pi / 180.0; }
double deg(double r) { return r * 180.0 / pi; }
template <typename Fn>
bool either(Fn&& ok) {
  for (double const p : {std::numbers::pi, 3.1415}) {
    pi = p;
    if (ok()) return true;
  }
  return false;
}

struct v3 {
  double x, y, z;
};
v3 vec(gps const& g) {
  return {std::cos(rad(g.lat_)) * std::cos(rad(g.lon_)), std::cos(rad(g.lat_)) * std::sin(rad(g.lon_)), std::sin(rad(g.lat_))};
}
double dot(v3 a, v3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
double len(v3 a) { return std::sqrt(dot(a, a)); }
v3 cross(v3 a, v3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }

double great_circle(gps const& a, gps const& b) {
  return R * std::atan2(len(cross(vec(a), vec(b))), dot(vec(a), vec(b)));
}
// initial course from a to b, degrees clockwise from north
double course(gps const& a, gps const& b) {
  v3 const north{-std::sin(rad(a.lat_)) * std::cos(rad(a.lon_)), -std::sin(rad(a.lat_)) * std::sin(rad(a.lon_)), std::cos(rad(a.lat_))};
  v3 const east{-std::sin(rad(a.lon_)), std::cos(rad(a.lon_)), 0.0};
  auto const t = vec(b);
  return deg(std::atan2(dot(t, east), dot(t, north)));
}
double turn(double a) {  // to (-180, 180]
  while (a > 180.0) a -= 360.0;
  while (a <= -180.0) a += 360.0;
  return a;
}
std::string p(gps const& g) { return mc::str("(lon ", g.lon_, ", lat ", g.lat_, ")"); }

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  double const dl = mc::tier(22.5, 7.5);
  std::vector<gps> grid;
  for (double lon = -180.0; lon <= 180.0; lon += dl) {
    for (double lat = -90.0; lat <= 90.0; lat += dl) {
      grid.push_back({.lon_ = lon, .lat_ = lat});
    }
  }
  for (auto const& [lo, la] : {std::pair{8.65, 49.87}, {8.66, 49.87}, {8.65, 49.88}, {-0.01, 0.01}, {0.02, -0.03}}) {
    grid.push_back({.lon_ = lo, .lat_ = la});
  }
  mc::bound("positions", grid.size());

  mc::group("positions");
  for (auto const& a : grid) {
    mc::run([&] { return p(a); }, [&] {
      mc::state(mc::str(a.lon_, "/", a.lat_));
      mc::require(a.valid(), "valid", p(a));
      mc::require(a.distance(a) == 0.0, "distance to itself", a.distance(a));
      auto const c = a.to_cartesian();
      mc::require(either([&] {
        auto const w = vec(a);
        return std::abs(c.x_ - R * w.x) < 1 && std::abs(c.y_ - R * w.y) < 1 && std::abs(c.z_ - R * w.z) < 1;
      }), "to_cartesian", p(a), " ", c.x_, " ", c.y_, " ", c.z_);
      mc::require(std::abs(std::sqrt(c.x_ * c.x_ + c.y_ * c.y_ + c.z_ * c.z_) - R) < 1.0, "radius", p(a));
      auto const g = c.to_gps();
      mc::require(std::abs(g.lat_ - a.lat_) < 1e-5, "round trip lat", p(a), " -> ", p(g));
      mc::require(std::abs(a.lat_) > 89.0 || std::abs(g.lon_ - a.lon_) < 1e-5, "round trip lon", p(a), " -> ", p(g));
      mc::step(4);
    });
  }
  mc::group("pairs");
  for (auto const& a : grid) {
    for (auto const& b : grid) {
      mc::run([&] { return p(a) + " " + p(b); }, [&] {
        auto const d = a.distance(b);
        auto const want = great_circle(a, b);
        mc::require(d >= 0 && either([&] {
          auto const w = great_circle(a, b);
          return std::abs(d - w) <= 0.5 + 1e-7 * w;
        }), "distance", d, " want ", want);
        mc::require(std::abs(d - b.distance(a)) < 0.01, "distance symmetric", d, " ", b.distance(a));
        if (want > 1000.0 && want < 1.9e7 && std::abs(a.lat_) < 89.0) {
          auto const br = a.bearing(b);
          auto const wb = course(a, b);
          mc::require(std::abs(br) <= 180.1, "bearing range", br);
          mc::require(either([&] { return std::abs(turn(br - course(a, b))) < 0.02; }), "bearing", br, " want ", wb);
        }
        mc::step(3);
      });
    }
  }
  mc::group("moves");
  double const db = mc::tier(30.0, 7.5);
  for (auto const& a : grid) {
    if (std::abs(a.lat_) > 80) continue;
    for (double b = -180.0; b < 360.0; b += db) {
      for (double const d : {0.0, 1.0, 10.0, 250.0, 5000.0, 100000.0, 1000000.0, 5000000.0}) {
        mc::run([&] { return mc::str(p(a), " move ", d, " m, ", b, " deg"); }, [&] {
          auto const m = a.move(d, b);
          auto const got = a.distance(m);
          mc::require(std::abs(got - d) <= 0.02 + 1e-6 * d, "moved distance", got, " want ", d, " at ", p(m));
          auto const near_pole = std::abs(m.lat_) > 85.0;
          if (d >= 10.0 && !near_pole) {
            auto const c = a.bearing(m);
            mc::require(std::abs(turn(c - b)) < 0.04, "moved bearing", c, " want ", b, " at ", p(m));
            auto const wc = course(a, m);
            mc::require(std::abs(turn(wc - b)) < 0.3, "moved course", wc, " want ", b, " at ", p(m));
          }
          mc::step(2);
        });
      }
    }
  }
  mc::group("bounding boxes");
  std::vector<gps> pts;
  for (double const lo : {-180.0, -8.5, 0.0, 8.65, 180.0}) {
    for (double const la : {-90.0, -1.0, 0.0, 50.5, 90.0}) pts.push_back({.lon_ = lo, .lat_ = la});
  }
  mc::sequences(static_cast<int>(pts.size()), 1, mc::tier(3, 3), [&](std::vector<int> const& s) {
    mc::run([&] { return "points " + mc::seq(s); }, [&] {
      std::vector<gps> v;
      double lo1 = 1e9, lo2 = -1e9, la1 = 1e9, la2 = -1e9;
      for (auto const i : s) {
        v.push_back(pts[i]);
        lo1 = std::min(lo1, pts[i].lon_);
        lo2 = std::max(lo2, pts[i].lon_);
        la1 = std::min(la1, pts[i].lat_);
        la2 = std::max(la2, pts[i].lat_);
      }
      auto const bb = soro::utls::get_bounding_box(v);
      mc::require(bb.south_west_.lon_ == lo1 && bb.south_west_.lat_ == la1 && bb.north_east_.lon_ == lo2 && bb.north_east_.lat_ == la2,
                  "bounding box", p(bb.south_west_), " ", p(bb.north_east_));
      mc::step();
    });
  });
  mc::group("plane");
  for (int x = -12; x <= 12; ++x) {
    for (int y = -12; y <= 12; ++y) {
      if (x == 0 && y == 0) continue;
      mc::run([&] { return mc::str("polar ", x, " ", y); }, [&] {
        polar const q(x, y);
        mc::require(std::abs(q.dist_ - std::hypot(x, y)) < 1e-9, "polar distance", q.dist_);
        mc::require(q.bearing_ >= 0 && q.bearing_ <= 360.1, "polar bearing range", q.bearing_);
        auto const want = -deg(std::atan2(y, -x));
        mc::require(std::abs(turn(q.bearing_ - want)) < 0.05, "polar bearing", q.bearing_, " want ", want);
        mc::step();
      });
    }
  }
  for (int i = -720; i <= 720; ++i) {
    mc::run([&] { return mc::str("angle ", i); }, [&] {
      double const d = i / 2.0;
      mc::require(std::abs(soro::utls::to_deg(soro::utls::to_rad(d)) - d) < 1e-9, "deg/rad round trip", d);
      mc::require(std::abs(soro::utls::to_rad(d) - rad(d)) < 1e-3, "to_rad", d);
      gps const g{.lon_ = d * 1.05, .lat_ = 0};
      mc::require(g.valid() == (std::abs(d * 1.05) <= 360.0), "valid range", d * 1.05);
      gps const h{.lon_ = 0, .lat_ = d * 1.05};
      mc::require(h.valid() == (std::abs(d * 1.05) <= 360.0), "valid range", d * 1.05);
      mc::step(3);
    });
  }
  mc::run([] { return std::string{"no position"}; }, [] { mc::require(!gps{}.valid(), "default valid", 0); });
  return mc::finish();
}
