// R02: rolling stock.  Core data describing vehicles is written in every way
// within the bounds, read by the real parser, and looked up and evaluated.
#include "topologies.h"
#include "trains.h"

#include "soro/rolling_stock/rolling_stock.h"
#include "soro/rolling_stock/rolling_stock_error.h"

using namespace iss;
namespace rs = soro::rs;
namespace si = soro::si;

namespace {

struct mpiece {
  double f1_, f2_, f3_, from_, to_;
};
struct mvariant {
  unsigned id_;
  std::string name_;
  double tons_, kmh_, r1_, r2_, r3_;
  std::vector<mpiece> pieces_;
};
struct mseries {
  std::string nr_, owner_;
  std::vector<mvariant> variants_;
};

// numbers are written with a comma or a point
std::string number(double d, bool comma) {
  auto s = mc::str(d);
  if (comma) std::replace(s.begin(), s.end(), '.', ',');
  return s;
}
std::string xml(mseries const& s, bool comma) {
  auto const n = [&](char const* tag, double d) { return mc::str("<", tag, ">", number(d, comma), "</", tag, ">"); };
  std::string r = mc::str("<Triebfahrzeugbaureihe><Nr>", s.nr_, "</Nr><Eisenbahnunternehmen Nr=\"", s.owner_, "\">X</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>");
  for (auto const& v : s.variants_) {
    r += mc::str("<Triebfahrzeugbaureihenvariante><Variante>", v.id_, "</Variante><Bezeichnung>", v.name_, "</Bezeichnung>", n("EigenGewicht", v.tons_), n("ZulaessigeGeschwindigkeit", v.kmh_),
                 n("Laufwiderstandsfaktor1", v.r1_), n("Laufwiderstandsfaktor2", v.r2_), n("Laufwiderstandsfaktor3", v.r3_), "<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren>");
    for (auto const& p : v.pieces_) {
      r += mc::str("<Zugkraftfaktor>", n("Faktor1", p.f1_), n("Faktor2", p.f2_), n("Faktor3", p.f3_), n("GeschwindigkeitVon", p.from_), n("GeschwindigkeitBis", p.to_), "</Zugkraftfaktor>");
    }
    r += "</Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>";
  }
  return r + "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe>";
}
inf::infrastructure read(std::vector<mseries> const& v, bool comma) {
  auto t = row({"S"}, true, false, false);
  t.core_ = core_defaults(100) + "<Triebfahrzeugbaureihen>";
  for (auto const& s : v) t.core_ += xml(s, comma);
  t.core_ += "</Triebfahrzeugbaureihen>";
  return load(write(t));
}

bool same(double a, double b) { return std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)}); }

// a curve that has no gaps and no overlaps
bool continuous(mvariant const& v) {
  for (std::size_t k = 0; k + 1 < v.pieces_.size(); ++k) {
    if (v.pieces_[k].to_ != v.pieces_[k + 1].from_) return false;
  }
  return !v.pieces_.empty();
}
double pull(mvariant const& v, double kmh) {
  for (auto const& p : v.pieces_) {
    if (kmh < p.to_) return 1000 * (p.f1_ + p.f2_ * kmh + p.f3_ * kmh * kmh);
  }
  return -1;
}
double drag(mvariant const& v, double kmh) {
  return 9.81 * (v.tons_ * 1000 * (v.r1_ / 1000 + v.r2_ / 1000 * kmh) + v.r3_ * kmh * kmh);
}

std::vector<double> speeds(mvariant const& v) {
  std::set<double> r = {0, 0.5, 17, 39.999, 40, 40.001, 79.99, 120};
  for (auto const& p : v.pieces_) {
    for (auto b : {p.from_, p.to_}) {
      r.insert(b + 0.001);
      if (b > 0) r.insert(b - 0.001);
    }
  }
  std::vector<double> out;
  for (auto s : r) {
    if (!v.pieces_.empty() && s < v.pieces_.back().to_) out.push_back(s);
  }
  return out;
}

void compare(rs::traction_vehicle const& got, mvariant const& v) {
  mc::step();
  mc::require(std::string_view(got.name_.data(), got.name_.size()) == v.name_, "name of a vehicle", v.name_);
  mc::require(same(got.weight_.val_, v.tons_ * 1000), "weight of a vehicle", got.weight_.val_, " want ", v.tons_ * 1000);
  mc::require(same(got.max_speed_.val_, v.kmh_ / 3.6), "highest speed of a vehicle", got.max_speed_.val_ * 3.6, " want ", v.kmh_);
  mc::require(got.tractive_curve_.pieces_.size() == v.pieces_.size(), "number of pieces", got.tractive_curve_.pieces_.size());
  for (auto s : speeds(v)) {
    auto const x = si::from_km_h(s);
    mc::require(same(got.tractive_curve_(x).val_, pull(v, s)), "tractive force", got.tractive_curve_(x).val_, " want ", pull(v, s), " at ", s);
    mc::require(same(got.resistance_curve_(x).val_, drag(v, s)), "resistance", got.resistance_curve_(x).val_, " want ", drag(v, s), " at ", s);
  }
}

mvariant simple(unsigned id, double tons = 80, double kmh = 120) {
  return {id, mc::str("V", id), tons, kmh, 2, 0.5, 0.25, {{250 + id * 1.0, -1.5, 0.0625, 0, 60}, {180, 0, -0.0078125, 60, 200}}};
}

// whichever series there are, each is found by its own names only
void lookups() {
  mc::group("lookups");
  std::vector<std::string> const nrs = {"42", "4", "420", "185-1", ""}, owners = {"8000", "80", "0", ""};
  std::vector<std::pair<int, int>> pairs;
  for (int a = 0; a < 5; ++a) {
    for (int b = 0; b < 4; ++b) {
      if ((a == 4) != (b == 3)) pairs.emplace_back(a, b);
      else if (a < 4 && b < 3) pairs.emplace_back(a, b);
    }
  }
  std::vector<std::vector<unsigned>> const ids = {{1}, {1, 2}, {7, 1, 12}, {0, 4294967295U}, {}};
  auto const all = [&](std::vector<mseries> const& v) {
    auto const infra = read(v, false);
    auto const& stock = infra->rolling_stock_;
    mc::eq(stock.train_series_.size(), v.size(), "number of series");
    for (auto const& nr : nrs) {
      for (auto const& owner : owners) {
        for (unsigned id : {0U, 1U, 2U, 7U, 12U, 3U, 4294967295U}) {
          // views that are not terminated
          std::string const a = nr + "0", b = owner + "0";
          auto const got = stock.get_traction_vehicle(std::string_view(a).substr(0, nr.size()), std::string_view(b).substr(0, owner.size()), id);
          mvariant const* want = nullptr;
          for (auto const& s : v) {
            if (s.nr_ != nr || s.owner_ != owner) continue;
            for (auto const& x : s.variants_) {
              if (x.id_ == id) want = &x;
            }
          }
          mc::require(got.has_value() == (want != nullptr), "whether a vehicle is found", nr, "/", owner, "/", id);
          if (want != nullptr) {
            compare(*got, *want);
          } else {
            mc::require(got.error() == soro::error::rolling_stock::TRACTION_VEHICLE_NOT_FOUND, "error of a lookup", got.error().message());
          }
        }
      }
    }
  };
  auto const n = static_cast<int>(pairs.size()), m = static_cast<int>(ids.size());
  int const most = mc::tier(2, 3);
  mc::bound("lookups", mc::str("all sets of up to ", most, " of ", n, " series, ", m, " sets of variants; all names, owners and variants looked up"));
  mc::sequences(n, 0, most, [&](std::vector<int> const& v) {
    for (std::size_t k = 0; k + 1 < v.size(); ++k) {
      // any order, none twice
      for (std::size_t j = k + 1; j < v.size(); ++j) {
        if (v[k] == v[j]) return;
      }
    }
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < (v.size() > 1 ? m : 1); ++j) {
        if (v.size() > 2 && (i + j) % 3 != 0) continue;
        mc::run([&] { return mc::str("series ", mc::seq(v), " variants ", i, " ", j); },
                [&] {
                  std::vector<mseries> s;
                  for (std::size_t k = 0; k < v.size(); ++k) {
                    auto const [a, b] = pairs[static_cast<std::size_t>(v[k])];
                    mseries x{nrs[static_cast<std::size_t>(a)], owners[static_cast<std::size_t>(b)], {}};
                    for (auto id : ids[static_cast<std::size_t>(k == 0 ? i : j)]) {
                      x.variants_.push_back(simple(id, 80 + static_cast<double>(k)));
                    }
                    s.push_back(x);
                  }
                  all(s);
                  mc::trace();
                });
      }
    }
  });
}

void curves() {
  mc::group("curves");
  std::vector<double> const cuts = {0, 40, 41, 80, 160};
  struct factor {
    double a_, b_, c_;
  };
  std::vector<factor> const fs = {{300, 0, 0}, {0, 2.5, 0}, {0, 0, 0.125}, {250.75, -1.5, 0.0078125}, {120, 0.25, -0.5}};
  auto const nc = static_cast<int>(cuts.size()), nf = static_cast<int>(fs.size());
  // every list of pieces; series of one variant each besides one that is always fine
  std::vector<std::vector<mpiece>> lists;
  lists.push_back({});
  int const most = mc::tier(3, 4);
  mc::bound("curves", mc::str("all lists of up to ", most, " pieces between five speeds, with gaps and overlaps, five kinds of factors, points and commas"));
  auto const rec = [&](auto const& self, std::vector<mpiece>& cur) -> void {
    if (!cur.empty()) lists.push_back(cur);
    if (static_cast<int>(cur.size()) == most) return;
    for (int a = 0; a < nc; ++a) {
      for (int b = a + 1; b < nc; ++b) {
        // the beginning of the curve is free, what follows begins near the end of what is before
        if (cur.empty() ? a != 0 : cuts[static_cast<std::size_t>(a)] + 1 < cur.back().to_) continue;
        if (cur.size() >= 2 && cuts[static_cast<std::size_t>(a)] > cur.back().to_ + 40) continue;
        auto const k = (a * 3 + b + static_cast<int>(cur.size())) % nf;
        for (int f = 0; f < (cur.empty() ? nf : 2); ++f) {
          auto const& x = fs[static_cast<std::size_t>((k + f) % nf)];
          cur.push_back({x.a_, x.b_, x.c_, cuts[static_cast<std::size_t>(a)], cuts[static_cast<std::size_t>(b)]});
          self(self, cur);
          cur.pop_back();
        }
      }
    }
  };
  std::vector<mpiece> cur;
  rec(rec, cur);
  std::vector<std::array<double, 3>> const res = {{0, 0, 0}, {2, 0, 0}, {0, 1.5, 0}, {0, 0, 0.75}, {1.25, 0.5, 0.03125}};
  std::size_t const chunk = 60;
  for (std::size_t at = 0; at < lists.size(); at += chunk) {
    for (int comma = 0; comma < 2; ++comma) {
      mc::run([&] { return mc::str("pieces ", at, comma ? " commas" : " points"); },
              [&] {
                std::vector<mseries> v;
                for (std::size_t k = at; k < std::min(at + chunk, lists.size()); ++k) {
                  auto const& r = res[k % res.size()];
                  mvariant x{3, mc::str("N", k), 20.5 + static_cast<double>(k % 7), 60.0 + static_cast<double>(k % 11) * 12.5, r[0], r[1], r[2], lists[k]};
                  mseries s{mc::str(k), "1", {}};
                  // what else there is in the series does not matter
                  if (k % 3 == 0) s.variants_.push_back(simple(1));
                  s.variants_.push_back(x);
                  if (k % 2 == 0) s.variants_.push_back(simple(9));
                  v.push_back(s);
                }
                auto const infra = read(v, comma == 1);
                mc::eq(infra->rolling_stock_.train_series_.size(), v.size(), "number of series");
                for (auto const& s : v) {
                  for (auto const& x : s.variants_) {
                    auto const got = infra->rolling_stock_.get_traction_vehicle(s.nr_, s.owner_, x.id_);
                    std::string how;
                    for (auto const& p : x.pieces_) how += mc::str(p.from_, "-", p.to_, " ");
                    mc::require(got.has_value() == continuous(x), "whether a vehicle with such a curve exists", how);
                    if (got) compare(*got, x);
                    mc::state(mc::str(how, x.r1_, x.r2_));
                  }
                }
                mc::trace();
              });
    }
  }
}

void trains() {
  mc::group("trains");
  std::vector<mvariant> const kinds = {{1, "A", 80, 120, 2, 0.5, 0.25, {{300, 0, 0, 0, 60}, {240, -1, 0, 60, 200}}},
                                       {2, "B", 45.5, 80, 1, 0, 0.5, {{100, 0.25, 0, 0, 200}}},
                                       {3, "C", 120, 160, 0, 0.25, 0, {{50, 0, 0.0078125, 0, 30}, {70, 0, 0, 30, 90}, {20, 0.5, 0, 90, 200}}}};
  mc::bound("trains", mc::str("all trains of up to three of three vehicles, four highest speeds, freight and ctc"));
  mc::sequences(3, 1, 3, [&](std::vector<int> const& v) {
    mc::run([&] { return mc::str("train of ", mc::seq(v)); },
            [&] {
              mseries s{"1", "1", kinds};
              auto const infra = read({s}, false);
              soro::vector<rs::traction_vehicle> tv;
              double most = 1e9;
              for (auto k : v) {
                auto const& x = kinds[static_cast<std::size_t>(k)];
                tv.emplace_back(*infra->rolling_stock_.get_traction_vehicle("1", "1", x.id_));
                most = std::min(most, x.kmh_);
              }
              for (std::size_t k = 0; k < tv.size(); ++k) tv[k].deacceleration_ = si::from_m_s2(-0.7 - 0.1 * static_cast<double>(k));
              for (double limit : {60.0, 80.0, 100.0, 300.0}) {
                for (int f = 0; f < 4; ++f) {
                  rs::train_physics const p(tv, si::from_ton(321.5), si::from_m(123.25), si::from_km_h(limit), (f & 1) ? rs::CTC::YES : rs::CTC::NO, (f & 2) ? rs::FreightTrain::YES : rs::FreightTrain::NO);
                  mc::step();
                  mc::require(same(p.max_speed().val_, std::min(most, limit) / 3.6), "highest speed of a train", p.max_speed().val_ * 3.6);
                  mc::require(si::as_m(p.length()) == 123.25 && same(p.weight().val_, 321500), "length and weight of a train", "");
                  mc::require((p.ctc() == rs::CTC::YES) == ((f & 1) != 0) && (p.freight() == rs::FreightTrain::YES) == ((f & 2) != 0), "kind of a train", "");
                  mc::require(p.deacceleration().val_ == -0.7, "braking of a train", p.deacceleration().val_);
                  for (double x : {0.0, 10.0, 29.5, 30.5, 59.9, 60.1, 89.0, 91.0, 150.0}) {
                    double f1 = 0, f2 = 0;
                    for (auto k : v) f1 += pull(kinds[static_cast<std::size_t>(k)], x), f2 += drag(kinds[static_cast<std::size_t>(k)], x);
                    mc::require(same(p.tractive_force(si::from_km_h(x)).val_, f1), "tractive force of a train", p.tractive_force(si::from_km_h(x)).val_, " want ", f1);
                    mc::require(same(p.resistive_force(si::from_km_h(x)).val_, f2), "resistance of a train", p.resistive_force(si::from_km_h(x)).val_, " want ", f2);
                  }
                }
              }
              mc::trace();
            });
  });
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  lookups();
  curves();
  trains();
  return mc::finish();
}
