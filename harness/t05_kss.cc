// T05: reading a timetable.  KSS files are written for every way of describing
// trains within the bounds and read by the real parser; every train read is
// compared with the description.
#include "tasks.h"
#include "kss.h"

#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/parsers/station_route_to_interlocking_route.h"
#include "soro/timetable/timetable.h"
#include "soro/timetable/timetable_error.h"

namespace {

struct expected {
  ktrain const* t_;
  std::vector<unsigned> path_;
  std::vector<tt::sequence_point> points_;
};

tt::sequence_point real_point(world const& w, point const& p) {
  tt::sequence_point r;
  r.station_route_ = w.c_.srs_[static_cast<std::size_t>(p.sr_)].real_->id_;
  r.min_stop_time_ = soro::seconds{p.min_seconds_};
  switch (p.mode_) {
    case '2': r.type_ = tt::sequence_point::type::OPERATIONS; break;
    case '3': r.type_ = tt::sequence_point::type::REQUEST; break;
    case '4': r.type_ = tt::sequence_point::type::PASSENGER; break;
    default: break;
  }
  if (p.arrival_.t_ >= 0) r.arrival_ = soro::seconds{static_cast<unsigned>(p.arrival_.t_)};
  if (p.departure_.t_ >= 0) r.departure_ = soro::seconds{static_cast<unsigned>(p.departure_.t_)};
  return r;
}

bool knows(unit const& u) { return u.series_ == "42" && u.owner_ == "8000" && (u.variant_ == 1 || u.variant_ == 12); }

// what becomes of a train; nothing if it cannot run
std::optional<expected> model_of(world const& w, ktrain const& t) {
  if (t.in_ || t.out_ || t.ctc_ || t.points_.size() < 2) return {};
  if (t.points_.front().mode_ == 0 || t.points_.back().mode_ == 0) return {};
  for (auto const& u : t.units_) {
    if (!knows(u)) return {};
  }
  expected e{&t, {}, {}};
  tt::stop_sequence ss;
  ss.break_in_ = ss.break_out_ = false;
  bool const freight = t.mode_ == 'G';
  for (auto const& p : t.points_) {
    if (!p.station_.empty() || !p.route_.empty()) return {};
    auto const& s = w.c_.srs_[static_cast<std::size_t>(p.sr_)];
    if (p.mode_ != 0 && (freight ? s.fh_ : s.ph_) < 0) return {};
    if (p.mode_ == 0 && p.departure_.t_ >= 0 && s.r_.checkpoint_ == 0) return {};
    ss.points_.push_back(real_point(w, p));
    if (p.mode_ != 0 || p.departure_.t_ >= 0) e.points_.push_back(ss.points_.back());
  }
  auto const path = tt::transform_to_interlocking(ss, freight ? rs::FreightTrain::YES : rs::FreightTrain::NO, *w.infra_);
  if (!path) return {};
  e.path_.assign(path->path_.begin(), path->path_.end());
  return e;
}
std::set<long> days_of(ktrain const& t) {
  std::set<long> r;
  for (auto const& s : t.services_) {
    if (s.mask_ == "?") continue;
    if (s.mask_ == "+") {
      r.insert(s.from_);
    } else if (s.mask_ == "-") {
      r.erase(s.from_);
    } else {
      for (std::size_t k = 0; k < s.mask_.size(); ++k) {
        if (s.mask_[k] == '1') r.insert(s.from_ + static_cast<long>(k));
      }
    }
  }
  return r;
}

std::string show(ktrain const& t) {
  std::string s = mc::str(t.main_, "/", t.sub_, " days");
  for (auto const& x : t.services_) s += mc::str(" ", x.from_, x.mask_);
  for (auto const& p : t.points_) s += mc::str(" r", p.sr_, p.mode_ ? p.mode_ : '-', ":", p.arrival_.t_, "/", p.departure_.t_, p.min_);
  return s + (t.in_ ? " in" : "") + (t.out_ ? " out" : "") + (t.ctc_ ? " ctc" : "") + mc::str(" ", t.mode_, " units ", t.units_.size());
}

void compare(world const& w, tt::train const& g, expected const& e) {
  auto const& t = *e.t_;
  mc::step();
  mc::require(g.number_.main_ == t.main_ && g.number_.sub_ == t.sub_, "number of a train", g.number_.main_, "/", g.number_.sub_, " want ", show(t));
  mc::require(!g.break_in_ && !g.break_out_, "breaking in and out", show(t));
  std::vector<unsigned> const path(g.path_.begin(), g.path_.end());
  mc::require(path == e.path_, "path of a train", mc::seq(path), " want ", mc::seq(e.path_), " ", show(t));
  mc::require(g.sequence_points_.size() == e.points_.size(), "number of sequence points", g.sequence_points_.size(), " want ", e.points_.size(), " ", show(t));
  for (std::size_t k = 0; k < e.points_.size(); ++k) {
    auto const &a = g.sequence_points_[static_cast<unsigned>(k)], &b = e.points_[k];
    mc::require(a.type_ == b.type_ && a.station_route_ == b.station_route_, "stop of a train", k, " ", show(t));
    mc::require(a.arrival_ == b.arrival_ && a.departure_ == b.departure_, "times of a stop", k, ": ", a.arrival_.count(), "/", a.departure_.count(), " want ", b.arrival_.count(), "/", b.departure_.count(), " ", show(t));
    using type = tt::sequence_point::type;
    bool const halt = b.type_ != type::TRANSIT, timed = !halt && soro::valid(b.departure_);
    mc::require(a.is_halt() == halt && a.is_transit() == !halt && a.has_transit_time() == timed && a.is_measurable() == (halt || timed), "kind of a stop", k, " ", show(t));
    for (auto const y : {type::TRANSIT, type::OPERATIONS, type::PASSENGER, type::REQUEST}) mc::require(a.is_halt(y) == (y == b.type_), "is a stop of a kind", k, " ", show(t));
    mc::require(a.transit_time() == b.departure_, "time of passing", k, " ", show(t));
    for (int const d : {0, 1, 2, 59, 366}) {
      auto const zero = static_cast<long>(DAY0.time_since_epoch().count() + d) * DAY;
      date::year_month_day const ymd{DAY0 + date::days{d}};
      if (soro::valid(b.arrival_)) mc::eq(static_cast<long>(a.absolute_arrival(ymd).time_since_epoch().count()), zero + static_cast<long>(b.arrival_.count()), "arrival on a day", k, " ", show(t));
      if (soro::valid(b.departure_)) mc::eq(static_cast<long>(a.absolute_departure(ymd).time_since_epoch().count()), zero + static_cast<long>(b.departure_.count()), "departure on a day", k, " ", show(t));
    }
    auto const& route = *std::find_if(w.c_.srs_.begin(), w.c_.srs_.end(), [&](auto const& s) { return s.real_->id_ == b.station_route_; });
    int idx = -1;
    if (halt) idx = t.mode_ == 'G' ? route.fh_ : route.ph_;
    for (std::size_t x = 0; timed && x < route.w_.at_.size(); ++x) {
      if (route.w_.at_[x].track_ && rp_id(w.c_.t_, route.w_.at_[x]) == route.r_.checkpoint_) idx = route.pos_[x];
    }
    auto const kind = t.mode_ == 'G' ? rs::FreightTrain::YES : rs::FreightTrain::NO;
    auto const gi = a.get_node_idx(kind, *w.infra_);
    auto const gn = a.get_node(kind, *w.infra_);
    mc::require(gi.has_value() == (idx >= 0) && gn.has_value() == (idx >= 0), "a stop without a place", k, " ", show(t));
    if (idx >= 0) mc::require(static_cast<int>(*gi) == idx && *gn == route.real_->nodes(*gi), "place of a stop", k, " ", show(t));
    mc::require(a.min_stop_time_ == b.min_stop_time_, "minimum stopping time", k, ": ", a.min_stop_time_.count(), " want ", b.min_stop_time_.count(), " ", show(t));
  }
  auto const days = days_of(t);
  std::set<long> got;
  for (auto const d : g.service_days_) got.insert((d - DAY0).count());
  mc::require(got == days, "service days", got.size(), " want ", days.size(), " ", show(t));
  mc::require(g.trip_count() == days.size(), "number of trips", g.trip_count(), " ", show(t));
  auto const& p = g.physics_;
  double most = 1e9, pull = 0;
  for (auto const& u : t.units_) {
    most = std::min(most, u.variant_ == 1 ? 80.0 : 140.0);
    pull += u.variant_ == 1 ? 150000.0 : 210000.0;
  }
  mc::require(p.length().val_ == t.length_ && std::abs(p.weight().val_ - t.tons_ * 1000) < 1e-6, "length and weight of a train", p.length().val_, " ", p.weight().val_, " ", show(t));
  mc::require(std::abs(p.max_speed().val_ * 3.6 - std::min(most, t.kmh_)) < 1e-6, "highest speed of a train", p.max_speed().val_ * 3.6, " ", show(t));
  mc::require(std::abs(p.tractive_force(si::from_km_h(30)).val_ - pull) < 1e-3, "tractive force of a train", p.tractive_force(si::from_km_h(30)).val_, " want ", pull, " ", show(t));
  mc::require(g.is_freight() == (t.mode_ == 'G') && !g.has_ctc(), "kind of a train", show(t));
}

void check(world& w, std::vector<kfile> const& files, std::string const& extra = {}) {
  auto const dir = write_timetable(w, files);
  if (!extra.empty()) {
    // other things in the directory
    put(dir / "kss-lower.xml", "<KSS/>");
    put(dir / "XKSS-1.xml", "<broken");
    put(dir / "KSS-1.txt", "not a timetable");
    put(dir / "KSS-2.xml.bak", "");
    put(dir / "A.xml", "<A/>");
    fs::create_directories(dir / "KSS-directory.xml");
  }
  std::string how;
  for (auto const& f : files) {
    for (auto const& g : f.groups_) {
      how += "[" + g.status_ + ": ";
      if (f.groups_.size() < 4) {
        for (auto const& t : g.trains_) how += show(t) + "; ";
      }
      how += "]";
    }
  }
  auto const got = tt::try_parsing_timetable(tt::make_timetable_opts(dir), *w.infra_);
  mc::require(got.has_value(), "a timetable is turned down", how, " error ", got.has_value() ? std::string{} : got.error().message());
  auto const& bt = **got;
  // files are read in any order, each from the first train to the last
  std::vector<std::vector<expected>> want;
  std::size_t total = 0;
  for (auto const& f : files) {
    std::vector<expected> v;
    for (auto const& g : f.groups_) {
      if (g.status_ != "freig") continue;
      std::vector<expected> mine;
      bool ok = true;
      for (auto const& t : g.trains_) {
        auto e = model_of(w, t);
        ok = ok && e.has_value();
        if (e) mine.push_back(std::move(*e));
      }
      if (ok) v.insert(v.end(), mine.begin(), mine.end());
    }
    total += v.size();
    want.push_back(v);
  }
  if (bt.trains_.size() != total && files.size() == 1) {
    // which one
    std::set<std::pair<unsigned, unsigned>> a, b;
    for (auto const& t : bt.trains_) a.emplace(t.number_.main_, t.number_.sub_);
    for (auto const& e : want.front()) b.emplace(e.t_->main_, e.t_->sub_);
    for (auto const& g : files.front().groups_) {
      for (auto const& t : g.trains_) mc::require(a.contains({t.main_, t.sub_}) == b.contains({t.main_, t.sub_}), "whether a train is read", show(t), " status ", g.status_, " of ", g.trains_.size());
    }
  }
  mc::require(bt.trains_.size() == total, "number of trains", bt.trains_.size(), " want ", total, " ", how);
  for (std::size_t k = 0; k < total; ++k) mc::eq(bt.trains_[static_cast<unsigned>(k)].id_, k, "id of a train", how);
  mc::require(std::string_view(bt.source_.data(), bt.source_.size()) == "timetable", "source of a timetable", how);
  std::vector<bool> used(want.size(), false);
  std::size_t at = 0;
  while (at < total) {
    auto const& t = bt.trains_[static_cast<unsigned>(at)];
    std::size_t f = 0;
    while (f < want.size() && (used[f] || want[f].empty() || want[f].front().t_->main_ != t.number_.main_ || want[f].front().t_->sub_ != t.number_.sub_)) ++f;
    mc::require(f < want.size(), "order of trains", t.number_.main_, " at ", at, " ", how);
    used[f] = true;
    for (auto const& e : want[f]) compare(w, bt.trains_[static_cast<unsigned>(at++)], e);
  }
  // from the first departure to the last arrival
  long first = 1L << 60, last = -1;
  for (auto const& v : want) {
    for (auto const& e : v) {
      auto const d = days_of(*e.t_);
      if (d.empty()) continue;
      first = std::min(first, *d.begin() * DAY + e.t_->points_.front().departure_.t_);
      last = std::max(last, *d.rbegin() * DAY + e.t_->points_.back().arrival_.t_);
    }
  }
  if (last >= 0) {
    auto const zero = static_cast<long>(DAY0.time_since_epoch().count()) * DAY;
    mc::eq(static_cast<long>(bt.interval_.start_.time_since_epoch().count()) - zero, first, "start of the timetable", how);
    mc::eq(static_cast<long>(bt.interval_.end_.time_since_epoch().count()) - zero, last, "end of the timetable", how);
  }
  // the other way to read it
  tt::timetable const again(tt::make_timetable_opts(dir), *w.infra_);
  mc::require(again->trains_.size() == total && again.source_type_ == tt::timetable_source::KSS, "reading a timetable by its constructor", how);
  mc::require(got->source_type_ == tt::timetable_source::KSS, "source type of a timetable", how);
  for (std::size_t k = 0; k < total; ++k) mc::require(again->trains_[static_cast<unsigned>(k)].number_ == bt.trains_[static_cast<unsigned>(k)].number_, "reading a timetable twice", how);
  mc::trace();
}

// most parts need just one line
world& the_world() {
  static world w = make_world({"hS", "MhS", "Sh"}, 0);
  return w;
}

void in_chunks(std::vector<ktrain> const& all, std::size_t n, char const* what) {
  for (std::size_t at = 0; at < all.size(); at += n) {
    mc::run([&] { return mc::str(what, " from ", at); },
            [&] {
              auto& w = the_world();
              kfile f{"KSS-1.xml", {}};
              for (std::size_t k = at; k < std::min(at + n, all.size()); ++k) {
                f.groups_.push_back({"freig", {all[k]}});
                f.groups_.back().trains_.back().main_ = static_cast<unsigned>(k + 1);
                mc::state(mc::str(what, show(all[k])));
              }
              check(w, {f});
            });
  }
}

void services() {
  mc::group("service days");
  int const len = mc::tier(3, 4);
  std::vector<service> first, more;
  for (int n = 1; n <= len; ++n) {
    for (int m = 0; m < (1 << n); ++m) {
      std::string s;
      for (int k = 0; k < n; ++k) s += (m >> k & 1) ? '1' : '0';
      first.push_back({0, s});
      if (n <= 2) {
        for (int d : {-3, -1, 0, 1, 2, 5}) more.push_back({d, s});
      }
    }
  }
  for (int d = -3; d <= len + 1; ++d) {
    more.push_back({d, "+"});
    more.push_back({d, "-"});
    if (d <= 1) more.push_back({d, "?"});
  }
  mc::bound("services", mc::str(first.size(), " masks followed by up to ", mc::tier(1, 2), " of ", more.size(), " more services, and two days more or less"));
  std::vector<ktrain> all;
  auto& w = the_world();
  for (auto const& f : first) {
    auto t = plain(w, 0);
    t.services_ = {f};
    all.push_back(t);
    for (auto const& a : more) {
      t.services_ = {f, a};
      all.push_back(t);
      for (auto const& b : more) {
        // both only a day
        bool const small = a.mask_.size() == 1 && b.mask_.size() == 1 && !std::isdigit(a.mask_[0]) && !std::isdigit(b.mask_[0]);
        if (!mc::thorough() && (!small || f.mask_.size() < 2)) continue;
        t.services_ = {f, a, b};
        all.push_back(t);
      }
    }
  }
  in_chunks(all, 80, "services");
}

// how every stop is described
void stops() {
  mc::group("stops");
  std::vector<world> ws;
  auto const worlds = std::vector<std::pair<std::vector<std::string>, int>>{{{"hS", "MhS", "Sh"}, 0}, {{"hS", "MS", "Sh"}, 2}, {{"hS", "h", "MhSMh"}, 1}, {{"S", "MhS", "Sh"}, 0}, {{"hSh", "hMSh", "Sh"}, 3}};
  for (std::size_t x = 0; x < worlds.size(); ++x) {
    for (int style = 0; style < mc::tier(4, 8); ++style) {
      mc::run([&] { return mc::str("row ", mc::seqs(worlds[x].first), " twice ", worlds[x].second, " style ", style); },
              [&] {
                auto w = make_world(worlds[x].first, worlds[x].second);
                std::vector<ktrain> all;
                each_stop_sequence(w.c_, 4, true, [&](std::vector<mstop> const& v, bool freight) {
                  // which of the three kinds of stop it is
                  for (int kind = 0; kind < (style < 4 ? 3 : 27); ++kind) {
                    ktrain t;
                    t.mode_ = freight ? 'G' : style % 2 ? 'R' : 0;
                    long at = style % 4 == 2 ? DAY - 61 : 8 * 3600 + 59;
                    int n = 0;
                    for (std::size_t k = 0; k < v.size(); ++k) {
                      point p;
                      p.sr_ = v[k].sr_;
                      auto const stops = v[k].k_ == STOP;
                      if (stops) {
                        p.mode_ = static_cast<char>('2' + (style < 4 ? kind + n : n == 0 ? kind : n == 1 ? kind / 3 : kind / 9) % 3);
                        ++n;
                        if (k > 0 || style % 4 == 3) p.arrival_.t_ = at;
                        at += style == 0 ? 0 : 61;
                        if (k + 1 < v.size() || style % 4 == 3) p.departure_.t_ = at;
                        p.min_seconds_ = style % 4 == 0 ? 0 : 20 + static_cast<long>(k);
                        if (p.min_seconds_ > 0) p.min_ = mc::str("PT", p.min_seconds_, "S");
                      } else if (v[k].k_ == PASS_TIMED) {
                        p.departure_.t_ = at;
                      }
                      at += 60;
                      t.points_.push_back(p);
                    }
                    all.push_back(t);
                  }
                });
                // a few that cannot be
                for (std::size_t a = 0; a < w.c_.srs_.size(); ++a) {
                  for (std::size_t b = 0; b < w.c_.srs_.size(); ++b) {
                    for (int m = 0; m < 8; ++m) {
                      ktrain t;
                      t.mode_ = m & 1 ? 'G' : 'R';
                      point p, q;
                      p.sr_ = static_cast<int>(a);
                      q.sr_ = static_cast<int>(b);
                      if (!(m & 2)) p.mode_ = '4';
                      if (!(m & 4)) q.mode_ = '4';
                      p.departure_.t_ = 100;
                      q.arrival_.t_ = 200;
                      if (m & 4) q.departure_.t_ = 200;
                      t.points_ = {p, q};
                      all.push_back(t);
                    }
                  }
                }
                kfile f{"KSS-1.xml", {}};
                for (std::size_t k = 0; k < all.size(); ++k) {
                  all[k].main_ = static_cast<unsigned>(k + 1);
                  all[k].sub_ = static_cast<unsigned>(k % 5);
                  f.groups_.push_back({"freig", {all[k]}});
                  mc::state(show(all[k]));
                }
                mc::counter("trains described", static_cast<long>(all.size()));
                check(w, {f});
              });
    }
  }
}

void texts() {
  mc::group("times and durations");
  std::vector<ktrain> all;
  auto& w = the_world();
  // durations
  std::vector<std::pair<std::string, double>> secs = {{"", -1}, {"0S", 0}, {"6S", 6}, {"54S", 54}, {"59.99S", 59.99}, {"0.4S", 0.4}, {"0.5S", 0.5}, {"1.49S", 1.49}, {"07S", 7}, {"90S", 90}, {"2.50S", 2.5}};
  for (int h : {-1, 0, 1, 2, 11, 25}) {
    for (int m : {-1, 0, 1, 5, 15, 59, 90}) {
      for (auto const& [s, v] : secs) {
        auto t = plain(w, 0);
        t.points_[1].mode_ = '4';
        t.points_[1].arrival_.t_ = 36100;
        t.points_[1].departure_.t_ = 36200;
        t.points_[1].min_ = mc::str("PT", h < 0 ? "" : mc::str(h, "H"), m < 0 ? "" : mc::str(m, "M"), s);
        t.points_[1].min_seconds_ = std::max(h, 0) * 3600 + std::max(m, 0) * 60 + (v < 0 ? 0 : static_cast<long>(v + 0.5));
        t.points_[2].min_ = t.points_[1].min_;
        t.points_[2].min_seconds_ = t.points_[1].min_seconds_;
        all.push_back(t);
      }
    }
  }
  // white space after the last unit
  for (auto const* text : {"PT ", "PT6S ", "PT5M6S\n", "PT5M   ", "PT1H\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t"}) {
    auto t = plain(w, 0);
    t.points_[1].mode_ = '4';
    t.points_[1].arrival_.t_ = 36100;
    t.points_[1].departure_.t_ = 36200;
    t.points_[1].min_ = text;
    std::string const x{text};
    t.points_[1].min_seconds_ = (x.find('H') != std::string::npos ? 3600 : 0) + (x.find('M') != std::string::npos ? 300 : 0) + (x.find('S') != std::string::npos ? 6 : 0);
    all.push_back(t);
  }
  // times of day, also those of the next day
  std::vector<long> times;
  for (long h : {0L, 1L, 8L, 9L, 10L, 19L, 20L, 23L}) {
    for (long m : {0L, 8L, 9L, 10L, 59L}) {
      for (long s : {0L, 1L, 9L, 59L}) times.push_back(h * 3600 + m * 60 + s);
    }
  }
  for (auto const d : times) {
    for (int leap = 0; leap < 8; ++leap) {
      if (!mc::thorough() && leap != 0 && d % 3600 == 0) continue;
      auto t = plain(w, 0, d + (leap & 1 ? DAY : 0));
      t.points_[1].mode_ = '3';
      t.points_[1].arrival_.t_ = d + (leap & 2 ? DAY : 0);
      t.points_[1].departure_.t_ = (d * 7 + 13) % DAY + (leap & 4 ? DAY : 0);
      t.points_[2].arrival_.t_ = (d * 11 + 17) % DAY + DAY;
      all.push_back(t);
    }
  }
  in_chunks(all, 60, "times");
}

void kinds() {
  mc::group("vehicles");
  std::vector<ktrain> all;
  auto& w = the_world();
  std::vector<unit> const us = {{"42", "8000", 1}, {"42", "8000", 12}, {"42", "8000", 2}, {"42", "800", 1}, {"4", "8000", 1}, {"42", "8000", 0}, {"420", "8000", 1}};
  mc::sequences(static_cast<int>(us.size()), 1, mc::tier(2, 3), [&](std::vector<int> const& v) {
    for (int x = 0; x < 6; ++x) {
      auto t = plain(w, 0);
      t.units_.clear();
      for (auto k : v) t.units_.push_back(us[static_cast<std::size_t>(k)]);
      t.kmh_ = x == 0 ? 60 : x == 1 ? 100 : x == 2 ? 80.5 : 200;
      t.length_ = x == 3 ? 0 : 74.25 + x;
      t.tons_ = x == 4 ? 1234.5 : 80 + x;
      t.mode_ = x == 5 ? 'G' : x == 4 ? 'P' : 'R';
      all.push_back(t);
    }
  });
  in_chunks(all, 40, "vehicles");

  mc::group("what is not supported");
  // ways a train can be described that keep it from being read
  auto const flawed = [&](ktrain t, int f) {
    switch (f) {
      case 1: t.in_ = true; break;
      case 2: t.out_ = true; break;
      case 3: t.ctc_ = true; break;
      case 4: t.points_.resize(1); break;
      case 5: t.points_.front().mode_ = 0; break;
      case 6: t.points_.back().mode_ = 0; break;
      case 7: t.points_[1].station_ = "nowhere"; break;
      case 8: t.points_[1].route_ = "nothing"; break;
      case 9: t.units_.push_back({"1", "1", 1}); break;
      case 10: t.points_[0].departure_.t_ = 100, t.points_.pop_back(); break;
      case 11: std::swap(t.points_.front().sr_, t.points_.back().sr_); break;
      case 12: t.points_.clear(); break;
      case 13: t.points_[1].route_ = "r0"; break;
      case 14: t.points_[1].station_ = "s"; break;
      case 15: t.points_.erase(t.points_.begin() + 1); break;
      default: break;
    }
    return t;
  };
  std::vector<std::string> const statuses = {"freig", "bearb", "", "Freig", "freig ", "freigabe"};
  for (int a = 0; a < 16; ++a) {
    for (int b = 0; b < 16; ++b) {
      mc::run([&] { return mc::str("flaws ", a, " and ", b); },
              [&] {
                kfile f{"KSS-1.xml", {}};
                unsigned n = 1;
                for (auto const& s : statuses) {
                  group g{s, {}};
                  // alone, together, with good ones around
                  for (int x = 0; x < 6; ++x) {
                    g.trains_.clear();
                    if (x != 1) g.trains_.push_back(flawed(plain(w, n++), a));
                    if (x == 2 || x == 5) g.trains_.push_back(plain(w, n++));
                    if (x != 0) g.trains_.push_back(flawed(plain(w, n++), b));
                    if (x == 4) g.trains_.push_back(flawed(plain(w, n++), (a + b) % 16));
                    f.groups_.push_back(g);
                  }
                }
                // a train of no variants
                f.groups_.push_back({"freig", {}});
                f.groups_.push_back({"freig", {plain(w, n++)}});
                check(w, {f});
              });
    }
  }
}

void files() {
  mc::group("files");
  auto& w = the_world();
  std::vector<std::string> const names = {"KSS-1.xml", "KSS-100_0-101_0.xml", "KSS-.xml", "KSS-A.B.xml"};
  int const most = mc::tier(3, 4);
  mc::bound("files", mc::str("up to ", most, " files of up to three trains, every order in which they are read"));
  mc::sequences(4, 1, most, [&](std::vector<int> const& counts) {
    auto const n = counts.size();
    std::vector<std::size_t> order(n);
    for (std::size_t k = 0; k < n; ++k) order[k] = k;
    do {
      auto const mine = order;
      mc::run([&] { return mc::str("files of ", mc::seq(counts), " read as ", mc::seq(mine)); },
              [&] {
                std::vector<kfile> fs;
                for (std::size_t k = 0; k < n; ++k) {
                  kfile f{names[k], {}};
                  for (int x = 0; x < counts[k]; ++x) {
                    auto t = plain(w, static_cast<unsigned>(100 * (k + 1) + static_cast<std::size_t>(x)), 3600 + 1000 * static_cast<long>((k * 5 + static_cast<std::size_t>(x) * 3) % 7));
                    t.services_ = {{static_cast<int>((k + static_cast<std::size_t>(x)) % 3), "101"}};
                    f.groups_.push_back({x == 1 && k == 1 ? "bearb" : "freig", {t}});
                  }
                  fs.push_back(f);
                }
                tasks::ctl().order_ = [&](std::size_t m) {
                  std::vector<std::size_t> r;
                  for (auto x : mine) {
                    if (x < m) r.push_back(x);
                  }
                  return r;
                };
                check(w, fs, (n + mine.front()) % 2 ? "others" : "");
                tasks::ctl().order_ = {};
              });
    } while (std::next_permutation(order.begin(), order.end()));
  });

  mc::group("what is no timetable for this infrastructure");
  auto const fails = [&](std::vector<kfile> const& fs, std::error_code want, std::string const& name) {
    auto const dir = write_timetable(w, fs, name);
    if (fs.empty()) put(dir / "other.xml", "<KSS/>");
    auto const got = tt::try_parsing_timetable(tt::make_timetable_opts(dir), *w.infra_);
    mc::step();
    mc::require(!got.has_value(), "a timetable that does not fit is read", name);
    mc::require(got.error() == want, "error for a timetable that does not fit", got.error().message(), " want ", want.message());
    bool threw = false;
    try {
      tt::timetable const t(tt::make_timetable_opts(dir), *w.infra_);
    } catch (std::exception const&) {
      threw = true;
    }
    mc::require(threw, "a timetable that does not fit is read by its constructor", name);
    mc::trace();
  };
  for (std::string const v : {"V", "v", "", "V7", "W"}) {
    for (std::string const n : {"7", "8", "0", "70", "07"}) {
      mc::run([&] { return mc::str("version ", v, " ", n); },
              [&] {
                kfile f{"KSS-1.xml", {{"freig", {plain(w, 1)}}}};
                f.version_ = v;
                f.number_ = n;
                if (v == "V" && std::stoi(n) == 7) {
                  check(w, {f});
                } else {
                  fails({f}, make_error_code(soro::error::kss::INFRASTRUCTURE_VERSION_MISMATCH), "versions");
                }
              });
    }
  }
  // a file that cannot be read takes the whole timetable with it: no trains are
  // dropped in silence
  for (std::string const broken : {"", "<KSS", "<KSS><railml></KSS>", "trains"}) {
    for (int good = 0; good < 3; ++good) {
      for (int bad = 0; bad <= good; ++bad) {
        mc::run([&] { return mc::str("file ", bad, " of ", good + 1, " is '", broken, "'"); },
                [&] {
                  std::vector<kfile> fs;
                  for (int k = 0; k <= good; ++k) fs.push_back({mc::str("KSS-", k, ".xml"), {{"freig", {plain(w, static_cast<unsigned>(k + 1))}}}});
                  auto const dir = write_timetable(w, fs, "broken");
                  put(dir / fs[static_cast<std::size_t>(bad)].name_, broken);
                  bool threw = false, read = false;
                  try {
                    read = tt::try_parsing_timetable(tt::make_timetable_opts(dir), *w.infra_).has_value();
                  } catch (std::exception const&) {
                    threw = true;
                  }
                  mc::require(threw || !read, "a timetable with a broken file is read", broken);
                  mc::trace();
                });
      }
    }
  }
  mc::run([&] { return std::string("no kss file"); }, [&] { fails({}, make_error_code(soro::error::timetable::UNKNOWN_SOURCE_TYPE), "nothing"); });
  for (std::string const name : {"kss-1.xml", "KSS1.xml", "KSS-1.XML", "KSS-1.xml.txt", "1-KSS-.xml", "KSS-1"}) {
    mc::run([&] { return mc::str("only ", name); }, [&] { fails({{name, {{"freig", {plain(w, 1)}}}}}, make_error_code(soro::error::timetable::UNKNOWN_SOURCE_TYPE), "names"); });
  }
  mc::run([&] { return std::string("no directory"); },
          [&] {
            auto const got = tt::try_parsing_timetable(tt::make_timetable_opts("/nonexistent/timetable"), *w.infra_);
            mc::require(!got.has_value() && got.error() == make_error_code(soro::error::timetable::UNKNOWN_SOURCE_TYPE), "a timetable that is not there", "");
            auto const dir = write_timetable(w, {{"KSS-1.xml", {}}}, "file");
            auto const file = tt::try_parsing_timetable(tt::make_timetable_opts(dir / "KSS-1.xml"), *w.infra_);
            mc::require(!file.has_value() && file.error() == make_error_code(soro::error::timetable::UNKNOWN_SOURCE_TYPE), "a file as timetable", "");
          });
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  tasks::control_loops();
  services();
  stops();
  texts();
  kinds();
  files();
  return mc::finish();
}
