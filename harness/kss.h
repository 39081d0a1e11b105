#pragma once
// KSS timetables: descriptions of construction trains on a row of stations, and
// the files that describe them.
#include "trains.h"

#include "soro/timetable/timetable.h"

using namespace iss;
namespace tt = soro::tt;
namespace rs = soro::rs;
namespace si = soro::si;

namespace {

constexpr long DAY = 86400;
auto const DAY0 = date::sys_days{date::year{2023} / 12 / 30};

std::string date_of(int d) {
  date::year_month_day const x{DAY0 + date::days{d}};
  char buf[16];
  std::snprintf(buf, sizeof(buf), "%04d-%02u-%02u", static_cast<int>(x.year()), static_cast<unsigned>(x.month()), static_cast<unsigned>(x.day()));
  return buf;
}

// runs from some day on by a mask, or one day more or less, or a day with a kind
// of change that is not known ("?"), which changes nothing
struct service {
  int from_;
  std::string mask_;  // "+", "-" or "?" for one day
};
struct moment {
  long t_{-1};
  std::string xml(char const* tag) const {
    if (t_ < 0) return {};
    auto const s = t_ % DAY;
    char buf[16];
    std::snprintf(buf, sizeof(buf), "%02ld:%02ld:%02ld.00", s / 3600, s / 60 % 60, s % 60);
    return mc::str("<", tag, "><time>", buf, "</time>", t_ >= DAY ? "<nightLeap>1</nightLeap>" : "", "</", tag, ">");
  }
};
struct point {
  int sr_{0};
  char mode_{0};  // key of the stop mode
  moment arrival_{}, departure_{};
  std::string min_{};  // duration
  long min_seconds_{0};
  std::string station_{}, route_{};  // other than those of the route
};
struct unit {
  std::string series_{"42"}, owner_{"8000"};
  unsigned variant_{1};
};
struct ktrain {
  unsigned main_{1}, sub_{0};
  std::vector<service> services_{{0, "1"}};
  std::vector<point> points_;
  bool in_{false}, out_{false}, ctc_{false};
  char mode_{'R'};
  std::string flag_style_{"false"};
  std::vector<unit> units_{unit{}};
  double length_{100}, tons_{200}, kmh_{300};
};
struct group {
  std::string status_{"freig"};
  std::vector<ktrain> trains_;
};
struct kfile {
  std::string name_;
  std::vector<group> groups_;
  std::string version_{"V"}, number_{"7"};
};

struct world {
  route_case c_;
  std::unique_ptr<inf::infrastructure> infra_;
};

std::string xml(world const& w, ktrain const& t) {
  std::string r = mc::str("<constructionTrain><trainNumber><mainNumber>", t.main_, "</mainNumber><subNumber>", t.sub_, "</subNumber></trainNumber><characteristic><tractionUnits>");
  for (auto const& u : t.units_) {
    r += mc::str("<tractionUnit><position>SP</position><tractionUnitDesignSeries><designSeries Typ=\"L\" Nr=\"", u.owner_, "\">", u.series_, "</designSeries><variante>", u.variant_,
                 "</variante></tractionUnitDesignSeries></tractionUnit>");
  }
  r += mc::str("</tractionUnits><maxVelocity>", t.kmh_, "</maxVelocity>", t.mode_ ? mc::str("<relevantStopPositionMode>", t.mode_, "</relevantStopPositionMode>") : std::string{}, "<trainProtection>",
               t.ctc_ ? "true" : "false", "</trainProtection><totalLength>", t.length_, "</totalLength><totalWeight>", t.tons_, "</totalWeight></characteristic><services>");
  for (auto const& s : t.services_) {
    if (s.mask_ == "+" || s.mask_ == "-" || s.mask_ == "?") {
      r += mc::str("<service><special date=\"", date_of(s.from_), "\" type=\"", s.mask_ == "+" ? "include" : s.mask_ == "-" ? "exclude" : "replace", "\"/></service>");
    } else {
      r += mc::str("<service startDate=\"", date_of(s.from_), "\" endDate=\"", date_of(s.from_ + static_cast<int>(s.mask_.size()) - 1), "\" bitMask=\"", s.mask_, "\"/>");
    }
  }
  r += "</services><sequence>";
  if (t.in_ || t.flag_style_ == "false") r += mc::str("<breakin>", t.in_ ? "true" : "false", "</breakin>");
  if (t.out_ || t.flag_style_ == "false") r += mc::str("<breakout>", t.out_ ? "true" : "false", "</breakout>");
  r += "<sequenceServicePoints>";
  for (auto const& p : t.points_) {
    auto const& s = w.c_.srs_[static_cast<std::size_t>(p.sr_)];
    r += mc::str("<sequenceServicePoint><servicePoint>", p.station_.empty() ? w.c_.t_.T[static_cast<std::size_t>(s.w_.station_)].name_ : p.station_, "</servicePoint><trackSystem>",
                 p.route_.empty() ? s.r_.name_ : p.route_, "</trackSystem>", p.arrival_.xml("arrival"), p.departure_.xml("departure"));
    if (p.mode_) r += mc::str("<stopMode Schluessel=\"", p.mode_, "\">x</stopMode>");
    if (!p.min_.empty()) r += mc::str("<minStopTime>", p.min_, "</minStopTime>");
    r += "</sequenceServicePoint>";
  }
  return r + "</sequenceServicePoints></sequence></constructionTrain>";
}
std::string xml(world const& w, kfile const& f) {
  std::string r = mc::str("<?xml version=\"1.0\"?><KSS><header><spurplanVersionDescription><mode>S</mode><name>", f.version_, "</name><number>", f.number_,
                          "</number></spurplanVersionDescription></header><railml><timetable version=\"1.00\"><timetablePeriods/>");
  for (auto const& g : f.groups_) {
    r += mc::str("<train trainID=\"1\" trainStatus=\"", g.status_, "\"><fineConstruction>");
    for (auto const& t : g.trains_) r += xml(w, t);
    r += "</fineConstruction></train>";
  }
  return r + "</timetable></railml></KSS>";
}

fs::path write_timetable(world const& w, std::vector<kfile> const& files, std::string const& name = "timetable") {
  char const* const scratch = std::getenv("MC_SCRATCH");
  auto const dir = fs::path(scratch != nullptr ? scratch : "/tmp") / name;
  fs::remove_all(dir);
  fs::create_directories(dir);
  for (auto const& f : files) put(dir / f.name_, xml(w, f));
  return dir;
}
std::string core() {
  auto const variant = [](unsigned id, int kmh, int force) {
    return mc::str("<Triebfahrzeugbaureihenvariante><Variante>", id, "</Variante><Bezeichnung>B</Bezeichnung><EigenGewicht>80</EigenGewicht><ZulaessigeGeschwindigkeit>", kmh,
                   "</ZulaessigeGeschwindigkeit><Laufwiderstandsfaktor1>1</Laufwiderstandsfaktor1><Laufwiderstandsfaktor2>0</Laufwiderstandsfaktor2><Laufwiderstandsfaktor3>0</Laufwiderstandsfaktor3>"
                   "<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren><Zugkraftfaktor><Faktor1>",
                   force, "</Faktor1><Faktor2>0</Faktor2><Faktor3>0</Faktor3><GeschwindigkeitVon>0</GeschwindigkeitVon><GeschwindigkeitBis>400</GeschwindigkeitBis></Zugkraftfaktor></Zugkraftfaktoren>"
                          "</Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>");
  };
  return core_defaults(160) + "<Triebfahrzeugbaureihen><Triebfahrzeugbaureihe><Nr>42</Nr><Eisenbahnunternehmen Nr=\"8000\">DB</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>" + variant(1, 80, 150) +
         variant(12, 140, 210) + "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe></Triebfahrzeugbaureihen>";
}

world make_world(std::vector<std::string> const& ps, int twice) {
  world w;
  w.c_.t_ = row(ps, true, false, false);
  w.c_.t_.core_ = core();
  model const m(w.c_.t_);
  for (auto const& x : walks(m, w.c_.t_, true)) {
    if (x.at_.front().track_ || x.at_.back().track_ || !rising(w.c_.t_, x)) continue;
    w.c_.add(x);
    auto const sig = signal_ids(w.c_.t_, x);
    if (twice == x.station_ + 1 && !sig.empty()) w.c_.add(x, {sig.front()});
  }
  give_halts(w.c_);
  load_opts o;
  o.interlocking_ = true;
  w.infra_ = std::make_unique<inf::infrastructure>(load(w.c_.write_iss(), o));
  resolve(w.c_, **w.infra_);
  return w;
}
// a train that stops at both ends
ktrain plain(world const& w, unsigned main, long departs = 36000) {
  ktrain t;
  t.main_ = main;
  for (std::size_t k = 0; k < w.c_.srs_.size(); ++k) {
    point p;
    p.sr_ = static_cast<int>(k);
    if (k == 0) p.mode_ = '4', p.departure_.t_ = departs;
    if (k + 1 == w.c_.srs_.size()) p.mode_ = '4', p.arrival_.t_ = departs + 600;
    t.points_.push_back(p);
  }
  return t;
}
}  // namespace
