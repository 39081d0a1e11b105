// X01: phases that run in parallel.  Whatever the schedule, tasks do not race
// and the result is the same.
#include "schedules.h"

#include "trains.h"

#include "soro/infrastructure/exclusion/get_exclusion.h"
#include "soro/simulation/ordering/ordering_graph.h"
#include "soro/timetable/timetable.h"

#include "utl/parallel_for.h"

using namespace iss;
namespace tt = soro::tt;
namespace sim = soro::simulation;

namespace {

long schedules = 0, accesses = 0, points = 0;

void watch(sched::limits const& lim, std::function<std::string()> const& body) {
  auto const r = sched::explore(lim, body);
  schedules += r.schedules_;
  accesses += r.accesses_;
  points += r.points_;
  mc::step(static_cast<std::size_t>(r.schedules_));
  mc::counter("schedules", r.schedules_);
  mc::counter("accesses watched", r.accesses_);
  mc::counter("points of preemption", r.points_);
  if (!r.complete_) mc::counter("explorations cut short", 1);
  auto const sig = r.problem_.starts_with("data race") ? "a data race" : "the result depends on the schedule";
  mc::require(r.problem_.empty(), sig, r.problem_);
  mc::state(mc::str(r.most_tasks_, "|", r.schedules_, "|", r.points_));
}

sched::limits bounds() {
  sched::limits l;
  l.preemptions_ = mc::tier(3, 5);
  l.all_orders_ = static_cast<std::size_t>(mc::tier(4, 5));
  l.schedules_ = mc::tier(60000, 600000);
  return l;
}

route_case rows(std::vector<std::string> const& ps, std::string core) {
  route_case c;
  c.t_ = row(ps, true, false, false);
  c.t_.core_ = std::move(core);
  model const m(c.t_);
  for (auto const& x : walks(m, c.t_, true)) {
    if (x.at_.front().track_ || x.at_.back().track_ || !rising(c.t_, x)) continue;
    c.add(x);
  }
  give_halts(c);
  return c;
}

// --- exclusion: threads, and loops over elements and routes
void exclusion() {
  mc::group("exclusion");
  for (auto const& ps : std::vector<std::vector<std::string>>{{"S"}, {"hS", "S"}, {"hS", "Sh", "S"}, {"ShS", "SS", "Sh"}}) {
    for (unsigned processors = 0; processors < static_cast<unsigned>(mc::tier(9, 17)); ++processors) {
      mc::run([&] { return mc::str("row ", mc::seqs(ps), " with ", processors, " processors"); },
              [&] {
                auto c = rows(ps, {});
                load_opts o;
                o.interlocking_ = true;
                auto const dir = c.write_iss();
                auto const infra = load(dir, o);
                sched::processors(processors);
                watch(bounds(), [&] {
                  auto const ex = inf::get_exclusion(*infra, dir / "exclusion_sets", inf::option<inf::exclusion_elements>(true), inf::option<inf::exclusion_graph>(true));
                  std::string r;
                  for (auto const& v : ex.exclusion_elements_.closed_) r += mc::seq(v) + ";";
                  for (std::size_t a = 0; a < ex.exclusion_graph_.nodes_.size(); ++a) {
                    for (std::size_t b = 0; b < ex.exclusion_graph_.nodes_.size(); ++b) r += ex.exclusion_graph_.nodes_[a][static_cast<std::uint32_t>(b)] ? '1' : '0';
                  }
                  return r;
                });
                mc::trace();
              });
    }
  }
}

// --- the ordering graph: a loop over exclusion sets
void ordering() {
  mc::group("ordering graph");
  for (auto const& ps : std::vector<std::vector<std::string>>{{"hS", "S", "Sh"}, {"hS", "hS", "Sh"}, {"hS", "ShS", "Sh"}}) {
    for (int trains = 1; trains < 4; ++trains) {
      for (int shape = 0; shape < 4; ++shape) {
        mc::run([&] { return mc::str("row ", mc::seqs(ps), " trains ", trains, " exclusion ", shape); },
                [&] {
                  auto c = rows(ps, core_defaults(160));
                  load_opts o;
                  o.interlocking_ = true;
                  auto const infra = load(c.write_iss(), o);
                  resolve(c, *infra);
                  auto const irs = real_routes(c, *infra);
                  std::vector<int> chain;
                  for (std::size_t k = 0; k < c.srs_.size(); ++k) chain.push_back(static_cast<int>(k));
                  auto const path = tilings(c, irs, chain, c.srs_.front().ph_, c.srs_.back().ph_);
                  mc::require(!path.empty(), "no path", "");
                  auto& x = const_cast<inf::infrastructure_t&>(*infra).exclusion_;
                  x.irs_to_exclusion_sets_.resize(irs.size());
                  for (std::size_t k = 0; k < (shape == 3 ? 8 : static_cast<std::size_t>(shape) + 1); ++k) {
                    inf::interlocking_route::ids ids;
                    for (std::size_t i = 0; i < irs.size(); ++i) {
                      if ((i + k) % 3 == 0 && k > 0) continue;
                      ids.emplace_back(static_cast<inf::interlocking_route::id>(i));
                      x.irs_to_exclusion_sets_[static_cast<unsigned>(i)].emplace_back(static_cast<inf::exclusion_set::id>(k));
                    }
                    x.exclusion_sets_.emplace_back(ids);
                  }
                  tt::base_timetable bt;
                  for (int k = 0; k < trains; ++k) {
                    tt::train t;
                    t.id_ = static_cast<unsigned>(k);
                    t.physics_ = physics(false);
                    for (auto p : path.front()) t.path_.emplace_back(static_cast<inf::interlocking_route::id>(p));
                    auto const dep = static_cast<unsigned>(1000 - k * 100);
                    t.sequence_points_.emplace_back(make_point(c, {0, STOP}, dep, dep, 0));
                    t.sequence_points_.emplace_back(make_point(c, {static_cast<int>(c.srs_.size()) - 1, STOP}, dep + 1, dep + 1, 0));
                    auto const day = date::sys_days{date::year{2021} / 3 / 27};
                    t.service_days_ = tt::make_bitfield(day, day + date::days{1}, k == 1 ? "11" : "10");
                    bt.trains_.emplace_back(std::move(t));
                  }
                  tt::timetable const timetable(std::move(bt));
                  watch(bounds(), [&] {
                    sim::ordering_graph const g(infra, timetable, {});
                    std::string r;
                    for (auto const& n : g.nodes_) r += mc::str(n.id_, ":", mc::seq(n.in_), mc::seq(n.out_), ";");
                    return r;
                  });
                  mc::trace();
                });
      }
    }
  }
}

// --- timetables: a loop over files, all counting the trains they cannot read
std::string point(route_case const& c, int k, int n, int flaw) {
  auto const& s = c.srs_[static_cast<std::size_t>(k)];
  std::string r = mc::str("<sequenceServicePoint><servicePoint>", flaw == 1 && k == 1 ? "nowhere" : c.t_.T[static_cast<std::size_t>(s.w_.station_)].name_, "</servicePoint><trackSystem>",
                          flaw == 2 && k == 1 ? "nothing" : s.r_.name_, "</trackSystem>");
  if (k == 0) r += "<departure><time>08:00:00.00</time></departure>";
  if (k == n - 1) r += "<arrival><time>09:00:00.00</time></arrival>";
  if (k == 0 || k == n - 1) r += "<stopMode Schluessel=\"4\"/>";
  return r + "</sequenceServicePoint>";
}
void timetables() {
  mc::group("timetables");
  std::string const core = core_defaults(160) +
                           "<Triebfahrzeugbaureihen><Triebfahrzeugbaureihe><Nr>42</Nr><Eisenbahnunternehmen Nr=\"8000\">DB</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>"
                           "<Triebfahrzeugbaureihenvariante><Variante>1</Variante><Bezeichnung>B</Bezeichnung><EigenGewicht>80</EigenGewicht><ZulaessigeGeschwindigkeit>100</ZulaessigeGeschwindigkeit>"
                           "<Laufwiderstandsfaktor1>1</Laufwiderstandsfaktor1><Laufwiderstandsfaktor2>0</Laufwiderstandsfaktor2><Laufwiderstandsfaktor3>0</Laufwiderstandsfaktor3>"
                           "<Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren><Zugkraftfaktor><Faktor1>150</Faktor1><Faktor2>0</Faktor2><Faktor3>0</Faktor3><GeschwindigkeitVon>0</GeschwindigkeitVon>"
                           "<GeschwindigkeitBis>400</GeschwindigkeitBis></Zugkraftfaktor></Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>"
                           "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe></Triebfahrzeugbaureihen>";
  // what the trains of a file are: read, or not for some reason
  std::vector<std::vector<int>> const kinds = {{0}, {1}, {0, 2}, {3, 0, 1}, {1, 1}, {4}, {}, {0, 0, 5}};
  auto const most = mc::tier(3, 4);
  mc::sequences(static_cast<int>(kinds.size()), 1, most, [&](std::vector<int> const& v) {
    mc::run([&] { return mc::str("files ", mc::seq(v)); },
            [&] {
              auto c = rows({"hS", "S", "Sh"}, core);
              load_opts o;
              o.interlocking_ = true;
              auto const infra = load(c.write_iss(), o);
              resolve(c, *infra);
              auto const dir = fs::path(std::getenv("MC_SCRATCH")) / "timetable";
              fs::remove_all(dir);
              fs::create_directories(dir);
              auto const n = static_cast<int>(c.srs_.size());
              for (std::size_t f = 0; f < v.size(); ++f) {
                std::string x = "<?xml version=\"1.0\"?><KSS><header><spurplanVersionDescription><name>V</name><number>7</number></spurplanVersionDescription></header><railml><timetable>";
                unsigned num = 100 * static_cast<unsigned>(f + 1);
                for (auto k : kinds[static_cast<std::size_t>(v[f])]) {
                  x += mc::str("<train trainStatus=\"", k == 3 ? "bearb" : "freig", "\"><fineConstruction><constructionTrain><trainNumber><mainNumber>", num++,
                               "</mainNumber><subNumber>0</subNumber></trainNumber><characteristic><tractionUnits><tractionUnit><tractionUnitDesignSeries><designSeries Nr=\"8000\">", k == 4 ? "1" : "42",
                               "</designSeries><variante>1</variante></tractionUnitDesignSeries></tractionUnit></tractionUnits><maxVelocity>100</maxVelocity><trainProtection>", k == 5 ? "true" : "false",
                               "</trainProtection><totalLength>100</totalLength><totalWeight>200</totalWeight></characteristic><services><service startDate=\"2023-01-01\" endDate=\"2023-01-03\" bitMask=\"101\"/>"
                               "</services><sequence><sequenceServicePoints>");
                  for (int p = 0; p < n; ++p) x += point(c, p, n, k);
                  x += "</sequenceServicePoints></sequence></constructionTrain></fineConstruction></train>";
                }
                put(dir / mc::str("KSS-", f, ".xml"), x + "</timetable></railml></KSS>");
              }
              watch(bounds(), [&] {
                auto const got = tt::try_parsing_timetable(tt::make_timetable_opts(dir), infra);
                if (!got) return mc::str("error ", got.error().message());
                std::string r;
                for (auto const& t : (*got)->trains_) r += mc::str(t.id_, "=", t.number_.main_, ":", mc::seq(t.path_), ";");
                return r + mc::str((*got)->interval_.start_.time_since_epoch().count(), "-", (*got)->interval_.end_.time_since_epoch().count());
              });
              mc::trace();
            });
  });
}

// the scheduler itself must see what is wrong here
void canary() {
  mc::group("canaries");
  auto const lim = bounds();
  auto const both = [&](char const* what, bool wrong, std::function<std::string()> const& f) {
    mc::run([&] { return std::string(what); },
            [&] {
              auto const r = sched::explore(lim, f);
              mc::step(static_cast<std::size_t>(r.schedules_));
              mc::require(r.problem_.empty() != wrong, "the scheduler is wrong about a canary", what, ": ", r.problem_);
            });
  };
  both("unprotected counter", true, [] {
    volatile int n = 0;
    utl::parallel_for_run(2, [&](std::size_t) { n = n + 1; });
    return mc::str(n);
  });
  both("protected counter", false, [] {
    int n = 0;
    std::mutex m;
    utl::parallel_for_run(3, [&](std::size_t) {
      std::lock_guard const l{m};
      ++n;
    });
    return mc::str(n);
  });
  both("lost update between two locks", true, [] {
    int n = 0;
    std::mutex m;
    utl::parallel_for_run(2, [&](std::size_t) {
      int x = 0;
      {
        std::lock_guard const l{m};
        x = n;
      }
      std::lock_guard const l{m};
      n = x + 1;
    });
    return mc::str(n);
  });
  both("order of a protected list", true, [] {
    std::vector<int> v;
    std::mutex m;
    utl::parallel_for_run(2, [&](std::size_t i) {
      std::lock_guard const l{m};
      v.push_back(static_cast<int>(i));
    });
    return mc::seq(v);
  });
  both("own places", false, [] {
    std::vector<std::vector<int>> v(40);
    utl::parallel_for_run(40, [&](std::size_t i) {
      for (int k = 0; k < 5; ++k) v[i].push_back(k);
    });
    return mc::str(v[7].size());
  });
  both("packed flags", true, [] {
    std::vector<bool> v(40);
    utl::parallel_for_run(40, [&](std::size_t i) { v[i] = true; });
    return std::string();
  });
  both("atomic sum", false, [] {
    std::atomic<int> n{0};
    utl::parallel_for_run(3, [&](std::size_t) { n += 2; });
    return mc::str(n.load());
  });
  both("torn atomic", true, [] {
    std::atomic<int> n{0};
    utl::parallel_for_run(2, [&](std::size_t) { n.store(n.load() + 1); });
    return mc::str(n.load());
  });
  both("published through an atomic", false, [] {
    int x = 0;
    std::atomic<bool> ready{false};
    utl::parallel_for_run(2, [&](std::size_t i) {
      if (i == 0) {
        x = 5;
        ready = true;
      } else if (ready) {
        x = x + 0;
      }
    });
    return std::string();
  });
  both("threads with one result", true, [] {
    std::vector<int> v;
    std::vector<std::thread> ts;
    for (int k = 0; k < 3; ++k) {
      ts.emplace_back([&v, k] { v.push_back(k); });
    }
    for (auto& t : ts) t.join();
    return mc::str(v.size());
  });
  both("threads with results of their own", false, [] {
    std::vector<std::vector<int>> v(3);
    std::vector<std::thread> ts;
    for (int k = 0; k < 3; ++k) {
      ts.emplace_back([&v, k] { v[static_cast<std::size_t>(k)].push_back(k); });
    }
    for (auto& t : ts) t.join();
    return mc::str(v[2].size());
  });
  both("freed by one and read by the other", true, [] {
    auto* p = new int{1};
    volatile int r = 0;
    utl::parallel_for_run(2, [&](std::size_t i) {
      if (i == 0) {
        delete p;
      } else {
        r = *p;
      }
    });
    return std::string();
  });
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  utl::shim::scheduler().run_ = [](std::size_t n, std::function<void(std::size_t)> const& fn) { sched::loop(n, fn); };
  mc::bound("schedules", mc::str("all schedules of up to ", mc::tier(3, 5), " preemptions at synchronisation; up to ", mc::tier(4, 5), " tasks in every order, more of them in the first and the last"));
  canary();
  exclusion();
  ordering();
  timetables();
  return mc::finish();
}
