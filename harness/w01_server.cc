// W01: answers of the web server.  Servers are set up over directories of
// infrastructures and timetables written for every case; every request there is
// to send goes through the real routing and handlers and its answer is compared
// with the infrastructure, timetable and ordering graph it is about.
#include "kss.h"

#include "nlohmann/json.hpp"

#include "soro/runtime/runtime.h"
#include "soro/server/modules/tiles/import/import.h"
#include "soro/server/soro_server.h"
#include "soro/simulation/ordering/ordering_graph.h"

namespace server = soro::server;
using nlohmann::json;

// what the server asks the tile importer to do
static std::vector<server::import_settings> imports;
namespace soro::server {
void import_tiles(import_settings const& s) {
  imports.push_back(s);
  std::ifstream f(s.osm_path_, std::ios::binary);
  std::string const all{std::istreambuf_iterator<char>(f), {}};
  put(s.db_path_, "tiles of " + std::to_string(mc::hash(all)));
}
}  // namespace soro::server

namespace {

fs::path scratch() {
  char const* const s = std::getenv("MC_SCRATCH");
  return fs::path(s != nullptr ? s : "/tmp") / "web";
}

struct host {
  server::server_settings s_;
  std::unique_ptr<server::soro_server> srv_;
  fs::path infras() const { return scratch() / "infrastructure"; }
  fs::path timetables() const { return scratch() / "timetable"; }

  host() {
    fs::remove_all(scratch());
    for (auto const* d : {"infrastructure", "timetable", "resources/misc", "resources/infrastructure", "resources/timetable", "resources/osm", "resources/tiles", "resources/tmp", "resources/profile"}) {
      fs::create_directories(scratch() / d);
    }
    s_.infrastructure_sources_.val() = infras();
    s_.timetable_sources_.val() = timetables();
    s_.server_resource_dir_.val() = scratch() / "resources";
    put(s_.coord_file(), "ds100,lat,lon\n");
  }
  void start() { srv_ = std::make_unique<server::soro_server>(s_); }

  struct answer {
    int n_{0};
    unsigned status_{0};
    std::string body_, type_, encoding_;
  };
  answer get(std::string const& target, bool deflate = false, boost::beast::http::verb v = boost::beast::http::verb::get) {
    answer a;
    net::web_server::http_req_t rq{v, target, 11};
    if (deflate) rq.set(boost::beast::http::field::accept_encoding, "gzip, deflate");
    net::web_server::queue().emplace_back(std::move(rq), [&a](net::web_server::http_res_t&& res) {
      ++a.n_;
      std::visit(
          [&](auto& r) {
            a.status_ = r.result_int();
            a.type_ = std::string(r[boost::beast::http::field::content_type]);
            a.encoding_ = std::string(r[boost::beast::http::field::content_encoding]);
            if constexpr (std::is_same_v<std::decay_t<decltype(r)>, net::web_server::string_res_t>) a.body_ = r.body();
          },
          res);
    });
    srv_->run(s_);
    mc::require(a.n_ == 1, "number of answers to a request", target, ": ", a.n_);
    mc::step();
    return a;
  }
  json ok(std::string const& target) {
    auto const a = get(target);
    mc::require(a.status_ == 200, "status of an answer", target, ": ", a.status_, " ", a.body_.substr(0, 200));
    mc::require(a.type_ == "application/json", "type of an answer", target, ": ", a.type_);
    auto j = json::parse(a.body_, nullptr, false);
    mc::require(!j.is_discarded(), "answer is no JSON", target, ": ", a.body_.substr(0, 300));
    return j;
  }
  void status(std::string const& target, unsigned want, char const* what) {
    auto const a = get(target);
    mc::require(a.status_ == want, what, target, ": ", a.status_, " ", a.body_.substr(0, 200));
  }
};

json place(soro::utls::gps const& g) { return {{"lon", g.lon_}, {"lat", g.lat_}}; }
struct box {
  double w_{1e9}, s_{1e9}, e_{-1e9}, n_{-1e9};
  void add(soro::utls::gps const& g) {
    w_ = std::min(w_, g.lon_), e_ = std::max(e_, g.lon_);
    s_ = std::min(s_, g.lat_), n_ = std::max(n_, g.lat_);
  }
  json j() const { return json::array({json{{"lon", w_}, {"lat", s_}}, json{{"lon", e_}, {"lat", n_}}}); }
};
std::string str(soro::string const& s) { return std::string(s.data(), s.size()); }
json sorted(json j) {
  std::sort(j.begin(), j.end());
  return j;
}
void same(json const& got, json const& want, char const* what, std::string const& target) {
  mc::require(got == want, what, target, ": ", got.dump().substr(0, 400), " want ", want.dump().substr(0, 400));
}
inf::infrastructure reference(host const& h, std::string const& name) { return inf::infrastructure(inf::make_infra_opts(h.infras() / name, h.s_.coord_file())); }

json names_of(inf::infrastructure const& i) {
  json r = json::array();
  for (auto const& s : i->stations_) r.push_back({{"ds100", str(s->ds100_)}, {"id", s->id_}});
  return r;
}

// the ids no infrastructure here has
std::vector<std::string> beyond(std::size_t n) { return {std::to_string(n), std::to_string(n + 1), "100000", "4294967294", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999"}; }

// everything that can be looked up about one infrastructure
void lookups(host& h, std::string const& name, inf::infrastructure const& i) {
  auto const base = "/infrastructure/" + name;
  auto const& pos = i->element_positions_;

  box all;
  for (auto const& p : pos) all.add(p);
  for (auto const* slash : {"", "/"}) same(h.ok(base + "/bounding_box" + slash), {{"boundingBox", all.j()}}, "bounding box", base);
  for (auto const* slash : {"", "/"}) same(h.ok(base + "/stations" + slash), {{"stations", names_of(i)}}, "stations", base);

  for (auto const& s : i->stations_) {
    auto const t = base + "/station/" + std::to_string(s->id_);
    auto got = h.ok(t);
    mc::require(got.contains("stationRoutes") && got["stationRoutes"].is_array(), "station routes of a station", t);
    got["stationRoutes"] = sorted(got["stationRoutes"]);
    json routes = json::array(), irs = json::array();
    for (auto const& r : i->station_routes_) {
      if (r->station_ != s) continue;
      routes.push_back({{"id", r->id_}, {"name", str(r->name_)}, {"from_element", r->nodes().front()->element_->id()}, {"to_element", r->nodes().back()->element_->id()}});
    }
    for (auto const r : i->interlocking_.station_to_irs_[s->id_]) irs.push_back(r);
    same(got, {{"id", s->id_}, {"ds100", str(s->ds100_)}, {"stationRoutes", sorted(routes)}, {"interlockingRouteIds", irs}}, "station", t);
    h.status(base + "/station/00" + std::to_string(s->id_), 200, "id with leading zeros");
  }
  for (auto const& r : i->station_routes_) {
    auto const t = base + "/station_route/" + std::to_string(r->id_);
    json path = json::array();
    for (auto const& n : r->nodes()) path.push_back(place(pos[n->element_->id()]));
    same(h.ok(t), {{"id", r->id_}, {"name", str(r->name_)}, {"ds100", str(r->station_->ds100_)}, {"path", path}}, "station route", t);
  }
  for (auto const& r : i->interlocking_.routes_) {
    auto const t = base + "/interlocking_route/" + std::to_string(r.id_);
    json path = json::array();
    for (auto const& rn : r.iterate(i)) path.push_back(place(pos[rn.node_->element_->id()]));
    same(h.ok(t), {{"id", r.id_}, {"path", path}}, "interlocking route", t);
  }
  for (std::size_t k = 0; k < i->exclusion_.exclusion_sets_.size(); ++k) {
    auto const t = base + "/exclusion_sets/" + std::to_string(k);
    json irs = json::array();
    for (auto const r : i->exclusion_.exclusion_sets_[k]) irs.push_back(r);
    same(h.ok(t), {{"id", k}, {"size", irs.size()}, {"interlocking_routes", irs}}, "exclusion set", t);
  }
  for (auto const& e : i->graph_.elements_) {
    auto const t = base + "/element/" + std::to_string(e->id());
    auto const got = h.ok(t);
    json want = {{"id", e->id()}};
    if (e->is_directed_track_element()) {
      auto const& x = e->as<inf::track_element>();
      want["kilometrage"] = x.km_.val_;
      want["rising"] = x.rising_;
      want["line"] = x.line_;
    }
    auto const& d = i->graph_.element_data_[e->id()];
    if (d.valid() && e->is(inf::type::EOTD)) want["signal"] = d.as<inf::eotd>().signal_;
    if (e->is(inf::type::SLOPE)) want["rising"] = d.as<inf::slope>().rising_.val_, want["falling"] = d.as<inf::slope>().falling_.val_;
    if (e->is(inf::type::HALT)) {
      auto const& x = d.as<inf::halt>();
      want["name"] = str(x.name_), want["passenger"] = x.is_passenger_, want["id_extern"] = str(x.identifier_extern_), want["id_op"] = str(x.identifier_operational_);
    }
    if (e->is(inf::type::SPEED_LIMIT)) {
      auto const& x = d.as<inf::speed_limit>();
      want["limit"] = soro::si::as_km_h(x.limit_);
      want["point_of_activation"] = static_cast<bool>(x.poa_);
    }
    if (e->is(inf::type::MAIN_SIGNAL)) want["name"] = str(d.as<inf::main_signal>().name_);
    if (e->is(inf::type::SIMPLE_SWITCH)) want["name"] = str(d.as<inf::switch_data>().name_);
    auto g = got;
    if (g.contains("point_of_activation")) {
      auto const& v = g["point_of_activation"];
      g["point_of_activation"] = v.is_boolean() ? v.get<bool>() : v.get<int>() != 0;
    }
    for (auto& [k, v] : g.items()) {
      if (v.is_number_float() && want.contains(k) && want[k].is_number() && std::abs(v.get<double>() - want[k].get<double>()) < 1e-9) v = want[k];
    }
    same(g, want, "element", t);
  }
  // what is not there
  for (auto const& [what, n] : {std::pair<std::string, std::size_t>{"station", i->stations_.size()}, {"station_route", i->station_routes_.size()}, {"interlocking_route", i->interlocking_.routes_.size()},
                                {"exclusion_sets", i->exclusion_.exclusion_sets_.size()}, {"element", i->graph_.elements_.size()}}) {
    for (auto const& id : beyond(n)) h.status(base + "/" + what + "/" + id, 404, "asking for what is not there");
    for (auto const* id : {"", "-1", "1x", "x", "0/0"}) h.status(base + "/" + what + "/" + id, 404, "asking for no id");
    h.status("/infrastructure/nosuch/" + what + "/0", 404, "asking an unknown infrastructure");
  }
  for (auto const* what : {"/bounding_box", "/stations/", "/search/abc", "/timetables/", "/timetable/T"}) h.status(std::string("/infrastructure/nosuch") + what, 404, "asking an unknown infrastructure");
}

struct entry {
  std::string kind_, name_;
  std::size_t id_;
  box b_;
  std::string type_;
};
std::string pad(std::size_t id) {
  char b[24];
  std::snprintf(b, sizeof(b), "%03zu", id);
  return b;
}
std::vector<entry> directory(inf::infrastructure const& i) {
  std::vector<entry> r;
  auto const& pos = i->element_positions_;
  for (auto const& s : i->stations_) {
    box b;
    for (auto const& e : s->elements_) b.add(pos[e->id()]);
    r.push_back({"station", str(s->ds100_), s->id_, b, ""});
    auto const full = str(i->full_station_names_[s->id_]);
    if (full != str(s->ds100_)) r.push_back({"station", full, s->id_, b, ""});
  }
  for (auto const& e : i->graph_.elements_) {
    box b;
    b.add(pos[e->id()]);
    auto const add = [&](std::string const& n) { r.push_back({"element", n, e->id(), b, e->get_type_str()}); };
    add(pad(e->id()));
    auto const& d = i->graph_.element_data_[e->id()];
    if (e->is(inf::type::MAIN_SIGNAL)) add(str(d.as<inf::main_signal>().name_));
    if (e->is(inf::type::SIMPLE_SWITCH)) add(str(d.as<inf::switch_data>().name_));
    if (e->is(inf::type::HALT)) {
      auto const& x = d.as<inf::halt>();
      for (auto const* n : {&x.name_, &x.identifier_extern_, &x.identifier_operational_}) {
        if (!n->empty()) add(str(*n));
      }
    }
  }
  for (auto const& s : i->station_routes_) {
    box b;
    for (auto const& n : s->nodes()) b.add(pos[n->element_->id()]);
    r.push_back({"stationRoute", str(s->name_), s->id_, b, ""});
  }
  for (auto const& s : i->interlocking_.routes_) {
    box b;
    for (auto const& rn : s.iterate(i)) b.add(pos[rn.node_->element_->id()]);
    r.push_back({"interlockingRoute", pad(s.id_), s.id_, b, ""});
  }
  return r;
}
std::string lower(std::string s) {
  std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return static_cast<char>(std::tolower(c)); });
  return s;
}
void searches(host& h, std::string const& name, inf::infrastructure const& i) {
  auto const dir = directory(i);
  auto const fit = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-'; };
  std::set<std::string> queries = {"000", "nothing-is-called-this", "A", "ab", "1", "12"};
  for (auto const& e : dir) {
    if (e.name_.empty() || !std::all_of(e.name_.begin(), e.name_.end(), fit)) continue;
    queries.insert(e.name_);
    if (e.name_.size() > 3) queries.insert(e.name_.substr(0, 3)), queries.insert(e.name_.substr(e.name_.size() - 3));
  }
  for (auto const& q : queries) {
    auto const t = "/infrastructure/" + name + "/search/" + q;
    if (q.size() < 3) {
      h.status(t, 400, "a query of less than three letters");
      continue;
    }
    json want = json::array();
    for (auto const& e : dir) {
      if (lower(e.name_).find(lower(q)) != std::string::npos) want.push_back({{"type", e.kind_}, {"name", e.name_}, {"id", e.id_}, {"boundingBox", e.b_.j()}, {"elementType", e.type_}});
    }
    auto got = h.ok(t);
    // a list without a name
    if (got.is_object() && got.size() == 1) got = got.begin().value();
    mc::require(got.is_array(), "search result is no list", t);
    same(sorted(got), sorted(want), "search result", t);
  }
}

void infrastructure_names(host& h, std::vector<std::string> const& want) {
  for (auto const* slash : {"", "/"}) {
    auto got = h.ok(std::string("/infrastructures") + slash);
    mc::require(got.is_object() && got.contains("infrastructures"), "infrastructure names", got.dump());
    got["infrastructures"] = sorted(got["infrastructures"]);
    same(got, {{"infrastructures", sorted(json(want))}}, "infrastructure names", slash);
  }
}

// ---------------------------------------------------------------- one infrastructure

void one(std::string const& d, route_case& c, std::string const& sets) {
  mc::run([&] { return d; },
          [&] {
            host h;
            auto const dir = c.write_iss(1, "web/infrastructure/one");
            put(h.s_.coord_file(), "ds100,lat,lon\nA,50.5,8.25\nC,50.75,8.5\n");
            auto i = reference(h, "one");
            if (!sets.empty() && i->interlocking_.routes_.size() > 2) {
              put(dir / "exclusion_sets", sets);
              i = reference(h, "one");
            }
            h.start();
            infrastructure_names(h, {"one"});
            lookups(h, "one", i);
            searches(h, "one", i);
            mc::trace();
            mc::state(mc::str(i->graph_.elements_.size(), "|", i->station_routes_.size(), "|", i->interlocking_.routes_.size(), "|", d.substr(0, 8)));
          });
}

void named(topo& t) {
  int k = 0;
  for (auto& s : t.S) {
    for (auto& e : s.els_) {
      ++k;
      if (e.tag_.starts_with("Hauptsignal")) e.extra_ = mc::str("<Name>Sig", k, "</Name>");
      if (e.tag_.starts_with("Halt")) e.extra_ = mc::str("<Name>Halt-", k, "</Name><BezeichnerBetrieb>op_", k, "</BezeichnerBetrieb><BezeichnerExtern>ext", k, "</BezeichnerExtern>");
      if (e.tag_ == "Neigung") e.extra_ = extra_of(e.tag_);
    }
  }
  for (auto& e : t.E) {
    if (e.k_ == SWITCH_L || e.k_ == SWITCH_R) e.extra_ = mc::str("<Name>W", 100 + k++, "</Name>");
  }
}

void one_infrastructure() {
  each_route_layout([&](std::string const& d, route_case& c) {
    named(c.t_);
    one(d, c, "0 1\n2\n");
  });
  // every element type with every state of its data
  mc::group("element data");
  std::vector<std::string> halts;
  for (int m = 0; m < 8; ++m) {
    halts.push_back(mc::str((m & 1) ? "<Name>Halle</Name>" : "", (m & 2) ? "<BezeichnerBetrieb>betrieb</BezeichnerBetrieb>" : "", (m & 4) ? "<BezeichnerExtern>extern</BezeichnerExtern>" : ""));
  }
  std::vector<std::pair<std::string, std::vector<std::string>>> kinds;
  for (auto const& t : every_tag()) {
    if (t.starts_with("GeschwZ")) continue;
    if (t.starts_with("Halte")) {
      kinds.push_back({t, halts});
    } else if (t.starts_with("Hauptsignal")) {
      kinds.push_back({t, {"", "<Name>N2</Name>", "<Name>signal_7</Name>"}});
    } else if (t == "Neigung") {
      kinds.push_back({t, {extra_of(t), "<Steigend>0</Steigend><Fallend>25,75</Fallend>"}});
    } else {
      kinds.push_back({t, {""}});
    }
  }
  for (auto const* t : {"GeschwZulaessigS", "GeschwZulaessigF"}) {
    for (int k = 0; k < 8; ++k) {
      if (k == 0) kinds.push_back({t, {}});
      kinds.back().second.push_back(spl_xml((k & 1) ? 80 : 37, 0, k & 2, (k & 4) ? 1 : 0));
    }
  }
  for (auto const& [tag, xs] : kinds) {
    for (auto const& x : xs) {
      for (auto const& [other, ys] : kinds) {
        if (!mc::thorough() && !other.starts_with("Halte") && &other != &kinds.front().first) continue;
        route_case c;
        auto const st = c.t_.station("Ahaus");
        auto const a = c.t_.el(BUMPER, st), b = c.t_.el(TRACK_END, st);
        c.t_.section(st, 1234, a, 0, 100000, b, 0, 101000, {{tag, 100250, x, 0}, {other, 100500, ys.back(), 0}});
        c.t_.finish();
        one(mc::str("data ", tag, " ", x, " ", other), c, "");
      }
    }
  }
}

// ---------------------------------------------------------------- several infrastructures and timetables

void make_version(fs::path const& dir, std::string const& v) {
  auto const p = dir / "Index.xml";
  std::ifstream f(p, std::ios::binary);
  std::string s{std::istreambuf_iterator<char>(f), {}};
  f.close();
  s.replace(s.find("<Name>V</Name>"), 14, "<Name>" + v + "</Name>");
  put(p, s);
}

json spans(tt::base_timetable const& t) { return {{"start", soro::absolute_time_to_rep(t.interval_.start_)}, {"end", soro::absolute_time_to_rep(t.interval_.end_)}}; }

void several() {
  mc::group("several infrastructures and timetables");
  // infrastructures: absent or one of two versions; timetables: absent, of either version, broken
  mc::odometer({3, 3, 3, 4, 4, 2}, [&](std::vector<int> const& v) {
    mc::run([&] { return "several " + mc::seq(v); },
            [&] {
              host h;
              std::vector<std::string> const in = {"alpha", "beta-2", "GAMMA_3"};
              std::vector<std::string> const tn = {"plan", "Plan-2_b"};
              std::vector<std::string> have;
              std::vector<world> ws;
              auto w = make_world({"hS", "MhS", "Sh"}, 0);
              for (std::size_t k = 0; k < 3; ++k) {
                if (v[k] == 0) continue;
                make_version(w.c_.write_iss(1, "web/infrastructure/" + in[k]), v[k] == 1 ? "V" : "W");
                have.push_back(in[k]);
              }
              for (std::size_t k = 0; k < 2; ++k) {
                auto const kind = v[3 + k];
                if (kind == 0) continue;
                kfile f{"KSS-1.xml", {}};
                f.groups_.push_back({"freig", {plain(w, 1, 36000 + static_cast<long>(k) * 3600)}});
                f.version_ = kind == 1 ? "V" : "W";
                auto const dir = write_timetable(w, {f}, "web/timetable/" + tn[k]);
                if (kind == 3) fs::remove(dir / "KSS-1.xml");
              }
              if (v[5]) {
                // what else lies around
                put(h.infras() / "readme", "x");
                put(h.timetables() / "KSS-1.xml", "x");
                fs::create_directories(h.timetables() / "empty");
              }
              h.start();
              infrastructure_names(h, have);
              for (auto const& i : in) {
                auto const k = static_cast<std::size_t>(&i - in.data());
                auto const base = "/infrastructure/" + i;
                if (v[k] == 0) {
                  for (auto const* what : {"/timetables", "/timetables/", "/timetable/plan", "/stations/", "/bounding_box", "/search/abc", "/element/0", "/timetable/plan/ordering?from=0&to=10&trainIds="}) {
                    h.status(base + what, 404, "asking an unknown infrastructure");
                  }
                  continue;
                }
                auto const ref = reference(h, i);
                same(h.ok(base + "/stations/"), {{"stations", names_of(ref)}}, "stations", base);
                std::vector<std::string> tts;
                for (std::size_t t = 0; t < 2; ++t) {
                  auto const at = base + "/timetable/" + tn[t];
                  if (v[3 + t] != v[k]) {
                    h.status(at, 404, "asking for an unknown timetable");
                    h.status(at + "/ordering?from=0&to=10&trainIds=", 404, "asking for an unknown timetable");
                    continue;
                  }
                  tts.push_back(tn[t]);
                  auto const rt = tt::try_parsing_timetable(tt::make_timetable_opts(h.timetables() / tn[t]), ref);
                  mc::require(rt.has_value(), "a timetable is turned down", at);
                  for (auto const* slash : {"", "/"}) same(h.ok(at + slash), {{"timetable", {{"source", tn[t]}, {"interval", spans(**rt)}}}}, "timetable", at);
                }
                for (auto const* slash : {"", "/"}) {
                  auto got = h.ok(base + "/timetables" + slash);
                  mc::require(got.is_object() && got.contains("timetables"), "timetable names", got.dump());
                  got["timetables"] = sorted(got["timetables"]);
                  same(got, {{"timetables", sorted(json(tts))}}, "timetable names", base);
                }
              }
              h.status("/nothing", 404, "asking for nothing known");
              mc::require(h.get("/infrastructures", false, boost::beast::http::verb::post).status_ == 404, "only GET is answered", "");
              mc::trace();
              mc::state(mc::seq(v));
            });
  });
}

// ---------------------------------------------------------------- ordering graphs

void check_ordering(host& h, inf::infrastructure const& i, tt::timetable const& t, std::string const& base, std::string const& from, std::string const& to, std::string const& ids) {
  auto const target = base + "/ordering?from=" + from + "&to=" + to + "&trainIds=" + ids;
  auto const num = [](std::string const& s) -> std::optional<std::uint32_t> {
    if (s.empty() || s.size() > 18 || std::stoull(s) > 4294967295ULL) return {};
    return static_cast<std::uint32_t>(std::stoull(s));
  };
  soro::simulation::ordering_graph::filter f;
  bool good = num(from) && num(to) && *num(from) <= *num(to);
  if (!ids.empty()) {
    std::string part;
    for (auto const ch : ids + ",") {
      if (ch != ',') {
        part += ch;
        continue;
      }
      if (!num(part)) {
        good = false;
      } else {
        f.trains_.push_back(*num(part));
      }
      part.clear();
    }
  }
  if (!good) {
    h.status(target, 400, "a filter that makes no sense");
    return;
  }
  f.interval_ = {soro::rep_to_absolute_time(*num(from)), soro::rep_to_absolute_time(*num(to))};
  soro::simulation::ordering_graph const og(i, t, f);
  auto const got = h.ok(target);
  mc::require(got.is_object() && got.contains("attributes") && got.contains("nodes") && got.contains("edges"), "parts of an ordering graph", target);
  std::size_t longest = 0;
  std::map<unsigned, json> want;
  json edges = json::array();
  for (auto const& [trip, range] : og.trip_to_nodes_) {
    longest = std::max<std::size_t>(longest, range.second - range.first);
    for (auto n = range.first; n < range.second; ++n) {
      auto const& x = og.nodes_[n];
      want[n] = {{"train", x.train_id_}, {"offset", n - range.first}, {"route", x.ir_id_}};
      for (auto const o : x.out_) edges.push_back({{"source", n}, {"target", o}});
    }
  }
  same(got["attributes"], {{"totalTrains", og.trip_to_nodes_.size()}, {"maxTrainLength", longest}}, "attributes of an ordering graph", target);
  mc::eq(got["nodes"].size(), want.size(), "number of nodes", target);
  std::map<unsigned, unsigned> rank;
  for (auto const& n : got["nodes"]) {
    auto const key = n.at("key").get<unsigned>();
    mc::require(want.contains(key) && !rank.contains(key), "node of an ordering graph", target, " ", n.dump());
    auto a = n.at("attributes");
    mc::require(a.contains("relativeTrainId"), "node of an ordering graph", target, " ", n.dump());
    rank[key] = a["relativeTrainId"].get<unsigned>();
    a.erase("relativeTrainId");
    same(a, want[key], "node of an ordering graph", target);
  }
  same(sorted(got["edges"]), sorted(edges), "edges of an ordering graph", target);
  // trips are counted by their departure
  std::vector<std::pair<unsigned, std::uint64_t>> by_rank;
  for (auto const& [trip, range] : og.trip_to_nodes_) {
    for (auto n = range.first; n < range.second; ++n) mc::eq(rank[n], rank[range.first], "relative id within a trip", target);
    auto const dep = soro::absolute_time_to_rep(soro::relative_to_absolute(trip.anchor_, t->trains_[trip.train_id_].first_departure()));
    by_rank.emplace_back(rank[range.first], dep);
  }
  std::sort(by_rank.begin(), by_rank.end());
  for (std::size_t k = 0; k < by_rank.size(); ++k) {
    mc::eq(by_rank[k].first, k, "relative ids of trips", target);
    mc::require(k == 0 || by_rank[k - 1].second <= by_rank[k].second, "order of relative ids", target);
  }
  mc::step(og.nodes_.size());
}

void orderings() {
  mc::group("ordering graphs");
  std::vector<std::vector<long>> const departures = {{36000}, {36000, 36000}, {36000, 36300}, {36600, 36000, 36300}, {86000, 0, 85800}};
  std::vector<std::string> const masks = {"1", "11", "101"};
  std::vector<std::string> const sets = {"", "0 1\n2\n", "0\n1\n2\n", "0 1 2 3\n"};
  mc::odometer({static_cast<int>(departures.size()), static_cast<int>(masks.size()), static_cast<int>(sets.size()), 2}, [&](std::vector<int> const& v) {
    mc::run([&] { return "ordering " + mc::seq(v); },
            [&] {
              host h;
              auto w = v[3] ? make_world({"hS", "MhS", "Sh"}, 0) : make_world({"hS", "ShS", "SSh"}, 0);
              auto const dir = w.c_.write_iss(1, "web/infrastructure/one");
              auto const& set = sets[static_cast<std::size_t>(v[2])];
              auto const n_irs = (*w.infra_)->interlocking_.routes_.size();
              if (!set.empty() && (n_irs > 3 || set.find('3') == std::string::npos)) put(dir / "exclusion_sets", set);
              kfile f{"KSS-1.xml", {}};
              unsigned no = 1;
              for (auto const d : departures[static_cast<std::size_t>(v[0])]) {
                auto k = plain(w, no, d);
                k.services_ = {{static_cast<int>(no % 2), masks[static_cast<std::size_t>(v[1])]}};
                f.groups_.push_back({"freig", {k}});
                ++no;
              }
              write_timetable(w, {f}, "web/timetable/T");
              h.start();
              auto const i = reference(h, "one");
              auto const t = tt::try_parsing_timetable(tt::make_timetable_opts(h.timetables() / "T"), i);
              mc::require(t.has_value() && (**t).trains_.size() == no - 1, "the timetable", "");
              auto const base = std::string("/infrastructure/one/timetable/T");
              auto const s = soro::absolute_time_to_rep((**t).interval_.start_), e = soro::absolute_time_to_rep((**t).interval_.end_);
              std::vector<std::string> times = {"0", "4294967295"};
              for (auto const x : {s - 1, s, s + 100, s + 600, s + 86400, e - 1, e, e + 1, e + 86400}) times.push_back(std::to_string(x));
              for (auto const& a : times) {
                for (auto const& b : times) check_ordering(h, i, *t, base, a, b, "");
              }
              for (auto const* ids : {"0", "1", "2", "0,1", "1,0", "2,0", "0,0", "7", "0,7", "4294967295", "00", ",0", ",0,1", "4294967296", "0,99999999999999999999", ",1"}) {
                check_ordering(h, i, *t, base, std::to_string(s), std::to_string(e), ids);
                check_ordering(h, i, *t, base, "0", "4294967295", ids);
              }
              for (auto const* a : {"4294967296", "99999999999999999999", "00000000000000000000"}) {
                if (a[0] != '0') check_ordering(h, i, *t, base, a, "4294967295", "");
                check_ordering(h, i, *t, base, "0", a[0] == '0' ? "0" : a, "0");
              }
              for (auto const* q : {"?from=&to=1&trainIds=", "?from=1&to=&trainIds=", "?from=1&to=2", "?from=-1&to=2&trainIds=", "?from=1&to=2&trainIds=a", "?from=1&to=2&trainIds=0,", "?to=2&from=1&trainIds=", "", "?"}) {
                h.status(base + "/ordering" + q, 404, "a request that is not understood");
              }
              mc::trace();
              mc::state(mc::seq(v));
            });
  });
}

// ---------------------------------------------------------------- what is generated at start

void starts() {
  mc::group("starting again");
  // between two starts: nothing, the map or the tiles are gone, one is older than the other, everything is to be made anew, the data changed
  static char const* const what[] = {"nothing", "no map", "no tiles", "map newer", "tiles newer", "regenerate", "no map, no tiles", "another infrastructure"};
  mc::sequences(8, 0, mc::tier(2, 3), [&](std::vector<int> const& v) {
    mc::run([&] { return "starts " + mc::seq(v); },
            [&] {
              host h;
              auto w = make_world({"hS", "Sh"}, 0);
              w.c_.write_iss(1, "web/infrastructure/one");
              auto const osm = h.s_.osm_dir() / "one.osm", db = h.s_.tiles_dir() / "one.mdb";
              auto const osm2 = h.s_.osm_dir() / "two.osm", db2 = h.s_.tiles_dir() / "two.mdb";
              imports.clear();
              h.start();
              mc::require(fs::exists(osm) && imports.size() == 1, "first start", imports.size());
              mc::require(imports[0].osm_path_ == osm && imports[0].db_path_ == db && imports[0].tmp_dir_ == h.s_.tmp_dir() && imports[0].osm_profile_ == h.s_.profile_file(), "settings of the import", imports[0].db_path_.string());
              bool two = false;
              auto const now = fs::file_time_type::clock::now();
              for (auto const k : v) {
                mc::step();
                h.srv_.reset();
                // all files are old, tiles later than the map
                put(osm, "old map");
                put(db, "old tiles");
                fs::last_write_time(osm, now - std::chrono::hours(2));
                fs::last_write_time(db, now - std::chrono::hours(1));
                if (two) {
                  put(osm2, "old map");
                  put(db2, "old tiles");
                  fs::last_write_time(osm2, now - std::chrono::hours(2));
                  fs::last_write_time(db2, now - std::chrono::hours(2));
                }
                h.s_.regenerate_.val() = k == 5;
                if (k == 1 || k == 6) fs::remove(osm);
                if (k == 2 || k == 6) fs::remove(db);
                if (k == 3) fs::last_write_time(osm, now);
                if (k == 4) fs::last_write_time(db, now);
                bool const fresh = k == 7 && !two;
                if (fresh) {
                  w.c_.write_iss(1, "web/infrastructure/two");
                  two = true;
                }
                imports.clear();
                h.start();
                auto const text = [](fs::path const& p) {
                  std::ifstream f(p, std::ios::binary);
                  return std::string{std::istreambuf_iterator<char>(f), {}};
                };
                bool const map = k == 1 || k == 5 || k == 6, tiles = map || k == 2 || k == 3;
                mc::eq(text(osm) != "old map", map, "making the map", what[k]);
                mc::eq(text(db) != "old tiles", tiles, "making the tiles", what[k]);
                if (two) {
                  bool const anew = fresh || k == 5;
                  mc::eq(text(osm2) != "old map", anew, "making the map of the other infrastructure", what[k]);
                  mc::eq(text(db2) != "old tiles", anew, "making the tiles of the other infrastructure", what[k]);
                  mc::eq(imports.size(), static_cast<std::size_t>(tiles) + static_cast<std::size_t>(anew), "number of imports", what[k]);
                } else {
                  mc::eq(imports.size(), static_cast<std::size_t>(tiles), "number of imports", what[k]);
                }
                // every infrastructure has its own tiles
                for (auto const& [name, p] : {std::pair<std::string, fs::path>{"one", db}, {"two", db2}}) {
                  auto const t = "/infrastructure/" + name + "/tiles/7/65/12.mvt";
                  auto const a = h.get(t, true);
                  if (name == "two" && !two) {
                    mc::eq(a.status_, 404U, "tiles of an unknown infrastructure", t);
                    continue;
                  }
                  mc::require(a.status_ == 200 && a.body_ == "7/65/12@" + text(p) && a.encoding_ == "deflate", "a tile", t, ": ", a.status_, " ", a.body_);
                  mc::eq(h.get(t).status_, 501U, "a tile that is not to be packed", t);
                  mc::eq(h.get("/infrastructure/" + name + "/tiles/21/0/0.mvt", true).status_, 204U, "a tile without content", t);
                }
              }
              mc::trace();
              mc::state(mc::seq(v));
            });
  });
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  one_infrastructure();
  several();
  orderings();
  starts();
  return mc::finish();
}
