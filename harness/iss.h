#pragma once
// Track topologies: a small description language, its ISS XML form (read by
// the real parser) and the physical model the checks compare with.
//
// A topology is a set of section elements (ends, borders, switches, crosses,
// ...) whose ports are joined by sections of track; track elements sit on the
// sections.  The model only knows geometry: which port of an element leads to
// which, and what a train meets when it runs along a section.
#include "mc.h"

#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <optional>

#include "soro/infrastructure/infrastructure.h"

namespace iss {

namespace fs = std::filesystem;
namespace inf = soro::infra;

enum kind { BUMPER, TRACK_END, BORDER, KM_JUMP, LINE_SWITCH, SWITCH_L, SWITCH_R, CROSS, CROSS_SWITCH };

inline int ports(kind k) {
  switch (k) {
    case BUMPER:
    case TRACK_END:
    case BORDER: return 1;  // a border has one port inside its station
    case KM_JUMP:
    case LINE_SWITCH: return 2;
    case SWITCH_L:
    case SWITCH_R: return 3;
    case CROSS:
    case CROSS_SWITCH: return 4;
  }
  return 0;
}

struct tel {  // an element on the track
  std::string tag_;  // XML name, including the direction letter
  int km_{0};  // metres
  std::string extra_{};  // further XML children
  long id_{0};
  std::string km_text_{};  // the kilometrage as written, if not in metres
};

struct sec {
  int line_{1};
  int ea_{-1}, pa_{0}, kma_{0};  // start: element, port, kilometrage in metres
  int eb_{-1}, pb_{0}, kmb_{0};
  std::vector<tel> els_;
  std::string raw_{};  // further XML between the first and the last node
};

struct sel {  // a section element
  kind k_{BUMPER};
  int station_{0};
  bool arc0_{false}, arc1_{false};  // cross switches: SL-ER, SR-EL
  std::string partner_{};  // borders
  int track_{1};
  int other_{-1};  // the border on the other side
  std::string extra_{};  // further XML children of every node
  std::string name_xml_{};  // of a switch; empty: a name made of its id
  long ids_[4]{0, 0, 0, 0};
  // filled by finish(): section and which end of it joins each port
  int psec_[4]{-1, -1, -1, -1};
  bool pstart_[4]{false, false, false, false};
};

struct spl {
  long node_{0};
  int kmh_{0};
  int len_{0};  // metres, 0: none
  bool signal_{false};  // point of action "Signal" (otherwise "Hier")
  int effect_{0};  // all, conventional, LZB
};

struct rte {
  std::string name_;
  long from_{0}, to_{0};
  std::string course_{};  // 'S' stem / 'B' branch per switch
  long passenger_{0}, freight_{0}, checkpoint_{0};
  std::vector<long> omitted_;
  std::vector<spl> spls_;
  std::vector<std::string> attributes_;
  bool publish_only_{false};
  int warnings_{0};  // limits at warning signs, which say nothing: 1 before, 2 after the others
};

struct sta {
  std::string name_;
  std::vector<int> secs_;
  std::vector<rte> routes_;
};

struct topo {
  std::vector<sel> E;
  std::vector<sec> S;
  std::vector<sta> T;
  long next_id_{1};
  std::string core_{};  // core data XML (Stammdaten)
  std::string lines_{};  // regulatory line data

  int station(std::string name) {
    T.push_back({std::move(name), {}, {}});
    return static_cast<int>(T.size()) - 1;
  }
  int el(kind k, int st = 0) {
    sel e;
    e.k_ = k;
    e.station_ = st;
    for (int p = 0; p < ports(k); ++p) e.ids_[p] = next_id_++;
    E.push_back(e);
    return static_cast<int>(E.size()) - 1;
  }
  // a section in station st from element port a to element port b
  int section(int st, int line, int ea, int pa, int kma, int eb, int pb, int kmb, std::vector<tel> els = {}) {
    sec s;
    s.line_ = line;
    s.ea_ = ea;
    s.pa_ = pa;
    s.kma_ = kma;
    s.eb_ = eb;
    s.pb_ = pb;
    s.kmb_ = kmb;
    s.els_ = std::move(els);
    for (auto& t : s.els_) t.id_ = next_id_++;
    S.push_back(std::move(s));
    auto const id = static_cast<int>(S.size()) - 1;
    T[static_cast<std::size_t>(st)].secs_.push_back(id);
    return id;
  }
  // joins two borders
  void join(int a, int b, int track) {
    auto &x = E[static_cast<std::size_t>(a)], &y = E[static_cast<std::size_t>(b)];
    x.other_ = b;
    y.other_ = a;
    x.partner_ = T[static_cast<std::size_t>(y.station_)].name_;
    y.partner_ = T[static_cast<std::size_t>(x.station_)].name_;
    x.track_ = y.track_ = track;
  }
  void finish() {
    for (std::size_t i = 0; i < S.size(); ++i) {
      auto& a = E[static_cast<std::size_t>(S[i].ea_)];
      a.psec_[S[i].pa_] = static_cast<int>(i);
      a.pstart_[S[i].pa_] = true;
      auto& b = E[static_cast<std::size_t>(S[i].eb_)];
      b.psec_[S[i].pb_] = static_cast<int>(i);
      b.pstart_[S[i].pb_] = false;
    }
  }
  sel const& e(int i) const { return E[static_cast<std::size_t>(i)]; }
  sec const& s(int i) const { return S[static_cast<std::size_t>(i)]; }
};

// ---------------------------------------------------------------- XML

inline std::string km(int m) {
  char b[32];
  std::snprintf(b, sizeof b, "%d,%03d", m / 1000, m % 1000);
  return b;
}

inline std::string port_xml(topo const& t, sel const& e, int p, int metres) {
  auto const id = std::to_string(e.ids_[p]);
  auto const main = std::to_string(e.ids_[0]);
  std::string tag, extra;
  auto const ref = [](std::string n, std::string i) { return "<" + n + " ID=\"" + i + "\"/>"; };
  switch (e.k_) {
    case BUMPER: tag = "Prellbock"; break;
    case TRACK_END: tag = "Gleisende"; break;
    case BORDER:
      tag = "Betriebsstellengrenze";
      extra = "<PartnerBtrst>" + e.partner_ + "</PartnerBtrst><Gleiskennzeichen>" + std::to_string(e.track_) + "</Gleiskennzeichen>";
      break;
    case KM_JUMP:
      tag = p == 0 ? "KmSprungAnfang" : "KmSprungEnde";
      extra = ref("Partnerknoten", std::to_string(e.ids_[1 - p]));
      break;
    case LINE_SWITCH:
      tag = p == 0 ? "Streckenwechsel0" : "Streckenwechsel1";
      extra = ref("Partnerknoten", std::to_string(e.ids_[1 - p]));
      break;
    case SWITCH_L:
    case SWITCH_R:
      tag = p == 0 ? "Weichenanfang" : p == 1 ? "Weichenstamm" : e.k_ == SWITCH_L ? "WeichenabzweigLinks" : "WeichenabzweigRechts";
      extra = p == 0 ? (e.name_xml_.empty() ? "<Name>W" + main + "</Name>" : e.name_xml_) : ref("Partner", main);
      break;
    case CROSS:
    case CROSS_SWITCH: {
      std::string const base = e.k_ == CROSS ? "Kreuzung" : "Kreuzungsweiche";
      static char const* const suf[] = {"AnfangLinks", "EndeLinks", "AnfangRechts", "EndeRechts"};
      tag = base + suf[p];
      if (p == 0) extra = ref("NachbarGeradeaus", std::to_string(e.ids_[1]));
      if (p == 1) extra = ref("NachbarGeradeaus", main);
      if (p >= 2) extra = ref("HauptknotenAnfang", main);
      if (e.arc0_ && (p == 0 || p == 3)) extra += ref("NachbarAbzweig", std::to_string(e.ids_[p == 0 ? 3 : 0]));
      if (e.arc1_ && (p == 1 || p == 2)) extra += ref("NachbarAbzweig", std::to_string(e.ids_[p == 1 ? 2 : 1]));
      break;
    }
  }
  return "<" + tag + "><ID>" + id + "</ID><Kilometrierung>" + km(metres) + "</Kilometrierung>" + e.extra_ + extra + "</" + tag + ">\n";
}

inline std::string spl_xml(int kmh, int len, bool signal, int effect) {
  static char const* const eff[] = {"Alle", "Konventionell", "LZB"};
  return mc::str("<Geschw>", kmh, "</Geschw>", len > 0 ? mc::str("<Laenge Einheit=\"m\">", len, "</Laenge>") : std::string{},
                 "<Wirkungsort>", signal ? "Signal" : "Hier", "</Wirkungsort><Zugbeeinflussung>", eff[effect], "</Zugbeeinflussung>");
}

inline std::string station_xml(topo const& t, sta const& st) {
  std::string o = "<Spurplanbetriebsstelle><Betriebsstelle>" + st.name_ + "</Betriebsstelle><Spurplanabschnitte>\n";
  for (auto const si : st.secs_) {
    auto const& s = t.s(si);
    o += "<Spurplanabschnitt><Strecke>" + std::to_string(s.line_) + "</Strecke><Spurplanknoten>\n";
    o += port_xml(t, t.e(s.ea_), s.pa_, s.kma_);
    for (auto const& e : s.els_) {
      o += "<" + e.tag_ + "><ID>" + std::to_string(e.id_) + "</ID><Kilometrierung>" + (e.km_text_.empty() ? km(e.km_) : e.km_text_) + "</Kilometrierung>" + e.extra_ +
           "</" + e.tag_ + ">\n";
    }
    o += s.raw_;
    o += port_xml(t, t.e(s.eb_), s.pb_, s.kmb_);
    o += "</Spurplanknoten></Spurplanabschnitt>\n";
  }
  o += "</Spurplanabschnitte><Betriebsstellenfahrwege>\n";
  for (auto const& r : st.routes_) {
    o += "<Betriebsstellenfahrweg><Name>" + r.name_ + "</Name>";
    auto const ref = [&](char const* n, long id) {
      if (id != 0) o += std::string("<") + n + " Typ=\"x\" ID=\"" + std::to_string(id) + "\"/>";
    };
    ref("Anfang", r.from_);
    ref("Ende", r.to_);
    ref("Reisezughalt", r.passenger_);
    ref("Gueterzughalt", r.freight_);
    ref("Fahrzeitmesspunkt", r.checkpoint_);
    if (r.publish_only_) o += "<nurVeroeffentlichung/>";
    if (!r.attributes_.empty()) {
      o += "<Attribute>";
      for (auto const& a : r.attributes_) o += "<" + a + "/>";
      o += "</Attribute>";
    }
    o += "<Verlauf>";
    for (auto c : r.course_) o += c == 'S' ? "<Stamm/>" : "<AbzweigLinks/>";
    o += "</Verlauf>";
    if (!r.omitted_.empty()) {
      o += "<EntfallendeKnoten>";
      for (auto id : r.omitted_) {
        std::string tag = "x";
        for (auto const& s : t.S) {
          for (auto const& e : s.els_) {
            if (e.id_ == id) tag = e.tag_;
          }
        }
        o += "<EntfallenderKnoten Typ=\"" + tag + "\" ID=\"" + std::to_string(id) + "\"/>";
      }
      o += "</EntfallendeKnoten>";
    }
    auto const warn = [&](int w) {
      if (r.warnings_ & w) o += "<GeschwBeschraenkung><Knoten Typ=\"Warnfeld\" ID=\"987654321\"/>" + spl_xml(30, 0, false, 0) + "</GeschwBeschraenkung>";
    };
    if (!r.spls_.empty() || r.warnings_ != 0) {
      o += "<GeschwBeschraenkungen>";
      warn(1);
      for (auto const& l : r.spls_) {
        o += "<GeschwBeschraenkung><Knoten Typ=\"x\" ID=\"" + std::to_string(l.node_) + "\"/>" + spl_xml(l.kmh_, l.len_, l.signal_, l.effect_) +
             "</GeschwBeschraenkung>";
      }
      warn(2);
      o += "</GeschwBeschraenkungen>";
    }
    o += "</Betriebsstellenfahrweg>\n";
  }
  return o + "</Betriebsstellenfahrwege></Spurplanbetriebsstelle>\n";
}

inline void put(fs::path const& p, std::string const& s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
}

// writes the topology as an ISS directory and returns its path
inline fs::path write(topo const& t, std::string const& name = "iss", int files = 1) {
  char const* const scratch = std::getenv("MC_SCRATCH");
  fs::path const dir = fs::path(scratch != nullptr ? scratch : "/tmp") / name;
  fs::create_directories(dir);
  std::string idx = "<?xml version=\"1.0\"?><XmlIssIndex><SpurplandatenVersion><Name>V</Name><Nummer>7</Nummer></SpurplandatenVersion><Dateien>";
  auto const add = [&](std::string const& f, std::string const& body) {
    put(dir / f, "<?xml version=\"1.0\"?><XmlIssDaten>" + body + "</XmlIssDaten>");
    idx += "<Datei><Name>" + f + "</Name></Datei>";
  };
  for (int f = 0; f < files; ++f) {
    std::string body = "<Spurplanbetriebsstellen>";
    for (std::size_t i = 0; i < t.T.size(); ++i) {
      if (static_cast<int>(i) % files == f) body += station_xml(t, t.T[i]);
    }
    add("Spurplanbetriebsstellen_" + std::to_string(f) + ".xml", body + "</Spurplanbetriebsstellen>");
  }
  if (!t.core_.empty()) add("Stammdaten_0.xml", "<Stammdaten>" + t.core_ + "</Stammdaten>");
  if (!t.lines_.empty()) add("Ordnungsrahmen_ORStr_0.xml", "<Ordnungsrahmen><Strecken>" + t.lines_ + "</Strecken></Ordnungsrahmen>");
  put(dir / "Index.xml", idx + "</Dateien></XmlIssIndex>");
  return dir;
}

struct load_opts {
  bool interlocking_{false}, exclusions_{false}, graph_{false}, elements_{false};
};

inline inf::infrastructure load(fs::path const& dir, load_opts o = {}) {
  inf::infrastructure_options opts;
  opts.interlocking_ = o.interlocking_;
  opts.exclusions_ = o.exclusions_;
  opts.exclusion_graph_ = o.graph_;
  opts.exclusion_elements_ = o.elements_;
  opts.layout_ = false;
  opts.infrastructure_path_ = dir;
  return inf::infrastructure(opts);
}

// ---------------------------------------------------------------- model

inline bool rising_tag(std::string const& t) { return t.back() == 'S'; }
inline bool undirected_tag(std::string const& t) {
  return t == "Tunnel" || t == "Zugang" || t == "Gleisbezeichnung" || t == "Fahrzeitmesspunkt" || t == "Bahnuebergang" || t == "Neigung";
}

// elements at the same place are met in this order
inline int place_rank(std::string const& tag) {
  static std::vector<std::string> const order = {"Tunnel", "Neigung", "Zugang", "Fahrzeitmesspunkt", "FahrzeitmesspunktS", "FahrzeitmesspunktF",
      "Halteplatz", "Hauptsignal", "Vorsignal", "Schutzsignal", "Zugschlussstelle", "LZBAnfang", "LZBBlock", "LZBEnde", "ETCSAnfang", "ETCSBlock",
      "ETCSEnde", "Geschw", "Zwangshalt", "Punktgeschw", "Bremsweg", "Gleisbezeichnung", "Bahnuebergang"};
  int best = -1;
  std::size_t len = 0;
  for (std::size_t i = 0; i < order.size(); ++i) {
    if (tag.find(order[i]) != std::string::npos && order[i].size() > len) {
      best = static_cast<int>(i);
      len = order[i].size();
    }
  }
  auto const und = undirected_tag(tag);
  return best * 2 + (!und && !rising_tag(tag) ? 1 : 0);
}

// what a train is at: a track element met in a direction of its section, or a
// section element entered through a port (port -1: a border entered from
// the outside)
struct at {
  bool track_{false};
  int sec_{-1}, idx_{-1};
  bool up_{false};
  int el_{-1}, port_{-1};
  auto operator<=>(at const&) const = default;
  bool none() const { return !track_ && el_ < 0; }
};
inline at at_none() { return {}; }
inline at at_track(int s, int i, bool up) {
  at a;
  a.track_ = true;
  a.sec_ = s;
  a.idx_ = i;
  a.up_ = up;
  return a;
}
inline at at_el(int e, int p) {
  at a;
  a.el_ = e;
  a.port_ = p;
  return a;
}

struct model {
  explicit model(topo const& t) : t_{t} {
    for (std::size_t s = 0; s < t.S.size(); ++s) {
      for (bool up : {false, true}) {
        std::vector<int> v;
        for (std::size_t i = 0; i < t.S[s].els_.size(); ++i) {
          auto const& tag = t.S[s].els_[i].tag_;
          if (undirected_tag(tag) || rising_tag(tag) == up) v.push_back(static_cast<int>(i));
        }
        std::stable_sort(v.begin(), v.end(), [&](int a, int b) {
          auto const &x = t.S[s].els_[static_cast<std::size_t>(a)], &y = t.S[s].els_[static_cast<std::size_t>(b)];
          if (x.km_ != y.km_) return up ? x.km_ < y.km_ : x.km_ > y.km_;
          return std::pair(place_rank(x.tag_), x.id_) < std::pair(place_rank(y.tag_), y.id_);
        });
        met_[up].push_back(v);
      }
    }
  }

  std::vector<int> const& met(int s, bool up) const { return met_[up][static_cast<std::size_t>(s)]; }

  // running on section s in direction up, after the i-th element met
  at along(int s, bool up, std::size_t i) const {
    auto const& v = met(s, up);
    if (i < v.size()) return at_track(s, v[i], up);
    auto const& x = t_.s(s);
    return up ? at_el(x.eb_, x.pb_) : at_el(x.ea_, x.pa_);
  }
  // leaving element e through port p
  at leave(int e, int p) const {
    auto const& x = t_.e(e);
    auto const s = x.psec_[p];
    if (s < 0) return at_none();
    return along(s, x.pstart_[p], 0);
  }

  // {straight on, diverging}
  std::pair<at, at> next(at const& a) const {
    if (a.track_) {
      auto const& v = met(a.sec_, a.up_);
      auto const pos = static_cast<std::size_t>(std::find(v.begin(), v.end(), a.idx_) - v.begin());
      return {along(a.sec_, a.up_, pos + 1), at_none()};
    }
    auto const& x = t_.e(a.el_);
    auto const p = a.port_;
    switch (x.k_) {
      case BUMPER:
      case TRACK_END: return {p < 0 ? leave(a.el_, 0) : at_none(), at_none()};
      case BORDER:
        if (p < 0) return {leave(a.el_, 0), at_none()};
        return {x.other_ < 0 ? at_none() : at_el(x.other_, -1), at_none()};
      case KM_JUMP:
      case LINE_SWITCH: return {leave(a.el_, 1 - p), at_none()};
      case SWITCH_L:
      case SWITCH_R:
        if (p == 0) return {leave(a.el_, 1), leave(a.el_, 2)};
        return {leave(a.el_, 0), at_none()};
      case CROSS:
      case CROSS_SWITCH: {
        static int const straight[] = {1, 0, 3, 2};
        static int const div[] = {3, 2, 1, 0};
        bool const arc = (p == 0 || p == 3) ? x.arc0_ : x.arc1_;
        return {leave(a.el_, straight[p]), arc ? leave(a.el_, div[p]) : at_none()};
      }
    }
    return {at_none(), at_none()};
  }

  // everything a train can be at; ends and borders also as places to start from
  std::vector<at> all() const {
    std::vector<at> r;
    for (std::size_t s = 0; s < t_.S.size(); ++s) {
      for (bool up : {false, true}) {
        for (auto i : met(static_cast<int>(s), up)) r.push_back(at_track(static_cast<int>(s), i, up));
      }
    }
    for (std::size_t e = 0; e < t_.E.size(); ++e) {
      auto const& x = t_.E[e];
      for (int p = 0; p < ports(x.k_); ++p) {
        // a switch entered from stem or branch is the same place
        if ((x.k_ == SWITCH_L || x.k_ == SWITCH_R) && p == 2) continue;
        r.push_back(at_el(static_cast<int>(e), p));
      }
      if (x.k_ == BUMPER || x.k_ == TRACK_END || x.k_ == BORDER) r.push_back(at_el(static_cast<int>(e), -1));
    }
    return r;
  }
  at canon(at a) const {
    if (!a.track_ && a.el_ >= 0 && a.port_ == 2) {
      auto const k = t_.e(a.el_).k_;
      if (k == SWITCH_L || k == SWITCH_R) a.port_ = 1;
    }
    return a;
  }
  std::string show(at const& a) const {
    if (a.none()) return "-";
    if (a.track_) {
      return mc::str(t_.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].tag_, "@", t_.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].km_, a.up_ ? "^" : "v");
    }
    static char const* const n[] = {"bumper", "track_end", "border", "km_jump", "line_switch", "switch", "switch", "cross", "cross_switch"};
    return mc::str(n[t_.e(a.el_).k_], a.el_, ".", a.port_);
  }

  topo const& t_;
  std::vector<std::vector<int>> met_[2];
};

// ------------------------------------------------- finding the real objects

inline int metres(soro::si::length l) { return static_cast<int>(std::lround(l.val_)); }

struct lookup {
  lookup(topo const& t, inf::infrastructure_t const& i) : t_{t}, i_{i} {
    std::map<std::tuple<int, int, bool, std::string>, std::vector<inf::element::ptr>> tr;
    std::map<std::pair<int, int>, std::vector<inf::element::ptr>> se;  // line, km
    for (auto const& e : i.graph_.elements_) {
      if (e->is_directed_track_element()) {
        auto const& x = e->as<inf::track_element>();
        tr[{x.line_, metres(x.km_), x.rising_, std::to_string(static_cast<int>(x.type_))}].push_back(e);
      } else if (e->is_undirected_track_element()) {
        auto const& x = e->as<inf::undirected_track_element>();
        tr[{x.line_, metres(x.km_), false, std::to_string(static_cast<int>(x.type_))}].push_back(e);
      } else {
        auto const add = [&](int line, soro::si::length k) {
          auto& v = se[{line, metres(k)}];
          if (std::find(v.begin(), v.end(), e) == v.end()) v.push_back(e);
        };
        if (e->is_end_element()) {
          add(e->as<inf::end_element>().line_, e->as<inf::end_element>().km_);
        } else if (e->is_simple_element()) {
          auto const& x = e->as<inf::simple_element>();
          add(x.start_line_, x.start_km_);
          add(x.end_line_, x.end_km_);
        } else if (e->is(inf::type::SIMPLE_SWITCH)) {
          auto const& x = e->as<inf::simple_switch>();
          add(x.start_line_, x.start_km_);
          add(x.stem_line_, x.stem_km_);
          add(x.branch_line_, x.branch_km_);
        } else if (e->is(inf::type::CROSS)) {
          auto const& x = e->as<inf::cross>();
          add(x.start_left_line_, x.start_left_km_);
          add(x.end_left_line_, x.end_left_km_);
          add(x.start_right_line_, x.start_right_km_);
          add(x.end_right_line_, x.end_right_km_);
        }
      }
    }
    for (auto const& s : t.S) {
      std::vector<inf::element::ptr> v;
      for (auto const& e : s.els_) {
        auto const ty = inf::get_type(e.tag_.c_str());
        auto const it = tr.find({s.line_, e.km_, !undirected_tag(e.tag_) && rising_tag(e.tag_), std::to_string(static_cast<int>(ty))});
        mc::require(it != tr.end() && !it->second.empty(), "track element missing", e.tag_, " at ", e.km_);
        v.push_back(it->second.front());
        if (it->second.size() > 1) it->second.erase(it->second.begin());
      }
      track_.push_back(v);
    }
    for (std::size_t e = 0; e < t.E.size(); ++e) {
      inf::element::ptr found = nullptr;
      for (int p = 0; p < ports(t.E[e].k_); ++p) {
        auto const si = t.E[e].psec_[p];
        if (si < 0) continue;
        auto const& s = t.s(si);
        auto const k = t.E[e].pstart_[p] ? s.kma_ : s.kmb_;
        auto const it = se.find({s.line_, k});
        mc::require(it != se.end(), "section element missing", "element ", e, " port ", p);
        inf::element::ptr hit = nullptr;
        for (auto const& c : it->second) {
          if (is_kind(c, t.E[e].k_) && i_.element_to_station_.at(c->id())->ds100_ == t.T[static_cast<std::size_t>(t.E[e].station_)].name_) hit = c;
        }
        mc::require(hit != nullptr, "section element missing", "element ", e, " port ", p);
        mc::require(found == nullptr || found == hit, "ports of one element parsed as different elements", "element ", e);
        found = hit;
      }
      els_.push_back(found);
    }
  }
  static bool is_kind(inf::element::ptr e, kind k) {
    switch (k) {
      case BUMPER: return e->is(inf::type::BUMPER);
      case TRACK_END: return e->is(inf::type::TRACK_END);
      case BORDER: return e->is(inf::type::BORDER);
      case KM_JUMP: return e->is(inf::type::KM_JUMP);
      case LINE_SWITCH: return e->is(inf::type::LINE_SWITCH);
      case SWITCH_L:
      case SWITCH_R: return e->is(inf::type::SIMPLE_SWITCH);
      case CROSS: return e->is(inf::type::CROSS) && !e->is_cross_switch();
      case CROSS_SWITCH: return e->is(inf::type::CROSS);
    }
    return false;
  }
  inf::element::ptr of(at const& a) const {
    if (a.none()) return nullptr;
    return a.track_ ? track_[static_cast<std::size_t>(a.sec_)][static_cast<std::size_t>(a.idx_)] : els_[static_cast<std::size_t>(a.el_)];
  }

  // sections are numbered station by station
  std::size_t section_id(int s) const {
    std::size_t n = 0;
    for (auto const& r : i_.stations_) {
      for (auto const& st : t_.T) {
        if (!(r->ds100_ == st.name_)) continue;
        for (auto const x : st.secs_) {
          if (x == s) return n;
          ++n;
        }
      }
    }
    mc::fail("section without a station", mc::str(s));
    return 0;
  }

  topo const& t_;
  inf::infrastructure_t const& i_;
  std::vector<std::vector<inf::element::ptr>> track_;
  std::vector<inf::element::ptr> els_;
};

// the node a train passing `a` uses, found by walking (META nodes stand for
// nothing and are skipped)
inline inf::node::ptr skip_meta(inf::node::ptr n) {
  int guard = 0;
  while (n != nullptr && n->is(inf::type::META)) {
    mc::require(++guard < 1000, "endless meta chain", 0);
    mc::require(n->branch_node_ == nullptr, "meta with branch", 0);
    n = n->next_node_;
  }
  return n;
}

using binding = std::map<at, inf::node::ptr>;

// Walks real nodes and model in lockstep from every track element met (both
// directions of undirected ones are reached from their neighbours or tried).
inline binding bind(model const& m, lookup const& l, topo const& t) {
  binding b;
  std::map<inf::node::ptr, at> back;
  std::vector<at> work;
  auto const set = [&](at a, inf::node::ptr n, char const* how) {
    a = m.canon(a);
    if (a.none()) {
      mc::require(n == nullptr, "continues where the track ends", how, " leads to ", n == nullptr ? std::string{} : n->element_->get_type_str());
      return;
    }
    mc::require(n != nullptr, "ends where the track continues", how, ": ", m.show(a), " not reached");
    mc::require(n->element_ == l.of(a), "wrong element ahead", how, ": want ", m.show(a), " got ", n->element_->get_type_str(), " ", n->element_->id());
    auto const it = b.find(a);
    if (it != b.end()) {
      mc::require(it->second == n, "two nodes for one place", how, ": ", m.show(a));
      return;
    }
    auto const r = back.emplace(n, a);
    mc::require(r.second, "one node for two places", how, ": ", m.show(a), " and ", m.show(r.first->second));
    b[a] = n;
    work.push_back(a);
  };
  auto const drain = [&] {
    while (!work.empty()) {
      auto const a = work.back();
      work.pop_back();
      auto const n = b.at(a);
      auto const [main, div] = m.next(a);
      auto const how = m.show(a);
      set(main, skip_meta(n->next_node_), (how + " straight").c_str());
      set(div, skip_meta(n->branch_node_), (how + " diverging").c_str());
      mc::step(2);
    }
  };
  for (auto const& a : m.all()) {
    if (a.track_ && !undirected_tag(t.s(a.sec_).els_[static_cast<std::size_t>(a.idx_)].tag_)) {
      set(a, l.of(a)->as<inf::track_element>().get_node(), "start");
      drain();
    }
  }
  // a meta node stands in an otherwise empty direction of a section: start there too
  for (std::size_t s = 0; s < t.S.size(); ++s) {
    for (bool up : {false, true}) {
      if (!m.met(static_cast<int>(s), up).empty()) continue;
      auto const& rs = l.i_.graph_.sections_[l.section_id(static_cast<int>(s))];
      int metas = 0;
      for (auto const& e : rs.rising_order_) {
        if (e->is(inf::type::META) && e->as<inf::track_element>().rising_ == up) {
          ++metas;
          auto const n = e->as<inf::track_element>().get_node();
          set(m.along(static_cast<int>(s), up, 0), skip_meta(n->next_node_), "placeholder");
          drain();
        }
      }
      mc::require(metas == 1, "placeholder of an empty direction", "section ", s, up ? " rising: " : " falling: ", metas);
    }
  }
  // what is left are undirected elements and entries nothing leads to
  for (auto const& a : m.all()) {
    if (b.contains(m.canon(a))) continue;
    auto const e = l.of(a);
    if (e == nullptr) continue;
    std::vector<inf::node::ptr> cand;
    for (auto const& n : e->nodes()) {
      if (!back.contains(n) && n->reverse_edges_.empty() && n->next_node_ != nullptr) cand.push_back(n);
    }
    auto const [main, div] = m.next(a);
    for (auto const& n : cand) {
      auto const x = skip_meta(n->next_node_);
      if (x != nullptr && !main.none() && x->element_ == l.of(main) && (!b.contains(m.canon(main)) || b.at(m.canon(main)) == x)) {
        set(a, n, "entry");
        drain();
        break;
      }
    }
  }
  return b;
}

}  // namespace iss
