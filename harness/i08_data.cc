// I08: what the files say is what is reported: element types and data,
// kilometrages, lines and their segments, station names, version, defaults,
// file lists, element statistics.
#include "topologies.h"

#include "soro/infrastructure/parsers/iss/get_infra_stats.h"
#include "soro/infrastructure/parsers/iss/iss_files.h"
#include "soro/infrastructure/regulatory_data.h"

using namespace iss;

namespace {

struct kind_of {
  std::string stem_;  // XML name without the direction letter
  bool directed_;
  inf::type type_;
  char const* str_;
};
std::vector<kind_of> const KINDS = {
    {"Hauptsignal", true, inf::type::MAIN_SIGNAL, "ms"},
    {"Vorsignal", true, inf::type::APPROACH_SIGNAL, "as"},
    {"Schutzsignal", true, inf::type::PROTECTION_SIGNAL, "ps"},
    {"Fahrzeitmesspunkt", true, inf::type::RUNTIME_CHECKPOINT, "rtcp"},
    {"SignalZugschlussstelle", true, inf::type::EOTD, "eotd"},
    {"FstrZugschlussstelle", true, inf::type::EOTD, "eotd"},
    {"GeschwZulaessig", true, inf::type::SPEED_LIMIT, "spl"},
    {"GeschwEndeSpeziell", true, inf::type::SPEED_LIMIT, "spl"},
    {"Punktgeschw", true, inf::type::POINT_SPEED, "point_speed"},
    {"Bremsweg", true, inf::type::BRAKE_PATH, "brake_path"},
    {"LZBAnfang", true, inf::type::LZB_START, "lzb_start"},
    {"LZBEnde", true, inf::type::LZB_END, "lzb_end"},
    {"LZBBlockkennzeichen", true, inf::type::LZB_BLOCK_SIGN, "lzb_block_sign"},
    {"ETCSAnfang", true, inf::type::ETCS_START, "etcs_start"},
    {"ETCSEnde", true, inf::type::ETCS_END, "etcs_end"},
    {"ETCSBlockkennzeichen", true, inf::type::ETCS_BLOCK_SIGN, "etcs_block_sign"},
    {"Zwangshalt", true, inf::type::FORCED_HALT, "forced_halt"},
    {"HalteplatzGz", true, inf::type::HALT, "hlt"},
    {"HalteplatzRzLinks", true, inf::type::HALT, "hlt"},
    {"HalteplatzRzRechts", true, inf::type::HALT, "hlt"},
    {"HalteplatzRzBeide", true, inf::type::HALT, "hlt"},
    {"HalteplatzRzRechtsLinks", true, inf::type::HALT, "hlt"},
    {"Tunnel", false, inf::type::TUNNEL, "tunnel"},
    {"Zugang", false, inf::type::ENTRY, "entry"},
    {"Gleisbezeichnung", false, inf::type::TRACK_NAME, "track_name"},
    {"Fahrzeitmesspunkt", false, inf::type::RUNTIME_CHECKPOINT_UNDIRECTED, "rtcp_u"},
    {"Bahnuebergang", false, inf::type::LEVEL_CROSSING, "level_crossing"},
    {"Neigung", false, inf::type::SLOPE, "slope"},
};

struct number {
  char const* text_;
  double val_;
};
std::vector<number> const NUMS = {{"0", 0}, {"10", 10}, {"62,5", 62.5}, {"0,4", 0.4}, {"12.25", 12.25}, {"160", 160}, {"0,125", 0.125}, {"-3,5", -3.5}};

bool close(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }

std::vector<std::string> const NAMES = {"", "A", "N1 - n\xC3\xB6rdlich", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "P 3"};
std::string plain(std::string const& s) { return s; }

struct xel {  // an element with data, and what should be reported of it
  tel tel_;
  int kind_;
  bool rising_;
  std::function<void(inf::graph const&, inf::element::ptr)> data_;
};

// every value of every field of the data of an element of this kind
int variants(int k) {
  auto const t = KINDS[static_cast<std::size_t>(k)].type_;
  auto const n = static_cast<int>(NAMES.size());
  if (t == inf::type::MAIN_SIGNAL) return n;
  if (t == inf::type::HALT) return n * n * n;
  if (t == inf::type::SLOPE) return static_cast<int>(NUMS.size() * NUMS.size());
  if (t == inf::type::SPEED_LIMIT) return 4 * static_cast<int>(NUMS.size()) * 2 * 2 * 3;
  return 1;
}

xel make(int k, bool rising, int v, int km) {
  auto const& kd = KINDS[static_cast<std::size_t>(k)];
  xel x;
  x.kind_ = k;
  x.rising_ = rising;
  x.tel_.tag_ = kd.stem_ + (kd.directed_ ? (rising ? "S" : "F") : "");
  x.tel_.km_ = km;
  auto const n = static_cast<int>(NAMES.size());
  auto const tag = x.tel_.tag_;
  switch (kd.type_) {
    case inf::type::MAIN_SIGNAL: {
      auto const name = NAMES[static_cast<std::size_t>(v % n)];
      x.tel_.extra_ = name.empty() ? "" : "<Name>" + name + "</Name>";
      x.data_ = [name](inf::graph const& g, inf::element::ptr e) {
        mc::eq(std::string(g.element_data_[e->id()].as<inf::main_signal>().name_), name, "main signal name", "");
      };
      break;
    }
    case inf::type::HALT: {
      auto const a = NAMES[static_cast<std::size_t>(v % n)], b = NAMES[static_cast<std::size_t>(v / n % n)], c = NAMES[static_cast<std::size_t>(v / n / n % n)];
      x.tel_.extra_ = "<BezeichnerExtern>" + c + "</BezeichnerExtern><Name>" + a + "</Name>" + (b.empty() ? "" : "<BezeichnerBetrieb>" + b + "</BezeichnerBetrieb>");
      x.data_ = [=](inf::graph const& g, inf::element::ptr e) {
        auto const& h = g.element_data_[e->id()].as<inf::halt>();
        mc::eq(std::string(h.name_), a, "halt name", tag);
        mc::eq(std::string(h.identifier_operational_), b, "halt operational identifier", tag);
        mc::eq(std::string(h.identifier_extern_), c, "halt external identifier", tag);
        mc::eq(h.is_passenger_, tag.find("Rz") != std::string::npos, "passenger halt", tag);
        if (tag.find("Beide") == std::string::npos) {
          mc::eq(h.is_left_, tag.find("Links") != std::string::npos, "left halt", tag);
          mc::eq(h.is_right_, tag.find("Rechts") != std::string::npos, "right halt", tag);
        }
      };
      break;
    }
    case inf::type::SLOPE: {
      auto const r = NUMS[static_cast<std::size_t>(v) % NUMS.size()], f = NUMS[static_cast<std::size_t>(v) / NUMS.size() % NUMS.size()];
      x.tel_.extra_ = mc::str("<Steigend>", r.text_, "</Steigend><Fallend>", f.text_, "</Fallend>");
      x.data_ = [=](inf::graph const& g, inf::element::ptr e) {
        auto const& s = g.element_data_[e->id()].as<inf::slope>();
        mc::require(close(s.rising_.val_, r.val_), "rising slope", s.rising_.val_, " for ", r.text_);
        mc::require(close(s.falling_.val_, f.val_), "falling slope", s.falling_.val_, " for ", f.text_);
      };
      break;
    }
    case inf::type::EOTD:
      x.data_ = [tag](inf::graph const& g, inf::element::ptr e) {
        mc::eq(g.element_data_[e->id()].as<inf::eotd>().signal_, tag.starts_with("Signal"), "end of train detector at a signal", tag);
      };
      break;
    case inf::type::SPEED_LIMIT: {
      auto const len = v % 4;
      v /= 4;
      auto const sp = NUMS[static_cast<std::size_t>(v) % (NUMS.size() - 1)];  // no negative limits
      v /= static_cast<int>(NUMS.size());
      bool const calculated = v & 1, signal = v & 2;
      auto const eff = v / 4 % 3;
      static char const* const LEN[] = {"", "<Laenge Einheit=\"m\">350,5</Laenge>", "<Laenge Einheit=\"km\">1,25</Laenge>", "<Laenge Einheit=\"m\">0</Laenge>"};
      static double const LENV[] = {0, 350.5, 1250, 0};
      static char const* const EFF[] = {"Alle", "Konventionell", "LZB"};
      static inf::speed_limit::effects const EFFV[] = {inf::speed_limit::effects::ALL, inf::speed_limit::effects::CONVENTIONAL, inf::speed_limit::effects::LZB_ETCS};
      x.tel_.extra_ = mc::str("<Geschw>", sp.text_, "</Geschw>", LEN[len], calculated ? "<Berechnet/>" : "", "<Wirkungsort>", signal ? "Signal" : "Hier",
                              "</Wirkungsort><Zugbeeinflussung>", EFF[eff], "</Zugbeeinflussung>");
      x.data_ = [=](inf::graph const& g, inf::element::ptr e) {
        auto const& s = g.element_data_[e->id()].as<inf::speed_limit>();
        mc::eq(static_cast<int>(s.type_), static_cast<int>(tag.starts_with("GeschwEnde") ? inf::speed_limit::type::END_SPECIAL : inf::speed_limit::type::GENERAL_ALLOWED), "kind of speed limit", tag);
        mc::require(close(s.limit_.val_, sp.val_ / 3.6), "speed limit", s.limit_.val_, " m/s for ", sp.text_);
        if (len == 0) {
          mc::require(!soro::si::valid(s.length_), "length of a speed limit without length", s.length_.val_);
        } else {
          mc::require(close(s.length_.val_, LENV[len]), "length of a speed limit", s.length_.val_, " for ", LEN[len]);
        }
        mc::eq(s.calculated_, calculated, "calculated speed limit", tag);
        mc::require((s.poa_ == inf::speed_limit::poa::LAST_SIGNAL) == signal, "where a speed limit acts", tag, signal ? " at the signal" : " here");
        mc::require(s.effects_ == EFFV[eff], "which trains a speed limit is for", EFF[eff]);
        mc::require(s.element_ == e && s.node_ == e->as<inf::track_element>().get_node(), "place of a speed limit", tag);
      };
      break;
    }
    default: break;
  }
  return x;
}

void check_elements(std::vector<xel> const& xs, bool up, std::vector<std::pair<std::string, int>> const& kms = {}) {
  topo t;
  auto const st = t.station("A");
  auto const a = t.el(BUMPER, st), b = t.el(TRACK_END, st);
  std::vector<tel> els;
  for (auto const& x : xs) els.push_back(x.tel_);
  for (std::size_t i = 0; i < kms.size(); ++i) {
    els[i].km_text_ = kms[i].first;
    els[i].km_ = kms[i].second;
  }
  up ? t.section(st, 7, a, 0, 1000, b, 0, 2000, els) : t.section(st, 7, b, 0, 1000, a, 0, 2000, els);
  t.finish();
  auto const infra = load(write(t));
  auto const& i = *infra;
  mc::eq(i.graph_.element_data_.size(), i.graph_.elements_.size(), "element data size", "");
  std::multiset<std::pair<int, int>> metas;
  std::vector<inf::element::ptr> left;
  for (auto const& e : i.graph_.elements_) {
    if (e->is(inf::type::META)) continue;
    left.push_back(e);
  }
  mc::eq(left.size(), xs.size() + 2, "number of elements", "");
  for (std::size_t k = 0; k < xs.size(); ++k) {
    auto const& x = xs[k];
    auto const& kd = KINDS[static_cast<std::size_t>(x.kind_)];
    inf::element::ptr hit = nullptr;
    for (auto const& e : left) {
      if (!e->is(kd.type_)) continue;
      bool const directed = e->is_directed_track_element();
      auto const m = directed ? metres(e->as<inf::track_element>().km_) : e->is_undirected_track_element() ? metres(e->as<inf::undirected_track_element>().km_) : -1;
      if (m != (kms.empty() ? x.tel_.km_ : kms[k].second)) continue;
      mc::eq(directed, kd.directed_, "directed element", x.tel_.tag_);
      if (directed) mc::eq(e->as<inf::track_element>().rising_, x.rising_, "direction of an element", x.tel_.tag_);
      mc::eq(directed ? e->as<inf::track_element>().line_ : e->as<inf::undirected_track_element>().line_, inf::line::id{7}, "line of an element", x.tel_.tag_);
      hit = e;
    }
    mc::require(hit != nullptr, "element not reported at its place", x.tel_.tag_, " ", x.tel_.km_);
    mc::eq(hit->get_type_str(), std::string(kd.str_), "type name", x.tel_.tag_);
    mc::require(inf::get_type(x.tel_.tag_) == kd.type_, "type of a name", x.tel_.tag_);
    mc::eq(hit->nodes().size(), std::size_t{kd.directed_ ? 1U : 2U}, "nodes of an element", x.tel_.tag_);
    if (x.data_) {
      x.data_(i.graph_, hit);
    } else {
      mc::require(holds_alternative<inf::empty>(i.graph_.element_data_[hit->id()]), "data of an element without data", x.tel_.tag_);
    }
    mc::step();
  }
  // the ends carry no data
  for (auto const& e : left) {
    if (e->is_end_element()) mc::require(holds_alternative<inf::empty>(i.graph_.element_data_[e->id()]), "data of an end", "");
  }
}

void elements() {
  mc::group("element data");
  auto const n = static_cast<int>(KINDS.size());
  for (int k = 0; k < n; ++k) {
    for (int r = 0; r < (KINDS[static_cast<std::size_t>(k)].directed_ ? 2 : 1); ++r) {
      for (int up = 0; up < 2; ++up) {
        for (int v = 0; v < variants(k); ++v) {
          mc::run([&] { return mc::str(KINDS[static_cast<std::size_t>(k)].stem_, r ? "S" : "F", up ? " up" : " down", " variant ", v); }, [&] {
            check_elements({make(k, r, v, 1500)}, up);
            mc::state(mc::str(k, "|", v));
          });
        }
      }
    }
  }
  // neighbours do not mix up their data
  mc::group("element pairs");
  for (int k = 0; k < n; ++k) {
    for (int l = 0; l < n; ++l) {
      for (int r = 0; r < 4; ++r) {
        mc::run([&] { return mc::str("pair ", k, " ", l, " directions ", r); }, [&] {
          check_elements({make(k, r & 1, variants(k) / 2, 1400), make(l, r & 2, variants(l) - 1, 1600)}, true);
          check_elements({make(k, r & 1, variants(k) - 1, 1500), make(l, r & 2, variants(l) / 3, 1501)}, false);
        });
      }
    }
  }
  mc::group("kilometrages");
  std::vector<std::pair<std::string, int>> const kms = {{"1,100", 1100}, {"1,1", 1100}, {"1.1", 1100}, {"1+0,1", 1100}, {"1,0+0,125", 1125}, {"0,9+0,25", 1150},
                                                        {"1,999", 1999}, {"1,001", 1001}, {"1+0,999", 1999}, {"0+1,5", 1500}, {"1,250+0", 1250}, {"01,3", 1300}};
  for (std::size_t x = 0; x < kms.size(); ++x) {
    for (int k : {0, 6, 22, 27}) {
      for (int r = 0; r < 2; ++r) {
        mc::run([&] { return mc::str("km ", kms[x].first, " kind ", k, " direction ", r); }, [&] { check_elements({make(k, r, 0, 0)}, true, {kms[x]}); });
      }
    }
  }
}

// two switches: every pair of names and interface identifiers
void switches() {
  mc::group("switch names");
  auto const n = static_cast<int>(NAMES.size());
  mc::odometer({n, n + 1, n, n + 1, 2}, [&](std::vector<int> const& v) {
    if (!mc::thorough() && v[4] && mc::hash_seq(v) % 4 != 0) return;
    mc::run([&] { return "switches " + mc::seq(v); }, [&] {
      topo t;
      auto const st = t.station("A");
      int const w[2] = {t.el(SWITCH_R, st), t.el(SWITCH_L, st)};
      int e[4];
      for (auto& x : e) x = t.el(BUMPER, st);
      std::string name[2], ui[2];
      bool has[2];
      for (int k = 0; k < 2; ++k) {
        name[k] = NAMES[static_cast<std::size_t>(v[static_cast<std::size_t>(2 * k)])];
        auto const u = v[static_cast<std::size_t>(2 * k + 1)];
        has[k] = u > 0;
        if (has[k]) ui[k] = NAMES[static_cast<std::size_t>(u - 1)];
        auto const a = "<Name>" + name[k] + "</Name>", b = has[k] ? "<Oberflaechenbezeichner>" + ui[k] + "</Oberflaechenbezeichner>" : "";
        t.E[static_cast<std::size_t>(w[k])].name_xml_ = v[4] ? b + a : a + b;
      }
      t.section(st, 1, e[0], 0, 1000, w[0], 0, 1100, {});
      t.section(st, 1, w[0], 1, 2000, e[1], 0, 2100, {});
      t.section(st, 2, e[2], 0, 3000, w[1], 1, 3100, {});
      t.section(st, 2, w[1], 0, 4000, e[3], 0, 4100, {});
      t.section(st, 3, w[0], 2, 5000, w[1], 2, 5100, {});
      t.finish();
      auto const infra = load(write(t));
      int seen = 0;
      for (auto const& el : infra->graph_.elements_) {
        auto const& d = infra->graph_.element_data_[el->id()];
        if (!el->is(inf::type::SIMPLE_SWITCH)) {
          mc::require(holds_alternative<inf::empty>(d), "data of an element without data", el->get_type_str());
          continue;
        }
        ++seen;
        auto const k = metres(el->as<inf::simple_switch>().start_km_) == 1100 ? 0 : 1;
        auto const& s = d.as<inf::switch_data>();
        mc::eq(std::string(s.name_), name[k], "name of a switch", k);
        mc::eq(s.ui_identifier_.has_value(), has[k], "interface identifier of a switch", k);
        if (has[k]) mc::eq(std::string(*s.ui_identifier_), ui[k], "interface identifier of a switch", k);
      }
      mc::eq(seen, 2, "number of switches", "");
      mc::state("switch" + mc::seq(v));
    });
  });
  // what a limit is for is never guessed
  mc::group("signifiers");
  std::vector<std::string> const at = {"Hier", "Signal", "hier", "Signale", "", "Alle"}, eff = {"Alle", "Konventionell", "LZB", "LZB ", "konv", ""};
  mc::odometer({static_cast<int>(at.size()), static_cast<int>(eff.size()), 2}, [&](std::vector<int> const& v) {
    mc::run([&] { return "signifiers " + mc::seq(v); }, [&] {
      topo t;
      auto const st = t.station("A");
      auto const a = t.el(BUMPER, st), b = t.el(TRACK_END, st);
      t.section(st, 7, a, 0, 1000, b, 0, 2000,
                {{v[2] ? "GeschwZulaessigS" : "GeschwZulaessigF", 1500,
                  "<Geschw>80</Geschw><Wirkungsort>" + at[static_cast<std::size_t>(v[0])] + "</Wirkungsort><Zugbeeinflussung>" + eff[static_cast<std::size_t>(v[1])] + "</Zugbeeinflussung>", 0}});
      t.finish();
      bool threw = false;
      try {
        auto const infra = load(write(t));
      } catch (std::exception const&) {
        threw = true;
      }
      mc::eq(threw, v[0] > 1 || v[1] > 2, "unknown signifier of a speed limit", at[static_cast<std::size_t>(v[0])], " ", eff[static_cast<std::size_t>(v[1])]);
    });
  });
}

// ---- lines

struct seg_ {
  int from_, to_;
  int key_;  // -1: no type given
};

std::set<int> const SIGNALS = {1, 2, 6, 8, 9, 12, 15, 18, 20, 21, 23}, LZBS = {2, 3}, ETCSS = {8, 9, 12, 13, 18, 23};
std::vector<int> const KEYS = {1, 2, 3, 6, 8, 9, 12, 13, 14, 15, 18, 20, 21, 23, 24, -1};

std::string line_xml(int id, std::vector<seg_> const& v) {
  std::string s = "<Strecke><Nr>" + std::to_string(id) + "</Nr><Streckenabschnitte>";
  for (auto const& x : v) {
    s += "<Streckenabschnitt><KilometrierungVon>" + km(x.from_) + "</KilometrierungVon><KilometrierungBis>" + km(x.to_) + "</KilometrierungBis>" +
         (x.key_ < 0 ? std::string{} : "<Art Schluessel=\"" + std::to_string(x.key_) + "\"/>") + "</Streckenabschnitt>";
  }
  return s + "</Streckenabschnitte></Strecke>";
}

fs::path scratch(char const* name) {
  auto const d = fs::path(std::getenv("MC_SCRATCH")) / name;
  fs::create_directories(d);
  return d;
}
std::vector<soro::utls::loaded_file> store(std::vector<std::string> const& bodies) {
  auto const d = scratch("reg");
  std::vector<soro::utls::loaded_file> r;
  for (std::size_t i = 0; i < bodies.size(); ++i) {
    put(d / std::to_string(i), "<?xml version=\"1.0\"?><XmlIssDaten><Ordnungsrahmen>" + bodies[i] + "</Ordnungsrahmen></XmlIssDaten>");
    r.emplace_back(d / std::to_string(i));
  }
  return r;
}

void check_line(inf::lines const& ls, int id, std::vector<seg_> const& v) {
  auto const it = ls.find(static_cast<inf::line::id>(id));
  mc::require(it != ls.end(), "line missing", id);
  auto const& l = it->second;
  mc::eq(static_cast<int>(l.id_), id, "line id", "");
  mc::eq(l.segments_.size(), v.size(), "number of line segments", id);
  for (std::size_t k = 0; k < v.size(); ++k) {
    auto const& s = l.segments_[k];
    mc::eq(metres(s.from_), v[k].from_, "start of a line segment", k);
    mc::eq(metres(s.to_), v[k].to_, "end of a line segment", k);
    mc::eq(s.signalling_, SIGNALS.contains(v[k].key_), "signals on a line segment", "type ", v[k].key_);
    mc::eq(s.lzb_, LZBS.contains(v[k].key_), "LZB on a line segment", "type ", v[k].key_);
    mc::eq(s.etcs_, ETCSS.contains(v[k].key_), "ETCS on a line segment", "type ", v[k].key_);
  }
  std::set<int> at = {0, 1000000};
  for (auto const& s : v) {
    for (int d : {-1, 0, 1}) at.insert({std::max(0, s.from_ + d), std::max(0, s.to_ + d), (s.from_ + s.to_) / 2});
  }
  for (auto m : at) {
    auto const* s = &v.front();
    for (auto const& x : v) {
      if (x.from_ <= m) s = &x;
    }
    auto const k = soro::si::from_m(static_cast<double>(m));
    mc::eq(l.has_signalling(inf::kilometrage{k}), SIGNALS.contains(s->key_), "signals at a kilometrage", "line ", id, " at ", m);
    mc::eq(l.has_etcs(inf::kilometrage{k}), ETCSS.contains(s->key_), "ETCS at a kilometrage", "line ", id, " at ", m);
    mc::step();
  }
}

void lines() {
  mc::group("line segments");
  auto const n = static_cast<int>(KEYS.size());
  int const most = mc::tier(3, 4);
  mc::bound("line segments", most);
  for (int len = 1; len <= most; ++len) {
    mc::sequences(len == 4 ? 6 : n, len, len, [&](std::vector<int> const& v) {
      for (int lengths = 0; lengths < 2; ++lengths) {
        mc::run([&] { return mc::str("segments ", mc::seq(v), " lengths ", lengths); }, [&] {
          std::vector<seg_> s;
          int at = lengths ? 0 : 1500;
          for (auto k : v) {
            s.push_back({at, at + (lengths ? 1 : 2345), KEYS[static_cast<std::size_t>(len == 4 ? k * 2 + 1 : k)]});
            at = s.back().to_;
          }
          check_line(inf::parse_lines(store({"<Strecken>" + line_xml(4711, s) + "</Strecken>"})), 4711, s);
          mc::state(mc::str(mc::seq(v)));
        });
      }
    });
  }
  mc::group("line files");
  // three files, each with any of two lines; the first description of a line counts
  mc::odometer({5, 5, 5}, [&](std::vector<int> const& v) {
    mc::run([&] { return "line files " + mc::seq(v); }, [&] {
      std::vector<std::string> bodies;
      std::map<int, std::vector<seg_>> want;
      for (int f = 0; f < 3; ++f) {
        std::vector<int> ids;
        if (v[static_cast<std::size_t>(f)] == 1) ids = {10};
        if (v[static_cast<std::size_t>(f)] == 2) ids = {65535};
        if (v[static_cast<std::size_t>(f)] == 3) ids = {10, 65535};
        if (v[static_cast<std::size_t>(f)] == 4) ids = {65535, 10};
        std::string b = "<Strecken>";
        for (auto i : ids) {
          std::vector<seg_> const s = {{1000 * f + i % 7, 1000 * f + 500, f % 2 ? 13 : 1}, {1000 * f + 500, 9000, f % 2 ? 2 : 14}};
          b += line_xml(i, s);
          want.emplace(i, s);
        }
        bodies.push_back(b + "</Strecken>");
      }
      auto const got = inf::parse_lines(store(bodies));
      mc::eq(got.size(), want.size(), "number of lines", "");
      for (auto const& [id, s] : want) check_line(got, id, s);
    });
  });
}

// ---- files of an infrastructure

void files() {
  mc::group("index");
  // every selection and order of files, by category
  std::vector<std::string> const names = {"Spurplanbetriebsstellen_0.xml", "Spurplanbetriebsstellen_1.xml", "Stammdaten_A.xml", "Ordnungsrahmen_ORBtrst_x.xml", "Ordnungsrahmen_ORStr_y.xml",
                                          "BaubetrieblicheMassnahmen.xml", "Sonstiges.xml"};
  auto const n = static_cast<int>(names.size());
  std::vector<std::vector<int>> picks;
  mc::sequences(n, 0, mc::tier(4, 5), [&](std::vector<int> const& v) {
    if (std::set<int>(v.begin(), v.end()).size() == v.size()) picks.push_back(v);
  });
  auto const check = [&](std::vector<int> const& v, int how) {
    auto const d = scratch("index");
    std::string idx = "<XmlIssIndex><SpurplandatenVersion><Name>x</Name><Nummer>1</Nummer></SpurplandatenVersion><Dateien>";
    for (auto i : v) {
      auto const& f = names[static_cast<std::size_t>(i)];
      put(d / f, "content of " + f);
      idx += "<Datei><Name>" + f + "</Name></Datei>";
    }
    put(d / "Index.xml", idx + "</Dateien></XmlIssIndex>");
    // by its directory or by its index
    auto const got = how == 2 ? inf::iss_files(d / "Index.xml") : inf::get_iss_files(how == 0 ? d : d / "Index.xml");
    auto const same = [&](auto const& fs_, std::vector<int> const& cat, char const* what) {
      std::vector<std::string> want;
      for (auto i : v) {
        if (std::find(cat.begin(), cat.end(), i) != cat.end()) want.push_back(names[static_cast<std::size_t>(i)]);
      }
      mc::eq(fs_.size(), want.size(), what, mc::seq(v));
      for (std::size_t k = 0; k < want.size(); ++k) {
        mc::eq(fs_[k].path_.filename().string(), want[k], what, mc::seq(v));
        mc::eq(std::string(fs_[k].begin(), fs_[k].end()), "content of " + want[k], what, mc::seq(v));
      }
      mc::step();
    };
    same(got.rail_plan_files_, {0, 1}, "rail plan files");
    same(got.core_data_files_, {2}, "core data files");
    same(got.regulatory_station_files_, {3}, "regulatory station files");
    same(got.regulatory_line_files_, {4}, "regulatory line files");
  };
  for (auto const& v : picks) {
    for (int how = 0; how < 3; ++how) {
      mc::run([&] { return mc::str("files ", mc::seq(v), how == 0 ? " by directory" : how == 1 ? " by index" : " direct"); }, [&] { check(v, how); });
    }
  }

  mc::group("names, version, defaults");
  // stations named in one, several or no regulatory files; version; defaults
  mc::odometer({4, 4, 3, 2, 3}, [&](std::vector<int> const& v) {
    mc::run([&] { return "names " + mc::seq(v); }, [&] {
      auto const t = [&] {
        topo x;
        for (int s = 0; s < 2; ++s) {
          auto const st = x.station(s ? "BB" : "A");
          auto const a = x.el(BUMPER, st), b = x.el(TRACK_END, st);
          x.section(st, 1, a, 0, 1000, b, 0, 2000, {});
        }
        x.finish();
        return x;
      }();
      auto tt = t;
      auto const num = NUMS[static_cast<std::size_t>(v[4]) + 2];
      if (v[3] == 1) {
        tt.core_ = mc::str("<Standardwerte><Streckenklasse>D4</Streckenklasse><Fahrstrassenbildezeit>", num.text_, "</Fahrstrassenbildezeit><BremswegArt>", 700 + v[4],
                           "</BremswegArt><ZulaessigeOrtsfesteGeschwindigkeit>", 90 + v[4], "</ZulaessigeOrtsfesteGeschwindigkeit></Standardwerte>");
      }
      fs::remove_all(fs::path(std::getenv("MC_SCRATCH")) / "iss");
      auto const d = write(tt);
      std::string idx = mc::str("<?xml version=\"1.0\"?><XmlIssIndex><SpurplandatenVersion><Name>Plan ", v[2], "</Name><Nummer>", v[2] == 2 ? 4294967295U : static_cast<unsigned>(v[2] * 17), "</Nummer></SpurplandatenVersion><Dateien>");
      idx += "<Datei><Name>Spurplanbetriebsstellen_0.xml</Name></Datei>";
      if (v[3] == 1) idx += "<Datei><Name>Stammdaten_0.xml</Name></Datei>";
      std::map<std::string, std::string> full;
      for (int f = 0; f < 2; ++f) {
        auto const w = v[static_cast<std::size_t>(f)];
        if (w == 0) continue;
        std::string b = "<?xml version=\"1.0\"?><XmlIssDaten><Ordnungsrahmen><Betriebsstellen>";
        if (f == 0) b += "<Betriebsstelle><DS100>ZZ</DS100><Name>unrelated</Name></Betriebsstelle>";
        for (int s = 0; s < 2; ++s) {
          if ((w & (1 << s)) == 0 || full.contains(s ? "BB" : "A")) continue;
          auto const name = mc::str("Bahnhof ", s, " in ", f);
          b += mc::str("<Betriebsstelle><Name>", name, "</Name><DS100>", s ? "BB" : "A", "</DS100></Betriebsstelle>");
          full[s ? "BB" : "A"] = name;
        }
        auto const fn = mc::str("Ordnungsrahmen_ORBtrst_", f, ".xml");
        put(d / fn, b + "</Betriebsstellen></Ordnungsrahmen></XmlIssDaten>");
        idx += "<Datei><Name>" + fn + "</Name></Datei>";
      }
      put(d / "Index.xml", idx + "</Dateien></XmlIssIndex>");
      auto const infra = load(d);
      auto const& i = *infra;
      mc::eq(i.full_station_names_.size(), i.stations_.size(), "number of station names", "");
      for (auto const& s : i.stations_) {
        std::string const ds = std::string(s->ds100_);
        mc::eq(std::string(i.full_station_names_[s->id_]), full.contains(ds) ? full[ds] : ds, "full name of a station", ds);
      }
      mc::eq(std::string(i.version_.name_), mc::str("Plan ", v[2]), "name of the version", "");
      mc::eq(i.version_.number_, v[2] == 2 ? 4294967295U : static_cast<unsigned>(v[2] * 17), "number of the version", "");
      mc::eq(std::string(i.source_), std::string("iss"), "source", "");
      if (v[3] == 1) {
        mc::eq(std::string(i.defaults_.line_class_), std::string("D4"), "default line class", "");
        mc::require(close(i.defaults_.route_form_time_.val_, num.val_), "default route form time", i.defaults_.route_form_time_.val_);
        mc::require(close(i.defaults_.brake_path_length_.val_, 700 + v[4]), "default brake path", i.defaults_.brake_path_length_.val_);
        mc::require(close(i.defaults_.stationary_speed_limit_.val_, (90 + v[4]) / 3.6), "default speed limit", i.defaults_.stationary_speed_limit_.val_);
      } else {
        mc::require(!soro::si::valid(i.defaults_.route_form_time_) && i.defaults_.line_class_.empty(), "defaults without core data", "");
      }
    });
  });
}

// ---- statistics

void stats() {
  mc::group("statistics");
  std::size_t turn = 0;
  each([&](std::string const& d, topo const& t) {
    // unpaired borders have no neighbour section to count
    for (auto const& e : t.E) {
      if (e.k_ == BORDER && e.other_ < 0) return;
    }
    if (!mc::thorough() && ++turn % 3 != 0) return;
    mc::run([&] { return "stats " + d; }, [&] {
      auto const s = inf::get_infra_stats(inf::get_iss_files(write(t)));
      std::map<inf::type, std::size_t> want;
      std::size_t borders = 0;
      for (auto const& e : t.E) {
        switch (e.k_) {
          case BUMPER: ++want[inf::type::BUMPER]; break;
          case TRACK_END: ++want[inf::type::TRACK_END]; break;
          case BORDER: ++want[inf::type::BORDER]; ++borders; break;
          case KM_JUMP: ++want[inf::type::KM_JUMP]; break;
          case LINE_SWITCH: ++want[inf::type::LINE_SWITCH]; break;
          case SWITCH_L:
          case SWITCH_R: ++want[inf::type::SIMPLE_SWITCH]; break;
          case CROSS:
          case CROSS_SWITCH: ++want[inf::type::CROSS]; break;
        }
      }
      for (auto const& x : t.S) {
        for (auto const& e : x.els_) {
          for (auto const& k : KINDS) {
            if (e.tag_ == k.stem_ + (k.directed_ ? "S" : "") || (k.directed_ && e.tag_ == k.stem_ + "F")) ++want[k.type_];
          }
        }
      }
      std::size_t total = 0;
      for (auto const ty : inf::all_types()) {
        mc::eq(s.number(ty), want.contains(ty) ? want.at(ty) : 0, "number of elements of a type", inf::get_type_str(ty));
        total += s.number(ty);
      }
      mc::eq(s.total_elements(), total, "total number of elements", "");
      mc::eq(s.stations_, t.T.size(), "number of stations", "");
      mc::eq(s.sections_, t.S.size() + borders / 2, "number of sections", "");
    });
  });
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  elements();
  switches();
  lines();
  files();
  stats();
  return mc::finish();
}
