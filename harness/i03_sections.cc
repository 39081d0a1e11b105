// I03: sections, stations, borders and distances.  Same topologies as the
// track graph; here the section and station views are compared with the
// geometry.
#include "topologies.h"

#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"
#include "soro/utls/coroutine/collect.h"

using namespace iss;

namespace {

using els = std::vector<inf::element::ptr>;

std::string show(els const& v) {
  std::string r;
  for (auto e : v) r += e == nullptr ? "null " : e->get_type_str() + std::to_string(e->id()) + " ";
  return r;
}
bool placeholder(inf::element::ptr e) { return e->is(inf::type::META); }
els without_placeholders(els v) {
  std::erase_if(v, placeholder);
  return v;
}
template <typename R>
els to_els(R&& r) {
  els v;
  for (auto e : r) v.push_back(e);
  return v;
}

int port_km(topo const& t, int e, int p) {
  auto const& x = t.e(e);
  auto const& s = t.s(x.psec_[p]);
  return x.pstart_[p] ? s.kma_ : s.kmb_;
}

void check_section(topo const& t, model const& m, lookup const& l, int si) {
  auto const& s = t.s(si);
  auto const& real = l.i_.graph_.sections_[l.section_id(si)];
  auto const first = l.els_[static_cast<std::size_t>(s.ea_)], last = l.els_[static_cast<std::size_t>(s.eb_)];
  mc::eq(real.line_id_, static_cast<inf::line::id>(s.line_), "section line", "section ", si);
  mc::eq(metres(real.length_), s.kmb_ - s.kma_, "section length", "section ", si);
  mc::require(real.first_rising() == first && real.last_rising() == last, "section ends", "rising, section ", si);
  mc::require(real.first_falling() == last && real.last_falling() == first, "section ends", "falling, section ", si);
  mc::eq(real.size(), real.falling_order_.size(), "section size", "section ", si);
  mc::eq(real.size(), real.rising_order_.size(), "section size", "section ", si);
  for (bool up : {true, false}) {
    // everything on the section, in order of kilometrage
    els want{up ? first : last};
    std::vector<int> all(s.els_.size());
    for (std::size_t i = 0; i < all.size(); ++i) all[i] = static_cast<int>(i);
    std::stable_sort(all.begin(), all.end(), [&](int a, int b) {
      auto const &x = s.els_[static_cast<std::size_t>(a)], &y = s.els_[static_cast<std::size_t>(b)];
      if (x.km_ != y.km_) return up ? x.km_ < y.km_ : x.km_ > y.km_;
      return std::pair(place_rank(x.tag_), x.id_) < std::pair(place_rank(y.tag_), y.id_);
    });
    for (auto i : all) want.push_back(l.track_[static_cast<std::size_t>(si)][static_cast<std::size_t>(i)]);
    want.push_back(up ? last : first);
    mc::step(want.size());
    els const raw = to_els(up ? real.rising_order_ : real.falling_order_);
    auto const got = without_placeholders(raw);
    mc::require(got == want, "section order", "section ", si, up ? " rising " : " falling ", show(got), " want ", show(want));
    std::set<inf::element::ptr> const uniq(raw.begin() + 1, raw.end() - 1);
    mc::require(uniq.size() + 2 == raw.size(), "section lists an element twice", "section ", si);

    els met{up ? first : last};
    for (auto i : m.met(si, up)) met.push_back(l.track_[static_cast<std::size_t>(si)][static_cast<std::size_t>(i)]);
    met.push_back(up ? last : first);
    auto const raw_it = up ? to_els(real.iterate<inf::direction::Rising>()) : to_els(real.iterate<inf::direction::Falling>());
    auto const it = without_placeholders(raw_it);
    mc::require(it == met, "section iteration", "section ", si, up ? " rising " : " falling ", show(it), " want ", show(met));
    auto const every = up ? to_els(real.iterate<inf::direction::Rising, inf::skip::No>()) : to_els(real.iterate<inf::direction::Falling, inf::skip::No>());
    mc::require(every == raw, "section iteration", "all elements, section ", si);
    if (s.ea_ != s.eb_) {
      mc::require(inf::is_path(raw_it), "section is not a path", "section ", si, up ? " rising" : " falling");
      mc::eq(metres(inf::get_path_length_from_elements(raw_it)), s.kmb_ - s.kma_, "path length", "section ", si, up ? " rising" : " falling");
      mc::eq(metres(inf::get_path_length_from_sections(raw_it)), s.kmb_ - s.kma_, "path length over sections", "section ", si);
      // slices
      auto const dir = up ? inf::direction::Rising : inf::direction::Falling;
      for (std::size_t a = 0; a < raw.size(); ++a) {
        mc::require(to_els(real.from(raw[a], dir)) == els(raw.begin() + static_cast<long>(a), raw.end()), "section from", "section ", si, " ", a);
        mc::require(to_els(real.to(raw[a], dir)) == els(raw.begin(), raw.begin() + static_cast<long>(a) + 1), "section to", "section ", si, " ", a);
        for (std::size_t b = a; b < raw.size(); ++b) {
          mc::require(to_els(real.from_to(raw[a], raw[b], dir)) == els(raw.begin() + static_cast<long>(a), raw.begin() + static_cast<long>(b) + 1),
                      "section from to", "section ", si, " ", a, " ", b);
        }
      }
      // distances between neighbours
      for (std::size_t a = 0; a + 1 < raw_it.size(); ++a) {
        auto const x = raw_it[a], y = raw_it[a + 1];
        auto const kx = metres(x->get_km(y)), ky = metres(y->get_km(x));
        mc::require(up ? kx <= ky : kx >= ky, "kilometrage along a section", "section ", si, ": ", kx, " then ", ky);
        mc::eq(metres(x->get_distance(y)), std::abs(kx - ky), "distance", "section ", si);
        mc::eq(metres(y->get_distance(x)), std::abs(kx - ky), "distance", "section ", si);
      }
      mc::eq(metres((up ? first : last)->get_km(raw_it[1])), up ? s.kma_ : s.kmb_, "kilometrage of a port", "section ", si);
      mc::eq(metres((up ? last : first)->get_km(raw_it[raw_it.size() - 2])), up ? s.kmb_ : s.kma_, "kilometrage of a port", "section ", si);
    }
    for (auto i : m.met(si, up)) {
      auto const e = l.track_[static_cast<std::size_t>(si)][static_cast<std::size_t>(i)];
      mc::eq(metres(e->get_km(nullptr)), s.els_[static_cast<std::size_t>(i)].km_, "kilometrage of an element", "section ", si);
      mc::eq(metres(e->get_distance(e)), 0, "distance to itself", "section ", si);
    }
  }
  auto const& sids = l.i_.graph_.element_id_to_section_ids_;
  for (auto e : real.rising_order_) {
    if (!e->is_track_element()) continue;
    mc::require(sids[e->id()].size() == 1 && sids[e->id()][0] == l.section_id(si), "section of a track element", "section ", si);
  }
}

void check(topo const& t, int files) {
  auto const infra = load(write(t, "iss" + std::to_string(files), files));
  auto const& i = *infra;
  model const m(t);
  lookup const l(t, i);
  for (std::size_t s = 0; s < t.S.size(); ++s) check_section(t, m, l, static_cast<int>(s));

  // joined borders are connected by an empty section of their own
  std::vector<std::pair<int, int>> joined;
  for (std::size_t e = 0; e < t.E.size(); ++e) {
    if (t.E[e].k_ == BORDER && t.E[e].other_ > static_cast<int>(e)) joined.emplace_back(static_cast<int>(e), t.E[e].other_);
  }
  mc::eq(i.graph_.sections_.size(), t.S.size() + joined.size(), "number of sections", "");
  std::map<inf::element::ptr, std::multiset<inf::section::id>> want_sections;
  for (std::size_t s = 0; s < t.S.size(); ++s) {
    auto const id = static_cast<inf::section::id>(l.section_id(static_cast<int>(s)));
    want_sections[l.els_[static_cast<std::size_t>(t.S[s].ea_)]].insert(id);
    want_sections[l.els_[static_cast<std::size_t>(t.S[s].eb_)]].insert(id);
  }
  std::set<inf::section::id> used;
  for (auto const& [a, b] : joined) {
    auto const x = l.els_[static_cast<std::size_t>(a)], y = l.els_[static_cast<std::size_t>(b)];
    // running up, one leaves the border at the end of its section
    bool const a_first = !t.E[static_cast<std::size_t>(a)].pstart_[0];
    els const rising = a_first ? els{x, y} : els{y, x};
    int n = 0;
    for (auto id = static_cast<inf::section::id>(t.S.size()); id < i.graph_.sections_.size(); ++id) {
      auto const& r = i.graph_.sections_[id];
      if (to_els(r.rising_order_) != rising) continue;
      ++n;
      mc::require(used.insert(id).second, "empty section used twice", id);
      mc::require(to_els(r.falling_order_) == els{rising[1], rising[0]}, "empty section between borders", "falling");
      mc::eq(r.line_id_, static_cast<inf::line::id>(t.s(t.e(a).psec_[0]).line_), "line of the section between borders", "");
      want_sections[x].insert(id);
      want_sections[y].insert(id);
    }
    mc::eq(n, 1, "empty section between borders", "borders ", a, " and ", b);
  }
  for (auto const& [e, want] : want_sections) {
    auto const& v = i.graph_.element_id_to_section_ids_[e->id()];
    mc::require(std::multiset<inf::section::id>(v.begin(), v.end()) == want, "sections of an element", e->get_type_str(), " ", mc::seq(v));
  }

  // stations
  mc::eq(i.stations_.size(), t.T.size(), "number of stations", "");
  mc::eq(i.ds100_to_station_.size(), t.T.size(), "number of stations", "by name");
  std::map<inf::element::ptr, int> seen;
  std::size_t borders = 0;
  for (std::size_t k = 0; k < t.T.size(); ++k) {
    auto const& st = t.T[k];
    auto const it = i.ds100_to_station_.find(soro::string(st.name_));
    mc::require(it != std::end(i.ds100_to_station_), "station not found by name", st.name_);
    auto const r = it->second;
    mc::require(r->ds100_ == st.name_, "station name", st.name_);
    mc::require(r->id_ < i.stations_.size() && i.stations_[r->id_] == r, "station id", st.name_);
    std::set<std::size_t> want;
    for (auto s : st.secs_) want.insert(l.section_id(s));
    mc::require(std::set<std::size_t>(r->sections_.begin(), r->sections_.end()) == want && r->sections_.size() == want.size(), "sections of a station", st.name_);
    std::set<inf::element::ptr> mine;
    for (auto s : st.secs_) {
      for (auto e : i.graph_.sections_[l.section_id(s)].rising_order_) mine.insert(e);
    }
    mc::require(std::set<inf::element::ptr>(r->elements_.begin(), r->elements_.end()) == mine, "elements of a station", st.name_);
    mc::eq(r->elements_.size(), mine.size(), "elements of a station", st.name_);
    for (auto e : r->elements_) {
      mc::require(i.element_to_station_.at(e->id()) == r, "station of an element", e->get_type_str());
      ++seen[e];
    }
    std::set<int> nb;
    std::size_t mine_b = 0;
    for (std::size_t e = 0; e < t.E.size(); ++e) {
      auto const& x = t.E[e];
      if (x.k_ != BORDER || x.station_ != static_cast<int>(k) || x.other_ < 0) continue;
      ++mine_b;
      auto const o = t.E[static_cast<std::size_t>(x.other_)].station_;
      nb.insert(o);
      int hits = 0;
      for (auto const& b : r->borders_) {
        if (b.element_ != l.els_[e]) continue;
        ++hits;
        mc::require(b.station_ == r, "border station", e);
        mc::require(b.neighbour_ == i.ds100_to_station_.at(soro::string(t.T[static_cast<std::size_t>(o)].name_)), "border neighbour", e);
        mc::require(b.neighbour_element_ == l.els_[static_cast<std::size_t>(x.other_)], "border neighbour element", e);
        mc::eq(b.low_border_, x.pstart_[0], "low border", e);
        mc::eq(b.track_sign_, x.track_, "border track", e);
        mc::eq(b.line_, static_cast<inf::line::id>(t.s(x.psec_[0]).line_), "border line", e);
      }
      mc::eq(hits, 1, "border listed", "element ", e, " ", st.name_);
    }
    mc::eq(r->borders_.size(), mine_b, "borders of a station", st.name_);
    borders += mine_b;
    auto const n = r->neighbours();
    std::set<inf::station::ptr> want_n;
    for (auto o : nb) want_n.insert(i.ds100_to_station_.at(soro::string(t.T[static_cast<std::size_t>(o)].name_)));
    mc::require(std::set<inf::station::ptr>(n.begin(), n.end()) == want_n && n.size() == want_n.size(), "station neighbours", st.name_);
  }
  mc::eq(seen.size(), i.graph_.elements_.size(), "elements in stations", "");
  mc::eq(i.element_to_station_.size(), i.graph_.elements_.size(), "station of every element", "");
  for (auto const& [e, n] : seen) mc::eq(n, 1, "element in several stations", e->get_type_str());
  mc::trace();
  mc::state(mc::str(i.graph_.sections_.size(), "|", i.graph_.elements_.size(), "|", borders));
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  each([](std::string const& d, topo const& t) {
    mc::run([&] { return d; }, [&] {
      check(t, 1);
      if (t.T.size() > 1) check(t, 2);
    });
  });
  return mc::finish();
}
