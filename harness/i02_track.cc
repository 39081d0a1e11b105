// I02: the parsed track graph is the track.  Every topology is written as ISS
// data, read by the real parser, and its nodes are walked in lockstep with the
// geometric model.
#include "topologies.h"

using namespace iss;

namespace {

void reverse_edges(inf::infrastructure_t const& i) {
  std::map<inf::node::ptr, std::multiset<inf::node::ptr>> want;
  for (auto const& n : i.graph_.nodes_) {
    if (n->next_node_ != nullptr) want[n->next_node_].insert(n);
    if (n->branch_node_ != nullptr) want[n->branch_node_].insert(n);
  }
  for (auto const& n : i.graph_.nodes_) {
    std::multiset<inf::node::ptr> got(n->reverse_edges_.begin(), n->reverse_edges_.end());
    mc::require(got == want[n], "reverse edges", "node ", n->id_, " (", n->element_->get_type_str(), "): ", got.size(), " want ", want[n].size());
  }
}

void ids(inf::infrastructure_t const& i) {
  for (std::size_t k = 0; k < i.graph_.nodes_.size(); ++k) mc::require(i.graph_.nodes_[k]->id_ == k, "node ids", k);
  for (std::size_t k = 0; k < i.graph_.elements_.size(); ++k) {
    mc::require(i.graph_.elements_[k]->id() == k, "element ids", k);
    for (auto const& n : i.graph_.elements_[k]->nodes()) mc::require(n->element_ == i.graph_.elements_[k], "node's element", k);
  }
}

inf::node::ptr skip_meta_back(inf::node::ptr n) {
  int guard = 0;
  while (n != nullptr && n->is(inf::type::META)) {
    mc::require(++guard < 1000, "endless meta chain", 0);
    n = n->reverse_ahead();
  }
  return n;
}

// what comes before a place when one runs back straight on
void backwards(model const& m, binding const& b) {
  std::map<at, std::vector<std::pair<at, bool>>> pred;
  for (auto const& [a, n] : b) {
    auto const [s, d] = m.next(a);
    // both ways into a switch from its legs are one place: tell them apart by the leg
    if (!s.none()) pred[s].push_back({a, true});
    if (!d.none()) pred[d].push_back({a, false});
  }
  for (auto const& [a, n] : b) {
    std::vector<std::pair<at, bool>> p = pred[a];
    bool merge = false;
    if (!a.track_ && a.port_ == 1 && (m.t_.e(a.el_).k_ == SWITCH_L || m.t_.e(a.el_).k_ == SWITCH_R)) {
      auto c = a;
      c.port_ = 2;
      merge = !pred[c].empty();
    }
    auto const r = skip_meta_back(n->reverse_ahead());
    mc::step();
    if (p.empty() && !merge) {
      mc::require(r == nullptr, "something precedes the first place", m.show(a));
      continue;
    }
    at want = at_none();
    if (p.size() == 1) want = p[0].first;
    for (auto const& [x, straight] : p) {
      if (p.size() > 1 && straight) want = x;
    }
    if (want.none()) continue;
    mc::require(r == b.at(m.canon(want)), "running back straight", m.show(a), " want ", m.show(want));
  }
}

void check(topo const& t) {
  auto const infra = load(write(t));
  auto const& i = *infra;
  model const m(t);
  lookup const l(t, i);
  ids(i);
  auto const b = bind(m, l, t);
  for (auto const& a : m.all()) {
    mc::require(b.contains(m.canon(a)), "place without a node", m.show(a));
  }
  reverse_edges(i);
  backwards(m, b);
  mc::trace();
  for (auto const& [a, n] : b) mc::state(m.show(a));
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  each([](std::string const& d, topo const& t) { mc::run([&] { return d; }, [&] { check(t); }); });
  return mc::finish();
}
