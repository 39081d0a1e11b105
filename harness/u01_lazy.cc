// U01: lazily produced sequences.  Explores every producer program up to a
// size (yield / nested producer by value or lvalue / guarded nested producer /
// throw) and, for every program, every point at which the consumer stops.
#include "mc.h"

#include <list>
#include <memory>
#include <utility>

#include "soro/utls/coroutine/collect.h"
#include "soro/utls/coroutine/coro_map.h"
#include "soro/utls/coroutine/generator.h"
#include "soro/utls/coroutine/iterator.h"
#include "soro/utls/coroutine/recursive_generator.h"

using namespace soro::utls;

namespace {

int live = 0;
struct frame_token {
  frame_token() { ++live; }
  ~frame_token() { --live; }
};

struct prog {
  // Y yield lvalue, y yield temporary, C child by value, L child as lvalue,
  // E default constructed (empty) child, G guarded child, X throw
  std::vector<std::pair<char, std::shared_ptr<prog>>> ins_;
};
using prog_ptr = std::shared_ptr<prog>;

std::string show(prog const& p) {
  std::string s;
  for (auto const& [k, c] : p.ins_) {
    s += k;
    if (c) s += "(" + show(*c) + ")";
  }
  return s;
}

struct boom {};

// the reference: what a consumer must see
struct outcome {
  std::vector<int> vals_;
  bool threw_{false};
};
void model(prog const& p, int& next, outcome& o) {
  for (auto const& [k, c] : p.ins_) {
    switch (k) {
      case 'Y':
      case 'y': o.vals_.push_back(next++); break;
      case 'E': break;
      case 'C':
      case 'L':
        model(*c, next, o);
        if (o.threw_) return;
        break;
      case 'G':
        model(*c, next, o);
        if (o.threw_) {
          o.threw_ = false;
          o.vals_.push_back(1000 + next++);
        }
        break;
      case 'X': o.threw_ = true; return;
    }
  }
}

recursive_generator<int> rec(prog const& p, int& next) {
  frame_token const t;
  for (auto const& [k, c] : p.ins_) {
    switch (k) {
      case 'Y': {
        int v = next++;
        co_yield v;
        break;
      }
      case 'y': co_yield int(next++); break;
      case 'E': co_yield recursive_generator<int>{}; break;
      case 'C': co_yield rec(*c, next); break;
      case 'L': {
        auto child = rec(*c, next);
        co_yield child;
        break;
      }
      case 'G': {
        bool caught = false;
        try {
          co_yield rec(*c, next);
        } catch (boom const&) {
          caught = true;
        }
        if (caught) co_yield 1000 + next++;
        break;
      }
      case 'X': throw boom{};
    }
  }
}

// all programs with exactly n instructions, nesting depth <= d
std::vector<std::vector<std::vector<prog_ptr>>> memo;
std::string leaf_kinds = "YyEX", node_kinds = "CLG";
std::vector<prog_ptr> const& programs(int n, int d) {
  if (static_cast<int>(memo.size()) <= n) memo.resize(n + 1);
  if (static_cast<int>(memo[n].size()) <= d) memo[n].resize(d + 1);
  if (!memo[n][d].empty()) return memo[n][d];
  std::vector<prog_ptr> out;
  if (n == 0) {
    out.push_back(std::make_shared<prog>());
  } else {
    // first instruction uses `k` nodes, rest n-k
    for (int k = 1; k <= n; ++k) {
      std::vector<std::pair<char, prog_ptr>> firsts;
      if (k == 1) {
        for (char const c : leaf_kinds) firsts.push_back({c, nullptr});
      }
      if (d > 0) {
        auto const subs = programs(k - 1, d - 1);
        for (char const c : node_kinds) {
          for (auto const& s : subs) firsts.push_back({c, s});
        }
      }
      for (auto const& f : firsts) {
        if (f.first == 'X' && n != k) continue;  // nothing runs after a throw
        auto const rests = programs(n - k, d);
        for (auto const& r : rests) {
          auto q = std::make_shared<prog>();
          q->ins_.push_back(f);
          q->ins_.insert(q->ins_.end(), r->ins_.begin(), r->ins_.end());
          out.push_back(q);
        }
      }
    }
  }
  memo[n][d] = std::move(out);
  return memo[n][d];
}

void check_rec(prog const& p) {
  outcome want;
  int wn = 0;
  model(p, wn, want);
  auto const n = static_cast<int>(want.vals_.size());

  // full drain, via range-for
  {
    int next = 0;
    std::vector<int> got;
    bool threw = false;
    live = 0;
    try {
      for (auto const& v : rec(p, next)) {
        got.push_back(v);
        mc::step();
        mc::state(mc::hash_seq(got) ^ mc::h64(live));
        mc::require(got.size() <= want.vals_.size(), "extra-element", "got ",
                    mc::seq(got), " want ", mc::seq(want.vals_));
      }
    } catch (boom const&) {
      threw = true;
    }
    mc::require(got == want.vals_, "sequence", "got ", mc::seq(got), " want ",
                mc::seq(want.vals_));
    mc::require(threw == want.threw_, "exception-lost", "threw ", threw,
                " expected ", want.threw_);
    mc::require(live == 0, "frame-leak", live, " producer frames alive");
  }
  // nothing runs before begin(); stop after k elements for every k
  for (int k = 0; k <= n; ++k) {
    live = 0;
    int next = 0;
    {
      auto g = rec(p, next);
      mc::require(next == 0 && live == 0, "eager", "ran before begin()");
      recursive_generator<int> moved;
      if (k % 2) {
        moved = std::move(g);
      } else {
        moved.swap(g);
      }
      bool threw = false;
      std::vector<int> got;
      try {
        auto it = moved.begin();
        for (int i = 0; i < k && it != moved.end(); ++i) {
          got.push_back(*it);
          mc::step();
          if (i + 1 < k) ++it;
        }
      } catch (boom const&) {
        threw = true;
      }
      auto const pre = std::vector<int>(want.vals_.begin(), want.vals_.begin() + k);
      mc::require(got == pre, "prefix", "stop at ", k, " got ", mc::seq(got),
                  " want ", mc::seq(pre));
      mc::require(!threw || (n == 0 && want.threw_), "early-throw", "k=", k);
      if (!got.empty()) {
        mc::require((next == got.back() + 1) || (next == got.back() - 1000 + 1),
                    "overrun", "producer ran ahead of the consumer: next=", next);
      }
    }
    mc::require(live == 0, "frame-leak", live, " frames alive after stop at ", k);
  }
  // collect
  if (!want.threw_) {
    int next = 0;
    auto got = collect<std::vector<int>>(rec(p, next));
    mc::require(got == want.vals_, "collect", mc::seq(got));
    next = 0;
    auto got2 = collect<std::vector<long>>(rec(p, next), [](int v) { return 2L * v; });
    std::vector<long> want2;
    for (auto v : want.vals_) want2.push_back(2L * v);
    mc::require(got2 == want2, "collect-fn", mc::seq(got2));
    next = 0;
    auto g = rec(p, next);
    auto got3 = g.emplace_back<std::vector<int>>();
    mc::require(got3 == want.vals_, "emplace-back", mc::seq(got3));
    next = 0;
    std::vector<int> got4;
    for (auto v : fmap([](int v) { return 3 * v + 1; }, rec(p, next))) got4.push_back(v);
    std::vector<int> want4;
    for (auto v : want.vals_) want4.push_back(3 * v + 1);
    mc::require(got4 == want4, "fmap", mc::seq(got4));
    next = 0;
    live = 0;
    std::vector<int> got5;
    {
      auto src = rec(p, next);
      for (auto v : coro_map(src, [](int v) { return 3 * v + 1; })) got5.push_back(v);
    }
    mc::require(got5 == want4, "coro-map-nested", mc::seq(got5));
    mc::require(live == 0, "frame-leak", "after coro_map");
    // writes through the iterator are visible to nobody else but legal
    next = 0;
    std::vector<int> got6;
    for (auto& v : rec(p, next)) {
      v = v * 10;
      got6.push_back(v);
    }
    std::vector<int> want6;
    for (auto v : want.vals_) want6.push_back(v * 10);
    mc::require(got6 == want6, "mutable-ref", mc::seq(got6));
  }
}

// ---------------------------------------------------------------- generator

generator<int> gen(std::vector<int> const& script, int& pulls) {
  frame_token const t;
  for (auto const s : script) {
    ++pulls;
    if (s % 2 == 0) {
      int v = s;
      co_yield v;
    } else {
      co_yield int(s);
    }
  }
}
generator<int const> cgen(std::vector<int> const& script, int& pulls) {
  frame_token const t;
  for (auto const& s : script) {
    ++pulls;
    if (s % 2 == 0) {
      co_yield s;
    } else {
      co_yield int(s);
    }
  }
}
generator<int&> rgen(std::vector<int>& script) {
  frame_token const t;
  for (auto& s : script) co_yield s;
}
generator<std::string> sgen(std::vector<int> const& script) {
  frame_token const t;
  for (auto const s : script) co_yield std::string(20 + s, 'a' + s % 26);
}

template <typename G>
void check_gen(std::vector<int> const& script, G&& make) {
  for (std::size_t k = 0; k <= script.size(); ++k) {
    int pulls = 0;
    live = 0;
    {
      auto g0 = make(script, pulls);
      auto g = std::move(g0);
      std::vector<int> got;
      auto it = g.begin();
      for (std::size_t i = 0; i < k && it != g.end(); ++i) {
        // begin() of a partly consumed sequence is where the consumer stands
        auto it2 = g.begin();
        mc::require(!(it2 == g.end()), "begin-end", "i=", i);
        mc::require(*it2 == *it && *it2 == script[i], "begin-moved", "at ", i);
        mc::require(pulls == static_cast<int>(i) + 1, "overrun", pulls, " pulls at ", i);
        got.push_back(*it);
        mc::require(*(it.operator->()) == script[i], "arrow", i);
        ++it;
        mc::step();
        mc::state(mc::hash_seq(got, 7));
      }
      auto const pre = std::vector<int>(script.begin(), script.begin() + k);
      mc::require(got == pre, "gen-prefix", mc::seq(got), " want ", mc::seq(pre));
      mc::require((g.begin() == g.end()) == (k == script.size()), "gen-end", "k=", k);
      auto const& cg = g;
      mc::require((cg.begin() == cg.end()) == (k == script.size()), "gen-const-end", "k=", k);
      // the rest is still there
      std::vector<int> rest;
      for (auto const& v : g) rest.push_back(v);
      auto const want = std::vector<int>(script.begin() + k, script.end());
      mc::require(rest == want, "gen-rest", mc::seq(rest), " want ", mc::seq(want));
    }
    mc::require(live == 0, "frame-leak", live, " frames after ", k);
    {
      auto g = make(script, pulls);
      auto it = g.begin();
      for (std::size_t i = 0; i < k && it != g.end(); ++i) it++;
    }
    mc::require(live == 0, "frame-leak", live, " frames after abandoning at ", k);
  }
}

struct value_range {
  coro_it<int> begin() {
    frame_token const t;
    for (auto i : v_) co_yield i;
  }
  coro_it<int> end() { return {}; }
  std::vector<int> v_;
};
struct ref_range {
  coro_it<int const&> begin() {
    frame_token const t;
    for (auto const& i : v_) co_yield i;
  }
  coro_it<int const&> end() { return {}; }
  std::vector<int> v_;
};
struct mut_range {
  coro_it<int&> begin() {
    frame_token const t;
    for (auto& i : v_) co_yield i;
  }
  coro_it<int&> end() { return {}; }
  std::vector<int> v_;
};

// ---------------------------------------------------------------- exceptions of flat producers

// yields the values and throws after that many of them
generator<int> tgen(std::vector<int> const& v, std::size_t at) {
  frame_token const t;
  for (std::size_t k = 0; k < v.size(); ++k) {
    if (k == at) throw boom{};
    co_yield int(v[k]);
  }
  if (at == v.size()) throw boom{};
}
generator<int const> tcgen(std::vector<int> const& v, std::size_t at) {
  frame_token const t;
  for (std::size_t k = 0; k < v.size(); ++k) {
    if (k == at) throw boom{};
    co_yield v[k];
  }
  if (at == v.size()) throw boom{};
}
generator<int&> trgen(std::vector<int>& v, std::size_t at) {
  frame_token const t;
  for (std::size_t k = 0; k < v.size(); ++k) {
    if (k == at) throw boom{};
    co_yield v[k];
  }
  if (at == v.size()) throw boom{};
}
// one that goes on after the failure of the one it reads
generator<int> guarded(std::vector<int> const& v, std::size_t at) {
  frame_token const t;
  bool failed = false;
  try {
    for (auto const x : tgen(v, at)) co_yield int(x);
  } catch (boom const&) {
    failed = true;
  }
  if (failed) co_yield -7;
}
recursive_generator<int> rec_over_flat(std::vector<int> const& v, std::size_t at) {
  frame_token const t;
  for (auto const x : tgen(v, at)) co_yield int(x);
}
struct throwing_values {
  coro_it<int> begin() {
    frame_token const t;
    for (std::size_t k = 0; k < v_.size(); ++k) {
      if (k == at_) throw boom{};
      co_yield v_[k];
    }
    if (at_ == v_.size()) throw boom{};
  }
  coro_it<int> end() { return {}; }
  std::vector<int> v_;
  std::size_t at_;
};
struct throwing_refs {
  coro_it<int const&> begin() {
    frame_token const t;
    for (std::size_t k = 0; k < v_.size(); ++k) {
      if (k == at_) throw boom{};
      co_yield v_[k];
    }
    if (at_ == v_.size()) throw boom{};
  }
  coro_it<int const&> end() { return {}; }
  std::vector<int> v_;
  std::size_t at_;
};

template <typename Fn>
void failing(std::vector<int> const& d, std::size_t at, char const* what, Fn&& each) {
  live = 0;
  std::vector<int> got;
  bool threw = false;
  try {
    each([&](int v) { got.push_back(v); });
  } catch (boom const&) {
    threw = true;
  }
  auto const want = std::vector<int>(d.begin(), d.begin() + static_cast<std::ptrdiff_t>(std::min(at, d.size())));
  mc::require(got == want, "values before an exception", what, " ", at, ": ", mc::seq(got), " want ", mc::seq(want));
  mc::eq(threw, at <= d.size(), "exception reaches the consumer", what, " ", at);
  mc::require(live == 0, "frame-leak", what, " ", at, ": ", live);
  mc::step();
}

void check_failing(std::vector<int> const& d) {
  for (std::size_t at = 0; at <= d.size() + 1; ++at) {
    auto const loop = [](auto&& range, auto&& fn) { for (auto&& v : range) fn(v); };
    auto copy = d;
    failing(d, at, "values", [&](auto&& fn) { loop(tgen(d, at), fn); });
    failing(d, at, "constant values", [&](auto&& fn) { loop(tcgen(d, at), fn); });
    failing(d, at, "references", [&](auto&& fn) { loop(trgen(copy, at), fn); });
    failing(d, at, "read as a constant", [&](auto&& fn) { auto const g = tgen(d, at); loop(g, fn); });
    failing(d, at, "step by step", [&](auto&& fn) { auto g = tgen(d, at); for (auto it = g.begin(); it != g.end(); it++) fn(*it); });
    failing(d, at, "nested", [&](auto&& fn) { loop(rec_over_flat(d, at), fn); });
    failing(d, at, "mapped producer", [&](auto&& fn) { loop(coro_map(tgen(d, at), [](int v) { return v; }), fn); });
    failing(d, at, "throwing map", [&](auto&& fn) {
      std::size_t n = 0;
      auto const f = [&](int v) {
        if (n++ == at) throw boom{};
        return v;
      };
      loop(coro_map(d, f), fn);
      if (at == d.size()) throw boom{};  // nothing left to map
    });
    failing(d, at, "iterator of values", [&](auto&& fn) { throwing_values r{d, at}; loop(r, fn); });
    failing(d, at, "iterator of references", [&](auto&& fn) { throwing_refs r{d, at}; loop(r, fn); });
    failing(d, at, "moved iterator", [&](auto&& fn) {
      throwing_values r{d, at};
      auto a = r.begin();
      auto b = std::move(a);
      for (; b != r.end(); ++b) fn(*b);
    });
    // collecting passes it on as a whole
    live = 0;
    bool threw = false;
    try {
      mc::require(collect<std::vector<int>>(tgen(d, at)) == d && at > d.size(), "collected", at);
    } catch (boom const&) {
      threw = true;
    }
    mc::require(threw == (at <= d.size()) && live == 0, "exception while collecting", at);
    // one that catches it goes on
    std::vector<int> got, want(d.begin(), d.begin() + static_cast<std::ptrdiff_t>(std::min(at, d.size())));
    if (at <= d.size()) want.push_back(-7);
    for (auto const v : guarded(d, at)) got.push_back(v);
    mc::require(got == want && live == 0, "a producer that catches it goes on", at, ": ", mc::seq(got), " want ", mc::seq(want));
    // a failed one stays failed, and can be abandoned
    if (at == d.size()) {
      auto g = trgen(copy, at);
      try {
        for (auto& v : g) static_cast<void>(v);
      } catch (boom const&) {
      }
    }
    mc::require(live == 0, "frame-leak", at, ": ", live);
  }
}

// one owner per coroutine
template <typename It>
void check_copies(std::vector<int> const& d) {
  live = 0;
  if constexpr (std::is_copy_constructible_v<It>) {
    throwing_values r{d, d.size() + 1};
    {
      It a = r.begin();
      It b = a;
    }
    mc::require(live == 0, "a coroutine with two owners", live);
  }
  if constexpr (std::is_move_assignable_v<It>) {
    throwing_values r{d, d.size() + 1};
    {
      It a = r.begin(), b = r.begin();
      if (b != r.end()) ++b;
      a = std::move(b);
      std::vector<int> got, want(d.begin() + (d.empty() ? 0 : 1), d.end());
      for (; a != r.end(); ++a) got.push_back(*a);
      mc::require(got == want, "assigned iterator", mc::seq(got));
    }
    mc::require(live == 0, "frame-leak", live);
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);

  int const n = mc::tier(4, 6);
  int const depth = mc::tier(4, 6);
  mc::bound("nested producer program size", n);
  mc::bound("nesting depth", depth);
  mc::group("nested producers");
  for (int i = 0; i <= n; ++i) {
    auto const ps = programs(i, depth);
    for (auto const& p : ps) {
      mc::run([&] { return show(*p); }, [&] { check_rec(*p); });
    }
  }
  // deeper, with fewer instruction kinds
  memo.clear();
  leaf_kinds = "YX";
  node_kinds = "CG";
  int const n2 = mc::tier(7, 9);
  mc::bound("deep nested program size (yield, child, guarded child, throw)", n2);
  mc::group("deeply nested producers");
  for (int i = n + 1; i <= n2; ++i) {
    if (i > 8 && node_kinds.size() == 2) {
      memo.clear();
      node_kinds = "C";
    }
    auto const ps = programs(i, 8);
    for (auto const& p : ps) {
      mc::run([&] { return show(*p); }, [&] { check_rec(*p); });
    }
  }

  mc::group("flat producers");
  int const len = mc::tier(6, 8);
  mc::bound("flat producer length", len);
  mc::sequences(3, 0, len, [&](std::vector<int> const& d) {
    mc::run([&] { return "values " + mc::seq(d); },
            [&] {
              check_gen(d, [](auto const& s, int& p) { return gen(s, p); });
              check_gen(d, [](auto const& s, int& p) { return cgen(s, p); });
              auto copy = d;
              live = 0;
              for (auto& v : rgen(copy)) v += 100;
              for (std::size_t i = 0; i < d.size(); ++i) {
                mc::require(copy[i] == d[i] + 100, "gen-ref", "element ", i);
              }
              std::vector<std::string> strs, wants;
              for (auto& s : sgen(d)) strs.push_back(std::move(s));
              for (auto const v : d) wants.push_back(std::string(20 + v, 'a' + v % 26));
              mc::require(strs == wants, "gen-string", mc::seqs(strs));
              mc::require(live == 0, "frame-leak", live);
              // map over containers and generators
              std::vector<int> mapped, want;
              for (auto v : d) want.push_back(v * v + 1);
              for (auto v : coro_map(d, [](int v) { return v * v + 1; })) mapped.push_back(v);
              mc::require(mapped == want, "coro-map", mc::seq(mapped));
              mapped.clear();
              int pulls = 0;
              {
                auto g = gen(d, pulls);
                auto m = coro_map(g, [](int v) { return v * v + 1; });
                mc::require(pulls <= 1, "coro-map-eager", pulls);
                for (auto v : m) mapped.push_back(v);
              }
              mc::require(mapped == want, "coro-map-gen", mc::seq(mapped));
              mc::require(live == 0, "frame-leak", live);
              auto c1 = collect<std::list<int>>(gen(d, pulls));
              mc::require(std::vector<int>(c1.begin(), c1.end()) == d, "collect-flat", "");
              value_range vr{d};
              ref_range rr{d};
              mut_range mr{d};
              std::vector<int> a, b;
              for (auto v : vr) a.push_back(v);
              std::vector<int const*> addr;
              for (auto const& v : rr) {
                b.push_back(v);
                addr.push_back(&v);
              }
              for (auto& v : mr) v += 5;
              mc::require(a == d, "coro-it", mc::seq(a));
              mc::require(b == d, "coro-it-ref", mc::seq(b));
              for (std::size_t i = 0; i < d.size(); ++i) {
                mc::require(addr[i] == &rr.v_[i], "coro-it-ref-identity", i);
                mc::require(mr.v_[i] == d[i] + 5, "coro-it-mut", i);
              }
              // independent iterations do not disturb each other
              for (auto v : vr) {
                std::vector<int> inner;
                for (auto w : vr) inner.push_back(w);
                mc::require(inner == d, "coro-it-nested", mc::seq(inner));
              }
              mc::require(live == 0, "frame-leak", live);
              check_failing(d);
              check_copies<coro_it<int>>(d);
            });
  });
  return mc::finish();
}
