// U04: containers against abstract data types: every operation sequence up to
// a depth is run on the container and on its model.
#include "mc.h"

#include <algorithm>
#include <limits>

#include "soro/base/soro_types.h"
#include "soro/utls/container/constexpr_map.h"
#include "soro/utls/container/id_iterator.h"
#include "soro/utls/container/it_range.h"
#include "soro/utls/container/offset_container.h"
#include "soro/utls/container/optional.h"
#include "soro/utls/container/priority_queue.h"
#include "soro/utls/container/sorted_vector.h"

namespace u = soro::utls;

namespace {

// ------------------------------------------------------------ priority_queue
struct item {
  int prio_, tag_;
  bool operator==(item const&) const = default;
};

template <typename Cmp>
void run_pq(std::vector<int> const& ops, std::vector<int> const& vals, Cmp cmp) {
  u::priority_queue<item, Cmp> q{cmp};
  std::vector<item> model;
  int tag = 0;
  for (auto const op : ops) {
    if (op == static_cast<int>(vals.size())) {
      if (model.empty()) return;
      auto const t = q.top();
      for (auto const& m : model) {
        mc::require(!cmp(t, m), "priority_queue top", "popped ", t.prio_, " before ", m.prio_);
      }
      auto it = std::find(model.begin(), model.end(), t);
      mc::require(it != model.end(), "priority_queue content", "unknown element");
      model.erase(it);
      q.pop();
    } else {
      item const i{vals[op], tag++};
      if (tag % 2) q.emplace(i); else q.emplace(item{i});
      model.push_back(i);
    }
    mc::step();
    mc::require(q.empty() == model.empty(), "priority_queue empty", model.size());
    std::vector<item> content(q.begin(), q.end());
    mc::require(content.size() == model.size() &&
                    std::is_permutation(content.begin(), content.end(), model.begin()),
                "priority_queue content", content.size(), " elements");
    if (!model.empty()) {
      for (auto const& m : model) {
        mc::require(!cmp(q.top(), m), "priority_queue top", q.top().prio_, " over ", m.prio_);
      }
    }
    std::vector<int> ps;
    for (auto const& m : model) ps.push_back(m.prio_);
    std::sort(ps.begin(), ps.end());
    mc::state(mc::hash_seq(ps, 3));
  }
}

// ------------------------------------------------------------------ optional
template <typename Opt, typename T>
void same_opt(Opt const& o, bool has, T const& v, char const* sig) {
  mc::require(o.has_value() == has && static_cast<bool>(o) == has, sig, "has_value ", o.has_value());
  if (has) {
    mc::require(o.value() == v && *o == v && *(o.operator->()) == v, sig, "value");
  }
}

template <typename T>
void run_opt(std::vector<int> const& ops, std::vector<T> const& vals) {
  using opt = soro::optional<T>;
  opt o[2];
  bool has[2] = {false, false};
  T val[2] = {vals[0], vals[0]};
  for (auto const raw : ops) {
    int const x = raw & 1, y = 1 - x, op = raw >> 1;
    switch (op) {
      case 0: o[x] = opt{vals[0]}; has[x] = true; val[x] = vals[0]; break;
      case 1: o[x] = opt{vals[1]}; has[x] = true; val[x] = vals[1]; break;
      case 2: o[x].reset(); has[x] = false; break;
      case 3: o[x] = o[y]; has[x] = has[y]; val[x] = val[y]; break;
      case 4:
        o[x].swap(o[y]);
        std::swap(has[0], has[1]);
        std::swap(val[0], val[1]);
        break;
      case 5: o[x] = std::nullopt; has[x] = false; break;
      case 6:
        if (has[x]) {
          o[x].value() = vals[1];
          val[x] = vals[1];
        }
        break;
      case 7: {
        o[x] = o[x].or_else([&] { return opt{vals[0]}; });
        if (!has[x]) {
          has[x] = true;
          val[x] = vals[0];
        }
        break;
      }
    }
    mc::step();
    for (int i : {0, 1}) {
      same_opt(o[i], has[i], val[i], "optional");
      opt const copy{o[i]};
      same_opt(copy, has[i], val[i], "optional copy");
      opt tmp{o[i]};
      opt const moved{std::move(tmp)};
      same_opt(moved, has[i], val[i], "optional move");
      mc::require(o[i].value_or(vals[1]) == (has[i] ? val[i] : vals[1]), "optional value_or", i);
      mc::require(opt{o[i]}.value_or(vals[0]) == (has[i] ? val[i] : vals[0]), "optional value_or", i);
      auto const t = o[i].and_then([](T const& v) { return opt{v}; });
      same_opt(t, has[i], val[i], "optional and_then");
      auto const tr = o[i].transform([](T const& v) { return std::vector<T>{v}; });
      mc::require(has[i] ? tr == std::vector<T>{val[i]} : tr.empty(), "optional transform", i);
      same_opt(o[i].or_else([&] { return opt{vals[1]}; }), true, has[i] ? val[i] : vals[1],
               "optional or_else");
      same_opt(opt{o[i]}.or_else([&] { return opt{}; }), has[i], val[i], "optional or_else");
      int calls = 0;
      o[i].execute_if([&](T const& v) {
        ++calls;
        mc::require(v == val[i], "optional execute_if", i);
      });
      mc::require(calls == (has[i] ? 1 : 0), "optional execute_if calls", calls);
      // nothing is called that is not wanted
      calls = 0;
      static_cast<void>(o[i].or_else([&] { return ++calls, opt{vals[1]}; }));
      static_cast<void>(opt{o[i]}.or_else([&] { return ++calls, opt{vals[1]}; }));
      mc::require(calls == (has[i] ? 0 : 2), "optional or_else calls", calls);
      calls = 0;
      static_cast<void>(o[i].and_then([&](T const& v) { return ++calls, opt{v}; }));
      static_cast<void>(o[i].transform([&](T const& v) { return ++calls, std::vector<T>{v}; }));
      mc::require(calls == (has[i] ? 2 : 0), "optional and_then calls", calls);
    }
    mc::state(mc::h64(has[0] * 2 + has[1]) ^ mc::h64(val[0] == vals[0]) ^ mc::h64(7 + (val[1] == vals[0])));
  }
}

// --------------------------------------------------------------- id_iterator
struct thing {
  using id = std::uint16_t;
  using ptr = thing const*;
  id id_;
};

template <typename It, typename Deref>
void run_id_it(std::vector<int> const& ops, It const begin, It const end,
               std::vector<thing::id> const& ids, Deref&& id_of) {
  // random access walk; the model is an index
  std::ptrdiff_t pos = 0;
  auto const n = static_cast<std::ptrdiff_t>(ids.size());
  It it = begin;
  for (auto const op : ops) {
    auto const ok = [&](std::ptrdiff_t p) { return p >= 0 && p <= n; };
    std::ptrdiff_t np = pos;
    switch (op) {
      case 0: if (ok(np = pos + 1)) { ++it; } break;
      case 1: if (ok(np = pos - 1)) { --it; } break;
      case 2: if (ok(np = pos + 1)) { auto old = it++; mc::require(old - begin == pos, "id_iterator post++", pos); } break;
      case 3: if (ok(np = pos - 1)) { auto old = it--; mc::require(old - begin == pos, "id_iterator post--", pos); } break;
      case 4: if (ok(np = pos + 2)) { it += 2; } break;
      case 5: if (ok(np = pos - 2)) { it -= 2; } break;
      case 6: if (ok(np = pos + 2)) { it = it + 2; } break;
      case 7: if (ok(np = pos - 2)) { it = it - 2; } break;
      case 8: if (ok(np = pos + 1)) { it = 1 + it; } break;
    }
    if (!ok(np)) continue;
    pos = np;
    mc::step();
    mc::require(it - begin == pos && end - it == n - pos, "id_iterator position", it - begin, " want ", pos);
    for (std::ptrdiff_t k = 0; k < n; ++k) {
      mc::require(id_of(it[k - pos]) == ids[k], "id_iterator []", k);
      auto const other = begin + k;
      mc::require((it == other) == (pos == k) && (it != other) == (pos != k) &&
                      (it < other) == (pos < k) && (it > other) == (pos > k) &&
                      (it <= other) == (pos <= k) && (it >= other) == (pos >= k),
                  "id_iterator compare", pos, " and ", k);
    }
    if (pos < n) {
      mc::require(id_of(*it) == ids[pos] && it->id_ == ids[pos], "id_iterator deref", pos);
    }
    // every place from here, forwards and backwards, by every operation
    for (std::ptrdiff_t k = 0; k <= n; ++k) {
      auto a = it, b = it;
      a += k - pos;
      b -= pos - k;
      It const here = it;
      mc::require(a - begin == k && b - begin == k && (here + (k - pos)) - begin == k && (here - (pos - k)) - begin == k && ((k - pos) + here) - begin == k && here - begin == pos,
                  "id_iterator offsets", pos, " to ", k);
    }
    mc::state(mc::h64(pos * 31 + n));
  }
}

constexpr u::constexpr_map<int, char, 3> MAP{{{{1, 'a'}, {-5, 'b'}, {1, 'c'}}}};
static_assert(MAP.at(-5) == 'b');

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);

  mc::group("priority queue");
  int const n = mc::tier(8, 10);
  mc::bound("priority queue operations", n);
  mc::sequences(4, 0, n, [&](std::vector<int> const& ops) {
    mc::run([&] { return "ops " + mc::seq(ops) + " (3 = pop)"; },
            [&] {
              run_pq(ops, {1, 2, 3}, [](item const& a, item const& b) { return a.prio_ < b.prio_; });
              run_pq(ops, {INT32_MIN, 0, INT32_MAX},
                     [](item const& a, item const& b) { return a.prio_ > b.prio_; });
            });
  });
  mc::group("priority queue, heap orders");
  {
    // every insertion order of n distinct priorities, then drain
    int const m = mc::tier(7, 8);
    std::vector<int> p(m);
    for (int i = 0; i < m; ++i) p[i] = i;
    std::vector<int> vals = p;
    do {
      mc::run([&] { return "insert " + mc::seq(p); },
              [&] {
                auto ops = p;
                ops.insert(ops.end(), m, m);
                run_pq(ops, vals, [](item const& a, item const& b) { return a.prio_ < b.prio_; });
              });
    } while (std::next_permutation(p.begin(), p.end()));
  }

  mc::group("optional");
  int const no = mc::tier(3, 4);
  mc::bound("optional operations", no);
  static int a = 1, b = 2;
  mc::sequences(16, 0, no, [&](std::vector<int> const& ops) {
    mc::run([&] { return "ops " + mc::seq(ops); },
            [&] {
              run_opt<std::uint32_t>(ops, {0U, 0xfffffffeU});
              run_opt<std::int16_t>(ops, {-32768, 32766});
              run_opt<std::size_t>(ops, {7U, SIZE_MAX - 1});
              run_opt<std::uint8_t>(ops, {0U, 254U});
              run_opt<int*>(ops, {&a, &b});
              run_opt<int const*>(ops, {&b, &a});
            });
  });
  mc::run([] { return std::string{"make_optional / invalid values"}; }, [] {
    auto const o = u::make_optional<int, -1>(400);
    mc::require(o.has_value() && *o == 400, "make_optional", "");
    mc::require(!u::make_optional<int, -1>(-1).has_value(), "make_optional invalid", "");
    mc::require(!soro::optional<std::uint16_t>{std::uint16_t{65535}}.has_value(), "invalid value", "");
    mc::require(!soro::optional<int const*>{nullptr}.has_value(), "invalid pointer", "");
    mc::require(!soro::optional<int>{std::nullopt}.has_value(), "nullopt", "");
    mc::require(soro::optional<int>{0}.has_value(), "zero is a value", "");
  });

  mc::group("sorted vector");
  int const ns = mc::tier(6, 7);
  mc::bound("sorted vector length", ns);
  mc::sequences(4, 0, ns, [&](std::vector<int> const& v) {
    mc::run([&] { return mc::seq(v); },
            [&] {
              auto want = v;
              for (std::size_t i = 1; i < want.size(); ++i) {
                for (auto j = i; j > 0 && want[j] < want[j - 1]; --j) std::swap(want[j], want[j - 1]);
              }
              auto const check = [](auto const& s, std::vector<int> const& w) {
                mc::require(s.size() == w.size(), "sorted_vector size", s.size());
                mc::require(std::vector<int>(s.begin(), s.end()) == w, "sorted_vector order",
                            mc::seq(std::vector<int>(s.begin(), s.end())));
                for (std::size_t i = 0; i < w.size(); ++i) {
                  mc::require(s[i] == w[i] && s.at(i) == w[i], "sorted_vector index", i);
                }
              };
              u::sorted_vector<int> s{soro::vector<int>(v)};
              check(s, want);
              mc::require(s.move_out() == want, "sorted_vector move_out", "");
              u::sorted_vector<int> d{soro::vector<int>(v), std::greater<>{}};
              std::reverse(want.begin(), want.end());
              check(d, want);
              mc::step(2);
              mc::state(mc::hash_seq(v, 5));
              // it_range
              auto const r = u::make_range(v);
              mc::require(std::vector<int>(r.begin(), r.end()) == v, "make_range", "");
              for (std::size_t f = 0; f <= v.size(); ++f) {
                for (auto t = f; t <= v.size(); ++t) {
                  auto r2 = u::make_range(v.begin() + f, v.begin() + t);
                  mc::require(std::vector<int>(r2.begin(), r2.end()) ==
                                  std::vector<int>(v.begin() + f, v.begin() + t),
                              "make_range it", f, " ", t);
                  std::tuple<std::vector<int>::const_iterator&, std::vector<int>::const_iterator&> tp = r2;
                  mc::require(std::get<0>(tp) == v.begin() + f && std::get<1>(tp) == v.begin() + t,
                              "it_range tuple", f);
                }
              }
            });
  });

  mc::group("id iterator");
  int const ni = mc::tier(5, 6);
  mc::bound("id iterator operations", ni);
  mc::sequences(9, 0, ni, [&](std::vector<int> const& ops) {
    mc::run([&] { return "ops " + mc::seq(ops); },
            [&] {
              soro::vector<thing> things;
              for (std::uint16_t i = 0; i < 6; ++i) things.push_back({static_cast<std::uint16_t>(i)});
              soro::vector<thing::ptr> ptrs;
              for (auto const& t : things) ptrs.push_back(&t);
              for (auto const& ids : {soro::vector<thing::id>{5, 0, 3, 3}, soro::vector<thing::id>{2}}) {
                using it = u::id_it<thing>;
                run_id_it(ops, it{ids.begin(), &things}, it{ids.end(), &things}, ids,
                          [](thing const& t) { return t.id_; });
                using itp = u::id_it_ptr<thing>;
                run_id_it(ops, itp{ids.begin(), &ptrs}, itp{ids.end(), &ptrs}, ids,
                          [](thing const& t) { return t.id_; });
              }
            });
  });

  mc::group("offset container and constant map");
  for (std::size_t off : {0UL, 1UL, 7UL, 1000000UL}) {
    for (std::size_t size = 0; size <= 12; ++size) {
      mc::run([&] { return mc::str("offset ", off, " size ", size); },
              [&] {
                u::offset_container<std::vector<int>> c{off, size};
                for (std::size_t i = 0; i < size; ++i) {
                  mc::require(c[off + i] == 0, "offset_container initial", i);
                  c[off + i] = static_cast<int>(i * i + 1);
                }
                c.resize(size + 3);
                c[off + size + 2] = -1;
                auto const& cc = c;
                for (std::size_t i = 0; i < size; ++i) {
                  mc::require(cc[off + i] == static_cast<int>(i * i + 1), "offset_container", i);
                }
                mc::require(cc[off + size + 2] == -1, "offset_container resize", size);
                u::offset_container<std::vector<std::size_t>> c2{off, size};
                for (std::size_t i = 0; i < size; ++i) {
                  mc::require(c2[off + i] == 0, "offset_container initial", i);
                }
                mc::step(size);
              });
    }
  }
  for (int k = -8; k < 8; ++k) {
    mc::run([&] { return mc::str("key ", k); },
            [&] {
              bool threw = false;
              char r = 0;
              try {
                r = MAP.at(k);
              } catch (std::range_error const&) {
                threw = true;
              }
              mc::require(threw == (k != 1 && k != -5), "constexpr_map miss", k);
              if (!threw) mc::require(r == (k == 1 ? 'a' : 'b'), "constexpr_map", k);
            });
  }
  return mc::finish();
}
