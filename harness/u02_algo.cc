// U02: range and set algorithms against naive references, for every pair of
// short ranges over several value alphabets.
#include "mc.h"

#include <algorithm>
#include <climits>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <numeric>
#include <set>
#include <stack>
#include <queue>

#include "soro/base/soro_types.h"
#include "soro/utls/algo/merge_unique.h"
#include "soro/utls/algo/multi_set_merge.h"
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/remove_after.h"
#include "soro/utls/algo/remove_until.h"
#include "soro/utls/algo/slice.h"
#include "soro/utls/algo/sort_and_intersect.h"
#include "soro/utls/map/insert_or.h"
#include "soro/utls/ranges/to.h"
#include "soro/utls/std_wrapper/accumulate.h"
#include "soro/utls/std_wrapper/all_of.h"
#include "soro/utls/std_wrapper/any_of.h"
#include "soro/utls/std_wrapper/contains.h"
#include "soro/utls/std_wrapper/contains_if.h"
#include "soro/utls/std_wrapper/copy.h"
#include "soro/utls/std_wrapper/count.h"
#include "soro/utls/std_wrapper/count_if.h"
#include "soro/utls/std_wrapper/find.h"
#include "soro/utls/std_wrapper/find_if.h"
#include "soro/utls/std_wrapper/find_if_position.h"
#include "soro/utls/std_wrapper/find_position.h"
#include "soro/utls/std_wrapper/is_sorted.h"
#include "soro/utls/std_wrapper/min_element.h"
#include "soro/utls/std_wrapper/reverse.h"
#include "soro/utls/std_wrapper/set_difference.h"
#include "soro/utls/std_wrapper/sort.h"

namespace u = soro::utls;

namespace {

std::ostream& operator<<(std::ostream& o, std::pair<int, int> const& p) {
  return o << p.first << ":" << p.second;
}

template <typename T>
std::string pr(std::vector<T> const& v) {
  std::ostringstream o;
  o << "[";
  for (auto const& e : v) o << e << " ";
  o << "]";
  return o.str();
}

template <typename T>
void same(std::vector<T> const& got, std::vector<T> const& want, char const* sig) {
  mc::require(got == want, sig, "got ", pr(got), " want ", pr(want));
}

// element whose order ignores part of it would hide a copy of the wrong one
template <typename T>
std::vector<T> map_vals(std::vector<int> const& d, std::vector<T> const& alpha) {
  std::vector<T> r;
  for (auto const i : d) r.push_back(alpha[i]);
  return r;
}

// ---- references, written without the algorithms under test

template <typename T>
std::vector<T> ref_sorted(std::vector<T> v) {  // insertion sort
  for (std::size_t i = 1; i < v.size(); ++i) {
    for (auto j = i; j > 0 && v[j] < v[j - 1]; --j) std::swap(v[j], v[j - 1]);
  }
  return v;
}
template <typename T>
bool ref_in(std::vector<T> const& v, T const& x) {
  for (auto const& e : v) {
    if (e == x) return true;
  }
  return false;
}
template <typename T>
bool ref_is_sorted(std::vector<T> const& v) {
  for (std::size_t i = 1; i < v.size(); ++i) {
    if (v[i] < v[i - 1]) return false;
  }
  return true;
}
template <typename T>
std::size_t ref_count(std::vector<T> const& v, T const& x) {
  std::size_t n = 0;
  for (auto const& e : v) n += e == x ? 1 : 0;
  return n;
}
// multiset intersection in the order of the (sorted) first range
template <typename T>
std::vector<T> ref_isect(std::vector<T> const& a, std::vector<T> const& b) {
  std::vector<T> r;
  for (auto const& e : a) {
    if (ref_count(r, e) < std::min(ref_count(a, e), ref_count(b, e))) r.push_back(e);
  }
  return r;
}
template <typename T>
std::vector<T> ref_unique_union(std::vector<T> const& a, std::vector<T> const& b) {
  std::vector<T> r;
  for (auto const& e : a) {
    if (!ref_in(r, e)) r.push_back(e);
  }
  for (auto const& e : b) {
    if (!ref_in(r, e)) r.push_back(e);
  }
  return ref_sorted(r);
}

template <typename T>
void single(std::vector<T> const& v, std::vector<T> const& alpha) {
  auto const n = v.size();
  for (auto const& x : alpha) {
    auto const is_x = [&](T const& e) { return e == x; };
    // remove_after / remove_until
    std::size_t first = n, last = n;
    for (std::size_t i = 0; i < n; ++i) {
      if (v[i] == x) {
        if (first == n) first = i;
        last = i;
      }
    }
    {
      auto c = v;
      u::remove_until(c, is_x);
      same(c, std::vector<T>(v.begin() + first, v.end()), "remove_until");
      c = v;
      u::remove_after(c, is_x);
      same(c, last == n ? std::vector<T>{} : std::vector<T>(v.begin(), v.begin() + last + 1),
           "remove_after");
      std::deque<T> dq(v.begin(), v.end());
      u::remove_until(dq, is_x);
      mc::require(dq.size() == n - first, "remove_until", "deque");
    }
    mc::step(2);
    auto const cnt = ref_count(v, x);
    mc::eq(u::count(v, x), cnt, "count");
    mc::eq(u::count_if(v, is_x), cnt, "count_if");
    mc::eq(u::contains(v, x), cnt != 0, "contains");
    mc::eq(u::contains_if(v, is_x), cnt != 0, "contains_if");
    mc::eq(u::any_of(v, is_x), cnt != 0, "any_of");
    mc::eq(u::all_of(v, is_x), cnt == n, "all_of");
    mc::eq(u::find_position(v, x), first, "find_position");
    mc::eq(u::find_if_position(v, is_x), first, "find_if_position");
    mc::eq(static_cast<std::size_t>(u::find(v, x) - v.begin()), first, "find");
    mc::eq(static_cast<std::size_t>(u::find_if(v, is_x) - v.begin()), first, "find_if");
  }
  std::vector<bool> flags, not_flags;
  bool all = true, any = false;
  for (auto const& e : v) {
    flags.push_back(e == alpha[0]);
    all &= flags.back();
    any |= flags.back();
  }
  mc::eq(u::all_of(flags), all, "all_of flags");
  mc::eq(u::any_of(flags), any, "any_of flags");
  auto const desc = [](T const& a, T const& b) { return b < a; };
  mc::eq(u::is_sorted(v), ref_is_sorted(v), "is_sorted");
  auto rev = std::vector<T>{};
  for (std::size_t i = n; i > 0; --i) rev.push_back(v[i - 1]);
  mc::eq(u::is_sorted(v, desc), ref_is_sorted(rev), "is_sorted cmp");
  {
    auto c = v;
    u::sort(c);
    same(c, ref_sorted(v), "sort");
    u::sort(c, desc);
    auto want = ref_sorted(v);
    std::vector<T> w;
    for (std::size_t i = n; i > 0; --i) w.push_back(want[i - 1]);
    same(c, w, "sort cmp");
    c = v;
    u::reverse(c);
    same(c, rev, "reverse");
    c.clear();
    u::copy(v, std::back_inserter(c));
    same(c, v, "copy");
    std::vector<T> target(n + 2, alpha[0]);
    u::copy(v, target.begin() + 1);
    same(std::vector<T>(target.begin() + 1, target.begin() + 1 + n), v, "copy at");
    mc::require(target.front() == alpha[0] && target.back() == alpha[0], "copy overrun", "");
  }
  if (n > 0) {
    std::size_t m = 0;
    for (std::size_t i = 1; i < n; ++i) {
      if (v[i] < v[m]) m = i;
    }
    mc::eq(static_cast<std::size_t>(u::min_element(v, std::less<>{}) - v.begin()), m, "min_element");
  }
  // slices: every 0 <= from <= to <= n; the clasping ones also beyond
  for (std::size_t from = 0; from <= n + 2; ++from) {
    for (std::size_t to = 0; to <= n + 2; ++to) {
      std::size_t f = from > n ? 0 : from, t = to > n ? n : to;
      if (f <= t) {
        auto const want = std::vector<T>(v.begin() + f, v.begin() + t);
        same(u::slice_clasp(v, from, to), want, "slice_clasp copy");
        auto c = v;
        u::slice_clasp(c, from, to);
        same(c, want, "slice_clasp in place");
        auto const r = u::slice_clasp_range(v, from, to);
        same(std::vector<T>(r.begin(), r.end()), want, "slice_clasp_range");
        if (from <= n && to <= n) {
          same(u::slice(v, from, to), want, "slice copy");
          c = v;
          u::slice(c, from, to);
          same(c, want, "slice in place");
          auto const r2 = u::slice_range(v, from, to);
          same(std::vector<T>(r2.begin(), r2.end()), want, "slice_range");
        }
        mc::step(5);
      }
    }
  }
  for (std::size_t f : {n + 7, static_cast<std::size_t>(1) << 40, SIZE_MAX}) {
    same(u::slice_clasp(v, f, SIZE_MAX), v, "slice_clasp huge");
  }
  // conversions
  same(v | u::to<std::vector>(), v, "to vector");
  auto const st = v | u::to<std::set>();
  same(std::vector<T>(st.begin(), st.end()), ref_unique_union(v, {}), "to set");
}

template <typename T>
void pairwise(std::vector<T> const& a, std::vector<T> const& b) {
  auto const sa = ref_sorted(a), sb = ref_sorted(b);
  bool ov = false;
  for (auto const& e : a) ov |= ref_in(b, e);
  mc::eq(u::overlap(sa, sb), ov, "overlap");
  mc::eq((u::overlap<std::vector<T>, std::vector<T>, false>(sa, sb)), ov, "overlap unchecked");
  mc::eq(u::overlap_non_sorted(a, b), ov, "overlap_non_sorted");
  mc::eq(u::overlap_non_sorted(a.begin(), a.end(), b.begin(), b.end()), ov,
         "overlap_non_sorted it");
  std::deque<T> const db(b.begin(), b.end());
  mc::eq(u::overlap_non_sorted(a, db), ov, "overlap_non_sorted mixed");
  auto const is = ref_isect(sa, sb);
  same(u::get_overlap(sa, sb), is, "get_overlap");
  same(ref_sorted(u::get_overlap_non_sorted(a, b)), is, "get_overlap_non_sorted");
  // in the order in which the elements occur in the first range
  {
    auto const got = u::get_overlap_non_sorted(a, b);
    std::size_t pos = 0;
    for (auto const& e : got) {
      while (pos < a.size() && !(a[pos] == e)) ++pos;
      mc::require(pos < a.size(), "get_overlap_non_sorted order", "got ", pr(got));
      ++pos;
    }
  }
  same(u::intersect(sa, sb), is, "intersect");
  {
    auto c1 = a, c2 = b;
    same(u::sort_and_intersect(c1, c2), is, "sort_and_intersect");
    same(c1, sa, "sort_and_intersect first");
    same(c2, sb, "sort_and_intersect second");
  }
  same(u::merge_unique(sa, sb), ref_unique_union(a, b), "merge_unique");
  {
    std::vector<T> d, want;
    u::set_difference(sa, sb, std::back_inserter(d));
    for (auto const& e : sa) {
      auto const na = ref_count(sa, e), nb = ref_count(sb, e);
      if (na > nb && ref_count(want, e) < na - nb) want.push_back(e);
    }
    same(d, want, "set_difference");
  }
  // precondition: unsorted input is refused, not silently mis-merged
  auto const throws = [](auto&& f) {
    try {
      f();
      return false;
    } catch (std::exception const&) {
      return true;
    }
  };
  mc::eq(throws([&] { u::merge_unique(a, b); }), !ref_is_sorted(a) || !ref_is_sorted(b),
         "merge_unique unsorted");
  mc::eq(throws([&] { static_cast<void>(u::overlap(a, b)); }),
         !ref_is_sorted(a) || !ref_is_sorted(b), "overlap unsorted");
  mc::step(10);
  mc::state(mc::hash(pr(sa) + pr(sb)));
}

template <typename T>
void merge_sets(std::vector<std::vector<T>> const& sets) {
  using it = typename std::vector<T>::const_iterator;
  std::vector<std::pair<it, it>> ranges;
  std::vector<T> want;
  for (auto const& s : sets) {
    ranges.emplace_back(s.begin(), s.end());
    want = ref_unique_union(want, s);
  }
  same(u::multi_set_merge<std::vector<T>>(ranges), want, "multi_set_merge");
  using sit = typename std::list<T>::const_iterator;
  std::vector<std::list<T>> ls;
  for (auto const& s : sets) ls.emplace_back(s.begin(), s.end());
  std::vector<std::pair<sit, sit>> lr;
  for (auto const& l : ls) lr.emplace_back(l.begin(), l.end());
  same(u::multi_set_merge<std::vector<T>>(lr), want, "multi_set_merge list");
  mc::step(2);
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);

  std::vector<int> const small = {1, 2, 3};
  std::vector<long> const extreme = {LONG_MIN, -1, 0, LONG_MAX};
  std::vector<std::size_t> const uns = {0, 1, SIZE_MAX};
  std::vector<std::string> const strs = {"", "a", std::string(40, 'z')};

  int const ls = mc::tier(6, 9);
  mc::bound("single range length", ls);
  mc::group("single range");
  mc::sequences(3, 0, ls, [&](std::vector<int> const& d) {
    mc::run([&] { return mc::seq(d); },
            [&] {
              single(map_vals(d, small), small);
              single(map_vals(d, uns), uns);
              single(map_vals(d, strs), strs);
              auto const v = map_vals(d, small);
              mc::eq(u::accumulate(v, 10), [&] { int s = 10; for (auto x : v) s += x; return s; }(), "accumulate");
              mc::eq(u::accumulate(v, 10L, [](long a, int b) { return a * 3 - b; }),
                     [&] { long s = 10; for (auto x : v) s = s * 3 - x; return s; }(), "accumulate fn");
              mc::eq(u::accumulate(map_vals(d, strs), std::string{"s"}),
                     [&] { std::string s = "s"; for (auto const x : d) s += strs[x]; return s; }(), "accumulate str");
              // map: insert or combine, keeping one entry per key
              soro::map<int, int> m;
              std::map<int, int> ref;
              int val = 1;
              for (auto x : v) {
                u::insert_or(m, x, int{val}, [](int& old, int nw) { old = old * 10 + nw; });
                if (ref.count(x)) ref[x] = ref[x] * 10 + val; else ref[x] = val;
                val = val % 9 + 1;
                mc::step();
              }
              mc::require(m.size() == ref.size(), "insert_or", "size");
              for (auto const& [k, w] : ref) mc::eq(m.at(k), w, "insert_or value");
              mc::state(mc::hash_seq(d));
            });
  });
  int const le = mc::tier(4, 6);
  mc::sequences(4, 0, le, [&](std::vector<int> const& d) {
    mc::run([&] { return "extreme " + mc::seq(d); },
            [&] { single(map_vals(d, extreme), extreme); });
  });

  mc::group("two ranges");
  int const lp = mc::tier(4, 5);
  mc::bound("two ranges length each", lp);
  mc::sequences(3, 0, lp, [&](std::vector<int> const& a) {
    mc::sequences(3, 0, lp, [&](std::vector<int> const& b) {
      mc::run([&] { return mc::seq(a) + " " + mc::seq(b); },
              [&] {
                pairwise(map_vals(a, small), map_vals(b, small));
                pairwise(map_vals(a, uns), map_vals(b, uns));
                pairwise(map_vals(a, strs), map_vals(b, strs));
              });
    });
  });
  int const ln = mc::tier(3, 4);
  mc::sequences(4, 0, ln, [&](std::vector<int> const& a) {
    mc::sequences(4, 0, ln, [&](std::vector<int> const& b) {
      mc::run([&] { return "extreme " + mc::seq(a) + " " + mc::seq(b); },
              [&] { pairwise(map_vals(a, extreme), map_vals(b, extreme)); });
    });
  });

  mc::group("merge of many sets");
  int const universe = mc::tier(4, 5);
  int const k_max = mc::tier(3, 4);
  mc::bound("sets merged", k_max);
  mc::bound("universe", universe);
  for (int k = 0; k <= k_max; ++k) {
    mc::odometer(std::vector<int>(k, 1 << universe), [&](std::vector<int> const& m) {
      mc::run([&] { return "subset masks " + mc::seq(m); },
              [&] {
                std::vector<std::vector<int>> s1;
                std::vector<std::vector<long>> s2;
                static std::vector<long> const wide = {LONG_MIN, -5, 0, 7, LONG_MAX};
                for (auto const x : m) {
                  s1.emplace_back();
                  s2.emplace_back();
                  for (int i = 0; i < universe; ++i) {
                    if (x >> i & 1) {
                      s1.back().push_back(i);
                      s2.back().push_back(wide[i]);
                    }
                  }
                }
                merge_sets(s1);
                merge_sets(s2);
                mc::state(mc::hash_seq(m));
              });
    });
  }
  // long ranges: sizes around the thresholds of the library's sort / heap
  mc::group("long ranges");
  for (int n = 14; n <= mc::tier(40, 140); ++n) {
    for (int stride = 1; stride < 7; ++stride) {
      mc::run([&] { return mc::str("length ", n, " stride ", stride); },
              [&] {
                std::vector<int> a, b;
                for (int i = 0; i < n; ++i) {
                  a.push_back(i * 7919 % (n + 3) * stride);
                  b.push_back(i * 104729 % (2 * n + 1) + 1);
                }
                pairwise(a, b);
                std::vector<int> alpha = {a[0], a[n / 2], b[0], -1};
                single(a, alpha);
                std::vector<std::vector<int>> sets;
                for (int k = 0; k < stride * 3; ++k) {
                  sets.emplace_back();
                  for (int i = k; i < n; i += k + 1) sets.back().push_back(i);
                }
                merge_sets(sets);
              });
    }
  }
  return mc::finish();
}
