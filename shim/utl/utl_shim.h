#pragma once
// Minimal stand-in for the parts of motis-project/utl that soro uses.
// Not part of the code under verification.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <ranges>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "cista/cista_shim.h"
#include "fmt/format.h"

namespace utl {

// ---- logging ---------------------------------------------------------------
enum log_level { emrg, alrt, crit, err, warn, notice, info, debug, info_all };

namespace shim {
inline bool& log_enabled() {
  static bool b = std::getenv("SORO_SHIM_LOG") != nullptr;
  return b;
}
// a check that wants to know what is reported puts a string here
inline std::string*& log_sink() {
  static thread_local std::string* s = nullptr;
  return s;
}
struct log_line {
  template <typename T>
  log_line& operator<<(T&& t) {
    if (log_sink() != nullptr) {
      std::ostringstream ss;
      ss << t;
      *log_sink() += ss.str();
    }
    if (log_enabled()) {
      std::ostringstream ss;
      ss << t;
      std::cerr << ss.str();
    }
    return *this;
  }
  log_line() = default;
  log_line(log_line const&) = delete;
  ~log_line() {
    if (log_sink() != nullptr) *log_sink() += '\n';
    if (log_enabled()) std::cerr << "\n";
  }
};
// non formattable arguments are passed through operator<<
template <typename T>
auto fmt_arg(T const& t) {
  if constexpr (std::is_enum_v<T>) {
    return static_cast<long long>(t);
  } else if constexpr (std::is_arithmetic_v<T>) {
    return t;
  } else if constexpr (std::is_convertible_v<T const&, std::string>) {
    return std::string{t};
  } else if constexpr (requires(std::ostream& o) { o << t; }) {
    std::ostringstream ss;
    ss << t;
    return ss.str();
  } else {
    return std::string{"?"};
  }
}
template <typename... Args>
std::string format(std::string_view f, Args&&... args) {
  if constexpr (sizeof...(Args) == 0) {
    return std::string{f};
  } else {
    auto held = std::tuple<std::decay_t<decltype(fmt_arg(args))>...>{
        fmt_arg(args)...};
    return std::apply(
        [&](auto const&... a) {
          try {
            return fmt::vformat(fmt::string_view{f.data(), f.size()},
                                fmt::make_format_args(a...));
          } catch (fmt::format_error const&) {
            return std::string{f};
          }
        },
        held);
  }
}
}  // namespace shim

#define uLOG(lvl) (static_cast<void>(lvl), ::utl::shim::log_line{})

template <typename... Args>
std::runtime_error fail(std::string_view f, Args&&... args) {
  return std::runtime_error{shim::format(f, std::forward<Args>(args)...)};
}
template <typename... Args>
void verify(bool const cond, std::string_view f, Args&&... args) {
  if (!cond) {
    throw fail(f, std::forward<Args>(args)...);
  }
}

// ---- timers ----------------------------------------------------------------
struct scoped_timer {
  explicit scoped_timer(std::string) {}
  void print(std::string_view = "") const {}
};
struct manual_timer {
  explicit manual_timer(std::string) {}
  void stop_and_print() const {}
};
using timer = scoped_timer;

// ---- containers ------------------------------------------------------------
template <typename C, typename O>
C& concat(C& c, O&& o) {
  if constexpr (requires { c.insert(std::end(c), std::begin(o), std::end(o)); }) {
    if constexpr (std::is_lvalue_reference_v<O>) {
      c.insert(std::end(c), std::begin(o), std::end(o));
    } else {
      c.insert(std::end(c), std::make_move_iterator(std::begin(o)),
               std::make_move_iterator(std::end(o)));
    }
  } else {
    std::copy(std::begin(o), std::end(o), std::back_inserter(c));
  }
  return c;
}
template <typename C, typename T>
void erase(C& c, T const& t) {
  c.erase(std::remove(std::begin(c), std::end(c), t), std::end(c));
}
template <typename C, typename Fn>
void erase_if(C& c, Fn&& fn) {
  c.erase(std::remove_if(std::begin(c), std::end(c), std::forward<Fn>(fn)),
          std::end(c));
}
template <typename C>
void erase_duplicates(C& c) {
  std::sort(std::begin(c), std::end(c));
  c.erase(std::unique(std::begin(c), std::end(c)), std::end(c));
}
template <typename C, typename Less>
void erase_duplicates(C& c, Less&& less) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c),
                      [&](auto&& a, auto&& b) {
                        return !less(a, b) && !less(b, a);
                      }),
          std::end(c));
}
template <typename M, typename K, typename Fn>
auto& get_or_create(M& m, K const& k, Fn&& fn) {
  auto it = m.find(k);
  if (it == m.end()) {
    it = m.emplace(k, fn()).first;
  }
  return it->second;
}

template <class... Ts>
struct overloaded : Ts... {
  using Ts::operator()...;
};
template <class... Ts>
overloaded(Ts...) -> overloaded<Ts...>;

// ---- ranges ----------------------------------------------------------------
namespace shim {
// holds lvalues by reference and rvalues by value
template <typename C>
struct holder {
  C c_;
  decltype(auto) begin() { return std::begin(c_); }
  decltype(auto) end() { return std::end(c_); }
};
}  // namespace shim

template <typename C>
struct enumerate_range {
  shim::holder<C> h_;
  using inner_it = decltype(std::begin(std::declval<std::remove_reference_t<C>&>()));
  using inner_end = decltype(std::end(std::declval<std::remove_reference_t<C>&>()));
  struct iterator {
    using iterator_category = std::input_iterator_tag;
    using reference = std::tuple<std::size_t, decltype(*std::declval<inner_it&>())>;
    using value_type = reference;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    reference operator*() { return reference{i_, *it_}; }
    iterator& operator++() {
      ++i_;
      ++it_;
      return *this;
    }
    template <typename O>
    bool operator!=(O const& o) const {
      return !(it_ == o.it_);
    }
    template <typename O>
    bool operator==(O const& o) const {
      return it_ == o.it_;
    }
    std::size_t i_;
    inner_it it_;
  };
  struct sentinel {
    inner_end it_;
  };
  iterator begin() { return {0, h_.begin()}; }
  auto end() {
    if constexpr (std::is_same_v<inner_it, inner_end>) {
      return iterator{0, h_.end()};
    } else {
      return sentinel{h_.end()};
    }
  }
};
template <typename C>
enumerate_range<C> enumerate(C&& c) {
  return {shim::holder<C>{std::forward<C>(c)}};
}

template <typename... C>
struct zip_range {
  std::tuple<shim::holder<C>...> h_;
  struct iterator {
    std::tuple<decltype(std::begin(std::declval<std::remove_reference_t<C>&>()))...> its_;
    auto operator*() {
      return std::apply(
          [](auto&... it) { return std::tuple<decltype(*it)...>{*it...}; },
          its_);
    }
    iterator& operator++() {
      std::apply([](auto&... it) { (++it, ...); }, its_);
      return *this;
    }
    bool operator!=(iterator const& o) const {
      return std::get<0>(its_) != std::get<0>(o.its_);
    }
    bool operator==(iterator const& o) const { return !(*this != o); }
  };
  iterator begin() {
    return std::apply([](auto&... h) { return iterator{{h.begin()...}}; }, h_);
  }
  iterator end() {
    return std::apply([](auto&... h) { return iterator{{h.end()...}}; }, h_);
  }
};
template <typename... C>
zip_range<C...> zip(C&&... c) {
  auto const sizes = std::array<std::size_t, sizeof...(C)>{
      static_cast<std::size_t>(std::distance(std::begin(c), std::end(c)))...};
  for (auto const s : sizes) {
    verify(s == sizes[0], "zip: size mismatch");
  }
  return {{shim::holder<C>{std::forward<C>(c)}...}};
}

template <typename C>
struct pairwise_range {
  shim::holder<C> h_;
  using inner_it = decltype(std::begin(std::declval<std::remove_reference_t<C>&>()));
  struct iterator {
    using iterator_category = std::input_iterator_tag;
    using ref = decltype(*std::declval<inner_it&>());
    using reference = std::tuple<ref, ref>;
    using value_type = reference;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    reference operator*() const { return reference{*a_, *b_}; }
    iterator& operator++() {
      a_ = b_;
      ++b_;
      return *this;
    }
    iterator operator++(int) {
      auto r = *this;
      ++*this;
      return r;
    }
    bool operator!=(iterator const& o) const { return b_ != o.b_; }
    bool operator==(iterator const& o) const { return b_ == o.b_; }
    inner_it a_, b_;
  };
  using const_iterator = iterator;
  iterator begin() const {
    auto& self = const_cast<pairwise_range&>(*this);
    auto a = self.h_.begin();
    if (a == self.h_.end()) {
      return {a, a};
    }
    return {a, std::next(a)};
  }
  iterator end() const {
    auto& self = const_cast<pairwise_range&>(*this);
    return {self.h_.end(), self.h_.end()};
  }
};
template <typename C>
pairwise_range<C> pairwise(C&& c) {
  return {shim::holder<C>{std::forward<C>(c)}};
}

template <typename C>
auto to_vec(C&& c) {
  std::vector<std::decay_t<decltype(*std::begin(c))>> r;
  for (auto&& e : c) r.emplace_back(e);
  return r;
}
template <typename C, typename Fn>
auto to_vec(C&& c, Fn&& fn) {
  std::vector<std::decay_t<decltype(fn(*std::begin(c)))>> r;
  for (auto&& e : c) r.emplace_back(fn(e));
  return r;
}
template <typename It, typename End, typename Fn>
auto to_vec(It it, End end, Fn&& fn) {
  std::vector<std::decay_t<decltype(fn(*it))>> r;
  for (; it != end; ++it) r.emplace_back(fn(*it));
  return r;
}
template <typename C, typename Fn>
auto to_set(C&& c, Fn&& fn) {
  std::set<std::decay_t<decltype(fn(*std::begin(c)))>> r;
  for (auto&& e : c) r.emplace(fn(e));
  return r;
}

// ---- parallel --------------------------------------------------------------
// The order in which jobs run is chosen by the harness: a permutation generator
// may be installed; default is ascending.  Jobs run one at a time unless
// `threads` is set, in which case they really run concurrently.
namespace shim {
struct sched {
  std::function<std::vector<std::size_t>(std::size_t)> order_;
  unsigned threads_{0};
  // runs all jobs in a way of its own
  std::function<void(std::size_t, std::function<void(std::size_t)> const&)> run_;
};
inline sched& scheduler() {
  static sched s;
  return s;
}
}  // namespace shim

template <typename Fn>
void parallel_for_run(std::size_t const n, Fn&& fn) {
  auto& s = shim::scheduler();
  if (s.run_) {
    s.run_(n, [&](std::size_t i) { fn(i); });
    return;
  }
  if (s.threads_ > 1) {
    std::atomic<std::size_t> next{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < s.threads_; ++t) {
      ts.emplace_back([&]() {
        for (auto i = next++; i < n; i = next++) {
          fn(i);
        }
      });
    }
    for (auto& t : ts) t.join();
    return;
  }
  if (s.order_) {
    for (auto i : s.order_(n)) {
      fn(i);
    }
    return;
  }
  for (std::size_t i = 0; i < n; ++i) {
    fn(i);
  }
}
template <typename C, typename Fn>
void parallel_for(C& c, Fn&& fn) {
  auto const n = static_cast<std::size_t>(std::size(c));
  parallel_for_run(n, [&](std::size_t i) { fn(*std::next(std::begin(c), i)); });
}
template <typename C, typename Fn>
void parallel_for(std::string const&, C& c, std::size_t, Fn&& fn) {
  parallel_for(c, std::forward<Fn>(fn));
}

// ---- csv -------------------------------------------------------------------
template <std::size_t N>
struct fixed_string {
  constexpr fixed_string(char const (&s)[N]) { std::copy_n(s, N, v_); }
  constexpr std::string_view view() const { return {v_, N - 1}; }
  char v_[N];
};
#define UTL_NAME(s) ::utl::fixed_string{s}

struct cstr {
  std::string to_str() const { return s_; }
  std::string_view view() const { return s_; }
  std::string s_;
};
template <typename T, fixed_string Name>
struct csv_col {
  static constexpr auto name() { return Name.view(); }
  T const& val() const { return v_; }
  T v_;
};
struct buf_reader {
  explicit buf_reader(std::string_view s) : s_{s} {}
  std::string_view s_;
};
template <typename R>
struct line_range {
  explicit line_range(R r) : r_{r} {}
  R r_;
};
template <typename R>
line_range(R) -> line_range<R>;

template <typename Row>
struct csv {};

template <typename Fn>
struct for_each_t {
  Fn fn_;
};
template <typename Fn>
for_each_t<Fn> for_each(Fn&& fn) {
  return {std::forward<Fn>(fn)};
}

inline std::vector<std::string> csv_split(std::string_view line) {
  std::vector<std::string> r;
  std::string cur;
  bool quoted = false;
  for (auto const c : line) {
    if (c == '"') {
      quoted = !quoted;
    } else if (c == ',' && !quoted) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur.push_back(c);
    }
  }
  r.push_back(cur);
  return r;
}

template <typename Row>
std::vector<Row> operator|(line_range<buf_reader> const& l, csv<Row>) {
  std::vector<Row> rows;
  std::vector<std::string> header;
  auto s = l.r_.s_;
  bool first = true;
  while (!s.empty()) {
    auto const nl = s.find('\n');
    auto line = s.substr(0, nl);
    s = nl == std::string_view::npos ? std::string_view{} : s.substr(nl + 1);
    if (!line.empty() && line.back() == '\r') line.remove_suffix(1);
    if (line.empty()) continue;
    auto const cols = csv_split(line);
    if (first) {
      header = cols;
      first = false;
      continue;
    }
    Row row{};
    std::apply(
        [&](auto&... col) {
          (
              [&] {
                auto it = std::find(header.begin(), header.end(), col.name());
                if (it != header.end()) {
                  auto const idx =
                      static_cast<std::size_t>(it - header.begin());
                  if (idx < cols.size()) col.v_.s_ = cols[idx];
                }
              }(),
              ...);
        },
        cista::shim::tie(row));
    rows.push_back(row);
  }
  return rows;
}
template <typename Row, typename Fn>
void operator|(std::vector<Row> const& rows, for_each_t<Fn> const& f) {
  for (auto const& r : rows) {
    f.fn_(r);
  }
}

// ---- command line ---------------------------------------------------------
template <fixed_string Name>
struct cmd_name {
  static bool is(std::string_view s) { return s == Name.view(); }
};
template <fixed_string Name>
struct cmd_desc {
  static bool is(std::string_view) { return false; }
};
struct required {
  static bool is(std::string_view) { return false; }
};
#define UTL_LONG(s) ::utl::cmd_name<::utl::fixed_string{s}>
#define UTL_SHORT(s) ::utl::cmd_name<::utl::fixed_string{s}>
#define UTL_DESC(s) ::utl::cmd_desc<::utl::fixed_string{s}>
template <typename T, typename... Tags>
struct cmd_line_flag {
  cmd_line_flag() = default;
  template <typename V>
    requires(!std::is_same_v<V, cista::shim::any_t> && std::is_constructible_v<T, V>)
  cmd_line_flag(V v) : v_{std::move(v)} {}
  T& val() { return v_; }
  T const& val() const { return v_; }
  operator T const&() const { return v_; }
  // takes its value out of the arguments
  void take(int argc, char const* const* argv) {
    bool found = false;
    for (int i = 1; i < argc; ++i) {
      if (!(Tags::is(argv[i]) || ...)) continue;
      found = true;
      if constexpr (std::is_same_v<T, bool>) {
        v_ = true;
      } else {
        if (++i == argc) throw std::runtime_error("a value is missing");
        v_ = T(argv[i]);
      }
    }
    if ((std::is_same_v<Tags, required> || ...) && !found) throw std::runtime_error("a required argument is missing");
  }
  T v_{};
};
template <typename T>
T parse(int argc, char const** argv) {
  T t;
  std::apply([&](auto&... f) { (f.take(argc, argv), ...); }, cista::shim::tie(t));
  return t;
}
template <typename T>
std::string description() {
  return "arguments";
}
template <typename T>
std::string print_flags(T const&) {
  return "flags";
}

}  // namespace utl
