// U07: compile-time lists and tuples.  All type lists over three types up to a
// length, all tuple slices up to a size; results are read back as values and
// compared with the same operation on ordinary vectors.
#include "mc.h"

#include <tuple>
#include <variant>

#include "cista/containers/tuple.h"
#include "cista/containers/variant.h"
#include "soro/base/soro_types.h"
#include "soro/utls/execute_if.h"
#include "soro/utls/strong_types/strong_type.h"
#include "soro/utls/strong_types/type_list.h"
#include "soro/utls/template/decay.h"
#include "soro/utls/template/is_vector.h"
#include "soro/utls/template/type_at_position.h"
#include "soro/utls/tuple/apply_at.h"
#include "soro/utls/tuple/find_if.h"
#include "soro/utls/tuple/for_each.h"
#include "soro/utls/tuple/is_tuple.h"
#include "soro/utls/tuple/slice.h"

namespace u = soro::utls;

namespace {

template <int I>
struct tag {
  static constexpr int value = I;
};

template <typename L>
struct read;
template <typename... T>
struct read<u::type_list<T...>> {
  static std::vector<int> get() { return {T::value...}; }
};

constexpr int pow3(int n) { return n == 0 ? 1 : 3 * pow3(n - 1); }

// list number `Code` of length N
template <int N, int Code, typename... T>
struct make : make<N - 1, Code / 3, T..., tag<Code % 3>> {};
template <int Code, typename... T>
struct make<0, Code, T...> {
  using type = u::type_list<T...>;
};

using vec = std::vector<int>;

void same(vec const& got, vec const& want, char const* sig) {
  mc::step();
  mc::require(got == want, sig, "got ", mc::seq(got), " want ", mc::seq(want));
}

vec remove_n(vec v, int x, std::size_t n) {
  vec r;
  for (auto const e : v) {
    if (e == x && n > 0) {
      --n;
    } else {
      r.push_back(e);
    }
  }
  return r;
}

template <typename L, int X>
void per_needle(vec const& v) {
  using t = tag<X>;
  std::size_t cnt = 0;
  for (auto const e : v) cnt += e == X ? 1 : 0;
  mc::require(u::count_v<t, L> == cnt, "count", mc::seq(v), " ", X);
  same(read<u::remove_once_t<t, L>>::get(), remove_n(v, X, 1), "remove_once");
  same(read<u::remove_times_t<0, t, L>>::get(), v, "remove 0 times");
  same(read<u::remove_times_t<1, t, L>>::get(), remove_n(v, X, 1), "remove 1 times");
  same(read<u::remove_times_t<2, t, L>>::get(), remove_n(v, X, 2), "remove 2 times");
  same(read<u::remove_times_t<5, t, L>>::get(), remove_n(v, X, 5), "remove 5 times");
  auto front = v;
  front.insert(front.begin(), X);
  same(read<u::push_front_t<t, L>>::get(), front, "push_front");
}

template <int N, int Code>
void one_list() {
  mc::run([] { return mc::seq(read<typename make<N, Code>::type>::get()); },
          [] {
            using l = typename make<N, Code>::type;
            auto const v = read<l>::get();
            per_needle<l, 0>(v);
            per_needle<l, 1>(v);
            per_needle<l, 2>(v);
            same(read<u::push_front_t<void, l>>::get(), v, "push_front void");
            vec w;
            same(read<typename u::concat_times<0, l>::type>::get(), w, "concat 0");
            w = v;
            same(read<u::concat_times_t<1, l>>::get(), w, "concat 1");
            w.insert(w.end(), v.begin(), v.end());
            same(read<u::concat_times_t<2, l>>::get(), w, "concat 2");
            w.insert(w.end(), v.begin(), v.end());
            same(read<u::concat_times_t<3, l>>::get(), w, "concat 3");
            mc::state(mc::hash_seq(v));
          });
}
template <int N, int... C>
void lists(std::integer_sequence<int, C...>) {
  (one_list<N, C>(), ...);
}

template <int N1, int C1, int N2, int C2>
void one_pair() {
  mc::run([] { return mc::str("concat ", N1, "/", C1, " ", N2, "/", C2); },
          [] {
            using a = typename make<N1, C1>::type;
            using b = typename make<N2, C2>::type;
            auto v = read<a>::get();
            auto const w = read<b>::get();
            v.insert(v.end(), w.begin(), w.end());
            same(read<u::concat_t<a, b>>::get(), v, "concat");
          });
}
template <int N1, int N2, int... C>
void pairs(std::integer_sequence<int, C...>) {
  (one_pair<N1, C / pow3(N2), N2, C % pow3(N2)>(), ...);
}

// ----------------------------------------------------------------- tuples

template <typename T>
vec values(T const& t) {
  return std::apply([](auto const&... e) { return vec{static_cast<int>(e)...}; }, t);
}

template <std::size_t From, std::size_t To, typename T>
void slice(T const& t) {
  auto const all = values(t);
  vec want(all.begin() + From, all.begin() + To);
  same(values(u::tuple::slice<From, To>(t)), want, "tuple slice");
  // element types survive
  auto s = u::tuple::slice<From, To>(t);
  mc::require(std::tuple_size_v<decltype(s)> == To - From, "tuple slice size", From, " ", To);
}

template <typename T, std::size_t... I>
void slices(T const& t, std::index_sequence<I...>) {
  constexpr auto N = std::tuple_size_v<T> + 1;
  auto const go = [&]<std::size_t K>() {
    if constexpr (K / N <= K % N) slice<K / N, K % N>(t);
  };
  (go.template operator()<I>(), ...);
}

template <typename T>
void with_tuple(T t) {
  constexpr auto N = std::tuple_size_v<T>;
  auto const all = values(t);
  slices(t, std::make_index_sequence<(N + 1) * (N + 1)>{});
  T const& ct = t;
  for (std::size_t i = 0; i < N; ++i) {
    int hit = -1, calls = 0;
    u::tuple::apply_at(ct, i, [&](auto const& e) {
      hit = static_cast<int>(e);
      ++calls;
    });
    mc::require(hit == all[i] && calls == 1, "apply_at const", i);
    T m = t;
    u::tuple::apply_at(m, i, [](auto& e) { e = static_cast<std::decay_t<decltype(e)>>(100 + static_cast<int>(e) % 20); });
    auto want = all;
    want[i] = 100 + want[i] % 20;
    same(values(m), want, "apply_at");
  }
  for (std::size_t i : {N, N + 1, N + 100}) {
    bool threw = false;
    if constexpr (N > 0) {
      try {
        u::tuple::apply_at(ct, i, [](auto const&) {});
      } catch (std::exception const&) {
        threw = true;
      }
      mc::require(threw, "apply_at out of range", i);
    }
  }
  for (std::size_t i = 0; i <= N; ++i) {
    auto const x = i < N ? all[i] : -777;
    std::size_t want = N;
    for (std::size_t k = N; k > 0; --k) {
      if (all[k - 1] == x) want = k - 1;
    }
    auto const got = u::tuple::find_if(ct, [&](auto const& e) { return static_cast<int>(e) == x; });
    mc::require(got == want, "tuple find_if", got, " want ", want);
  }
  vec seen;
  u::tuple::for_each(ct, [&](auto const& e) { seen.push_back(static_cast<int>(e)); });
  same(seen, all, "tuple for_each const");
  seen.clear();
  T m = t;
  u::tuple::for_each(m, [&](auto& e) {
    seen.push_back(static_cast<int>(e));
    e = static_cast<std::decay_t<decltype(e)>>(1);
  });
  same(seen, all, "tuple for_each");
  same(values(m), vec(N, 1), "tuple for_each writes");
  mc::state(mc::hash_seq(all, N));
}

template <typename Fn>
void tuple_case(vec const& d, Fn&& fn) {
  mc::run([&] { return "tuple " + mc::seq(d); }, fn);
}

enum class E : short {};
using st = u::strong_type<int, tag<1>>;

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::bound("type list length", 4);
  mc::group("type lists");
  lists<0>(std::make_integer_sequence<int, 1>{});
  lists<1>(std::make_integer_sequence<int, 3>{});
  lists<2>(std::make_integer_sequence<int, 9>{});
  lists<3>(std::make_integer_sequence<int, 27>{});
  lists<4>(std::make_integer_sequence<int, 81>{});
  pairs<0, 2>(std::make_integer_sequence<int, 9>{});
  pairs<2, 0>(std::make_integer_sequence<int, 9>{});
  pairs<2, 2>(std::make_integer_sequence<int, 81>{});
  pairs<1, 3>(std::make_integer_sequence<int, 81>{});
  pairs<3, 1>(std::make_integer_sequence<int, 81>{});

  mc::group("tuples");
  mc::bound("tuple size", 7);
  int const n = mc::tier(3, 4);
  for (int k = 1; k < 8; ++k) {
    mc::odometer(vec(std::min(k, 5), n), [&](vec const& d) {
      auto v = [&](int i) { return i < static_cast<int>(d.size()) ? d[i] : 9 + i; };
      switch (k) {
        case 1: tuple_case(d, [&] { with_tuple(std::tuple<long>{v(0)}); }); break;
        case 2: tuple_case(d, [&] { with_tuple(std::tuple<char, long>{v(0), v(1)}); }); break;
        case 3: tuple_case(d, [&] { with_tuple(std::tuple<char, double, int>{v(0), v(1), v(2)}); }); break;
        case 4: tuple_case(d, [&] { with_tuple(std::tuple<char, double, int, E>{v(0), v(1), v(2), E(v(3))}); }); break;
        case 5: tuple_case(d, [&] { with_tuple(std::tuple<char, double, int, short, float>{v(0), v(1), v(2), v(3), v(4)}); }); break;
        case 6: tuple_case(d, [&] { with_tuple(std::tuple<char, double, int, short, float, long>{v(0), v(1), v(2), v(3), v(4), v(5)}); }); break;
        case 7: tuple_case(d, [&] { with_tuple(std::tuple<int, int, int, short, float, long, char>{v(0), v(1), v(2), v(3), v(4), v(5), v(6)}); }); break;
      }
    });
  }

  mc::group("strong values");
  for (int a = -6; a <= 6; ++a) {
    for (int b = -6; b <= 6; ++b) {
      mc::run([&] { return mc::str(a, " ", b); },
              [&] {
                st x{a}, y{b};
                mc::require((x + y).val_ == a + b && (x - y).val_ == a - b && (x * y).val_ == a * b, "strong_type", a, " ", b);
                if (b != 0) mc::require((x / y).val_ == a / b, "strong_type /", a, " ", b);
                mc::require(x.val_ == a && y.val_ == b, "strong_type operands changed", x.val_, " ", y.val_);
                mc::require((x < y) == (a < b) && (x == y) == (a == b) && (x >= y) == (a >= b) && (x != y) == (a != b), "strong_type compare", a);
                auto z = x;
                z += y;
                auto w = x;
                w -= y;
                auto m = x;
                m *= y;
                mc::require(z.val_ == a + b && w.val_ == a - b && m.val_ == a * b, "strong_type assign", a, " ", b);
                mc::step(8);
              });
    }
  }
  mc::run([] { return std::string{"type helpers"}; }, [] {
    mc::require(std::is_same_v<u::type_at_position_t<0, int, char, long>, int>, "type_at_position", 0);
    mc::require(std::is_same_v<u::type_at_position_t<1, int, char, long>, char>, "type_at_position", 1);
    mc::require(std::is_same_v<u::type_at_position_t<2, int, char, long>, long>, "type_at_position", 2);
    mc::require(std::is_same_v<u::first_t<float, char>, float>, "first_t", 0);
    mc::require(u::tuple::is_tuple_v<std::tuple<int>> && u::tuple::is_tuple_v<std::tuple<> const> && !u::tuple::is_tuple_v<int> && !u::tuple::is_tuple_v<std::pair<int, int>>, "is_tuple", 0);
    mc::require(u::is_vector_v<soro::vector<int>> && !u::is_vector_v<int> && !u::is_vector_v<std::tuple<int>>, "is_vector", 0);
    mc::require(std::is_same_v<u::decay_t<int const&>, int const> || std::is_same_v<u::decay_t<int const&>, int>, "decay", 0);
    mc::require(std::is_same_v<u::decay_t<int&>, int> && std::is_same_v<u::decay_t<int const>, int>, "decay", 1);
  });
  return mc::finish();
}
