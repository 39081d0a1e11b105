// U09: quantities with units.  All pairs of dimensions over the four base units
// with exponents -1..1 (at most two of them non-zero), all values of a grid;
// polynomials and piecewise functions over grids of coefficients and arguments.
#include "mc.h"

#include <cmath>
#include <sstream>

#include "soro/base/fp_precision.h"
#include "soro/si/units.h"
#include "soro/utls/math/piecewise_function.h"
#include "soro/utls/math/polynomial.h"
#include "soro/utls/strong_types/fraction.h"

namespace u = soro::utls;
namespace si = soro::si;

namespace {

template <typename Tag, int N, typename L = u::type_list<>>
struct rep : rep<Tag, N - 1, u::push_front_t<Tag, L>> {};
template <typename Tag, typename L>
struct rep<Tag, 0, L> {
  using type = L;
};
constexpr int pos(int x) { return x > 0 ? x : 0; }

template <int A, int B, int C, int D>
struct dim {
  template <int S>
  using half = u::concat_t<u::concat_t<typename rep<u::meter_tag, pos(S * A)>::type, typename rep<u::second_tag, pos(S * B)>::type>,
                           u::concat_t<typename rep<u::kilogram_tag, pos(S * C)>::type, typename rep<u::ampere_tag, pos(S * D)>::type>>;
  using type = u::fraction<half<1>, half<-1>, double>;
};

struct exps {
  int n[4], d[4];
};
template <typename N, typename D>
constexpr exps exponents(u::fraction<N, D, double> const*) {
  return {{int(u::count_v<u::meter_tag, N>), int(u::count_v<u::second_tag, N>), int(u::count_v<u::kilogram_tag, N>), int(u::count_v<u::ampere_tag, N>)},
          {int(u::count_v<u::meter_tag, D>), int(u::count_v<u::second_tag, D>), int(u::count_v<u::kilogram_tag, D>), int(u::count_v<u::ampere_tag, D>)}};
}
template <typename T>
void is_dim(int a, int b, int c, int d, char const* sig) {
  constexpr auto e = exponents(static_cast<T const*>(nullptr));
  int const w[4] = {a, b, c, d};
  for (int i = 0; i < 4; ++i) {
    mc::require(e.n[i] == pos(w[i]) && e.d[i] == pos(-w[i]), sig, "unit ", i, ": ", e.n[i], "/", e.d[i], " want exponent ", w[i]);
  }
}

constexpr int code(int i, int axis) {  // i-th dimension with at most two non-zero exponents
  int k = 0;
  for (int c = 0; c < 81; ++c) {
    int const e[4] = {c % 3 - 1, c / 3 % 3 - 1, c / 9 % 3 - 1, c / 27 % 3 - 1};
    int nz = 0;
    for (int x : e) nz += x != 0 ? 1 : 0;
    if (nz > 2) continue;
    if (k++ == i) return e[axis];
  }
  return 0;
}
constexpr int DIMS = 33;
template <int I>
using dim_t = typename dim<code(I, 0), code(I, 1), code(I, 2), code(I, 3)>::type;

double const VALUES[] = {-3.0, -0.5, 0.25, 1.0, 8.0};

template <int I, int J>
void pair_case() {
  mc::run([] { return mc::str("dimensions ", I, " and ", J); }, [] {
    using a = dim_t<I>;
    using b = dim_t<J>;
    using prod = decltype(std::declval<a>() * std::declval<b>());
    using quot = decltype(std::declval<a>() / std::declval<b>());
    is_dim<prod>(code(I, 0) + code(J, 0), code(I, 1) + code(J, 1), code(I, 2) + code(J, 2), code(I, 3) + code(J, 3), "dimension of a product");
    is_dim<quot>(code(I, 0) - code(J, 0), code(I, 1) - code(J, 1), code(I, 2) - code(J, 2), code(I, 3) - code(J, 3), "dimension of a quotient");
    for (double const x : VALUES) {
      for (double const y : VALUES) {
        mc::require((a{x} * b{y}).val_ == x * y, "product", x, " ", y);
        mc::require((a{x} / b{y}).val_ == x / y, "quotient", x, " ", y);
      }
    }
    mc::require((std::is_convertible_v<a, b>) == (I == J), "conversion between dimensions", I, " ", J);
    mc::state(mc::str(I, ":", J));
    mc::step(52);
  });
}
std::string unit_text(int a, int b, int c, int d) {
  int const w[4] = {a, b, c, d};
  char const* const sym[4] = {"m", "s", "kg", "A"};
  char const* const sup[10] = {"", "", "\u00b2", "\u00b3", "\u2074", "\u2075", "\u2076", "\u2077", "\u2078", "\u2079"};
  std::string n, m;
  for (int i = 0; i < 4; ++i) {
    if (w[i] > 0) n += (n.empty() ? "" : "*") + std::string{sym[i]} + sup[w[i]];
    if (w[i] < 0) m += (m.empty() ? "" : "*") + std::string{sym[i]} + sup[-w[i]];
  }
  if (m.empty()) return "[" + n + "]";
  return "[" + (n.empty() ? std::string{"1"} : n) + "/" + m + "]";
}
template <typename T>
void text_case(int e, int i, double x) {
  T const q{x};
  auto const want = std::to_string(x) + unit_text(e * code(i, 0), e * code(i, 1), e * code(i, 2), e * code(i, 3));
  std::stringstream ss;
  ss << q;
  mc::require(q.to_string() == want && ss.str() == want, "quantity as text", q.to_string(), " want ", want);
  bool neg = false, any = false;
  for (int k = 0; k < 4; ++k) {
    neg = neg || code(i, k) < 0;
    any = any || code(i, k) != 0;
  }
  mc::require(q.is_fraction() == neg && q.is_unitless() == !any, "kind of a quantity", want);
  mc::require(q.template is<T>() && !q.template is<double>() && u::is_fraction_v<T> && !u::is_fraction_v<double>, "type of a quantity", want);
}

template <int I>
void single_case() {
  mc::run([] { return mc::str("dimension ", I); }, [] {
    using a = dim_t<I>;
    using p2 = decltype(std::declval<a>().template pow<2>());
    using p3 = decltype(std::declval<a>().template pow<3>());
    is_dim<p2>(2 * code(I, 0), 2 * code(I, 1), 2 * code(I, 2), 2 * code(I, 3), "dimension of a square");
    is_dim<p3>(3 * code(I, 0), 3 * code(I, 1), 3 * code(I, 2), 3 * code(I, 3), "dimension of a cube");
    is_dim<decltype(u::pow<2>(std::declval<a>()))>(2 * code(I, 0), 2 * code(I, 1), 2 * code(I, 2), 2 * code(I, 3), "dimension of a square");
    for (double const x : VALUES) {
      mc::require(a{x}.template pow<2>().val_ == x * x && std::abs(a{x}.template pow<3>().val_ - x * x * x) < 1e-12, "power", x);
      mc::require(u::pow<2>(a{x}).val_ == x * x && u::pow<1>(a{x}).val_ == x, "power", x);
      mc::require((-a{x}).val_ == -x && u::abs(a{x}).val_ == std::abs(x), "sign", x);
      mc::require((a{x} * 2.5).val_ == 2.5 * x && (2.5 * a{x}).val_ == 2.5 * x, "scaling", x);
      a scaled{x};
      scaled *= 2.5;
      mc::require(scaled.val_ == 2.5 * x, "*=", x);
      mc::require(u::equal(a{x}, x) && u::equal(x, a{x}) && !u::equal(a{x}, x + 1.0) && !u::equal(x + 1.0, a{x}), "equal to a number", x);
      text_case<a>(1, I, x);
      text_case<p2>(2, I, x);
      text_case<p3>(3, I, x);
      text_case<decltype(std::declval<a>().template pow<9>())>(9, I, x);
      for (double const y : VALUES) {
        a const l{x}, r{y};
        mc::require((l + r).val_ == x + y && (l - r).val_ == x - y, "sum", x, " ", y);
        a m{x};
        m += r;
        mc::require(m.val_ == x + y, "+=", x, " ", y);
        m = l;
        m -= r;
        mc::require(m.val_ == x - y, "-=", x, " ", y);
        mc::require((l < r) == (x < y) && (l > r) == (x > y) && (l <= r) == (x <= y) && (l >= r) == (x >= y), "order", x, " ", y);
        mc::require((l == r) == (x == y) && (l != r) == (x != y), "equality", x, " ", y);
        mc::require(l.val_ == x && r.val_ == y, "operands changed", x, " ", y);
      }
    }
    mc::require(!si::valid(a{}) && si::valid(a{0.0}) && si::is_zero(a{0.0}) && !si::is_zero(a{1.0}), "validity", I);
    mc::step(60);
  });
}
template <int... K>
void all_pairs(std::integer_sequence<int, K...>) {
  (pair_case<K / DIMS, K % DIMS>(), ...);
}
template <int... K>
void all_dims(std::integer_sequence<int, K...>) {
  (single_case<K>(), ...);
}

double horner_free(std::vector<double> const& c, double x) {  // sum of c_i x^(n-1-i)
  double r = 0;
  for (std::size_t i = 0; i < c.size(); ++i) {
    double t = c[i];
    for (std::size_t k = i + 1; k < c.size(); ++k) t *= x;
    r += t;
  }
  return r;
}

bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (1.0 + std::abs(b)); }

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::group("dimension pairs");
  mc::bound("dimensions", DIMS);
  all_pairs(std::make_integer_sequence<int, DIMS * DIMS>{});
  mc::group("dimensions");
  all_dims(std::make_integer_sequence<int, DIMS>{});

  mc::group("conversions");
  for (int i = -400; i <= 4000; ++i) {
    mc::run([&] { return mc::str("value ", i / 8.0); }, [&] {
      double const x = i / 8.0;
      mc::require(close(si::from_km(x).val_, x * 1000), "from_km", x);
      mc::require(si::from_m(x).val_ == x && si::as_m(si::from_m(x)) == x, "m", x);
      mc::require(si::from_s(x).val_ == x && si::as_s(si::from_s(x)) == x, "s", x);
      mc::require(close(si::from_km_h(x).val_, x * 1000 / 3600) && close(si::as_km_h(si::from_km_h(x)), x), "km/h", x);
      mc::require(si::from_m_s(x).val_ == x && si::from_m_s2(x).val_ == x && si::from_kg(x).val_ == x, "m/s", x);
      mc::require(close(si::from_ton(x).val_, 1000 * x) && close(si::as_ton(si::from_ton(x)), x), "t", x);
      mc::require(si::as_precision(si::unitless{x}) == x, "unitless", x);
      for (double const d : {0.0, 0.005, 0.009, 0.011, 0.02, 1.0}) {
        for (double const s : {-1.0, 1.0}) {
          mc::require(soro::equal(x, x + s * d) == (d < 0.01), "equal", x, " ", d);
          mc::require((si::from_m(x) == si::from_m(x + s * d)) == (d < 0.01), "equal quantities", x, " ", d);
          mc::require((si::from_m(x) != si::from_m(x + s * d)) == (d >= 0.01), "unequal quantities", x, " ", d);
          mc::require(u::equal(si::from_m(x), x + s * d) == (d < 0.01) && u::equal(x + s * d, si::from_m(x)) == (d < 0.01), "equal mixed", x, " ", d);
        }
        mc::require(soro::zero(d) == (d < 0.01) && soro::zero(-d) == (d < 0.01), "zero", d);
      }
      mc::step(12);
    });
  }

  mc::group("polynomials");
  auto const xs = std::vector<double>{-4, -1.5, -1, 0, 0.5, 1, 2, 7};
  int const k = mc::tier(5, 7);
  mc::bound("polynomial degree", 4);
  mc::sequences(k, 1, 5, [&](std::vector<int> const& d) {
    if (d.size() == 5 && !mc::thorough() && (d[0] % 2)) return;
    mc::run([&] { return "coefficients " + mc::seq(d); }, [&] {
      std::vector<double> c;
      for (auto const e : d) c.push_back((e - k / 2) * 1.25);
      for (auto const x : xs) {
        double got = 0, typed = 0;
        si::speed const sx{x};
        switch (c.size()) {
          case 1: got = u::make_polynomial(double{c[0]})(x); typed = u::make_polynomial(si::force{c[0]})(sx).val_; break;
          case 2: got = u::make_polynomial(double{c[0]}, double{c[1]})(x);
            typed = u::make_polynomial(decltype(si::force{} / si::speed{}){c[0]}, si::force{c[1]})(sx).val_; break;
          case 3: got = u::make_polynomial(double{c[0]}, double{c[1]}, double{c[2]})(x);
            typed = u::make_polynomial(decltype(si::force{} / si::speed{} / si::speed{}){c[0]}, decltype(si::force{} / si::speed{}){c[1]}, si::force{c[2]})(sx).val_; break;
          case 4: got = u::make_polynomial(double{c[0]}, double{c[1]}, double{c[2]}, double{c[3]})(x); typed = got; break;
          case 5: got = u::make_polynomial(double{c[0]}, double{c[1]}, double{c[2]}, double{c[3]}, double{c[4]})(x); typed = got; break;
        }
        auto const want = horner_free(c, x);
        mc::require(close(got, want), "polynomial", "x ", x, " got ", got, " want ", want);
        mc::require(close(typed, want), "polynomial of quantities", "x ", x, " got ", typed, " want ", want);
        mc::step(2);
      }
      mc::state("p" + mc::seq(d));
    });
  });

  mc::group("piecewise functions");
  // breakpoints from a grid; piece i is i*100 + slope*x
  int const top = mc::tier(7, 9);
  for (int n = 1; n <= 4; ++n) {
    std::vector<int> radix(n + 1, top);
    mc::odometer(radix, [&](std::vector<int> const& b) {
      for (int i = 0; i < n; ++i) {
        if (b[i] >= b[i + 1]) return;
      }
      mc::run([&] { return "breakpoints " + mc::seq(b); }, [&] {
        using poly = u::polynomial<double, double>;
        using piece = u::piece<poly, double>;
        using qpoly = u::polynomial<decltype(si::force{} / si::speed{}), si::force>;
        using qpiece = u::piece<qpoly, si::speed>;
        soro::vector<piece> ps;
        soro::vector<qpiece> qs;
        for (int i = 0; i < n; ++i) {
          ps.push_back(u::make_piece(u::make_polynomial(double(i + 1), double(100 * i)), double(b[i]), double(b[i + 1])));
          qs.push_back(u::make_piece(u::make_polynomial(decltype(si::force{} / si::speed{}){double(i + 1)}, si::force{double(100 * i)}), si::speed{double(b[i])}, si::speed{double(b[i + 1])}));
        }
        mc::require(u::is_continuous(ps), "is_continuous", mc::seq(b));
        for (int i = 0; i + 1 < n; ++i) {
          auto broken = ps;
          broken[i].to_ -= 0.5;
          mc::require(!u::is_continuous(broken), "gap not noticed", i);
        }
        auto const f = u::make_piecewise(std::move(ps));
        auto const q = u::make_piecewise(std::move(qs));
        for (int h = 2 * b[0]; h <= 2 * top + 2; ++h) {
          double const x = h / 2.0;
          int which = -1;
          for (int i = 0; i < n; ++i) {
            if (x >= b[i] && x < b[i + 1]) which = i;
          }
          bool threw = false;
          double got = 0;
          try {
            got = f(x);
          } catch (std::exception const&) {
            threw = true;
          }
          mc::require(threw == (which == -1), "outside", x);
          if (which >= 0) {
            auto const want = 100 * which + (which + 1) * x;
            mc::require(close(got, want), "piecewise", "x ", x, " got ", got, " want ", want);
            mc::require(close(q(si::speed{x}).val_, want), "piecewise quantity", "x ", x, " got ", q(si::speed{x}).val_, " want ", want);
          }
          mc::step();
        }
        mc::state("f" + mc::seq(b));
      });
    });
  }
  return mc::finish();
}
