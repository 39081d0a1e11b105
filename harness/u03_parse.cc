// U03: number and string parsing.  Every string up to a length over the
// characters that matter, handed over without a terminating NUL, against
// references written from the grammar.
#include "mc.h"

#include <cmath>
#include <iostream>
#include <limits>
#include <memory>

#include "soro/base/time.h"
#include "soro/utls/parse_fp.h"
#include "soro/utls/parse_int.h"
#include "soro/utls/string.h"

namespace u = soro::utls;

namespace {

// exactly sized heap copy: any access behind the end is an ASAN report
struct exact {
  explicit exact(std::string const& s) : n_{s.size()}, p_{new char[s.size()]} {
    std::memcpy(p_.get(), s.data(), n_);
  }
  std::string_view sv() const { return {p_.get(), n_}; }
  std::size_t n_;
  std::unique_ptr<char[]> p_;
};

// reference: decimal integer literal with optional minus (signed types only)
enum class verdict { ok, range, syntax };
template <typename T>
verdict ref_int(std::string const& s, T& out) {
  std::size_t i = 0;
  bool neg = false;
  if constexpr (std::is_signed_v<T>) {
    if (i < s.size() && s[i] == '-') {
      neg = true;
      ++i;
    }
  }
  if (i == s.size()) return verdict::syntax;
  __int128 v = 0;
  bool huge = false;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return verdict::syntax;
    if (!huge) v = v * 10 + (s[i] - '0');
    if (v > (static_cast<__int128>(1) << 100)) huge = true;
  }
  if (neg) v = -v;
  if (huge || v < static_cast<__int128>(std::numeric_limits<T>::min()) ||
      v > static_cast<__int128>(std::numeric_limits<T>::max())) {
    return verdict::range;
  }
  out = static_cast<T>(v);
  return verdict::ok;
}

template <typename Fn>
bool throws(Fn&& f) {
  try {
    f();
    return false;
  } catch (std::exception const&) {
    return true;
  }
}

template <typename T>
void ints(std::string const& s) {
  T want{};
  auto const v = ref_int<T>(s, want);
  exact const e{s};
  auto const r = u::try_parse_int<T>(e.sv());
  mc::step();
  mc::require(r.has_value() == (v == verdict::ok), "try_parse_int accepts",
              "'", s, "' accepted ", r.has_value());
  if (v == verdict::ok) {
    mc::require(*r == want, "try_parse_int value", "'", s, "' -> ", +*r);
    mc::require(u::parse_int<T>(e.sv()) == want, "parse_int view", s);
    mc::require(u::parse_int<T>(e.sv().data(), e.sv().data() + e.sv().size()) == want,
                "parse_int range", s);
    mc::require(u::parse_int<T>(s) == want, "parse_int string", s);
    mc::require(u::parse_int<T>(s.c_str()) == want, "parse_int cstr", s);
  } else {
    mc::require(static_cast<bool>(r.error()), "try_parse_int error", "no error code for ", s);
    if (v == verdict::range) {
      mc::require(r.error() == std::errc::result_out_of_range, "try_parse_int code", s, " ",
                  r.error().message());
    } else {
      mc::require(r.error() == std::errc::invalid_argument ||
                      r.error() == std::errc::result_out_of_range,
                  "try_parse_int code", s, " ", r.error().message());
    }
    // assertion-enabled builds refuse it
    mc::require(throws([&] { static_cast<void>(u::parse_int<T>(s)); }), "parse_int accepts", s);
    mc::require(throws([&] { static_cast<void>(u::parse_int<T>(s.c_str())); }), "parse_int accepts",
                s);
  }
}

void all_ints(std::string const& s) {
  ints<std::int8_t>(s);
  ints<std::uint8_t>(s);
  ints<std::int16_t>(s);
  ints<std::uint16_t>(s);
  ints<std::int32_t>(s);
  ints<std::uint32_t>(s);
  ints<std::int64_t>(s);
  ints<std::uint64_t>(s);
  // seconds since the epoch
  std::uint32_t want{};
  auto const v = ref_int<std::uint32_t>(s, want);
  exact const e{s};
  auto const t = soro::str_to_absolute_time(e.sv());
  mc::require(t.has_value() == (v == verdict::ok), "time accepts", s);
  if (t) mc::require(soro::absolute_time_to_rep(*t) == want, "time value", s);
  mc::state(s);
}

// [-] digits [. digits] [e [+-] digits], at least one mantissa digit
bool ref_fp_syntax(std::string const& s) {
  std::size_t i = 0;
  auto const digits = [&] {
    auto const b = i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
    return i - b;
  };
  if (i < s.size() && s[i] == '-') ++i;
  auto n = digits();
  if (i < s.size() && s[i] == '.') {
    ++i;
    n += digits();
  }
  if (n == 0) return false;
  if (i < s.size() && s[i] == 'e') {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (digits() == 0) return false;
  }
  return i == s.size();
}

template <typename T>
T ref_fp(std::string const& s) {
  if constexpr (std::is_same_v<T, float>) {
    return std::strtof(s.c_str(), nullptr);
  } else {
    return std::strtod(s.c_str(), nullptr);
  }
}

template <typename T>
void fps(std::string const& s) {
  exact const e{s};
  mc::step();
  auto dotted = s;
  for (auto& ch : dotted) {
    if (ch == ',') ch = '.';
  }
  auto const has_comma = s.find(',') != std::string::npos;
  // decimal comma allowed
  if (ref_fp_syntax(dotted)) {
    auto const want = ref_fp<T>(dotted);
    if (std::isfinite(want) && ((want == 0 && dotted.substr(0, dotted.find('e')).find_first_of("123456789") == std::string::npos) || std::abs(want) >= std::numeric_limits<T>::min())) {
      mc::require(u::parse_fp<T, u::replace_comma::ON>(e.sv()) == want, "parse_fp comma", s);
      mc::require(u::parse_fp<T, u::replace_comma::ON>(s) == want, "parse_fp comma string", s);
      mc::require(u::parse_fp<T, u::replace_comma::ON>(s.c_str()) == want, "parse_fp comma cstr", s);
      mc::require((u::parse_fp<T, u::replace_comma::ON>(e.sv().data(), e.sv().size())) == want,
                  "parse_fp comma len", s);
      mc::require(std::string(e.sv()) == s, "parse_fp modified its input", s);
      if (!has_comma) {
        mc::require(u::parse_fp<T>(e.sv()) == want, "parse_fp", s);
        mc::require(u::parse_fp<T>(s) == want, "parse_fp string", s);
        mc::require(u::parse_fp<T>(s.c_str()) == want, "parse_fp cstr", s);
        mc::require((u::parse_fp<T>(e.sv().data(), e.sv().data() + e.sv().size())) == want,
                    "parse_fp range", s);
      } else {
        mc::require(throws([&] { static_cast<void>(u::parse_fp<T>(s)); }), "parse_fp takes a comma",
                    s);
      }
    }
  } else {
    mc::require(throws([&] { static_cast<void>(u::parse_fp<T, u::replace_comma::ON>(s)); }),
                "parse_fp accepts", s);
    mc::require(throws([&] { static_cast<void>(u::parse_fp<T>(s)); }), "parse_fp accepts", s);
  }
  mc::state("fp" + s);
}

std::vector<std::string> ref_split(std::string const& s, std::string const& d) {
  std::vector<std::string> r;
  if (s.empty()) return r;
  std::string cur;
  for (std::size_t i = 0; i < s.size();) {
    if (s.compare(i, d.size(), d) == 0) {
      r.push_back(cur);
      cur.clear();
      i += d.size();
    } else {
      cur += s[i++];
    }
  }
  r.push_back(cur);
  return r;
}

std::uint32_t ref_fnv(std::string const& s) {
  std::uint32_t h = 2166136261U;
  for (std::size_t i = 0; i <= s.size(); ++i) {
    h ^= i == s.size() ? 0U : static_cast<unsigned char>(s[i]);
    h *= 16777619U;
  }
  return h;
}

std::string word(std::vector<int> const& d, char const* alpha) {
  std::string s;
  for (auto const i : d) s += alpha[i];
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  std::clog.rdbuf(nullptr);

  mc::group("integers");
  {
    char const* const alpha = "-+019 x";
    int const n = mc::tier(5, 6);
    mc::bound("integer text length", n);
    mc::sequences(7, 0, n, [&](std::vector<int> const& d) {
      auto const s = word(d, alpha);
      mc::run([&] { return "'" + s + "'"; }, [&] { all_ints(s); });
    });
  }
  mc::group("integer limits");
  for (int bits = 7; bits <= 64; ++bits) {
    for (int delta = -2; delta <= 2; ++delta) {
      for (int neg = 0; neg < 2; ++neg) {
        for (int zeros = 0; zeros < 3; ++zeros) {
          for (char const* tail : {"", "0", "x", " ", "."}) {
            mc::run([&] { return mc::str(neg ? "-" : "", "2^", bits, "+", delta, " zeros ", zeros, " tail '", tail, "'"); },
                    [&] {
                      auto v = (static_cast<unsigned __int128>(1) << bits) + delta;
                      std::string s;
                      while (v != 0) {
                        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
                        v /= 10;
                      }
                      all_ints(std::string(neg ? "-" : "") + std::string(zeros * 7, '0') + s + tail);
                    });
          }
        }
      }
    }
  }
  mc::group("floating point");
  {
    char const* const alpha = "-05.,e7";
    int const n = mc::tier(5, 7);
    mc::bound("floating point text length", n);
    mc::sequences(7, 0, n, [&](std::vector<int> const& d) {
      auto const s = word(d, alpha);
      mc::run([&] { return "'" + s + "'"; }, [&] {
        fps<double>(s);
        fps<float>(s);
      });
    });
    // kilometrages as they occur in the data, all metres of some kilometres
    for (int km : {0, 7, 99, 1234, 99999}) {
      for (int m = 0; m < 1000; m += mc::tier(7, 1)) {
        for (char const sep : {'.', ','}) {
          char b[40];
          std::snprintf(b, sizeof b, "%d%c%03d", km, sep, m);
          std::string const s = b;
          mc::run([&] { return "'" + s + "'"; }, [&] {
            fps<double>(s);
            fps<float>(s);
          });
        }
      }
    }
  }
  mc::group("text");
  {
    int const n = mc::tier(6, 8);
    mc::bound("text length", n);
    char const* const delims[] = {",", ",,", "ab", "aba", "b,"};
    mc::sequences(3, 0, n, [&](std::vector<int> const& d) {
      auto const s = word(d, "ab,");
      mc::run([&] { return "'" + s + "'"; }, [&] {
        exact const e{s};
        for (auto const* dl : delims) {
          std::vector<std::string> got;
          for (auto const& t : u::split(e.sv(), dl)) got.emplace_back(t);
          mc::step();
          mc::require(got == ref_split(s, dl), "split", "'", s, "' by '", dl, "' -> ", mc::seqs(got));
        }
        mc::require(u::str_hash(s) == ref_fnv(s), "hash", s);
        mc::require(u::str_hash(s.c_str()) == ref_fnv(s), "hash", s);
        mc::require(u::str_hash(s.c_str(), s.size()) == ref_fnv(s), "hash", s);
        mc::state("t" + s);
      });
    });
    int const m = mc::tier(4, 5);
    mc::sequences(3, 0, m, [&](std::vector<int> const& a) {
      mc::sequences(3, 0, m, [&](std::vector<int> const& b) {
        static std::string const alpha("ab\0", 3);
        std::string s, t;
        for (auto const i : a) s += alpha[i];
        for (auto const i : b) t += alpha[i];
        mc::run([&] { return "'" + s + "' and '" + t + "'"; }, [&] {
          exact const x{s}, y{t};
          mc::step(6);
          auto const eq = s == t;
          mc::require(u::equal(x.sv(), y.sv()) == eq, "equal views", s, "|", t);
          std::string const cs = s.c_str(), ct = t.c_str();  // up to the first NUL
          mc::require(u::equal(cs.c_str(), ct.c_str()) == (cs == ct), "equal cstr", s, "|", t);
          mc::require(u::equal(x.sv(), ct.c_str()) == (s == ct), "equal view cstr", s, "|", t);
          mc::require(u::equal(cs.c_str(), y.sv()) == (cs == t), "equal cstr view", s, "|", t);
          soro::string const ss{cs}, st{ct};
          mc::require(u::equal(ss, ct.c_str()) == (cs == ct), "equal string cstr", s, "|", t);
          mc::require(u::equal(cs.c_str(), st) == (cs == ct), "equal cstr string", s, "|", t);
          mc::require(u::starts_with(cs.c_str(), ct.c_str()) ==
                          (cs.size() >= ct.size() && cs.compare(0, ct.size(), ct) == 0),
                      "starts_with", s, "|", t);
        });
      });
    });
  }
  return mc::finish();
}
