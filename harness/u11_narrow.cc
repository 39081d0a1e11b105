// U11: checked integer conversion.  All values of the 8 and 16 bit types and
// all values around every power of two of the wider ones, for all type pairs.
#include "mc.h"

#include <iostream>
#include <limits>

#include "soro/utls/narrow.h"

namespace u = soro::utls;

namespace {

template <typename Out, typename In>
void one(In const v) {
  auto const w = static_cast<__int128>(v);
  auto const fits = w >= static_cast<__int128>(std::numeric_limits<Out>::min()) &&
                    w <= static_cast<__int128>(std::numeric_limits<Out>::max());
  mc::step();
  mc::require(u::detail::fits<Out>(In{v}) == fits, "fits", +v, " into ", sizeof(Out), " bytes ",
              std::is_signed_v<Out> ? "signed" : "unsigned");
  if (fits) {
    mc::require(static_cast<__int128>(u::narrow<Out>(In{v})) == w, "narrow value", +v);
  } else {
    auto refused = false;
    try {
      static_cast<void>(u::narrow<Out>(In{v}));
    } catch (std::exception const&) {
      refused = true;
    }
    mc::require(refused, "narrow accepts", +v);
  }
}

template <typename In>
std::vector<In> values() {
  std::vector<In> r;
  if constexpr (sizeof(In) <= 2) {
    for (int i = std::numeric_limits<In>::min(); i <= std::numeric_limits<In>::max(); ++i) {
      if (sizeof(In) == 1 || mc::thorough() || (i & 127) < 3 || (i & 127) > 125 || i < 300) r.push_back(static_cast<In>(i));
    }
  } else {
    for (int b = 0; b <= 64; ++b) {
      for (int d = -2; d <= 2; ++d) {
        for (int s : {-1, 1}) {
          auto const v = s * ((static_cast<__int128>(1) << b) + d);
          if (v >= static_cast<__int128>(std::numeric_limits<In>::min()) &&
              v <= static_cast<__int128>(std::numeric_limits<In>::max())) {
            r.push_back(static_cast<In>(v));
          }
        }
      }
    }
  }
  return r;
}

template <typename Out, typename In>
void pair(char const* on, char const* in) {
  auto const vs = values<In>();
  mc::group("conversions");
  for (std::size_t b = 0; b < vs.size(); b += 64) {
    mc::run([&] { return mc::str(in, " -> ", on, " from ", +vs[b]); },
            [&] {
              for (auto i = b; i < vs.size() && i < b + 64; ++i) {
                one<Out, In>(vs[i]);
                mc::state(mc::h64(static_cast<std::uint64_t>(vs[i])) ^ mc::hash(std::string(on) + in));
              }
              if constexpr (!u::detail::is_narrowing<Out, In>()) {
                // a conversion classified as harmless must be harmless for all values
                mc::require(static_cast<__int128>(std::numeric_limits<In>::min()) >=
                                    static_cast<__int128>(std::numeric_limits<Out>::min()) &&
                                static_cast<__int128>(std::numeric_limits<In>::max()) <=
                                    static_cast<__int128>(std::numeric_limits<Out>::max()),
                            "classified as not narrowing", in, " -> ", on);
              }
            });
  }
}

template <typename In>
void from(char const* in) {
  pair<std::int8_t, In>("i8", in);
  pair<std::uint8_t, In>("u8", in);
  pair<std::int16_t, In>("i16", in);
  pair<std::uint16_t, In>("u16", in);
  pair<std::int32_t, In>("i32", in);
  pair<std::uint32_t, In>("u32", in);
  pair<std::int64_t, In>("i64", in);
  pair<std::uint64_t, In>("u64", in);
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  std::clog.rdbuf(nullptr);
  from<std::int8_t>("i8");
  from<std::uint8_t>("u8");
  from<std::int16_t>("i16");
  from<std::uint16_t>("u16");
  from<std::int32_t>("i32");
  from<std::uint32_t>("u32");
  from<std::int64_t>("i64");
  from<std::uint64_t>("u64");
  return mc::finish();
}
