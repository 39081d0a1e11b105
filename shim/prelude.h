#pragma once
// Standard headers that soro's sources use without including them.
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <iomanip>
#include <system_error>
#include "fmt/format.h"

// The fmt release soro is developed against formats these through operator<<
// and accepts runtime format strings; the installed one does not.
template <>
struct fmt::formatter<std::errc> : fmt::formatter<int> {
  template <typename C>
  auto format(std::errc e, C& ctx) const {
    return fmt::formatter<int>::format(static_cast<int>(e), ctx);
  }
};
template <typename S, typename Ch>
struct fmt::formatter<std::__detail::_Quoted_string<S, Ch>>
    : fmt::formatter<std::string> {
  template <typename C>
  auto format(std::__detail::_Quoted_string<S, Ch> const& q, C& ctx) const {
    std::ostringstream ss;
    ss << q;
    return fmt::formatter<std::string>::format(ss.str(), ctx);
  }
};
template <>
struct fmt::formatter<std::_Put_time<char>> : fmt::formatter<std::string> {
  template <typename C>
  auto format(std::_Put_time<char> const& t, C& ctx) const {
    std::ostringstream ss;
    ss << t;
    return fmt::formatter<std::string>::format(ss.str(), ctx);
  }
};
