#pragma once
// Stand-in for tiles: a database is the file it is made from; a tile says which
// one it is and where it comes from.
#include <array>
#include <cstdint>
#include <fstream>
#include <iterator>
#include <optional>
#include <string>
#include <vector>

namespace lmdb {
struct env {
  std::string path_;
};
}  // namespace lmdb

namespace tiles {
constexpr std::size_t kDefaultSize = 1024;
inline lmdb::env make_tile_database(char const* path, std::size_t) { return {path}; }
struct tile_db_handle {
  explicit tile_db_handle(lmdb::env& e) : path_{e.path_} {}
  std::string path_;
};
struct render_ctx {};
inline render_ctx make_render_ctx(tile_db_handle&) { return {}; }
struct pack_handle {
  explicit pack_handle(char const* p) : path_{p} {}
  std::string path_;
};
struct perf_counter {};
using tile = std::array<std::uint32_t, 3>;
inline tile url_match_to_tile(std::vector<std::string> const& p) {
  return {static_cast<std::uint32_t>(std::stoul(p.at(1))), static_cast<std::uint32_t>(std::stoul(p.at(2))), static_cast<std::uint32_t>(std::stoul(p.at(3)))};
}
inline std::optional<std::string> get_tile(tile_db_handle& h, pack_handle&, render_ctx const&, tile const& t, perf_counter&) {
  if (t[0] > 20) return std::nullopt;
  std::ifstream f(h.path_, std::ios::binary);
  std::string const all{std::istreambuf_iterator<char>(f), {}};
  return std::to_string(t[0]) + "/" + std::to_string(t[1]) + "/" + std::to_string(t[2]) + "@" + all;
}
}  // namespace tiles
