#pragma once
// Minimal stand-in for the parts of cista that soro uses in its STD
// (non-serialising) configuration.  Written from cista's documented behaviour.
// Not part of the code under verification.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cassert>
#include <cinttypes>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace cista {

// ---- member-wise comparison of aggregates (CISTA_COMPARABLE) --------------
namespace shim {
struct any_t {
  template <typename T>
  operator T() const;
};
template <typename T, typename... A>
constexpr std::size_t arity() {
  if constexpr (requires { T{A{}..., any_t{}}; }) {
    return arity<T, A..., any_t>();
  } else {
    return sizeof...(A);
  }
}
template <typename T>
auto tie(T& t) {
  constexpr auto n = arity<std::remove_cvref_t<T>>();
  static_assert(n <= 12);
  if constexpr (n == 0) {
    return std::tie();
  } else if constexpr (n == 1) {
    auto& [a] = t;
    return std::tie(a);
  } else if constexpr (n == 2) {
    auto& [a, b] = t;
    return std::tie(a, b);
  } else if constexpr (n == 3) {
    auto& [a, b, c] = t;
    return std::tie(a, b, c);
  } else if constexpr (n == 4) {
    auto& [a, b, c, d] = t;
    return std::tie(a, b, c, d);
  } else if constexpr (n == 5) {
    auto& [a, b, c, d, e] = t;
    return std::tie(a, b, c, d, e);
  } else if constexpr (n == 6) {
    auto& [a, b, c, d, e, f] = t;
    return std::tie(a, b, c, d, e, f);
  } else if constexpr (n == 7) {
    auto& [a, b, c, d, e, f, g] = t;
    return std::tie(a, b, c, d, e, f, g);
  } else if constexpr (n == 8) {
    auto& [a, b, c, d, e, f, g, h] = t;
    return std::tie(a, b, c, d, e, f, g, h);
  } else {
    static_assert(n <= 8, "extend shim::tie");
  }
}
}  // namespace shim

using hash_t = std::uint64_t;
using offset_t = std::intptr_t;

inline hash_t hash(std::string_view s, hash_t h = 14695981039346656037ULL) {
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}
template <typename... A>
hash_t hash_combine(hash_t h, A... a) {
  ((h = (h ^ static_cast<hash_t>(a)) * 1099511628211ULL), ...);
  return h;
}
template <typename T>
hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) noexcept {
  return hash_combine(h, sizeof(T));
}

template <typename T>
struct is_pointer : std::is_pointer<T> {};
template <typename T>
inline constexpr bool is_pointer_v = is_pointer<std::remove_cv_t<T>>::value;
template <typename T>
using remove_pointer_t = std::remove_pointer_t<T>;

template <typename... Ts>
struct tuple : std::tuple<Ts...> {
  using std::tuple<Ts...>::tuple;
};
using std::get;
template <typename T>
inline constexpr std::size_t tuple_size_v = std::tuple_size_v<T>;
template <std::size_t I, typename T>
using tuple_element_t = std::tuple_element_t<I, T>;

template <typename T>
using optional = std::optional<T>;

enum class mode : unsigned { NONE = 0 };

struct buf_base {};

struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  explicit mmap(char const* path, protection p = protection::WRITE) {
    auto const fd = ::open(
        path, p == protection::READ ? O_RDONLY : (O_RDWR | O_CREAT | O_TRUNC),
        0600);
    if (fd < 0) {
      throw std::runtime_error(std::string{"mmap: cannot open "} + path);
    }
    struct stat st {};
    ::fstat(fd, &st);
    size_ = static_cast<std::size_t>(st.st_size);
    if (size_ > 0) {
      addr_ = ::mmap(nullptr, size_, PROT_READ, MAP_PRIVATE, fd, 0);
      if (addr_ == MAP_FAILED) {
        addr_ = nullptr;
        ::close(fd);
        throw std::runtime_error("mmap failed");
      }
    }
    ::close(fd);
  }
  ~mmap() { release(); }
  mmap(mmap const&) = delete;
  mmap& operator=(mmap const&) = delete;
  mmap(mmap&& o) noexcept : addr_{o.addr_}, size_{o.size_} {
    o.addr_ = nullptr;
    o.size_ = 0;
  }
  mmap& operator=(mmap&& o) noexcept {
    if (this != &o) {
      release();
      addr_ = o.addr_;
      size_ = o.size_;
      o.addr_ = nullptr;
      o.size_ = 0;
    }
    return *this;
  }
  unsigned char const* data() const {
    return static_cast<unsigned char const*>(addr_);
  }
  unsigned char const* begin() const { return data(); }
  unsigned char const* end() const { return data() + size_; }
  std::size_t size() const { return size_; }
  std::string_view view() const {
    return {reinterpret_cast<char const*>(addr_), size_};
  }

private:
  void release() {
    if (addr_ != nullptr) {
      ::munmap(addr_, size_);
      addr_ = nullptr;
    }
  }
  void* addr_{nullptr};
  std::size_t size_{0};
};

template <typename T>
struct buf {
  explicit buf(T&& t) : t_{std::move(t)} {}
  T t_;
};

using byte_buf = std::vector<unsigned char>;

template <typename T, mode M = mode::NONE>
T const* deserialize(mmap const&) {
  throw std::runtime_error("deserialize: not available in the shim");
}
template <mode M = mode::NONE, typename B, typename T>
void serialize(B&, T const&) {
  throw std::runtime_error("serialize: not available in the shim");
}

// ---- bitset ----------------------------------------------------------------
template <std::size_t Size>
struct bitset {
  using block_t = std::uint64_t;
  static constexpr std::size_t bits_per_block = 64;
  static constexpr std::size_t num_blocks = (Size + 63) / 64;

  constexpr bitset() noexcept = default;
  constexpr bitset(std::string_view s) noexcept { set(s); }

  static constexpr bitset max() {
    bitset b;
    for (std::size_t i = 0; i < Size; ++i) {
      b.set(i, true);
    }
    return b;
  }
  constexpr void set(std::string_view s) noexcept {
    for (std::size_t i = 0; i != std::min(Size, s.size()); ++i) {
      set(i, s[s.size() - i - 1] != '0');
    }
  }
  constexpr void set(std::size_t i, bool val = true) noexcept {
    assert_range(i);
    auto const m = block_t{1} << (i % 64);
    if (val) {
      blocks_[i / 64] |= m;
    } else {
      blocks_[i / 64] &= ~m;
    }
  }
  void reset() noexcept { blocks_ = {}; }
  bool operator[](std::size_t i) const noexcept { return test(i); }
  bool test(std::size_t i) const noexcept {
    if (i >= Size) {
      return false;
    }
    return ((blocks_[i / 64] >> (i % 64)) & 1U) != 0U;
  }
  std::size_t count() const noexcept {
    std::size_t c = 0;
    for (auto b : blocks_) {
      c += static_cast<std::size_t>(__builtin_popcountll(b));
    }
    return c;
  }
  constexpr std::size_t size() const noexcept { return Size; }
  bool any() const noexcept {
    return std::any_of(blocks_.begin(), blocks_.end(),
                       [](auto b) { return b != 0; });
  }
  bool none() const noexcept { return !any(); }
  friend bool operator==(bitset const& a, bitset const& b) noexcept {
    return a.blocks_ == b.blocks_;
  }
  friend bool operator!=(bitset const& a, bitset const& b) noexcept {
    return !(a == b);
  }
  friend bool operator<(bitset const& a, bitset const& b) noexcept {
    for (auto i = num_blocks; i-- > 0;) {
      if (a.blocks_[i] != b.blocks_[i]) {
        return a.blocks_[i] < b.blocks_[i];
      }
    }
    return false;
  }
  bitset& operator&=(bitset const& o) noexcept {
    for (std::size_t i = 0; i < num_blocks; ++i) blocks_[i] &= o.blocks_[i];
    return *this;
  }
  bitset& operator|=(bitset const& o) noexcept {
    for (std::size_t i = 0; i < num_blocks; ++i) blocks_[i] |= o.blocks_[i];
    return *this;
  }
  bitset& operator^=(bitset const& o) noexcept {
    for (std::size_t i = 0; i < num_blocks; ++i) blocks_[i] ^= o.blocks_[i];
    return *this;
  }
  bitset operator~() const noexcept {
    bitset r;
    for (std::size_t i = 0; i < Size; ++i) r.set(i, !test(i));
    return r;
  }
  bitset& operator>>=(std::size_t n) noexcept {
    bitset r;
    for (std::size_t i = n; i < Size; ++i) {
      if (test(i)) r.set(i - n, true);
    }
    return *this = r;
  }
  bitset& operator<<=(std::size_t n) noexcept {
    bitset r;
    if (n < Size) {
      for (std::size_t i = 0; i < Size - n; ++i) {
        if (test(i)) r.set(i + n, true);
      }
    }
    return *this = r;
  }
  bitset operator>>(std::size_t n) const noexcept {
    auto r = *this;
    r >>= n;
    return r;
  }
  bitset operator<<(std::size_t n) const noexcept {
    auto r = *this;
    r <<= n;
    return r;
  }
  friend bitset operator&(bitset a, bitset const& b) noexcept { return a &= b; }
  friend bitset operator|(bitset a, bitset const& b) noexcept { return a |= b; }
  friend bitset operator^(bitset a, bitset const& b) noexcept { return a ^= b; }

  std::string to_string() const {
    std::string s(Size, '0');
    for (std::size_t i = 0; i < Size; ++i) {
      if (test(i)) s[Size - 1 - i] = '1';
    }
    return s;
  }
  constexpr static void assert_range(std::size_t i) {
    if (i >= Size) {
      __builtin_trap();
    }
  }
  std::array<block_t, num_blocks> blocks_{};
};

// ---- bitvec ----------------------------------------------------------------
template <typename Vec>
struct basic_bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr auto const bits_per_block = static_cast<size_type>(64);

  constexpr basic_bitvec() noexcept = default;
  explicit basic_bitvec(std::string_view s) { set(s); }

  static size_type num_blocks(std::size_t n) {
    return static_cast<size_type>(n / 64 + (n % 64 == 0 ? 0 : 1));
  }
  void resize(std::size_t new_size) {
    blocks_.resize(num_blocks(new_size));
    size_ = static_cast<size_type>(new_size);
    sanitize();
  }
  size_type size() const noexcept { return size_; }
  bool empty() const noexcept { return size_ == 0; }
  void set(std::string_view s) {
    resize(s.size());
    for (std::size_t i = 0; i < s.size(); ++i) {
      set(i, s[s.size() - 1 - i] != '0');
    }
  }
  void set(std::size_t i, bool val = true) {
    if (i >= size_) {
      throw std::out_of_range("bitvec::set");
    }
    auto const m = block_t{1} << (i % 64);
    auto& b = blocks_.at(i / 64);
    if (val) {
      b |= m;
    } else {
      b &= ~m;
    }
  }
  void reset() noexcept {
    for (auto& b : blocks_) b = 0;
  }
  bool operator[](std::size_t i) const {
    if (i >= size_) {
      return false;
    }
    return ((blocks_.at(i / 64) >> (i % 64)) & 1U) != 0U;
  }
  bool test(std::size_t i) const { return (*this)[i]; }
  std::size_t count() const noexcept {
    std::size_t c = 0;
    for (auto b : blocks_) {
      c += static_cast<std::size_t>(__builtin_popcountll(b));
    }
    return c;
  }
  bool any() const noexcept {
    return std::any_of(blocks_.begin(), blocks_.end(),
                       [](auto b) { return b != 0; });
  }
  bool none() const noexcept { return !any(); }
  basic_bitvec& operator>>=(std::size_t n) {
    basic_bitvec r;
    r.resize(size_);
    for (std::size_t i = n; i < size_; ++i) {
      if ((*this)[i]) r.set(i - n, true);
    }
    return *this = r;
  }
  basic_bitvec& operator<<=(std::size_t n) {
    basic_bitvec r;
    r.resize(size_);
    for (std::size_t i = 0; i + n < size_; ++i) {
      if ((*this)[i]) r.set(i + n, true);
    }
    return *this = r;
  }
  friend bool operator==(basic_bitvec const& a, basic_bitvec const& b) {
    return a.size_ == b.size_ && a.blocks_ == b.blocks_;
  }
  void sanitize() {
    if (size_ % 64 != 0 && !blocks_.empty()) {
      blocks_.back() &= ~block_t{0} >> (64 - size_ % 64);
    }
  }
  size_type size_{0};
  Vec blocks_;
};

// ---- variant ---------------------------------------------------------------
// as<T>() is unchecked, as in cista.
template <typename... T>
struct variant {
  static constexpr std::size_t npos = static_cast<std::size_t>(-1);
  template <typename A>
  static constexpr std::size_t index_of() {
    std::size_t r = npos, i = 0;
    ((r = (r == npos && std::is_same_v<A, T>) ? i : r, ++i), ...);
    return r;
  }
  template <typename A>
  static constexpr bool has = index_of<std::remove_cvref_t<A>>() != npos;

  variant() = default;
  template <typename A>
    requires has<A>
  variant(A&& a) {
    emplace<std::remove_cvref_t<A>>(std::forward<A>(a));
  }
  variant(variant&& o) noexcept { steal(o); }
  variant& operator=(variant&& o) noexcept {
    if (this != &o) {
      destroy();
      steal(o);
    }
    return *this;
  }
  variant(variant const& o)
    requires(std::is_copy_constructible_v<T> && ...)
  {
    clone(o);
  }
  variant& operator=(variant const& o)
    requires(std::is_copy_constructible_v<T> && ...)
  {
    if (this != &o) {
      destroy();
      clone(o);
    }
    return *this;
  }
  template <typename A>
    requires has<A>
  variant& operator=(A&& a) {
    emplace<std::remove_cvref_t<A>>(std::forward<A>(a));
    return *this;
  }
  ~variant() { destroy(); }

  bool valid() const noexcept { return idx_ != npos; }
  std::size_t index() const noexcept { return idx_; }

  template <typename A, typename... Args>
  A& emplace(Args&&... args) {
    destroy();
    auto* p = new (&storage_) A{std::forward<Args>(args)...};
    idx_ = index_of<A>();
    return *p;
  }
  template <typename A>
  A& as() noexcept {
    return *reinterpret_cast<A*>(&storage_);
  }
  template <typename A>
  A const& as() const noexcept {
    return *reinterpret_cast<A const*>(&storage_);
  }
  template <typename Fn>
  decltype(auto) apply(Fn&& f) {
    return apply_impl<Fn, variant&, T...>(std::forward<Fn>(f), *this);
  }
  template <typename Fn>
  decltype(auto) apply(Fn&& f) const {
    return apply_impl<Fn, variant const&, T...>(std::forward<Fn>(f), *this);
  }

private:
  template <typename Fn, typename Self, typename A, typename... R>
  static decltype(auto) apply_impl(Fn&& f, Self self) {
    if constexpr (sizeof...(R) == 0) {
      if (self.idx_ != index_of<A>()) {
        throw std::runtime_error("variant::apply: bad index");
      }
      return f(self.template as<A>());
    } else {
      if (self.idx_ == index_of<A>()) {
        return f(self.template as<A>());
      }
      return apply_impl<Fn, Self, R...>(std::forward<Fn>(f), self);
    }
  }
  void destroy() {
    if (idx_ == npos) {
      return;
    }
    ((idx_ == index_of<T>() ? (as<T>().~T(), 0) : 0), ...);
    idx_ = npos;
  }
  void steal(variant& o) {
    ((o.idx_ == index_of<T>()
          ? (new (&storage_) T(std::move(o.template as<T>())), 0)
          : 0),
     ...);
    idx_ = o.idx_;
  }
  void clone(variant const& o) {
    ((o.idx_ == index_of<T>() ? (new (&storage_) T(o.template as<T>()), 0)
                              : 0),
     ...);
    idx_ = o.idx_;
  }
  std::size_t idx_{npos};
  alignas(T...) unsigned char storage_[std::max({sizeof(T)...})];
};
template <typename A, typename... T>
bool holds_alternative(variant<T...> const& v) {
  return v.index() == variant<T...>::template index_of<A>();
}
template <typename A, typename... T>
A& get(variant<T...>& v) {
  return v.template as<A>();
}
template <typename A, typename... T>
A const& get(variant<T...> const& v) {
  return v.template as<A>();
}

template <typename Data, typename Index>
struct fws_multimap {
  std::vector<std::vector<Data>> v_;
};

// only named, never created: soro::string is std::string here
template <typename Ptr>
struct basic_string {
  std::string_view view() const { return {}; }
};

namespace raw {
template <typename T, std::size_t N>
using array = std::array<T, N>;
template <typename... T>
using variant = cista::variant<T...>;
template <typename T>
struct hash_set : std::set<T> {
  using std::set<T>::set;
};
template <typename K, typename V>
struct hash_map : std::map<K, V> {
  using std::map<K, V>::map;
};
template <typename T>
using vector = std::vector<T>;
template <typename T>
using ptr = T*;
template <typename T>
using unique_ptr = std::unique_ptr<T>;
template <typename A, typename B>
using pair = std::pair<A, B>;
using string = std::string;
using bitvec = basic_bitvec<std::vector<std::uint64_t>>;
template <typename D, typename I>
using fws_multimap = cista::fws_multimap<D, I>;
}  // namespace raw
namespace offset = raw;

}  // namespace cista

namespace std {
template <typename A, typename... T>
A& get(cista::variant<T...>& v) {
  return v.template as<A>();
}
template <typename A, typename... T>
A const& get(cista::variant<T...> const& v) {
  return v.template as<A>();
}
}  // namespace std

#define CISTA_COMPARABLE()                                      \
  template <typename T>                                         \
  bool operator==(T const& o) const {                           \
    return ::cista::shim::tie(*this) == ::cista::shim::tie(o);  \
  }                                                             \
  template <typename T>                                         \
  bool operator!=(T const& o) const {                           \
    return !(::cista::shim::tie(*this) == ::cista::shim::tie(o)); \
  }                                                             \
  template <typename T>                                         \
  bool operator<(T const& o) const {                            \
    return ::cista::shim::tie(*this) < ::cista::shim::tie(o);   \
  }                                                             \
  template <typename T>                                         \
  bool operator<=(T const& o) const {                           \
    return !(o < *this);                                        \
  }                                                             \
  template <typename T>                                         \
  bool operator>(T const& o) const {                            \
    return o < *this;                                           \
  }                                                             \
  template <typename T>                                         \
  bool operator>=(T const& o) const {                           \
    return !(*this < o);                                        \
  }
