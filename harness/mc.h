#pragma once
// Bounded exhaustive exploration driver shared by all harnesses.
//
// A harness enumerates a finite space of cases (inputs, operation sequences,
// histories, schedules) and runs the real code on every one of them, comparing
// with a reference model.  Cases are numbered in enumeration order, which is
// deterministic, so a case number is a complete replay recipe.
//
// usage:  BIN --prop ID --tier quick|thorough --out DIR [--shard I/N]
//             [--case K]        run only case K and describe it
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

struct failure : std::runtime_error {
  failure(std::string sig, std::string msg)
      : std::runtime_error(std::move(msg)), sig_{std::move(sig)} {}
  std::string sig_;
};

struct violation {
  std::string sig_, msg_, desc_, group_;
  std::uint64_t case_{0};
};

struct shared_progress {
  volatile std::uint64_t case_;
  volatile std::uint64_t done_;
};

struct ctx {
  std::string prop_, tier_, out_;
  std::uint64_t only_{~0ULL};
  std::uint64_t shard_{0}, shards_{1};
  std::uint64_t ordinal_{0};
  std::uint64_t executed_{0};
  std::uint64_t transitions_{0}, traces_{0}, checks_{0};
  bool exhaustive_{true};
  std::string group_{"main"};
  std::map<std::string, std::uint64_t> group_cases_;
  std::unordered_set<std::uint64_t> states_;
  bool states_capped_{false};
  std::vector<std::string> samples_;
  std::map<std::string, std::string> bounds_;
  std::map<std::string, std::uint64_t> counters_;
  std::map<std::string, std::vector<violation>> violations_;
  shared_progress* progress_{nullptr};
  std::uint64_t last_seen_case_{~0ULL};
  double last_seen_cpu_{0.0};
  double hang_limit_{30.0};
  double first_violation_cpu_{-1.0};
};

inline ctx& c() {
  static ctx x;
  return x;
}

inline bool thorough() { return c().tier_ == "thorough"; }

template <typename T>
T tier(T quick, T thor) {
  return thorough() ? thor : quick;
}

inline double cpu_now() {
  timespec ts{};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

inline std::string esc(std::string const& s) {
  std::string r;
  for (unsigned char const ch : s) {
    switch (ch) {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\n': r += "\\n"; break;
      case '\t': r += "\\t"; break;
      default:
        if (ch < 0x20 || ch >= 0x7f) {
          char b[8];
          std::snprintf(b, sizeof b, "\\u%04x", ch);
          r += b;
        } else {
          r += static_cast<char>(ch);
        }
    }
  }
  return r;
}

inline void on_tick(int) {
  auto& x = c();
  if (x.progress_ == nullptr) return;
  auto const cur = x.progress_->case_;
  auto const now = cpu_now();
  if (cur != x.last_seen_case_) {
    x.last_seen_case_ = cur;
    x.last_seen_cpu_ = now;
  } else if (now - x.last_seen_cpu_ > x.hang_limit_ && x.progress_->done_ == 0) {
    char const m[] = "\nMC-HANG: case exceeded its cpu-time limit\n";
    auto const w = write(2, m, sizeof m - 1);
    static_cast<void>(w);
    _exit(97);
  }
}

inline void init(int argc, char** argv) {
  auto& x = c();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const k = argv[i], v = argv[i + 1];
    if (k == "--prop") x.prop_ = v;
    else if (k == "--tier") x.tier_ = v;
    else if (k == "--out") x.out_ = v;
    else if (k == "--case") x.only_ = std::stoull(v);
    else if (k == "--shard") {
      x.shard_ = std::stoull(v.substr(0, v.find('/')));
      x.shards_ = std::stoull(v.substr(v.find('/') + 1));
    } else {
      std::fprintf(stderr, "unknown option %s\n", k.c_str());
      std::exit(2);
    }
  }
  auto const pf = x.out_ + "/progress." + std::to_string(x.shard_);
  auto const fd = open(pf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(shared_progress)) != 0) {
    std::perror("progress");
    std::exit(2);
  }
  x.progress_ = static_cast<shared_progress*>(
      mmap(nullptr, sizeof(shared_progress), PROT_READ | PROT_WRITE, MAP_SHARED,
           fd, 0));
  close(fd);
  x.progress_->case_ = ~0ULL;
  x.progress_->done_ = 0;
  struct sigaction sa {};
  sa.sa_handler = on_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  rlimit rl{3500ULL << 20, 3500ULL << 20};
  setrlimit(RLIMIT_AS, &rl);
#endif
}

inline void group(std::string g) { c().group_ = std::move(g); }

inline void bound(std::string const& k, std::string const& v) {
  c().bounds_[k] = v;
}
template <typename T>
void bound(std::string const& k, T v) {
  c().bounds_[k] = std::to_string(v);
}
inline void counter(std::string const& k, std::uint64_t n = 1) {
  c().counters_[k] += n;
}

inline std::uint64_t h64(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline std::uint64_t hash(std::string const& s) {
  std::uint64_t h = 0xcbf29ce484222325ULL;
  for (unsigned char const ch : s) h = (h ^ ch) * 0x100000001b3ULL;
  return h64(h);
}
template <typename C>
std::uint64_t hash_seq(C const& s, std::uint64_t seed = 1) {
  auto h = h64(seed);
  for (auto const& e : s) h = h64(h ^ static_cast<std::uint64_t>(e));
  return h;
}

// a distinct state of the model / implementation that was visited
inline void state(std::uint64_t const h) {
  auto& x = c();
  if (x.states_.size() < 1500000) {
    x.states_.insert(h ^ hash(x.group_));
  } else {
    x.states_capped_ = true;
  }
}
inline void state(std::string const& s) { state(hash(s)); }

inline void step(std::uint64_t n = 1) { c().transitions_ += n; }
inline void trace(std::uint64_t n = 1) { c().traces_ += n; }

inline void record(std::string const& sig, std::string const& msg,
                   std::string const& desc) {
  if (c().first_violation_cpu_ < 0.0) c().first_violation_cpu_ = cpu_now();
  auto& v = c().violations_[sig];
  if (v.size() < 3) {
    v.push_back({sig, msg, desc, c().group_, c().ordinal_ - 1});
  }
}

[[noreturn]] inline void fail(std::string sig, std::string msg) {
  throw failure(std::move(sig), std::move(msg));
}

template <typename... A>
std::string str(A const&... a) {
  std::ostringstream ss;
  ss.precision(17);
  (ss << ... << a);
  return ss.str();
}
template <typename C>
std::string seq(C const& s) {
  std::ostringstream ss;
  ss.precision(17);
  ss << "[";
  bool first = true;
  for (auto const& e : s) {
    if (!first) ss << ",";
    first = false;
    ss << +e;
  }
  ss << "]";
  return ss.str();
}
template <typename C>
std::string seqs(C const& s) {
  std::ostringstream ss;
  ss << "[";
  bool first = true;
  for (auto const& e : s) {
    if (!first) ss << ",";
    first = false;
    ss << e;
  }
  ss << "]";
  return ss.str();
}

// check a condition inside a case
template <typename... A>
void require(bool const ok, char const* sig, A const&... a) {
  ++c().checks_;
  if (!ok) [[unlikely]] {
    fail(sig, str(a...));
  }
}
template <typename A, typename B, typename... More>
void eq(A const& got, B const& want, char const* sig, More const&... more) {
  ++c().checks_;
  if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) {
    if (static_cast<__int128>(got) != static_cast<__int128>(want)) [[unlikely]] {
      fail(sig, str("got ", +got, " expected ", +want, " ", more...));
    }
  } else {
    if (!(got == want)) [[unlikely]] {
      fail(sig, str("got ", got, " expected ", want, " ", more...));
    }
  }
}

inline bool replaying() { return c().only_ != ~0ULL; }

// Runs one case. `desc` describes it (only evaluated when needed).
template <typename Desc, typename Fn>
void run(Desc&& desc, Fn&& fn) {
  auto& x = c();
  auto const id = x.ordinal_++;
  if (x.only_ != ~0ULL) {
    if (id != x.only_) return;
  } else if (x.shards_ > 1 && (h64(id) % x.shards_) != x.shard_) {
    return;
  }
  // a violation is known: look a little longer for others, then stop
  if (x.first_violation_cpu_ >= 0.0 && cpu_now() - x.first_violation_cpu_ > 15.0) {
    x.exhaustive_ = false;
    return;
  }
  x.progress_->case_ = id;
  if (replaying()) {
    std::printf("case %llu [%s]: %s\n", static_cast<unsigned long long>(id),
                x.group_.c_str(), std::string(desc()).c_str());
    std::fflush(stdout);
  }
  ++x.executed_;
  auto& gc = x.group_cases_[x.group_];
  ++gc;
  if (gc <= 2 && x.shard_ == 0 && x.samples_.size() < 24) {
    x.samples_.push_back(x.group_ + ": " + std::string(desc()));
  }
  try {
    fn();
    ++x.traces_;
  } catch (failure const& f) {
    record(f.sig_, f.what(), desc());
  } catch (std::exception const& e) {
    record("exception", std::string("unexpected exception: ") + e.what(),
           desc());
  } catch (...) {
    record("exception", "unexpected non-standard exception", desc());
  }
}

inline int finish() {
  auto& x = c();
  x.progress_->done_ = 1;
  auto const base = x.out_ + "/result." + std::to_string(x.shard_);
  {
    auto* f = std::fopen((base + ".states").c_str(), "wb");
    std::vector<std::uint64_t> v(x.states_.begin(), x.states_.end());
    std::fwrite(v.data(), sizeof(std::uint64_t), v.size(), f);
    std::fclose(f);
  }
  std::ostringstream o;
  o << "{\"cases\":" << x.ordinal_ << ",\"executed\":" << x.executed_
    << ",\"transitions\":" << x.transitions_ << ",\"traces\":" << x.traces_
    << ",\"checks\":" << x.checks_
    << ",\"exhaustive\":" << (x.exhaustive_ ? "true" : "false")
    << ",\"capped\":" << (x.states_capped_ ? "true" : "false");
  auto const obj = [&](char const* name, auto const& m, bool quote) {
    o << ",\"" << name << "\":{";
    bool first = true;
    for (auto const& [k, v] : m) {
      if (!first) o << ",";
      first = false;
      std::ostringstream vs;
      vs << v;
      o << "\"" << esc(k) << "\":";
      if (quote) {
        o << "\"" << esc(vs.str()) << "\"";
      } else {
        o << vs.str();
      }
    }
    o << "}";
  };
  obj("bounds", x.bounds_, true);
  obj("counters", x.counters_, false);
  obj("groups", x.group_cases_, false);
  o << ",\"samples\":[";
  for (std::size_t i = 0; i < x.samples_.size(); ++i) {
    o << (i ? "," : "") << "\"" << esc(x.samples_[i].substr(0, 600)) << "\"";
  }
  o << "],\"violations\":[";
  bool first = true;
  for (auto const& [sig, vs] : x.violations_) {
    for (auto const& v : vs) {
      o << (first ? "" : ",");
      first = false;
      o << "{\"sig\":\"" << esc(v.sig_) << "\",\"msg\":\"" << esc(v.msg_)
        << "\",\"desc\":\"" << esc(v.desc_) << "\",\"group\":\""
        << esc(v.group_) << "\",\"case\":" << v.case_ << "}";
    }
  }
  o << "]}";
  auto* f = std::fopen((base + ".json").c_str(), "w");
  auto const s = o.str();
  std::fwrite(s.data(), 1, s.size(), f);
  std::fclose(f);
  if (replaying()) {
    for (auto const& [sig, vs] : x.violations_) {
      for (auto const& v : vs) {
        std::printf("FAILED [%s] %s\n", v.sig_.c_str(), v.msg_.c_str());
      }
    }
  }
  return x.violations_.empty() ? 0 : 1;
}

// odometer over mixed radices: calls fn(digits) for every digit vector
template <typename Fn>
void odometer(std::vector<int> const& radix, Fn&& fn) {
  std::vector<int> d(radix.size(), 0);
  for (auto r : radix) {
    if (r <= 0) return;
  }
  while (true) {
    fn(static_cast<std::vector<int> const&>(d));
    std::size_t i = 0;
    for (; i < d.size(); ++i) {
      if (++d[i] < radix[i]) break;
      d[i] = 0;
    }
    if (i == d.size()) return;
  }
}
// all sequences over {0..k-1} of length lo..hi
template <typename Fn>
void sequences(int const k, int const lo, int const hi, Fn&& fn) {
  for (int n = lo; n <= hi; ++n) {
    odometer(std::vector<int>(static_cast<std::size_t>(n), k), fn);
  }
}

}  // namespace mc
