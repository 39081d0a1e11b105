// The scheduler and race detector behind sched.h.  This file is compiled without
// instrumentation; everything else reports its memory accesses here.
#include "schedules.h"

#include <sys/mman.h>
#include <ucontext.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <thread>
#include <unordered_map>

#include <link.h>

using uptr = std::uintptr_t;

// ------------------------------------------------------------------ memory
// Memory freed while tasks are running is not used again before they are done.
namespace {

constexpr std::size_t ARENA = 3ULL << 30, HEAD = 16;
char* arena_at = nullptr;
char* arena_end = nullptr;
void* free_[64];
bool hold_ = false;
struct held {
  void* p_;
  int c_;
};
held* held_list = nullptr;
std::size_t held_n = 0;
constexpr std::size_t HELD = 1ULL << 26;

void* reserve(std::size_t n) {
  auto* p = ::mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) std::abort();
  return p;
}
int class_of(std::size_t n) {
  int c = 5;
  while ((1ULL << c) < n) ++c;
  return c;
}
void* take(std::size_t n, std::size_t align = 16) {
  if (arena_at == nullptr) {
    arena_at = static_cast<char*>(reserve(ARENA));
    arena_end = arena_at + ARENA;
    held_list = static_cast<held*>(reserve(HELD * sizeof(held)));
  }
  auto const extra = align > 16 ? align : 0;
  auto const c = class_of(n + HEAD + extra);
  char* b = nullptr;
  if (free_[c] != nullptr) {
    b = static_cast<char*>(free_[c]);
    std::memcpy(&free_[c], b, sizeof(void*));
  } else {
    b = arena_at;
    arena_at += 1ULL << c;
    if (arena_at > arena_end) std::abort();
  }
  char* p = b + HEAD;
  if (extra != 0) p = reinterpret_cast<char*>((reinterpret_cast<uptr>(p) + align - 1) / align * align);
  *reinterpret_cast<std::uint32_t*>(p - 8) = static_cast<std::uint32_t>(c);
  *reinterpret_cast<std::uint32_t*>(p - 4) = static_cast<std::uint32_t>(p - b);
  return p;
}
void put_back(void* b, int c) {
  std::memcpy(b, &free_[c], sizeof(void*));
  free_[c] = b;
}
void give(void* p);

}  // namespace

void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return take(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return take(n); }
void* operator new(std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { give(p); }

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}  // namespace __cxxabiv1

// ------------------------------------------------------------------ tasks
namespace {

constexpr std::size_t STACK = 1 << 20;

struct clock_ {
  std::vector<std::uint32_t> v_;
  std::uint32_t of(std::size_t t) const { return t < v_.size() ? v_[t] : 0; }
  void tick(std::size_t t) {
    if (v_.size() <= t) v_.resize(t + 1);
    ++v_[t];
  }
  void join(clock_ const& o) {
    if (v_.size() < o.v_.size()) v_.resize(o.v_.size());
    for (std::size_t i = 0; i < o.v_.size(); ++i) v_[i] = std::max(v_[i], o.v_[i]);
  }
};

struct task {
  std::function<void()> fn_;
  ucontext_t ctx_{};
  char* stack_{nullptr};
  bool started_{false}, done_{false};
  void const* blocked_{nullptr};
  clock_ vc_;
  std::vector<uptr> locks_;
  int lockset_{0};
  char eh_[16]{};
  std::exception_ptr error_{};
};

struct access {
  std::uint32_t task_, clock_;
  int lockset_;
  std::uint8_t mask_;
  bool write_, atomic_;
  uptr pc_;
};

struct decision {
  std::size_t chosen_, count_;
};

struct scheduler {
  sched::limits lim_;
  sched::result res_;
  std::vector<decision> path_;
  std::size_t at_{0};
  int used_{0};

  bool active_{false};   // a phase is running
  bool internal_{false};  // do not record
  std::vector<std::unique_ptr<task>> tasks_;  // 0 is who started the others
  std::size_t cur_{0};
  ucontext_t main_{};
  bool backwards_{false};
  std::vector<char*> stacks_;
  std::unordered_map<uptr, std::vector<access>> shadow_;
  std::unordered_map<uptr, clock_> sync_;
  std::unordered_map<uptr, std::size_t> owner_;
  std::map<std::vector<uptr>, int> sets_;
  std::vector<std::vector<uptr>> set_list_;
  std::string problem_;
  unsigned processors_{2};
};
scheduler& s() {
  static auto* x = new scheduler;
  return *x;
}
bool on() { return hold_; }

uptr tls_low = 0, tls_high = 0;
void find_tls() {
  if (tls_high != 0) return;
  std::size_t size = 0;
  dl_iterate_phdr(
      [](dl_phdr_info* i, std::size_t, void* d) {
        for (int k = 0; k < i->dlpi_phnum; ++k) {
          if (i->dlpi_phdr[k].p_type == PT_TLS) *static_cast<std::size_t*>(d) += i->dlpi_phdr[k].p_memsz + i->dlpi_phdr[k].p_align;
        }
        return 0;
      },
      &size);
  tls_high = reinterpret_cast<uptr>(__builtin_thread_pointer());
  tls_low = tls_high - size - 4096;
}

struct quiet {
  quiet() : was_{s().internal_} { s().internal_ = true; }
  ~quiet() { s().internal_ = was_; }
  bool was_;
};

std::string where(uptr pc) {
  // for people only
  char cmd[256];
  char exe[128] = {};
  auto const n = ::readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  if (n <= 0) return "?";
  uptr base = 0;
  dl_iterate_phdr(
      [](dl_phdr_info* i, std::size_t, void* d) {
        if (*static_cast<uptr*>(d) == 0) *static_cast<uptr*>(d) = i->dlpi_addr;
        return 0;
      },
      &base);
  std::snprintf(cmd, sizeof(cmd), "addr2line -s -f -C -i -e %s 0x%lx 2>/dev/null | tail -2", exe, static_cast<unsigned long>(pc - base - 1));
  auto* p = ::popen(cmd, "r");
  if (p == nullptr) return "?";
  std::string r;
  char buf[512];
  while (std::fgets(buf, sizeof(buf), p) != nullptr) r += buf;
  ::pclose(p);
  std::replace(r.begin(), r.end(), '\n', ' ');
  return r;
}

void note(uptr a, std::size_t n, bool write, bool atomic, uptr pc) {
  auto& x = s();
  if (!hold_ || x.internal_ || n == 0) return;
  if (a >= tls_low && a < tls_high) return;
  auto& t = *x.tasks_[x.cur_];
  if (t.stack_ != nullptr && a >= reinterpret_cast<uptr>(t.stack_) && a < reinterpret_cast<uptr>(t.stack_) + STACK) return;
  quiet const q;
  ++x.res_.accesses_;
  for (uptr g = a & ~uptr{7}; g < a + n; g += 8) {
    std::uint8_t mask = 0;
    for (int k = 0; k < 8; ++k) {
      if (g + static_cast<uptr>(k) >= a && g + static_cast<uptr>(k) < a + n) mask = static_cast<std::uint8_t>(mask | (1U << k));
    }
    auto& v = x.shadow_[g];
    auto const now = t.vc_.of(x.cur_);
    bool merged = false;
    for (auto& e : v) {
      if (e.task_ == x.cur_) {
        if (e.clock_ == now && e.lockset_ == t.lockset_ && e.write_ == write && e.atomic_ == atomic) {
          e.mask_ |= mask;
          merged = true;
        }
        continue;
      }
      if ((e.mask_ & mask) == 0 || (!e.write_ && !write) || (e.atomic_ && atomic)) continue;
      if (t.vc_.of(e.task_) >= e.clock_) continue;
      auto const &l1 = x.set_list_[static_cast<std::size_t>(e.lockset_)], &l2 = t.locks_;
      bool common = false;
      for (auto l : l1) common = common || std::find(l2.begin(), l2.end(), l) != l2.end();
      if (common) continue;
      if (x.problem_.empty()) {
        x.problem_ = std::string("data race: ") + (write ? "write" : "read") + " in " + where(pc) + "and " + (e.write_ ? "write" : "read") + " in " + where(e.pc_);
      }
    }
    if (!merged) v.push_back({static_cast<std::uint32_t>(x.cur_), now, t.lockset_, mask, write, atomic, pc});
  }
}

void set_locks(task& t) {
  auto& x = s();
  auto k = t.locks_;
  std::sort(k.begin(), k.end());
  auto const [it, fresh] = x.sets_.emplace(k, static_cast<int>(x.set_list_.size()));
  if (fresh) x.set_list_.push_back(k);
  t.lockset_ = it->second;
}

// one of n ways to go on
std::size_t decide(std::size_t n) {
  auto& x = s();
  if (n <= 1) return 0;
  if (x.at_ == x.path_.size()) x.path_.push_back({0, n});
  auto& d = x.path_[x.at_++];
  d.count_ = n;
  return std::min(d.chosen_, n - 1);
}

void switch_to(std::size_t k) {
  auto& x = s();
  auto const from = x.cur_;
  if (from == k) return;
  auto& a = *x.tasks_[from];
  auto& b = *x.tasks_[k];
  auto* g = reinterpret_cast<char*>(__cxxabiv1::__cxa_get_globals());
  std::memcpy(a.eh_, g, 16);
  std::memcpy(g, b.eh_, 16);
  x.cur_ = k;
  swapcontext(&a.ctx_, &b.ctx_);
}

// who can run; the one running comes first
std::vector<std::size_t> able() {
  auto& x = s();
  std::vector<std::size_t> r;
  auto const ok = [&](std::size_t k) {
    auto& t = *x.tasks_[k];
    return k > 0 && !t.done_ && (t.blocked_ == nullptr || !x.owner_.contains(reinterpret_cast<uptr>(t.blocked_)));
  };
  if (x.cur_ > 0 && ok(x.cur_)) r.push_back(x.cur_);
  for (std::size_t k = 1; k < x.tasks_.size(); ++k) {
    if (k != x.cur_ && ok(k)) r.push_back(k);
  }
  return r;
}

void finish_task() {
  auto& x = s();
  auto& t = *x.tasks_[x.cur_];
  t.done_ = true;
  // back to whoever waits
  switch_to(0);
}

void entry() {
  auto& x = s();
  auto* t = x.tasks_[x.cur_].get();
  x.internal_ = false;
  try {
    t->fn_();
  } catch (...) {
    t->error_ = std::current_exception();
  }
  x.internal_ = true;
  finish_task();
}

void start_context(std::size_t k) {
  auto& x = s();
  auto& t = *x.tasks_[k];
  if (t.started_) return;
  t.started_ = true;
  if (x.stacks_.empty()) {
    t.stack_ = static_cast<char*>(reserve(STACK));
  } else {
    t.stack_ = x.stacks_.back();
    x.stacks_.pop_back();
  }
  getcontext(&t.ctx_);
  t.ctx_.uc_stack.ss_sp = t.stack_;
  t.ctx_.uc_stack.ss_size = STACK;
  t.ctx_.uc_link = nullptr;
  makecontext(&t.ctx_, entry, 0);
}

// a place where the running task may be preempted
void point() {
  auto& x = s();
  if (!hold_ || x.cur_ == 0) return;
  quiet const q;
  ++x.res_.points_;
  auto const a = able();
  if (a.size() < 2 || x.used_ >= x.lim_.preemptions_) return;
  auto const c = decide(std::min<std::size_t>(a.size(), 5));
  if (c == 0) return;
  ++x.used_;
  start_context(a[c]);
  auto const me = x.internal_;
  switch_to(a[c]);
  s().internal_ = me;
}

// runs all tasks; called by task 0
void run_all() {
  auto& x = s();
  quiet const q;
  std::size_t live = 0;
  for (std::size_t k = 1; k < x.tasks_.size(); ++k) live += !x.tasks_[k]->done_;
  if (live == 0) return;
  x.res_.most_tasks_ = std::max(x.res_.most_tasks_, live);
  bool const every = live <= x.lim_.all_orders_;
  bool const back = !every && decide(2) == 1;
  while (true) {
    auto a = able();
    if (a.empty()) break;
    std::size_t k = 0;
    if (every) {
      k = decide(a.size());
    } else if (back) {
      k = a.size() - 1;
    }
    start_context(a[k]);
    switch_to(a[k]);
    auto& t = *x.tasks_[a[k]];
    if (t.done_ && t.stack_ != nullptr) {
      x.stacks_.push_back(t.stack_);
      t.stack_ = nullptr;
    }
  }
  for (std::size_t k = 1; k < x.tasks_.size(); ++k) {
    if (!x.tasks_[k]->done_) {
      if (x.problem_.empty()) x.problem_ = "deadlock";
      // cannot go on
      std::fprintf(stderr, "deadlock\n");
      std::abort();
    }
  }
}

void begin_phase() {
  auto& x = s();
  quiet const q;
  find_tls();
  x.tasks_.clear();
  x.shadow_.clear();
  x.sync_.clear();
  x.owner_.clear();
  x.sets_.clear();
  x.set_list_.clear();
  x.tasks_.push_back(std::make_unique<task>());
  x.tasks_[0]->vc_.tick(0);
  x.cur_ = 0;
  set_locks(*x.tasks_[0]);
  hold_ = true;
}
void end_phase() {
  auto& x = s();
  quiet const q;
  hold_ = false;
  for (auto& t : x.tasks_) {
    if (t->stack_ != nullptr) x.stacks_.push_back(t->stack_);
    t->stack_ = nullptr;
  }
  x.tasks_.clear();
  x.shadow_.clear();
  for (std::size_t k = 0; k < held_n; ++k) put_back(held_list[k].p_, held_list[k].c_);
  held_n = 0;
}
std::size_t add_task(std::function<void()> fn) {
  auto& x = s();
  quiet const q;
  auto const k = x.tasks_.size();
  x.tasks_.push_back(std::make_unique<task>());
  auto& t = *x.tasks_.back();
  t.fn_ = std::move(fn);
  t.vc_ = x.tasks_[x.cur_]->vc_;
  t.vc_.tick(k);
  x.tasks_[x.cur_]->vc_.tick(x.cur_);
  set_locks(t);
  return k;
}
void join_task(std::size_t k) {
  auto& x = s();
  quiet const q;
  x.tasks_[x.cur_]->vc_.join(x.tasks_[k]->vc_);
}

void give(void* p) {
  if (p == nullptr) return;
  auto const c = static_cast<int>(*reinterpret_cast<std::uint32_t*>(static_cast<char*>(p) - 8));
  auto const off = *reinterpret_cast<std::uint32_t*>(static_cast<char*>(p) - 4);
  auto* b = static_cast<char*>(p) - off;
  if (!hold_) {
    put_back(b, c);
    return;
  }
  // whoever uses it must be done with it
  note(reinterpret_cast<uptr>(p), std::min<std::size_t>((1ULL << c) - off, 4096), true, false, reinterpret_cast<uptr>(__builtin_return_address(0)));
  if (held_n < HELD) held_list[held_n++] = {b, c};
}

// ------------------------------------------------------------ synchronisation
void acquire(uptr a) {
  auto& x = s();
  quiet const q;
  auto const it = x.sync_.find(a);
  if (it != x.sync_.end()) x.tasks_[x.cur_]->vc_.join(it->second);
}
void release(uptr a) {
  auto& x = s();
  quiet const q;
  auto& t = *x.tasks_[x.cur_];
  x.sync_[a].join(t.vc_);
  t.vc_.tick(x.cur_);
}
void lock(void const* m) {
  auto& x = s();
  point();
  quiet const q;
  auto const a = reinterpret_cast<uptr>(m);
  while (x.owner_.contains(a)) {
    auto& t = *x.tasks_[x.cur_];
    t.blocked_ = m;
    auto const n = able();
    if (n.empty() || x.cur_ == 0) {
      std::fprintf(stderr, "deadlock\n");
      std::abort();
    }
    auto const k = n[decide(n.size())];
    start_context(k);
    switch_to(k);
    s().internal_ = true;
    x.tasks_[x.cur_]->blocked_ = nullptr;
  }
  x.owner_[a] = x.cur_;
  auto& t = *x.tasks_[x.cur_];
  t.locks_.push_back(a);
  set_locks(t);
}
void unlock(void const* m) {
  auto& x = s();
  quiet const q;
  auto const a = reinterpret_cast<uptr>(m);
  x.owner_.erase(a);
  auto& t = *x.tasks_[x.cur_];
  std::erase(t.locks_, a);
  set_locks(t);
}

}  // namespace

extern "C" {

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on() || s().internal_) return __real_pthread_mutex_lock(m);
  lock(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on() || s().internal_) return __real_pthread_mutex_trylock(m);
  point();
  if (s().owner_.contains(reinterpret_cast<uptr>(m))) return EBUSY;
  lock(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on() || s().internal_) return __real_pthread_mutex_unlock(m);
  unlock(m);
  return 0;
}

int __real___cxa_guard_acquire(std::uint64_t*);
void __real___cxa_guard_release(std::uint64_t*);
void __real___cxa_guard_abort(std::uint64_t*);
int __wrap___cxa_guard_acquire(std::uint64_t* g) {
  if (!on() || s().internal_) return __real___cxa_guard_acquire(g);
  auto* done = reinterpret_cast<char*>(g);
  if (*done == 0) lock(g);
  if (*done != 0) {
    if (s().owner_.contains(reinterpret_cast<uptr>(g)) && s().owner_[reinterpret_cast<uptr>(g)] == s().cur_) unlock(g);
    acquire(reinterpret_cast<uptr>(g));
    return 0;
  }
  return 1;
}
void __wrap___cxa_guard_release(std::uint64_t* g) {
  if (!on() || s().internal_ || !s().owner_.contains(reinterpret_cast<uptr>(g))) {
    __real___cxa_guard_release(g);
    return;
  }
  *reinterpret_cast<char*>(g) = 1;
  release(reinterpret_cast<uptr>(g));
  unlock(g);
}
void __wrap___cxa_guard_abort(std::uint64_t* g) {
  if (!on() || s().internal_ || !s().owner_.contains(reinterpret_cast<uptr>(g))) {
    __real___cxa_guard_abort(g);
    return;
  }
  unlock(g);
}

#define PC reinterpret_cast<uptr>(__builtin_return_address(0))
#define A(p) reinterpret_cast<uptr>(p)

void* __real_memcpy(void*, void const*, std::size_t);
void* __real_memmove(void*, void const*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(void const*, void const*, std::size_t);
std::size_t __real_strlen(char const*);
void* __wrap_memcpy(void* d, void const* f, std::size_t n) {
  if (hold_) note(A(f), n, false, false, PC), note(A(d), n, true, false, PC);
  return __real_memcpy(d, f, n);
}
void* __wrap_memmove(void* d, void const* f, std::size_t n) {
  if (hold_) note(A(f), n, false, false, PC), note(A(d), n, true, false, PC);
  return __real_memmove(d, f, n);
}
void* __wrap_memset(void* d, int c, std::size_t n) {
  if (hold_) note(A(d), n, true, false, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(void const* a, void const* b, std::size_t n) {
  if (hold_) note(A(a), n, false, false, PC), note(A(b), n, false, false, PC);
  return __real_memcmp(a, b, n);
}
std::size_t __wrap_strlen(char const* a) {
  auto const n = __real_strlen(a);
  if (hold_) note(A(a), n + 1, false, false, PC);
  return n;
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                   \
  void __tsan_read##n(void* p) { if (hold_) note(A(p), n, false, false, PC); }           \
  void __tsan_write##n(void* p) { if (hold_) note(A(p), n, true, false, PC); }           \
  void __tsan_unaligned_read##n(void* p) { if (hold_) note(A(p), n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { if (hold_) note(A(p), n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { if (hold_) note(A(p), n, false, false, PC); }  \
  void __tsan_volatile_write##n(void* p) { if (hold_) note(A(p), n, true, false, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, std::size_t n) { if (hold_) note(A(p), n, false, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { if (hold_) note(A(p), n, true, false, PC); }
void __tsan_vptr_update(void** p, void* n) {
  if (hold_ && *p != n) note(A(p), 8, true, false, PC);
}
void __tsan_vptr_read(void** p) { if (hold_) note(A(p), 8, false, false, PC); }

#define IN (hold_ && !s().internal_)
#define RMW(n, T, name, op)                                     \
  T __tsan_atomic##n##_##name(volatile T* p, T v, int) {        \
    if (IN) {                                                   \
      point();                                                  \
      note(A(p), n / 8, true, true, PC);                        \
      acquire(A(p));                                            \
      T const r = op(p, v, __ATOMIC_SEQ_CST);                   \
      release(A(p));                                            \
      return r;                                                 \
    }                                                           \
    return op(p, v, __ATOMIC_SEQ_CST);                          \
  }
#define ATOMICS(n, T)                                                              \
  T __tsan_atomic##n##_load(const volatile T* p, int) {                            \
    if (IN) note(A(p), n / 8, false, true, PC), acquire(A(p));                     \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                   \
  }                                                                                \
  void __tsan_atomic##n##_store(volatile T* p, T v, int) {                         \
    if (IN) point(), note(A(p), n / 8, true, true, PC), release(A(p));             \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                \
  RMW(n, T, exchange, __atomic_exchange_n)                                         \
  RMW(n, T, fetch_add, __atomic_fetch_add)                                         \
  RMW(n, T, fetch_sub, __atomic_fetch_sub)                                         \
  RMW(n, T, fetch_and, __atomic_fetch_and)                                         \
  RMW(n, T, fetch_or, __atomic_fetch_or)                                           \
  RMW(n, T, fetch_xor, __atomic_fetch_xor)                                         \
  RMW(n, T, fetch_nand, __atomic_fetch_nand)                                       \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { \
    if (IN) point(), note(A(p), n / 8, true, true, PC), acquire(A(p));             \
    bool const r = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (IN) release(A(p));                                                         \
    return r;                                                                      \
  }                                                                                \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) { \
    return __tsan_atomic##n##_compare_exchange_strong(p, c, v, a, b);              \
  }                                                                                \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int a, int b) { \
    __tsan_atomic##n##_compare_exchange_strong(p, &c, v, a, b);                    \
    return c;                                                                      \
  }
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------- threads
namespace {
struct started {
  std::unique_ptr<std::thread::_State> st_;
  std::size_t task_;
};
std::vector<started>& pending() {
  static auto* v = new std::vector<started>;
  return *v;
}
std::size_t unjoined = 0;
}  // namespace

unsigned std::thread::hardware_concurrency() noexcept { return s().processors_; }
void std::thread::_M_start_thread(_State_ptr st, void (*)()) {
  bool const was = s().internal_;
  s().internal_ = true;
  if (!hold_) begin_phase();
  auto* p = st.get();
  pending().push_back({std::move(st), 0});
  pending().back().task_ = add_task([p] { p->_M_run(); });
  ++unjoined;
  _M_id = id(static_cast<native_handle_type>(pending().size()));
  s().internal_ = was;
}
void std::thread::join() {
  bool const was = s().internal_;
  s().internal_ = true;
  run_all();
  auto const k = static_cast<std::size_t>(native_handle()) - 1;
  join_task(pending()[k].task_);
  _M_id = id();
  if (--unjoined == 0) {
    std::exception_ptr e;
    for (auto& t : s().tasks_) {
      if (t->error_) e = t->error_;
    }
    end_phase();
    pending().clear();
    if (e) std::terminate();
  }
  s().internal_ = was;
}
void std::thread::detach() { join(); }

// ------------------------------------------------------------------- explore
namespace sched {

void processors(unsigned n) { s().processors_ = n; }

void loop(std::size_t n, std::function<void(std::size_t)> const& fn) {
  if (hold_) {
    // within a task: one after the other
    for (std::size_t i = 0; i < n; ++i) fn(i);
    return;
  }
  begin_phase();
  auto const was = s().internal_;
  s().internal_ = true;
  for (std::size_t i = 0; i < n; ++i) {
    add_task([i, &fn] { fn(i); });
  }
  run_all();
  std::exception_ptr e;
  for (std::size_t k = 1; k < s().tasks_.size(); ++k) {
    join_task(k);
    if (!e) e = s().tasks_[k]->error_;
  }
  end_phase();
  s().internal_ = was;
  if (e) std::rethrow_exception(e);
}

result explore(limits const& lim, std::function<std::string()> const& body) {
  auto& x = s();
  x.lim_ = lim;
  x.res_ = {};
  x.path_.clear();
  x.problem_.clear();
  std::string first;
  while (true) {
    x.at_ = 0;
    x.used_ = 0;
    auto const got = body();
    ++x.res_.schedules_;
    if (!x.problem_.empty()) {
      x.res_.problem_ = x.problem_;
      break;
    }
    if (x.res_.schedules_ == 1) {
      first = got;
    } else if (got != first) {
      x.res_.problem_ = "the result depends on the schedule: " + got + " instead of " + first;
      break;
    }
    x.path_.resize(x.at_);
    while (!x.path_.empty() && x.path_.back().chosen_ + 1 >= x.path_.back().count_) x.path_.pop_back();
    if (x.path_.empty()) break;
    ++x.path_.back().chosen_;
    if (x.res_.schedules_ >= lim.schedules_) {
      x.res_.complete_ = false;
      break;
    }
  }
  return x.res_;
}

}  // namespace sched
