#pragma once
// Threads under control: threads started by the code under test become tasks
// that run one after the other, in an order the check chooses, when the first
// of them is joined; the number of processors reported is the check's choice.
#include <algorithm>
#include <functional>
#include <memory>
#include <thread>
#include <vector>

#include "utl/parallel_for.h"

namespace tasks {

struct control {
  unsigned processors_{1};
  // order in which n tasks run
  std::function<std::vector<std::size_t>(std::size_t)> order_;
  // called around every task
  std::function<void(std::size_t)> begin_, end_;
  std::vector<std::unique_ptr<std::thread::_State>> pending_;
  std::size_t started_{0};
};
inline control& ctl() {
  static control c;
  return c;
}
inline std::vector<std::size_t> order(std::size_t n) {
  if (ctl().order_) return ctl().order_(n);
  std::vector<std::size_t> v(n);
  for (std::size_t i = 0; i < n; ++i) v[i] = i;
  return v;
}
inline void run_pending() {
  auto p = std::move(ctl().pending_);
  ctl().pending_.clear();
  for (auto i : order(p.size())) {
    if (ctl().begin_) ctl().begin_(i);
    p[i]->_M_run();
    if (ctl().end_) ctl().end_(i);
  }
}
// the parallel loops take the same order
inline void control_loops() { utl::shim::scheduler().order_ = [](std::size_t n) { return order(n); }; }

}  // namespace tasks

unsigned std::thread::hardware_concurrency() noexcept { return tasks::ctl().processors_; }
void std::thread::_M_start_thread(_State_ptr s, void (*)()) {
  tasks::ctl().pending_.push_back(std::move(s));
  // a handle that only says "joinable"
  _M_id = id(static_cast<native_handle_type>(++tasks::ctl().started_));
}
void std::thread::join() {
  tasks::run_pending();
  _M_id = id();
}
void std::thread::detach() {
  tasks::run_pending();
  _M_id = id();
}
