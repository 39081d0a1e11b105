PROPERTY = "X01"
NEEDS = "two files whose trains cannot be read for a reason already counted, read at the same time so that both counts fall between the other's read and write"
BREAKS = "errors of trains get lost, a data race"
EDITS = {"include/soro/base/error.h": [("""    std::lock_guard const lock{mutex_};
    ++errors_[e];
""", """    // only looking up the counter can change the map
    std::size_t& counter = [&]() -> std::size_t& {
      std::lock_guard const lock{mutex_};
      return errors_[e];
    }();
    ++counter;
""")]}
SRC = []
DEMO = r'''
#include "soro/base/error.h"
#include <atomic>
#include <thread>
#include <cstdio>

int main() {
  // many rounds of two threads counting the same errors
  for (int round = 0; round < 300; ++round) {
    soro::error::stats s("demo");
    std::atomic<int> ready{0};
    auto const work = [&] {
      ++ready;
      while (ready != 4) {}
      for (int k = 0; k < 20000; ++k) s.count(std::make_error_code(std::errc::invalid_argument));
    };
    std::thread a(work), b(work), c(work), d(work);
    a.join(); b.join(); c.join(); d.join();
    if (s.errors_.begin()->second != 80000) { std::printf("%zu errors of 80000\n", s.errors_.begin()->second); return 1; }
  }
  return 0;
}
'''
