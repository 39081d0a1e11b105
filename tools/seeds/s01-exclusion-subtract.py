PROPERTY = "I01"
NEEDS = "subtracting a set that takes away both the lowest and the highest id but leaves something in between"
BREAKS = "after such a subtraction the set keeps a stale upper end: it compares as greater than an equal set"
EDITS = {"src/infrastructure/exclusion/exclusion_set.cc": [("""  if (first_bit_set_ == INVALID_OFFSET) {
    this->clear();
    return *this;
  }

  if (!bits_[last_bit_set_ - first_]) {
    last_bit_set_ = get_last_set(*this);
  }

  compact(*this);

  utls::ensure(ok(), "exclusion set invariant violated");

  return *this;
}

exclusion_set& exclusion_set::operator|=""", """  if (first_bit_set_ == INVALID_OFFSET) {
    this->clear();
    return *this;
  }

  if (auto const low = first_bit_set_ - first_;
      low < bitvec_t::bits_per_block && !bits_[last_bit_set_ - first_]) {
    last_bit_set_ = get_last_set(*this);
  }

  compact(*this);

  utls::ensure(ok(), "exclusion set invariant violated");

  return *this;
}

exclusion_set& exclusion_set::operator|=""")]}
SRC = ["src/infrastructure/exclusion"]
SRC = ["src"]
DEMO = r'''
#include "soro/infrastructure/exclusion/exclusion_set.h"
#include <cstdio>
using namespace soro::infra;
int main() {
  auto a = make_exclusion_set({5, 200, 700});
  a -= make_exclusion_set({5, 700});
  auto const b = make_exclusion_set({200});
  if (a.compare(b) != std::partial_ordering::equivalent || b.contains(a) == false) { std::puts("a - {5, 700} is not {200}"); return 1; }
  return 0;
}
'''
