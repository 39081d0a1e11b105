PROPERTY = "U01"
NEEDS = "a nested producer whose last value is also the last of the producer around it, with more to come two levels up"
BREAKS = "the consumer is given a value of a producer that is finished already"
EDITS = {"include/soro/utls/coroutine/recursive_generator.h": [("""      while (m_parentOrLeaf != this && m_parentOrLeaf->is_complete()) {
""", """      if (m_parentOrLeaf != this && m_parentOrLeaf->is_complete()) {
""")]}
SRC = []
DEMO = r'''
#include <vector>
#include "soro/utls/coroutine/recursive_generator.h"
using soro::utls::recursive_generator;
recursive_generator<int> make(int depth) {
  if (depth == 0) {
    co_yield 0;
    co_return;
  }
  co_yield make(depth - 1);
  if (depth == 2) co_yield 2;
}
int main() {
  std::vector<int> got;
  for (auto const v : make(2)) {
    got.push_back(v);
    if (got.size() > 5) return 1;
  }
  return got == std::vector<int>{0, 2} ? 0 : 1;
}
'''
