PROPERTY = "U04"
NEEDS = "an alternative with an effect, offered to an optional that has a value"
BREAKS = "the alternative is worked out although there is a value"
EDITS = {"include/soro/utls/container/optional.h": [("""    return has_value() ? *this : std::forward<ElseFunction>(else_function)();
""", """    optional const alternative = std::forward<ElseFunction>(else_function)();
    return has_value() ? *this : alternative;
""")]}
SRC = []
DEMO = r'''
#include "soro/utls/container/optional.h"
int main() {
  using soro::utls::optional;
  int taken = 0;
  auto const fallback = [&] { return ++taken, optional<int>{7}; };
  optional<int> none, some{3};
  if (*none.or_else(fallback) != 7 || taken != 1) return 77;
  if (*some.or_else(fallback) != 3) return 1;
  return taken == 1 ? 0 : 1;
}
'''
