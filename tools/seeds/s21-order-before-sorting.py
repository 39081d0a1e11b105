PROPERTY = "I07"
NEEDS = "an exclusion set file with a line whose routes are not in ascending order, such that its place among the lines changes once they are"
BREAKS = "the exclusion sets are not in ascending order"
EDITS = {"src/infrastructure/exclusion/read_cliques.cc": [("""  for (auto& clique : cliques) {
    utls::sort(clique);
  }

  utls::sort(cliques);

""", """  utls::sort(cliques);

  for (auto& clique : cliques) {
    utls::sort(clique);
  }

""")]}
SRC = ["src/infrastructure/exclusion/read_cliques.cc"]
DEMO = r'''
#include "soro/infrastructure/exclusion/read_cliques.h"
#include <cstdio>
#include <fstream>
#include <algorithm>
int main() {
  { std::ofstream f("sets"); f << "9 1\n5 6\n"; }
  auto const c = soro::infra::read_cliques("sets");
  if (!std::is_sorted(c.begin(), c.end())) { std::printf("not sorted\n"); return 1; }
  return 0;
}
'''
