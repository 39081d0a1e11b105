PROPERTY = "S03"
NEEDS = "a distribution over times and speeds where a speed without probability lies between two with some"
BREAKS = "the speeds after the gap are left out when the distribution is run through"
EDITS = {"include/soro/simulation/dpd.h": [("""      auto const& prob = m2.dpd_[p2];

      if (zero(prob)) {
        continue;
      }
""", """      auto const& prob = m2.dpd_[p2];

      if (zero(prob)) {
        break;
      }
""")]}
SRC = []
DEMO = r'''
#include "soro/simulation/dpd.h"
#include <cstdio>
int main() {
  using namespace soro::simulation;
  dpd<default_granularity, soro::utls::unixtime, kilometer_per_hour> d;
  d.insert(soro::utls::unixtime{1200}, kilometer_per_hour{40}, 0.25F);
  d.insert(soro::utls::unixtime{1200}, kilometer_per_hour{80}, 0.5F);
  d.insert(soro::utls::unixtime{1800}, kilometer_per_hour{60}, 0.25F);
  float total = 0;
  int n = 0;
  for (auto const& [t, v, p] : iterate(d)) { total += p; ++n; }
  if (n != 3 || total != 1.0F) { std::printf("%d of 3, %f\n", n, static_cast<double>(total)); return 1; }
  return 0;
}
'''
