PROPERTY = "T01"
NEEDS = "the union of two sets of days, the one that starts earlier also ending later"
BREAKS = "days of the union lie behind its last day and are not found"
EDITS = {"src/timetable/bitfield.cc": [("""    this->bitset_ |= c;
  } else {""", """    this->bitset_ |= c;
    this->last_date_ = o.last_date_;
  } else {"""), ("""    this->first_date_ = o.first_date_;
  }

  this->last_date_ = std::max(this->last_date_, o.last_date_);
""", """    this->first_date_ = o.first_date_;
    this->last_date_ = std::max(this->last_date_, o.last_date_);
  }
""")]}
SRC = ["src/timetable/bitfield.cc", "src/utls"]
DEMO = r'''
#include "soro/timetable/bitfield.h"
#include <cstdio>
using namespace soro::tt;
int main() {
  auto const d = date::sys_days{date::year{2023} / 1 / 1};
  auto a = make_bitfield(d, d + date::days{5}, "100001");
  a |= make_bitfield(d + date::days{1}, d + date::days{2}, "11");
  if (a.last_date_ != d + date::days{5} || a.count() != 4 || !a.at(d + date::days{5})) { std::printf("the last day is lost\n"); return 1; }
  return 0;
}
'''
