PROPERTY = "T05"
NEEDS = "a train that is still on its way at noon of the day after it left"
BREAKS = "times after noon of the next day are taken for times of the day of departure"
EDITS = {"src/timetable/parsers/kss/parse_kss_timetable.cc": [("""  if (static_cast<bool>(time_xml.child("nightLeap"))) {
""", """  // only times before noon can belong to the next day
  if (static_cast<bool>(time_xml.child("nightLeap")) && result < hours{12}) {
""")]}
SRC = ["src"]
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h", "trains.h", "line.h"]
DEMO = r'''
#include "soro/timetable/timetable.h"
#include "pugixml.hpp"
#include <cstdio>
namespace soro::tt { relative_time parse_time_offset(pugi::xml_node); }
int main() {
  pugi::xml_document d;
  d.load_string("<a><time>13:30:10.00</time><nightLeap>1</nightLeap></a>");
  auto const t = soro::tt::parse_time_offset(d.child("a")).count();
  if (t != 24 * 3600 + 13 * 3600 + 1810) { std::printf("%u\n", static_cast<unsigned>(t)); return 1; }
  return 0;
}
'''
