PROPERTY = "I10"
NEEDS = "an export into a file that an earlier export made"
BREAKS = "the exported graph is written after what the file held before"
EDITS = {"tools/export_exclusion_graph/src/export_exclusion_graph.cc": [("""  std::ofstream outfile(out);
""", """  std::ofstream outfile(out, std::ios::out | std::ios::app);
""")]}
SRC = ["src"]
PRE = 'FLAGS="$FLAGS -I$repo"\n'
HEADERS = ["mc.h", "iss.h", "topologies.h", "routes.h", "irs.h"]
DEMO = r'''
#include "irs.h"
#include "utl/cmd_line_parser.h"
#include "utl/enumerate.h"
#define main export_main
#include "tools/export_exclusion_graph/src/export_exclusion_graph.cc"
#undef main
#include <cstdio>
#include <fstream>
#include <sstream>
std::string text(std::string const& f) {
  std::ifstream in(f);
  return {std::istreambuf_iterator<char>(in), {}};
}
int main() {
  auto const dir = iss::write(iss::row({"SF", "SF"}, true, false, false), "net", 1).string();
  auto const out = dir + ".graph";
  char const* args[] = {"x", "--infra_path", dir.c_str(), "--output_path", out.c_str()};
  if (export_main(5, args) != 0) return 77;
  auto const first = text(out);
  std::ofstream(out) << "0 1 2\n3\n";
  if (export_main(5, args) != 0) return 77;
  std::printf("%zu %zu\n", first.size(), text(out).size());
  return text(out) == first ? 0 : 1;
}
'''
