PROPERTY = "W03"
NEEDS = "help asked for where the directories of the server are not there yet"
BREAKS = "the server complains about its directories and fails instead of printing its help"
EDITS = {"web/server/src/main.cc": [("""  if (s.help_) {
    std::cout << utl::description<server_settings>() << std::endl;
    return 0;
  }

""", ""), ("""  fs::create_directory(s.server_infra_dir());
""", """  if (s.help_) {
    std::cout << utl::description<server_settings>() << std::endl;
    return 0;
  }

  fs::create_directory(s.server_infra_dir());
""")]}
SRC = ["src", "web/server/src/soro_server.cc", "web/server/src/modules/infrastructure", "web/server/src/modules/ordering", "web/server/src/modules/search", "web/server/src/modules/timetable", "web/server/src/modules/tiles/tiles_module.cc", "web/server/src/modules/tiles/osm_export"]
PRE = 'FLAGS="$FLAGS -I$repo -I$repo/web/server/include -include $here/shim/cereal_string_view.h"\n'
DEMO = r'''
#include "soro/server/modules/tiles/import/import.h"
namespace soro::server {
void import_tiles(import_settings const&) {}
}
// the program, and a caller of it
int main(int argc, char const** argv) __asm__("server_main");
#include "web/server/src/main.cc"
extern "C" int call_it() __asm__("main");
extern "C" int start(int, char const**) __asm__("server_main");
extern "C" int call_it() {
  char const* help[] = {"server", "--help", nullptr};
  return start(2, help) == 0 ? 0 : 1;
}
'''
