// U10: files read back what was written.  All contents over a byte alphabet up
// to a length, all histories of writes to one path (longer over shorter and
// shorter over longer), sizes around buffer boundaries.
#include "mc.h"

#include <filesystem>
#include <vector>

#include "soro/utls/file/binary_buffer_to_file.h"
#include "soro/utls/file/file_to_binary_buffer.h"
#include "soro/utls/file/loaded_file.h"

namespace fs = std::filesystem;
namespace u = soro::utls;
using bytes = std::vector<unsigned char>;

namespace {

fs::path dir() { return fs::path{std::getenv("MC_SCRATCH")}; }

void reads_back(fs::path const& p, bytes const& want) {
  auto const got = u::read_file_to_binary_buffer(p);
  mc::require(got == want, "binary read", "got ", mc::seq(got), " want ", mc::seq(want));
  auto const s = u::read_file_to_string(p);
  mc::require(s == std::string(want.begin(), want.end()), "string read", s.size(), " want ", want.size());
  mc::require(fs::file_size(p) == want.size(), "file size", fs::file_size(p));
  if (!want.empty()) {
    auto const l = u::load_file(p);
    mc::require(l.size() == want.size(), "loaded size", l.size());
    mc::require(bytes(l.begin(), l.end()) == want, "loaded contents", want.size());
    mc::require(bytes(l.data(), l.data() + l.size()) == want, "loaded data", want.size());
    mc::require(l.path_ == p, "loaded path", l.path_);
  }
  mc::step(4);
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  unsigned char const alpha[] = {0x00, 'a', '\n', '\r', 0x1a, 0xff, ' ', 0x80};
  auto const p = dir() / "f.bin";
  mc::group("contents");
  int const n = mc::tier(4, 5);
  mc::bound("content length", n);
  mc::sequences(8, 0, n, [&](std::vector<int> const& d) {
    mc::run([&] { return "bytes " + mc::seq(d); }, [&] {
      bytes b;
      for (auto const i : d) b.push_back(alpha[i]);
      fs::remove(p);
      u::write_binary_buffer_to_file(p, b);
      reads_back(p, b);
      mc::state(mc::hash_seq(b));
    });
  });
  mc::group("sizes");
  for (int base : {0, 512, 1024, 4096, 8191, 8192, 16384, 65536, 131072}) {
    for (int off = -2; off <= 2; ++off) {
      if (base + off < 0) continue;
      mc::run([&] { return mc::str("size ", base + off); }, [&] {
        bytes b(base + off);
        for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<unsigned char>(mc::h64(i));
        u::write_binary_buffer_to_file(p, b);
        reads_back(p, b);
      });
    }
  }
  mc::group("histories");
  int const sizes[] = {0, 1, 7, 5000, 9000};
  mc::sequences(5, 1, mc::tier(4, 5), [&](std::vector<int> const& d) {
    mc::run([&] { return "writes " + mc::seq(d); }, [&] {
      fs::remove(p);
      for (std::size_t k = 0; k < d.size(); ++k) {
        bytes const b(sizes[d[k]], static_cast<unsigned char>(k + 1));
        u::write_binary_buffer_to_file(p, b);
        reads_back(p, b);
      }
    });
  });
  mc::group("absent");
  mc::run([] { return std::string{"missing file"}; }, [&] {
    auto const q = dir() / "does-not-exist";
    mc::require(u::read_file_to_string(q).empty(), "missing file as string", 0);
    mc::require(u::read_file_to_binary_buffer(q).empty(), "missing file as buffer", 0);
    mc::require(!fs::exists(q), "reading creates", 0);
  });
  return mc::finish();
}
