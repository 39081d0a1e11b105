// W03: the server program.  It is started as a whole on every state of the
// directories and every set of arguments within the bounds; what it refuses,
// what it makes, where it listens and what it answers is compared with what
// the directories and arguments say.
#include "irs.h"

#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>

#include "net/web_server/web_server.h"
#include "nlohmann/json.hpp"

#include "soro/server/modules/tiles/import/import.h"
#include "soro/server/soro_server.h"

extern "C" int server_main(int argc, char const** argv);

namespace fs = std::filesystem;
namespace server = soro::server;
using nlohmann::json;

static std::vector<server::import_settings> imports;
namespace soro::server {
void import_tiles(import_settings const& s) {
  imports.push_back(s);
  std::ifstream f(s.osm_path_, std::ios::binary);
  std::ofstream(s.db_path_, std::ios::binary) << "tiles";
}
}  // namespace soro::server

namespace {

fs::path base() {
  char const* const s = std::getenv("MC_SCRATCH");
  return fs::path(s != nullptr ? s : "/tmp") / "start";
}
void put(fs::path const& p, std::string const& t) {
  fs::create_directories(p.parent_path());
  std::ofstream(p, std::ios::binary) << t;
}

struct outcome {
  int code_{-1};
  std::string out_, err_;
  std::vector<std::pair<std::string, std::string>> places_;
  std::vector<std::pair<unsigned, std::string>> answers_;
  std::size_t imports_{0};
};

outcome start(std::vector<std::string> const& args, std::vector<std::string> const& targets = {}) {
  outcome r;
  std::vector<char const*> a = {"soro-server"};
  for (auto const& s : args) a.push_back(s.c_str());
  std::ostringstream out, err;
  auto* const ob = std::cout.rdbuf(out.rdbuf());
  auto* const eb = std::cerr.rdbuf(err.rdbuf());
  struct back {
    std::streambuf *o_, *e_;
    ~back() { std::cout.rdbuf(o_), std::cerr.rdbuf(e_); }
  } const b{ob, eb};
  net::web_server::places().clear();
  net::web_server::queue().clear();
  imports.clear();
  for (auto const& t : targets) {
    net::web_server::http_req_t rq{boost::beast::http::verb::get, t, 11};
    net::web_server::queue().emplace_back(std::move(rq), [&r](net::web_server::http_res_t&& res) {
      std::visit([&](auto& x) {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, net::web_server::string_res_t>) r.answers_.emplace_back(x.result_int(), x.body());
        else r.answers_.emplace_back(x.result_int(), "");
      }, res);
    });
  }
  r.code_ = server_main(static_cast<int>(a.size()), a.data());
  r.places_ = net::web_server::places();
  r.imports_ = imports.size();
  net::web_server::queue().clear();
  r.out_ = out.str(), r.err_ = err.str();
  mc::step();
  return r;
}

std::set<std::string> below(fs::path const& d) {
  std::set<std::string> r;
  std::error_code ec;
  for (auto const& e : fs::recursive_directory_iterator(d, ec)) r.insert(fs::relative(e.path(), d).string());
  return r;
}

char const* const made[] = {"infrastructure", "timetable", "tiles", "osm", "tmp"};

// kinds of places: a directory, nothing, a file
enum kind { DIR, NONE, PLAIN };
void make(fs::path const& p, kind k) {
  if (k == DIR) fs::create_directories(p);
  if (k == PLAIN) put(p, "x");
}

struct world {
  fs::path root_, cwd_, res_, inf_, tt_;
  world() : root_{base()} {
    fs::current_path(fs::path(root_).parent_path());
    fs::remove_all(root_);
    cwd_ = root_ / "build" / "bin";
    fs::create_directories(cwd_);
    fs::current_path(cwd_);
  }
  // where they are unless told otherwise
  void usual() { res_ = cwd_ / "server_resources", inf_ = root_ / "resources" / "infrastructure", tt_ = root_ / "resources" / "timetable"; }
  void told() { res_ = root_ / "r", inf_ = root_ / "i", tt_ = root_ / "t"; }
};

void infrastructure_at(fs::path const& dir) {
  static auto const topo = iss::row({"SF", "SF"}, true, false, false);
  iss::write(topo, fs::relative(dir, base().parent_path()).string(), 1);
  fs::last_write_time(dir, fs::file_time_type::clock::now() - std::chrono::hours(1));
}

void directories() {
  mc::group("directories");
  mc::bound("directories", std::string{"every place a directory, missing or a file; no, one or two infrastructures; directories made before or not; places told or usual, in both orders of arguments"});
  mc::odometer({3, 2, 2, 3, 3, 3, 2, 3}, [&](std::vector<int> const& v) {
    mc::run([&] { return "directories " + mc::seq(v); }, [&] {
      world w;
      if (v[7] == 0) w.usual(); else w.told();
      auto const res = static_cast<kind>(v[0]);
      make(w.res_, res);
      if (res == DIR) {
        if (v[1] == 0) put(w.res_ / "misc" / "btrs_geo.csv", "ds100,lat,lon\n");
        if (v[2] == 0) put(w.res_ / "profile" / "profile.lua", "-- profile\n");
        put(w.res_ / "index.html", "<client/>");
        if (v[6] == 1) for (auto const* d : made) put(w.res_ / d / "old", "old");
      }
      make(w.inf_, static_cast<kind>(v[3]));
      make(w.tt_, static_cast<kind>(v[4]));
      json names = json::array();
      if (v[3] == DIR) for (int k = 0; k < v[5]; ++k) {
        names.push_back(mc::str("net", k));
        infrastructure_at(w.inf_ / mc::str("net", k));
      }
      std::vector<std::string> args;
      if (v[7] != 0) args = {"--server_resource_dir", w.res_.string(), "--infrastructure_sources", w.inf_.string(), "--timetable_sources", w.tt_.string(), "--port", "81", "--address", "127.0.0.9"};
      if (v[7] == 2) std::rotate(args.begin(), args.begin() + 4, args.end());
      args.emplace_back(v[7] == 1 ? "--test" : "-t");
      auto const before = below(w.root_);
      auto const o = start(args, {"/infrastructures/", "/index.html", "/nothing", "/infrastructure/net0/stations"});
      bool const good = res == DIR && v[1] == 0 && v[2] == 0 && v[3] == DIR && v[4] == DIR;
      if (!good) {
        mc::eq(o.code_, 1, "result of the server", "directories are missing");
        mc::require(o.places_.empty() && o.answers_.empty(), "server runs without its directories", "");
        mc::require(below(w.root_) == before, "files made without a server", "");
        return;
      }
      mc::eq(o.code_, 0, "result of the server", "");
      mc::eq(o.places_.size(), std::size_t{1}, "servers", "");
      mc::eq(o.places_[0].first, std::string{v[7] == 0 ? "0.0.0.0" : "127.0.0.9"}, "address", "");
      mc::eq(o.places_[0].second, std::string{v[7] == 0 ? "8080" : "81"}, "port", "");
      for (auto const* d : made) {
        mc::require(fs::is_directory(w.res_ / d), "directory of the server", d);
        mc::eq(fs::exists(w.res_ / d / "old"), v[6] == 1, "what was there", d);
      }
      mc::eq(o.answers_.size(), std::size_t{4}, "answers", "");
      mc::eq(o.answers_[0].first, 200U, "infrastructures", "");
      auto got = json::parse(o.answers_[0].second);
      std::sort(got["infrastructures"].begin(), got["infrastructures"].end());
      mc::require(got == json{{"infrastructures", names}}, "infrastructures", got.dump());
      mc::require(o.answers_[1].first == 200 && o.answers_[1].second == "<client/>", "the client", "");
      mc::eq(o.answers_[2].first, 404U, "what is not there", "");
      mc::eq(o.answers_[3].first, names.empty() ? 404U : 200U, "stations", "");
      mc::eq(o.imports_, names.size(), "tiles made", "");
      mc::trace();
      mc::state(mc::seq(v));
    });
  });
}

// the program started again and again
void restarts() {
  int const n = mc::thorough() ? 4 : 3;
  mc::group("restarts");
  mc::bound("restarts", mc::str("all sequences of ", n, " starts, each plain, with one of the two forms of regenerate, with help, or after a further infrastructure was added"));
  mc::odometer(std::vector<int>(static_cast<std::size_t>(n), 5), [&](std::vector<int> const& v) {
    mc::run([&] { return "restarts " + mc::seq(v); }, [&] {
      world w;
      w.told();
      for (auto const& d : {w.res_, w.inf_, w.tt_}) fs::create_directories(d);
      put(w.res_ / "misc" / "btrs_geo.csv", "ds100,lat,lon\n");
      put(w.res_ / "profile" / "profile.lua", "-- profile\n");
      infrastructure_at(w.inf_ / "net0");
      std::vector<std::string> const at = {"--server_resource_dir", w.res_.string(), "--infrastructure_sources", w.inf_.string(), "--timetable_sources", w.tt_.string(), "-t"};
      std::set<std::string> known = {"net0"}, done;
      for (std::size_t k = 0; k < v.size(); ++k) {
        auto args = at;
        bool again = false;
        if (v[k] == 1) args.emplace_back("-r"), again = true;
        if (v[k] == 2) args.insert(args.begin(), "--regenerate"), again = true;
        if (v[k] == 3) args.emplace_back(k % 2 == 0 ? "--help" : "-h");
        if (v[k] == 4) {
          auto const name = mc::str("net", known.size());
          infrastructure_at(w.inf_ / name);
          known.insert(name);
        }
        auto const before = below(w.root_);
        auto const o = start(args, {"/infrastructures"});
        mc::eq(o.code_, 0, "result of the server", "start ", k);
        if (v[k] == 3) {
          mc::require(o.places_.empty() && o.answers_.empty() && o.imports_ == 0, "help started the server", "start ", k);
          mc::require(below(w.root_) == before, "help made files", "start ", k);
          continue;
        }
        auto got = json::parse(o.answers_.at(0).second);
        std::sort(got["infrastructures"].begin(), got["infrastructures"].end());
        mc::require(got == json{{"infrastructures", known}}, "infrastructures", "start ", k, " ", got.dump());
        mc::eq(o.imports_, again ? known.size() : known.size() - done.size(), "tiles made", "start ", k);
        done = known;
      }
      mc::trace();
    });
  });
}

// one argument or value missing
void arguments() {
  mc::group("arguments");
  // help is there for those who have nothing yet
  for (auto const* flag : {"--help", "-h"}) for (int have = 0; have < 2; ++have) {
    mc::run([&, flag] { return mc::str("help by ", flag, have ? " with" : " without", " directories"); }, [&, flag] {
      world w;
      w.usual();
      if (have) for (auto const& d : {w.res_, w.inf_, w.tt_}) fs::create_directories(d);
      auto const before = below(w.root_);
      auto const o = start({flag}, {"/infrastructures"});
      mc::eq(o.code_, 0, "result of help", "");
      mc::require(o.places_.empty() && below(w.root_) == before && o.out_.find("arguments") != std::string::npos, "help", "");
    });
  }
  std::vector<std::string> const valued = {"--server_resource_dir", "--infrastructure_sources", "--timetable_sources", "--address", "--port"};
  for (auto const& last : valued) for (int help = 0; help < 2; ++help) {
    mc::run([&, last] { return mc::str("no value for ", last, " help ", help); }, [&, last] {
      world w;
      w.usual();
      std::vector<std::string> args;
      if (help) args.emplace_back("-h");
      args.push_back(last);
      auto const before = below(w.root_);
      auto const o = start(args, {"/infrastructures"});
      mc::eq(o.code_, 1, "result of the server", "a value is missing");
      mc::require(o.places_.empty() && below(w.root_) == before, "server runs with wrong arguments", "");
    });
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  directories();
  restarts();
  arguments();
  return mc::finish();
}
