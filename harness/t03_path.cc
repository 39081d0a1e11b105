// T03: which interlocking routes a train takes that is told its station routes
// and stops.
#include "trains.h"

#include "soro/timetable/parsers/station_route_to_interlocking_route.h"

using namespace iss;
namespace tt = soro::tt;

namespace {

std::string show(std::vector<mir> const& irs) {
  std::string s;
  for (std::size_t k = 0; k < irs.size(); ++k) s += mc::str(k, "=", mc::seq(irs[k].srs_), irs[k].from_, "-", irs[k].to_, " ");
  return s;
}

void check(route_case& c, int len, bool linked, bool in = false, bool out = false) {
  for (auto& s : c.srs_) s.real_ = nullptr;
  load_opts o;
  o.interlocking_ = true;
  auto const dir = c.write_iss();
  auto const infra = load(dir, o);
  resolve(c, *infra);
  auto const irs = real_routes(c, *infra);
  each_stop_sequence(c, len, linked, [&](std::vector<mstop> const& stops, bool freight) {
    std::vector<int> chain;
    for (auto const& s : stops) chain.push_back(s.sr_);
    auto const first = in ? 0 : stop_node(c, stops.front(), freight);
    auto const last = out ? c.srs_[static_cast<std::size_t>(chain.back())].size_ - 1 : stop_node(c, stops.back(), freight);
    auto const want = tilings(c, irs, chain, first, last, false, in);
    auto const how = show_stops(stops) + (freight ? "freight" : "passenger") + (in ? " in" : "") + (out ? " out" : "");
    tt::stop_sequence ss;
    ss.break_in_ = in;
    ss.break_out_ = out;
    std::vector<tt::sequence_point> points;
    unsigned t = 100;
    for (auto const& s : stops) {
      ss.points_.push_back(make_point(c, s, t, t + 30, 20));
      if (s.k_ != PASS) points.push_back(ss.points_.back());
      t += 100;
    }
    auto const got = tt::transform_to_interlocking(ss, freight ? soro::rs::FreightTrain::YES : soro::rs::FreightTrain::NO, infra);
    mc::step();
    mc::state(mc::str(want.size(), "|", got.has_value(), "|", want.empty() ? 0 : want.front().size(), "|", points.size()));
    if (!got.has_value()) {
      mc::require(want.size() != 1, "a train that can run is turned down", how, " path ", want.empty() ? "" : mc::seq(want.front()), " of ", show(irs), " error ", got.error().message());
      return;
    }
    std::vector<int> const path(got->path_.begin(), got->path_.end());
    auto const can = tilings(c, irs, chain, first, last, true, in);
    mc::require(std::find(can.begin(), can.end(), path) != can.end(), "interlocking routes of a train", how, ": ", mc::seq(path), " want ", want.empty() ? "none" : mc::seq(want.front()), " of ", show(irs));
    mc::eq(got->sequence_points_.size(), points.size(), "number of sequence points", how);
    for (std::size_t k = 0; k < points.size(); ++k) {
      auto const &a = got->sequence_points_[static_cast<unsigned>(k)], &b = points[k];
      mc::require(a.station_route_ == b.station_route_ && a.type_ == b.type_ && a.arrival_ == b.arrival_ && a.departure_ == b.departure_ && a.min_stop_time_ == b.min_stop_time_,
                  "sequence point", how, " number ", k);
    }
  }, in, out);
  mc::trace();
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  each_train_world([](std::string const& d, route_case& c) {
    mc::run([&] { return d; }, [&] {
      check(c, 4, true);
      for (int const io : {1, 2, 3}) check(c, 3, true, io & 1, io & 2);
      if (c.t_.T.size() < 4 || mc::thorough()) check(c, 3, false);
    });
  });
  return mc::finish();
}
