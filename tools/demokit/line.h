#pragma once
#include "trains.h"
// a line of stations with every station route rising along it
namespace iss {
inline route_case line(std::vector<std::string> const& ps, std::string core = {}, int len = 5) {
  route_case c;
  c.t_ = row(ps, true, false, false);
  c.t_.core_ = std::move(core);
  model const m(c.t_);
  for (auto const& x : walks(m, c.t_, true)) {
    if (x.at_.front().track_ || x.at_.back().track_ || !rising(c.t_, x)) continue;
    c.add(x);
  }
  give_halts(c);
  return c;
}
inline inf::infrastructure loaded(route_case& c) {
  load_opts o;
  o.interlocking_ = true;
  auto infra = load(c.write_iss(), o);
  resolve(c, *infra);
  return infra;
}
}  // namespace iss
