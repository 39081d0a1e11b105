// T01: service days.  All day sets over a few days, all histories of updates,
// all pairs at all offsets, ranges up to the full width, against std::set.
#include "mc.h"

#include <algorithm>
#include <set>

#include "soro/timetable/bitfield.h"

using namespace soro;
using soro::tt::bitfield;
using anchor = bitfield::anchor_time;

namespace {

struct model {
  anchor first_, last_;
  std::set<anchor> set_;
};

anchor day(anchor a, int k) { return a + date::days{k}; }
std::string show(bitfield const& b) {
  std::string r;
  for (auto const d : b.get_set_days()) r += " " + date::format("%F", d);
  return "[" + date::format("%F", b.first_date_) + ".." + date::format("%F", b.last_date_) + "]{" + r + " }";
}
std::string show(model const& b) {
  std::string r;
  for (auto const d : b.set_) r += " " + date::format("%F", d);
  return "[" + date::format("%F", b.first_) + ".." + date::format("%F", b.last_) + "]{" + r + " }";
}

std::pair<bitfield, model> build(anchor first, int len, unsigned mask) {
  std::string bits;
  model m{first, day(first, len - 1), {}};
  for (int i = 0; i < len; ++i) {
    bits += (mask >> i) & 1U ? '1' : '0';
    if ((mask >> i) & 1U) m.set_.insert(day(first, i));
  }
  return {tt::make_bitfield(m.first_, m.last_, bits.c_str()), m};
}

void check(bitfield const& b, model const& m) {
  auto const ctx = [&] { return " in " + show(m) + " got " + show(b); };
  mc::require(b.first_date_ == m.first_ && b.last_date_ == m.last_, "covered range", ctx());
  mc::require(b.ok(), "ok", ctx());
  std::vector<anchor> const want(m.set_.begin(), m.set_.end());
  mc::require(b.get_set_days() == want, "set days", ctx());
  mc::require(b.count() == want.size(), "count", b.count(), ctx());
  std::vector<anchor> it;
  for (auto const d : b) it.push_back(d);
  mc::require(it == want, "iteration", ctx());
  for (auto d = day(m.first_, -3); d <= day(m.last_, 3); d += date::days{1}) {
    bool threw = false, got = false;
    try {
      got = b.at(d);
    } catch (std::exception const&) {
      threw = true;
    }
    bool const inside = m.first_ <= d && d <= m.last_;
    mc::require(threw == !inside, "access outside", date::format("%F", d), ctx());
    if (inside) {
      mc::require(got == m.set_.contains(d) && b[d] == m.set_.contains(d), "day", date::format("%F", d), ctx());
    }
    for (unsigned const s : {0U, 1U, 43200U, 86399U}) {
      auto const t = absolute_time{d} + seconds{s};
      std::vector<anchor> fwd, to, wf, wt;
      for (auto i = b.from(t); i != b.end(); ++i) fwd.push_back(*i);
      for (auto i = b.begin(); i != b.to(t); ++i) to.push_back(*i);
      for (auto const e : want) {
        if (e >= d) wf.push_back(e);
        if (e <= d) wt.push_back(e);
      }
      mc::require(fwd == wf, "days from", date::format("%F", d), "+", s, ctx());
      mc::require(to == wt, "days up to", date::format("%F", d), "+", s, ctx());
      mc::step(2);
    }
  }
  if (!want.empty()) {
    mc::require(b.first_set_date() == absolute_time{want.front()} && b.last_set_date() == absolute_time{want.back()}, "first/last set day", ctx());
  }
  mc::state(show(m));
}

void combine(std::pair<bitfield, model> const& x, std::pair<bitfield, model> const& y) {
  auto const& [a, ma] = x;
  auto const& [b, mb] = y;
  model u{std::min(ma.first_, mb.first_), std::max(ma.last_, mb.last_), ma.set_};
  u.set_.insert(mb.set_.begin(), mb.set_.end());
  auto const r = a | b;
  check(r, u);
  auto c = a;
  auto const ret = (c |= b);
  mc::require(c == r && ret == r, "union in place", show(c), " ", show(r));
  mc::require(a.get_set_days() == std::vector<anchor>(ma.set_.begin(), ma.set_.end()), "operand changed", show(a));
  bool const same = ma.set_ == mb.set_;
  mc::require(a.equivalent(b) == same && b.equivalent(a) == same, "equivalent", show(a), " ", show(b), " want ", same);
  mc::require((a == b) == (same && ma.first_ == mb.first_ && ma.last_ == mb.last_), "equal", show(a), " ", show(b));
  mc::step(4);
}

}  // namespace

int main(int argc, char** argv) {
  mc::init(argc, argv);
  using namespace date::literals;
  std::vector<anchor> const starts{2022_y / 2 / 22, 2024_y / 2 / 27, 2022_y / 12 / 29, 1970_y / 1 / 5, 2000_y / 2 / 28};

  mc::group("day sets");
  int const len = mc::tier(6, 10);
  mc::bound("days", len);
  for (auto const& s : starts) {
    for (int n = 1; n <= len; ++n) {
      for (unsigned m = 0; m < (1U << n); ++m) {
        mc::run([&] { return "make " + show(build(s, n, m).second); }, [&] {
          auto const [b, mo] = build(s, n, m);
          check(b, mo);
        });
      }
    }
  }

  mc::group("updates");
  // start: mask over 3 days; then set(day, value) with day -3..6
  int const depth = mc::tier(3, 4);
  mc::bound("updates", depth);
  for (unsigned m0 = 0; m0 < 8; ++m0) {
    mc::sequences(20, 1, depth, [&](std::vector<int> const& ops) {
      if (!mc::thorough() && ops.size() == 3 && m0 != 5 && m0 != 0) return;
      if (mc::thorough() && ops.size() == 4 && m0 != 5) return;
      mc::run([&] { return mc::str("mask ", m0, " set ", mc::seq(ops)); }, [&] {
        auto [b, m] = build(starts[1], 3, m0);
        for (auto const o : ops) {
          auto const d = day(starts[1], o / 2 - 3);
          b.set(d, o % 2 == 1);
          m.first_ = std::min(m.first_, d);
          m.last_ = std::max(m.last_, d);
          if (o % 2 == 1) {
            m.set_.insert(d);
          } else {
            m.set_.erase(d);
          }
        }
        check(b, m);
      });
    });
  }

  mc::group("pairs");
  int const w = mc::tier(3, 5);
  mc::bound("pair days", w);
  for (int n1 = 1; n1 <= w; ++n1) {
    for (int n2 = 1; n2 <= w; ++n2) {
      for (int off = -w - 1; off <= w + 1; ++off) {
        for (unsigned m1 = 0; m1 < (1U << n1); ++m1) {
          for (unsigned m2 = 0; m2 < (1U << n2); ++m2) {
            mc::run([&] { return mc::str(n1, " days ", m1, " with ", n2, " days ", m2, " at offset ", off); },
                    [&] { combine(build(starts[2], n1, m1), build(day(starts[2], off), n2, m2)); });
          }
        }
      }
    }
  }

  mc::group("full width");
  for (int const n : {63, 64, 65, 128, 256, 366, 511, 512}) {
    for (int a = 0; a < n; a += (a < 3 || a > n - 4 || (a + 2) % 64 < 4) ? 1 : 17) {
      mc::run([&] { return mc::str(n, " days, day ", a, " set"); }, [&] {
        std::string bits(n, '0');
        bits[a] = '1';
        auto const s = starts[0];
        auto b = tt::make_bitfield(s, day(s, n - 1), bits.c_str());
        model m{s, day(s, n - 1), {day(s, a)}};
        check(b, m);
        for (int c : {0, 1, a, n - 2, n - 1}) {
          b.set(day(s, c), true);
          m.set_.insert(day(s, c));
        }
        check(b, m);
        // grow a small field to the full width in both directions
        auto g = tt::make_bitfield(day(s, a), day(s, a), "1");
        g.set(s, true);
        g.set(day(s, n - 1), true);
        model mg{s, day(s, n - 1), {s, day(s, a), day(s, n - 1)}};
        check(g, mg);
        auto const l = tt::make_bitfield(s, s, "1");
        auto const r = tt::make_bitfield(day(s, n - 1), day(s, n - 1), "1");
        combine({l, {s, s, {s}}}, {r, {day(s, n - 1), day(s, n - 1), {day(s, n - 1)}}});
        combine({b, m}, {g, mg});
      });
    }
  }
  // far apart: only comparison is defined
  for (int const off : {511, 512, 513, 1000, 40000}) {
    for (unsigned m1 = 0; m1 < 4; ++m1) {
      for (unsigned m2 = 0; m2 < 4; ++m2) {
        mc::run([&] { return mc::str("far apart ", off, " ", m1, " ", m2); }, [&] {
          auto const [a, ma] = build(starts[0], 2, m1);
          auto const [b, mb] = build(day(starts[0], off), 2, m2);
          bool const same = ma.set_ == mb.set_;
          mc::require(a.equivalent(b) == same && b.equivalent(a) == same, "equivalent", show(ma), " ", show(mb));
        });
      }
    }
  }
  return mc::finish();
}
