// C10: time stamps
#include "vital_common.hpp"
#include <vital/types/timestamp.h>
#include <cmath>
#include <limits>
using namespace kwiver::vital;
using pbt::Src;
PBT_INIT() { quiet_all(); }
namespace {
struct M { bool ht, hf; int64_t t, f; int d; };
struct P { timestamp ts; M m; };
int64_t const LO = std::numeric_limits<int64_t>::min(), HI = std::numeric_limits<int64_t>::max();
int64_t val(Src& s) { return s.chance(1, 3) ? s.range(-2, 3) : s.integer(LO, HI); }
void check(P const& p)
{
  REQUIRE_EQ(p.ts.has_valid_time(), p.m.ht, "valid time"); REQUIRE_EQ(p.ts.has_valid_frame(), p.m.hf, "valid frame"); REQUIRE_EQ(p.ts.is_valid(), (p.m.ht && p.m.hf), "valid");
  if (p.m.ht) { REQUIRE_EQ(p.ts.get_time_usec(), p.m.t, "time"); double x = p.ts.get_time_seconds(), y = double((long double)p.m.t * 1e-6L); REQUIRE(std::fabs(x - y) <= 1e-15 * std::fabs(y), "seconds " << x << " of " << p.m.t << " usec"); }
  if (p.m.hf) REQUIRE_EQ(p.ts.get_frame(), p.m.f, "frame");
  REQUIRE_EQ(p.ts.get_time_domain_index(), p.m.d, "domain");
}
int order(M const& a, M const& b) // -1, 0, 1, or 2: not comparable
{
  if (a.d != b.d) return 2;
  if (a.ht && b.ht) return a.t < b.t ? -1 : a.t > b.t;
  if (a.hf && b.hf) return a.f < b.f ? -1 : a.f > b.f;
  return 2;
}
}
PBT_PROP(timestamp_model, 200000, 10000000, "two time stamps that are comparable by time with different frames, or by frame only, or not comparable")
{
  std::vector<P> v; size_t n = 0;
  size_t const k = s.range(2, 4);
  for (size_t i = 0; i < k; ++i)
  {
    P p; p.m = {false, false, 0, 0, 0};
    if (s.flip()) { int64_t t = val(s), f = val(s); p.ts = timestamp(t, f); p.m = {true, true, t, f, 0}; }
    check(p);
    n = 0;
    while (s.more(n, 2, 8))
      switch (s.range(0, 4))
      {
      case 0: p.m.t = val(s); p.m.ht = true; REQUIRE(&p.ts.set_time_usec(p.m.t) == &p.ts, "returns itself"); check(p); break;
      case 1: p.m.f = val(s); p.m.hf = true; REQUIRE(&p.ts.set_frame(p.m.f) == &p.ts, "returns itself"); check(p); break;
      case 2: p.m.d = s.range(0, 1); p.ts.set_time_domain_index(p.m.d); check(p); break;
      case 3: p.m.ht = p.m.hf = false; p.ts.set_invalid(); check(p); break;
      default:
      {
        double sec = s.flip() ? double(s.integer(-100000000, 100000000)) / 1000 : s.real(-9e12, 9e12);
        p.ts.set_time_seconds(sec); REQUIRE(p.ts.has_valid_time(), "time set in seconds");
        long double e = (long double)p.ts.get_time_usec() - (long double)sec * 1e6L;
        REQUIRE(std::fabs((double)e) <= 1.0 + std::fabs(sec * 1e6) * 2.3e-16, sec << " s became " << p.ts.get_time_usec() << " usec");
        p.m.ht = true; p.m.t = p.ts.get_time_usec(); check(p);
      }
      }
    s.note() << "ts " << i << ": t " << (p.m.ht ? std::to_string(p.m.t) : "-") << " f " << (p.m.hf ? std::to_string(p.m.f) : "-") << " d " << p.m.d << "\n";
    std::string pp = p.ts.pretty_print();
    REQUIRE(pp.find("f: " + (p.m.hf ? std::to_string(p.m.f) : std::string("<inv>"))) != std::string::npos, "printed as " << pp);
    if (!p.m.ht) REQUIRE(pp.find("t: <inv>") != std::string::npos, "printed as " << pp);
    else if (pp.find("out of bounds") == std::string::npos) REQUIRE(pp.find("t: " + std::to_string(p.m.t) + " ") != std::string::npos, "printed as " << pp);
    REQUIRE(pp.find("d: " + std::to_string(p.m.d)) != std::string::npos, "printed as " << pp);
    std::ostringstream o; o << p.ts; REQUIRE_EQ(o.str(), pp, "stream output");
    v.push_back(p);
    if (s.flip()) { P q = p; v.push_back(q); check(v.back()); }
  }
  for (auto const& a : v) for (auto const& b : v)
  {
    int o = order(a.m, b.m);
    if (o == 2 || !a.m.ht || (a.m.f < b.m.f) != (a.m.t < b.m.t)) s.nontrivial();
    REQUIRE_EQ(a.ts < b.ts, o == -1, "operator< of " << a.ts << " and " << b.ts);
    REQUIRE_EQ(a.ts > b.ts, o == 1, "operator> of " << a.ts << " and " << b.ts);
    REQUIRE_EQ(a.ts == b.ts, o == 0, "operator== of " << a.ts << " and " << b.ts);
    REQUIRE_EQ(a.ts != b.ts, (o == -1 || o == 1), "operator!= of " << a.ts << " and " << b.ts);
  }
}
