// A small property-based testing engine with internal (choice-tape) shrinking.
//
// A property is a function of a Src.  Every random choice is one draw from the
// Src; the sequence of draws is the "tape".  In generation mode the draws come
// from a PRNG seeded by (VERIF_SEED, property, sub-property, case index); in
// replay mode they come from a stored tape (missing draws are 0, the simplest
// choice).  A failing tape is shrunk by deleting, zeroing and lowering draws and
// re-running the property in a forked child, so crashes (sanitizer reports,
// signals, non-termination) shrink exactly like assertion failures.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Fail : std::runtime_error { explicit Fail(std::string const& m) : std::runtime_error(m) {} };
struct Discard {};

class Src {
public:
  // draw uniformly from [0,n)
  uint64_t raw(uint64_t n);
  // draw uniformly from [lo,hi]; simplest is lo
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(raw(static_cast<uint64_t>(hi - lo) + 1)); }
  // true with probability num/den; simplest is false
  bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }
  bool flip() { return raw(2) == 1; }
  // element-by-element list control: mean `avg` elements, at most `max`
  bool more(size_t& count, unsigned avg, size_t max);
  template <typename T> T const& pick(std::vector<T> const& v) { return v[raw(v.size())]; }
  size_t idx(size_t n) { return static_cast<size_t>(raw(n)); }
  // weighted choice; simplest is index 0
  size_t weighted(std::vector<unsigned> const& w);

  // signed integer, biased to small magnitudes and to the edges of [lo,hi]
  int64_t integer(int64_t lo, int64_t hi);
  // uniform in [lo,hi] with 53 bit resolution (simplest: lo) ...
  double unit();                       // [0,1), simplest 0
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // "nice" double: mixes small integers, halves, decimals, uniform, log-uniform
  double nice(double mag);
  // any finite double (sign, exponent, mantissa mix)
  double finite();

  void label(std::string const& l) { labels_.insert(l); }
  void nontrivial() { nontrivial_ = true; }
  bool verbose() const { return verbose_; }
  std::ostream& note() { return notes_; }
  uint64_t index() const { return index_; }
  bool thorough() const { return thorough_; }

  // engine side
  std::vector<uint64_t> tape_;
  size_t pos_ = 0;
  bool replay_ = false;
  uint64_t st_[2] = {1, 2};
  uint64_t index_ = 0;
  bool verbose_ = false;
  bool thorough_ = false;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
  std::ostringstream notes_;
  uint64_t next();
};

typedef void (*Body)(Src&);

struct Prop {
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  std::string rule;
  Body body;
  int per_worker; // 1: all cases on a single worker; 2: every case in a process of its own (process-wide state)
};

std::vector<Prop>& props();

struct Reg {
  Reg(const char* n, uint64_t q, uint64_t t, const char* rule, Body b, int pw = 0)
  { Prop p = {n, q, t, rule, b, pw}; props().push_back(p); }
};

// called once in each worker process before its first case
typedef void (*Init)();
extern Init g_init;
struct RegInit { explicit RegInit(Init i) { g_init = i; } };

// scratch directory private to the process (created lazily, removed by the engine)
std::string scratch();

std::string show(std::string const& s); // quoted / escaped

template <typename T> std::string str(T const& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

} // namespace pbt

#define PBT_PROP(NAME, QUICK, THOROUGH, RULE) \
  static void pbt_body_##NAME(pbt::Src& s); \
  static pbt::Reg pbt_reg_##NAME(#NAME, QUICK, THOROUGH, RULE, pbt_body_##NAME); \
  static void pbt_body_##NAME(pbt::Src& s)

#define PBT_INIT() \
  static void pbt_init_fn(); \
  static pbt::RegInit pbt_init_reg(pbt_init_fn); \
  static void pbt_init_fn()

#define PBT_PROP_ISOLATED(NAME, QUICK, THOROUGH, RULE) \
  static void pbt_body_##NAME(pbt::Src& s); \
  static pbt::Reg pbt_reg_##NAME(#NAME, QUICK, THOROUGH, RULE, pbt_body_##NAME, 2); \
  static void pbt_body_##NAME(pbt::Src& s)

#define REQUIRE(COND, MSG) \
  do { if (!(COND)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << "[" #COND "] " << MSG << " (" << __FILE__ << ":" << __LINE__ << ")"; throw pbt::Fail(pbt_o.str()); } } while (0)

#define REQUIRE_EQ(A, B, MSG) \
  do { auto const& pbt_a = (A); auto const& pbt_b = (B); if (!(pbt_a == pbt_b)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << "[" #A " == " #B "] got " << pbt_a << ", expected " << pbt_b << ": " << MSG << " (" << __FILE__ << ":" << __LINE__ << ")"; throw pbt::Fail(pbt_o.str()); } } while (0)

#endif
