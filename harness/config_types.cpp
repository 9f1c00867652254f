// C03: typed access to config values
#include "vital_common.hpp"
#include <vital/config/config_block.h>
#include <vital/types/timestamp_config.h>
#include <cmath>
#include <limits>

using namespace kwiver::vital;
using pbt::Src;
using pbt::show;

PBT_INIT() { quiet_all(); }

namespace {

template <typename T> void same(T got, T want, std::string const& what) { REQUIRE(got == want, what << ": got " << got << " want " << want); }

template <typename T>
void round_trip(Src& s, T v, char const* tname)
{
  config_block_sptr root = config_block::empty_config();
  config_block_sptr view = root->subblock_view("blk");
  bool via_view = s.flip(), read_view = s.flip(), descr = s.flip();
  config_block_sptr w = via_view ? view : root, r = read_view ? view : root;
  std::string wk = via_view ? "key" : "blk:key", rk = read_view ? "key" : "blk:key";
  s.note() << tname << " " << pbt::str(v) << (descr ? " with description" : "") << "\n";
  if (descr) w->set_value(wk, v, "some text"); else w->set_value(wk, v);
  T got = r->get_value<T>(rk);
  REQUIRE(got == v, tname << " stored as " << show(r->get_value<std::string>(rk)) << ": got " << pbt::str(got) << " for " << pbt::str(v));
  T other = T();
  T got2 = r->get_value<T>(rk, other);
  REQUIRE(got2 == v, tname << " read with a default: got " << pbt::str(got2) << " for " << pbt::str(v));
  // copying keeps it as well
  T got3 = root->subblock("blk")->get_value<T>("key");
  REQUIRE(got3 == v, tname << " read from a copy: got " << pbt::str(got3) << " for " << pbt::str(v));
}

template <typename T>
void rejects(config_block_sptr c, std::string const& k, T def, char const* tname)
{
  bool threw = false; T v = T();
  try { v = c->get_value<T>(k); } catch (bad_config_block_cast_exception const&) { threw = true; }
  REQUIRE(threw, show(c->get_value<std::string>(k)) << " was accepted as " << tname << " (" << pbt::str(v) << ")");
  T d = c->get_value<T>(k, def);
  REQUIRE(d == def, show(c->get_value<std::string>(k)) << " read as " << tname << " with default " << pbt::str(def) << " gave " << pbt::str(d));
}

template <typename T>
void accepts(config_block_sptr c, std::string const& k, T want, T def, char const* tname)
{
  T v = c->get_value<T>(k);
  REQUIRE(v == want, show(c->get_value<std::string>(k)) << " read as " << tname << " gave " << pbt::str(v) << ", expected " << pbt::str(want));
  v = c->get_value<T>(k, def);
  REQUIRE(v == want, show(c->get_value<std::string>(k)) << " read as " << tname << " with a default gave " << pbt::str(v) << ", expected " << pbt::str(want));
}

std::string mixed_case(Src& s, std::string w)
{
  for (char& c : w) if (s.flip()) c = static_cast<char>(toupper(c));
  return w;
}

} // namespace

PBT_PROP(value_round_trip, 60000, 3000000, "a numeric value that needs more than 6 digits, or a boolean/timestamp/string")
{
  switch (s.range(0, 9))
  {
  case 0: round_trip<bool>(s, s.flip(), "bool"); s.nontrivial(); break;
  case 1: { int v = static_cast<int>(s.integer(INT32_MIN, INT32_MAX)); if (std::abs((double)v) > 999999) s.nontrivial(); round_trip<int>(s, v, "int"); break; }
  case 2: { unsigned v = static_cast<unsigned>(s.integer(0, UINT32_MAX)); if (v > 999999) s.nontrivial(); round_trip<unsigned>(s, v, "unsigned"); break; }
  case 3: { int64_t v = s.integer(INT64_MIN, INT64_MAX); if (v > 999999 || v < -999999) s.nontrivial(); round_trip<int64_t>(s, v, "int64"); break; }
  case 4: { uint64_t v = static_cast<uint64_t>(s.integer(INT64_MIN, INT64_MAX)); s.nontrivial(); round_trip<uint64_t>(s, v, "uint64"); break; }
  case 5: { short v = static_cast<short>(s.integer(INT16_MIN, INT16_MAX)); round_trip<short>(s, v, "short"); break; }
  case 6: { double v = s.finite(); s.nontrivial(); s.label("double"); round_trip<double>(s, v, "double"); break; }
  case 7: { float v = static_cast<float>(s.finite()); if (!std::isfinite(v)) v = 1.25f; s.nontrivial(); s.label("float"); round_trip<float>(s, v, "float"); break; }
  case 8:
  { // strings come back without leading and trailing blanks, otherwise unchanged
    std::string v; size_t n = 0;
    while (s.more(n, 8, 60)) v += s.chance(1, 4) ? ' ' : static_cast<char>(s.range(1, 255));
    config_block_sptr c = config_block::empty_config();
    if (s.flip()) c->set_value("k", v); else c->set_value("k", v, std::string("d"));
    size_t b = v.find_first_not_of(" \t\n\v\f\r"), e = v.find_last_not_of(" \t\n\v\f\r");
    std::string want = b == std::string::npos ? "" : v.substr(b, e - b + 1);
    s.note() << "string " << show(v) << "\n";
    REQUIRE_EQ(c->get_value<std::string>("k"), want, "string value");
    if (want.size() > 1) s.nontrivial();
    break;
  }
  default:
  {
    timestamp t(s.integer(INT64_MIN, INT64_MAX), s.integer(INT64_MIN, INT64_MAX));
    config_block_sptr c = config_block::empty_config();
    c->set_value("ts", t);
    timestamp u = c->get_value<timestamp>("ts");
    s.note() << "timestamp " << t.get_time_usec() << " " << t.get_frame() << "\n";
    REQUIRE(u.is_valid() && u.get_time_usec() == t.get_time_usec() && u.get_frame() == t.get_frame(), "timestamp stored as " << show(c->get_value<std::string>("ts")) << " read as " << u.get_time_usec() << " " << u.get_frame());
    s.nontrivial();
  }
  }
}

PBT_PROP(boolean_spellings, 30000, 1000000, "text that is one of the boolean words or one edit away from it")
{
  static const std::vector<std::string> words = {"true", "yes", "1", "false", "no", "0"};
  size_t i = s.idx(words.size());
  std::string w = mixed_case(s, words[i]);
  bool near = s.chance(1, 2);
  if (near)
  {
    size_t p = s.idx(w.size());
    switch (s.range(0, 4))
    {
    case 0: w[p] = static_cast<char>(s.range(33, 126)); break;
    case 1: w.erase(p, 1); break;
    case 2: w.insert(p, 1, static_cast<char>(s.range(33, 126))); break;
    case 3: w += " " + s.pick(words); break;
    default: { static const std::vector<std::string> o = {"on", "off", "t", "f", "y", "n", "2", "00", "01", "", "-1", "1.0", "yess", "tru"}; w = s.pick(o); }
    }
  }
  std::string low; for (char c : w) low += (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
  bool t = low == "true" || low == "yes" || low == "1", f = low == "false" || low == "no" || low == "0";
  config_block_sptr c = config_block::empty_config();
  c->set_value("k", s.flip() ? w : "  " + w + "\t");
  s.note() << show(w) << "\n";
  s.nontrivial();
  bool def = s.flip();
  if (t || f) { s.label("boolean"); accepts<bool>(c, "k", t, def, "bool"); }
  else { s.label("not boolean"); rejects<bool>(c, "k", def, "bool"); }
}

PBT_PROP(text_to_number, 60000, 3000000, "numeric text with sign, zeros, exponent, blanks or trailing words; or text that is no number, or out of range")
{
  config_block_sptr c = config_block::empty_config();
  s.nontrivial();
  int kind = s.range(0, 4);
  if (kind == 0)
  { // integer text
    __int128 v = s.integer(INT64_MIN, INT64_MAX);
    if (s.chance(1, 4)) v *= static_cast<int64_t>(s.range(2, 1000));
    bool neg = v < 0; unsigned __int128 a = neg ? -v : v; std::string d;
    do { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(a % 10))); a /= 10; } while (a);
    std::string z(s.range(0, 3), '0');
    std::string t = (neg ? "-" : s.chance(1, 4) ? "+" : "") + z + d;
    bool trailing = s.chance(1, 4);
    if (trailing) t += " trailing words";
    if (s.chance(1, 4)) t = " \t" + t + " ";
    c->set_value("k", t);
    s.note() << show(t) << "\n";
    int di = static_cast<int>(s.range(-5, 5));
    if (v >= INT32_MIN && v <= INT32_MAX) accepts<int>(c, "k", static_cast<int>(v), di, "int"); else { s.label("int overflow"); rejects<int>(c, "k", di, "int"); }
    if (v >= INT64_MIN && v <= INT64_MAX) accepts<int64_t>(c, "k", static_cast<int64_t>(v), di, "int64"); else { s.label("int64 overflow"); rejects<int64_t>(c, "k", di, "int64"); }
    if (v >= INT16_MIN && v <= INT16_MAX) accepts<short>(c, "k", static_cast<short>(v), short(di), "short"); else rejects<short>(c, "k", short(di), "short");
    if (!neg) { if (v <= UINT32_MAX) accepts<unsigned>(c, "k", static_cast<unsigned>(v), 7u, "unsigned"); else rejects<unsigned>(c, "k", 7u, "unsigned"); }
    accepts<double>(c, "k", strtod(((neg ? "-" : "") + d).c_str(), nullptr), 3.5, "double");
  }
  else if (kind == 1)
  { // decimal text
    std::string t = s.flip() ? "-" : "";
    size_t n = 0; std::string ip, fp;
    while (s.more(n, 3, 18)) ip += static_cast<char>('0' + s.range(0, 9));
    n = 0; while (s.more(n, 4, 18)) fp += static_cast<char>('0' + s.range(0, 9));
    if (ip.empty() && fp.empty()) ip = "0";
    t += ip; if (!fp.empty() || s.flip()) t += "." + fp;
    if (s.flip()) { t += s.flip() ? "e" : "E"; if (s.flip()) t += s.flip() ? "-" : "+"; t += std::to_string(s.range(0, 200)); }
    c->set_value("k", s.chance(1, 4) ? t + " units" : t);
    s.note() << show(t) << "\n";
    double want = strtod(t.c_str(), nullptr);
    accepts<double>(c, "k", want, -3.5, "double");
    float wf = strtof(t.c_str(), nullptr);
    if (std::isfinite(wf)) accepts<float>(c, "k", wf, -3.5f, "float"); else { s.label("float overflow"); rejects<float>(c, "k", -3.5f, "float"); }
  }
  else if (kind == 2)
  { // no number at all
    static const std::vector<std::string> bad = {"", "abc", "-", "+", "x12", "--5", "$1", "true", "_1", "/3", ".", "e5", "one 1", "#4", "\"5\"", "(1)", ",5"};
    std::string t = s.pick(bad);
    if (s.flip() && !t.empty()) t += static_cast<char>(s.range('a', 'z'));
    c->set_value("k", t);
    s.note() << show(t) << "\n";
    s.label("not a number");
    rejects<int>(c, "k", static_cast<int>(s.range(-9, 9)), "int");
    rejects<int64_t>(c, "k", s.range(-9, 9), "int64");
    rejects<unsigned>(c, "k", 7u, "unsigned");
    rejects<double>(c, "k", s.nice(100), "double");
    bool threw = false; try { c->get_value<timestamp>("k"); } catch (bad_config_block_cast_exception const&) { threw = true; }
    REQUIRE(threw, show(t) << " accepted as a timestamp");
    timestamp def(12, 34), got = c->get_value<timestamp>("k", def);
    REQUIRE(got.get_time_usec() == 12 && got.get_frame() == 34, "default timestamp not returned for " << show(t));
  }
  else if (kind == 3)
  { // incomplete timestamps
    std::string t = std::to_string(s.integer(INT64_MIN, INT64_MAX));
    bool full = s.flip(); int64_t fr = s.integer(INT64_MIN, INT64_MAX);
    std::string u = full ? t + std::string(s.range(1, 3), ' ') + std::to_string(fr) : s.flip() ? t : t + " x";
    c->set_value("k", u);
    s.note() << show(u) << "\n";
    bool threw = false; timestamp v;
    try { v = c->get_value<timestamp>("k"); } catch (bad_config_block_cast_exception const&) { threw = true; }
    REQUIRE_EQ(threw, !full, "timestamp text " << show(u));
    if (full) REQUIRE(std::to_string(v.get_time_usec()) == t && v.get_frame() == fr, "timestamp text " << show(u));
  }
  else
  { // absent keys: default returned as given, plain read throws the missing-key error
    s.label("absent");
    c->set_value("kk", 5);
    double d = s.nice(1e6); int i = static_cast<int>(s.integer(INT32_MIN, INT32_MAX)); bool b = s.flip();
    REQUIRE(c->get_value<double>("k", d) == d && c->get_value<int>("k", i) == i && c->get_value<bool>("k", b) == b, "default of an absent key");
    int n = 0;
    try { c->get_value<int>("k"); } catch (no_such_configuration_value_exception const&) { ++n; }
    try { c->get_value<bool>("k"); } catch (no_such_configuration_value_exception const&) { ++n; }
    try { c->get_value<double>("k"); } catch (no_such_configuration_value_exception const&) { ++n; }
    REQUIRE_EQ(n, 3, "absent key must raise the missing-key error for every type");
    s.note() << "absent key\n";
  }
}
