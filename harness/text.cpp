// C29: text helpers of kwsys::SystemTools against small models.
#include "pbt.hpp"
#include <kwsys/SystemTools.hxx>
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <memory>
using pbt::Src; using pbt::Discard; using pbt::Fail;
typedef kwsys::SystemTools ST;
typedef std::vector<std::string> Strs;

namespace {
// an own copy of just the right size, so that reading beyond the end is noticed
struct C { std::unique_ptr<char[]> p; explicit C(std::string const& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); } operator const char*() const { return p.get(); } };
struct Owned { char* p; explicit Owned(char* q) : p(q) {} ~Owned() { delete[] p; } std::string str() const { return p ? p : "NULL"; } };

std::string word(Src& s, std::string const& alphabet, unsigned avg, size_t max) { std::string r; size_t n = 0; while (s.more(n, avg, max)) r += alphabet[s.idx(alphabet.size())]; return r; }
std::string text(Src& s, unsigned avg = 6, size_t max = 40)
{
  static const Strs alphabets = { "ab", "aA bB", "a1 _-/", "ABCDEFGabcdefg0123456789", "x\n\r\t y", ".;:,", "\xc3\xa4\xff\x80" "aZ" };
  if (s.chance(1, 6)) { std::string r; size_t n = 0; while (s.more(n, avg, max)) r += char(s.range(1, 255)); return r; }
  return word(s, s.pick(alphabets), avg, max);
}
bool low(char c) { return c >= 'a' && c <= 'z'; }
bool up(char c) { return c >= 'A' && c <= 'Z'; }
bool alpha(char c) { return low(c) || up(c); }
bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
char lower(char c) { return up(c) ? char(c + 32) : c; }
char upper(char c) { return low(c) ? char(c - 32) : c; }
std::string map(std::string t, char (*f)(char)) { for (char& c : t) c = f(c); return t; }
std::string list(Strs const& v) { std::string r = "["; for (auto const& x : v) r += pbt::show(x) + " "; return r + "]"; }
// part of a text, or another text
std::string piece(Src& s, std::string const& t, unsigned avg = 2)
{
  if (t.empty() || s.chance(1, 4)) return text(s, avg, 6);
  size_t b = s.idx(t.size()), n = s.idx(std::min<size_t>(t.size() - b, 5) + 1); return t.substr(b, n);
}
}

PBT_PROP(letters, 60000, 1500000, "a letter changes")
{
  std::string t = text(s); s.note() << pbt::show(t);
  REQUIRE_EQ(pbt::show(ST::LowerCase(t)), pbt::show(map(t, lower)), "lower case");
  REQUIRE_EQ(pbt::show(ST::UpperCase(t)), pbt::show(map(t, upper)), "upper case");
  std::string cap = map(t, lower); if (!t.empty()) cap[0] = upper(t[0]);
  REQUIRE_EQ(pbt::show(ST::Capitalized(t)), pbt::show(cap), "capitalized");
  std::string w = t, u = t, sp;
  for (size_t k = 0; k < t.size(); ++k) { if (k == 0 || space(t[k - 1])) { w[k] = upper(t[k]); u[k] = lower(t[k]); } if (k && up(t[k]) && !space(t[k - 1]) && !up(t[k - 1])) sp += ' '; sp += t[k]; }
  REQUIRE_EQ(pbt::show(ST::CapitalizedWords(t)), pbt::show(w), "capitalized words");
  REQUIRE_EQ(pbt::show(ST::UnCapitalizedWords(t)), pbt::show(u), "uncapitalized words");
  REQUIRE_EQ(pbt::show(ST::AddSpaceBetweenCapitalizedWords(t)), pbt::show(sp), "spaces between words");
  if (map(t, lower) != t || map(t, upper) != t) s.nontrivial();
  std::string id; for (char c : t) id += alpha(c) || (c >= '0' && c <= '9') || c == '_' ? c : '_'; if (!t.empty() && t[0] >= '0' && t[0] <= '9') id = "_" + id;
  REQUIRE_EQ(ST::MakeCidentifier(t), id, "identifier"); REQUIRE_EQ(ST::MakeCindentifier(t), id, "identifier");
  // comparison without case
  std::string o = s.flip() ? t : text(s); if (s.flip()) for (char& c : o) if (s.flip()) c = s.flip() ? upper(c) : lower(c);
  if (s.chance(1, 4)) o += text(s, 2, 3);
  C a(t), b(o); std::string la = map(t, lower), lb = map(o, lower); int r = ST::Strucmp(a, b);
  REQUIRE_EQ(r == 0, la == lb, "equal without case: " << pbt::show(o));
  if (la != lb)
  { // by the first letter that differs; for bytes above 127 either reading of them is fine
    size_t k = 0; while (k < la.size() && k < lb.size() && la[k] == lb[k]) ++k; int x = k < la.size() ? la[k] : 0, y = k < lb.size() ? lb[k] : 0;
    if (x >= 0 && y >= 0) REQUIRE_EQ(r > 0, x > y, "order without case: " << pbt::show(o));
    int q = ST::Strucmp(b, a); REQUIRE((r > 0) == (q < 0), "order without case is antisymmetric");
  }
}

PBT_PROP(characters, 60000, 1500000, "a character is found")
{
  std::string t = text(s), set = piece(s, t, 3); C ct(t), cs(set); s.note() << pbt::show(t) << " " << pbt::show(set);
  char c = t.empty() || s.chance(1, 4) ? char(s.range(1, 255)) : t[s.idx(t.size())];
  REQUIRE_EQ(ST::CountChar(ct, c), size_t(std::count(t.begin(), t.end(), c)), "count of " << pbt::show(std::string(1, c)));
  std::string kept, hex, repl, esc; char by = s.flip() && !set.empty() ? set[s.idx(set.size())] : char(s.range(1, 255)), ec = s.pick(std::vector<char>{ '\\', '%', 'a' });
  bool found = false;
  for (char x : t) { bool in = set.find(x) != std::string::npos; found |= in; if (!in) kept += x; if ((x >= '0' && x <= '9') || (x >= 'A' && x <= 'F')) hex += x; repl += in ? by : x; if (in) esc += ec; esc += x; }
  if (found) s.nontrivial();
  { Owned o(ST::RemoveChars(ct, cs)); REQUIRE_EQ(pbt::show(o.str()), pbt::show(kept), "removed"); }
  { Owned o(ST::RemoveCharsButUpperHex(ct)); REQUIRE_EQ(pbt::show(o.str()), pbt::show(hex), "hexadecimal digits"); }
  { C w(t); char* q = ST::ReplaceChars(w.p.get(), cs, by); REQUIRE(q == w.p.get(), "in place"); REQUIRE_EQ(pbt::show(q), pbt::show(repl), "replaced"); }
  REQUIRE_EQ(pbt::show(ST::EscapeChars(ct, cs, ec)), pbt::show(esc), "escaped");
  std::string esc2; for (char x : t) { if (set.find(x) != std::string::npos) esc2 += '\\'; esc2 += x; }
  REQUIRE_EQ(pbt::show(ST::EscapeChars(ct, cs)), pbt::show(esc2), "escaped");
  REQUIRE_EQ(pbt::show(ST::EscapeChars(ct, nullptr)), pbt::show(t), "nothing to escape"); REQUIRE_EQ(ST::EscapeChars(nullptr, cs), "", "nothing escaped");
  REQUIRE(ST::CountChar(nullptr, c) == 0 && !ST::RemoveChars(nullptr, cs) && !ST::RemoveCharsButUpperHex(nullptr) && !ST::ReplaceChars(nullptr, cs, by), "without a text");
}

PBT_PROP(pieces, 60000, 1500000, "the piece occurs")
{
  std::string t = text(s), p = piece(s, t); if (s.chance(1, 5)) p = s.flip() ? t : s.flip() ? t + "x" : "x" + t; C ct(t), cp(p); s.note() << pbt::show(t) << " " << pbt::show(p);
  if (t.find(p) != std::string::npos) s.nontrivial();
  bool st = t.compare(0, p.size(), p) == 0 && t.size() >= p.size(), en = t.size() >= p.size() && t.compare(t.size() - p.size(), p.size(), p) == 0;
  REQUIRE_EQ(ST::StringStartsWith(ct.p.get(), cp), st, "starts"); REQUIRE_EQ(ST::StringStartsWith(t, cp), st, "starts");
  REQUIRE_EQ(ST::StringEndsWith(ct.p.get(), cp), en, "ends"); REQUIRE_EQ(ST::StringEndsWith(t, cp), en, "ends");
  const char* l = ST::FindLastString(ct, cp); size_t pos = t.rfind(p);
  if (pos == std::string::npos) REQUIRE(!l, "last occurrence where none is"); else REQUIRE_EQ(l - ct.p.get(), long(pos), "last occurrence");
  const char* none = nullptr;
  REQUIRE(!ST::StringStartsWith(none, cp) && !ST::StringStartsWith(ct.p.get(), none) && !ST::StringStartsWith(t, none) && !ST::StringEndsWith(none, cp) && !ST::StringEndsWith(ct.p.get(), none) && !ST::StringEndsWith(t, none) && !ST::FindLastString(none, cp) && !ST::FindLastString(ct, none), "without a text");
  { Owned o(ST::DuplicateString(ct)); REQUIRE_EQ(pbt::show(o.str()), pbt::show(t), "duplicate"); REQUIRE(o.p != ct.p.get(), "a duplicate of its own"); REQUIRE(!ST::DuplicateString(nullptr), "duplicate of nothing"); }
  std::string u = text(s); C cu(u); bool h1 = s.chance(7, 8), h2 = s.chance(7, 8), h3 = s.chance(7, 8); 
  const char *a = h1 ? ct.p.get() : none, *b = h2 ? cp.p.get() : none, *c = h3 ? cu.p.get() : none;
  { Owned o(ST::AppendStrings(a, b)); REQUIRE_EQ(pbt::show(o.str()), pbt::show(h1 || h2 ? (h1 ? t : "") + (h2 ? p : "") : "NULL"), "appended"); }
  { Owned o(ST::AppendStrings(a, b, c)); REQUIRE_EQ(pbt::show(o.str()), pbt::show(h1 || h2 || h3 ? (h1 ? t : "") + (h2 ? p : "") + (h3 ? u : "") : "NULL"), "appended three"); }
  // cropping keeps both ends and shortens in the middle
  size_t n = s.idx(t.size() + 3); std::string cr = ST::CropString(t, n);
  if (n == 0 || n >= t.size()) REQUIRE_EQ(pbt::show(cr), pbt::show(t), "not cropped");
  else
  {
    REQUIRE_EQ(cr.size(), n, "length cropped to " << n); size_t dots = std::min<size_t>(3, n > 2 ? n - 2 : 0), front = n / 2 - (dots > 1 ? 1 : 0), back = n - front - dots;
    REQUIRE_EQ(pbt::show(cr), pbt::show(t.substr(0, front) + std::string(dots, '.') + t.substr(t.size() - back)), "cropped to " << n);
  }
}

PBT_PROP(replaced, 60000, 1500000, "the text to replace occurs")
{
  std::string t = text(s, 8, 60), p = piece(s, t), w = s.flip() ? p + text(s, 1, 3) : text(s, 2, 6); bool plain = true;
  if (s.chance(1, 4)) { plain = false; for (std::string* x : { &t, &p, &w }) for (char& c : *x) if (s.chance(1, 4)) c = '\0'; }   // texts may hold any character
  if (s.chance(1, 8)) p = std::string(s.range(1, 2) == 1 ? "" : "a");
  s.note() << pbt::show(t) << " " << pbt::show(p) << " by " << pbt::show(w);
  std::string want; size_t at = 0, k; if (!p.empty()) while ((k = t.find(p, at)) != std::string::npos) { want += t.substr(at, k - at) + w; at = k + p.size(); s.nontrivial(); } want += t.substr(at);
  std::string r = t; ST::ReplaceString(r, p, w); REQUIRE_EQ(pbt::show(r), pbt::show(want), "replaced");
  if (plain) { C cp(p), cw(w); r = t; ST::ReplaceString(r, cp.p.get(), cw.p.get()); REQUIRE_EQ(pbt::show(r), pbt::show(want), "replaced"); 
    std::string gone; at = 0; if (!p.empty()) while ((k = t.find(p, at)) != std::string::npos) { gone += t.substr(at, k - at); at = k + p.size(); } gone += t.substr(at);
    r = t; ST::ReplaceString(r, cp.p.get(), static_cast<const char*>(nullptr)); REQUIRE_EQ(pbt::show(r), pbt::show(gone), "replaced by nothing"); }
}

PBT_PROP(split, 60000, 1500000, "more than two parts")
{
  char sep = s.pick(std::vector<char>{ '/', ',', '\n', ' ', 'a', '\xff' }); std::string t; size_t n = 0;
  while (s.more(n, 5, 20)) { t += word(s, "abAB1", 2, 4); if (s.chance(3, 4)) t += s.chance(1, 8) ? std::string("\r") : std::string(size_t(s.chance(1, 6) ? 2 : 1), sep); if (s.chance(1, 8)) t += "\r\n"; }
  s.note() << pbt::show(t) << " at " << pbt::show(std::string(1, sep));
  { // lines
    Strs want, l = { "before" }; want = l; std::string cur; bool complete = true;
    for (char c : t) { if (c == sep) { want.push_back(cur); cur.clear(); complete = true; } else { cur += c; complete = false; } } if (!complete) want.push_back(cur);
    REQUIRE_EQ(ST::Split(t, l, sep), complete, "ended by a separator"); REQUIRE_EQ(list(l), list(want), "fields"); if (want.size() > 3) s.nontrivial();
    want = l = Strs{ "before" }; cur.clear(); complete = true;
    for (char c : t) { if (c == '\n') { if (!cur.empty() && *cur.rbegin() == '\r') cur.erase(cur.size() - 1); want.push_back(cur); cur.clear(); complete = true; } else { cur += c; complete = false; } } if (!complete) want.push_back(cur);
    REQUIRE_EQ(ST::Split(t, l), complete, "ended by a newline"); REQUIRE_EQ(list(l), list(want), "lines");
  }
  { // parts: joined they are the text, and no separator is left inside of a part (an empty part is joined with the one behind it)
    bool path = s.flip(); std::vector<kwsys::String> v = ST::SplitString(t, sep, path); Strs p(v.begin(), v.end()); std::string rest = t; s.note() << (path ? " path" : "");
    if (t.empty()) { REQUIRE(p.empty(), "parts of an empty text"); return; }
    if (path && t[0] == '/') { REQUIRE(!p.empty() && p[0] == "/", "root"); p.erase(p.begin()); rest.erase(0, 1); }
    std::string j; for (size_t k = 0; k < p.size(); ++k) { j += (k ? std::string(1, sep) : "") + p[k]; REQUIRE(p[k].find(sep, 1) == std::string::npos, "a separator in " << list(p)); }
    REQUIRE_EQ(pbt::show(j), pbt::show(rest), "joined parts");
    if (rest.find(std::string(2, sep)) == std::string::npos && (rest.empty() || rest[0] != sep)) REQUIRE_EQ(p.size(), size_t(std::count(rest.begin(), rest.end(), sep)) + 1, "number of parts of " << list(p));
  }
}

namespace {
int estimate(const char* f, ...) { va_list a; va_start(a, f); int r = ST::EstimateFormatLength(f, a); va_end(a); return r; }
}
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
namespace {
struct Arg { int kind; int i; long l; long long ll; double d; long double ld; std::string s; bool null; };
template <int K> struct Call   // passes the arguments on as what they are, one more in each step
{
  template <typename... T> static void go(const char* f, Arg* a, int n, int& g, int& w, T... t)
  {
    if (K == n) { g = estimate(f, t...); w = snprintf(nullptr, 0, f, t...); return; }
    switch (a[K].kind)
    {
    case 0: Call<K + 1>::go(f, a, n, g, w, t..., a[K].i); break; case 1: Call<K + 1>::go(f, a, n, g, w, t..., a[K].l); break; case 2: Call<K + 1>::go(f, a, n, g, w, t..., a[K].ll); break;
    case 3: Call<K + 1>::go(f, a, n, g, w, t..., a[K].d); break; case 4: Call<K + 1>::go(f, a, n, g, w, t..., a[K].ld); break;
    default: Call<K + 1>::go(f, a, n, g, w, t..., a[K].null ? static_cast<const char*>(nullptr) : a[K].s.c_str()); break;
    }
  }
};
template <> struct Call<3> { template <typename... T> static void go(const char* f, Arg*, int, int& g, int& w, T... t) { g = estimate(f, t...); w = snprintf(nullptr, 0, f, t...); } };
}
#pragma GCC diagnostic pop
PBT_PROP(formats, 60000, 1000000, "an argument longer than its directive")
{ // up to three directives, arguments of random kinds
  Arg a[3]; std::string f; int n = int(s.range(0, 3));
  for (int k = 0; k < 3; ++k) a[k] = Arg{ 0, 0, 0, 0, 0, 0, "", false };
  f = word(s, "ab %", 2, 5); { std::string g; for (char c : f) { g += c; if (c == '%') g += c; } f = g; }
  for (int k = 0; k < n; ++k)
  {
    Arg& x = a[k]; x.kind = int(s.range(0, 5)); std::string flags = word(s, "-+ #0", 1, 2), width = s.chance(1, 3) ? std::to_string(s.range(1, s.chance(1, 4) ? 400 : 20)) : "", prec = s.chance(1, 3) ? "." + (s.chance(1, 4) ? "" : std::to_string(s.range(0, s.chance(1, 4) ? 300 : 12))) : "";
    std::string conv;
    switch (x.kind)
    {
    case 0: conv = s.pick(Strs{ "d", "i", "u", "x", "X", "o", "c" }); x.i = int(s.integer(-2147483647, 2147483647)); if (conv == "c") x.i = int(s.range(1, 255)); break;
    case 1: conv = "l" + s.pick(Strs{ "d", "u", "x" }); x.l = long(s.integer(-(1LL << 62), 1LL << 62)); break;
    case 2: conv = "ll" + s.pick(Strs{ "d", "u", "x" }); x.ll = s.integer(-(1LL << 62), 1LL << 62); break;
    case 3: conv = s.pick(Strs{ "f", "g", "e", "G", "E", "F", "a" }); x.d = s.flip() ? s.finite() : s.nice(100); break;
    case 4: conv = std::string("L") + s.pick(Strs{ "f", "g", "e" }); x.ld = s.finite(); break;
    default: conv = "s"; x.s = text(s, 8, 90); x.null = s.chance(1, 10); break;
    }
    f += "%" + flags + width + prec + conv + word(s, "ab ", 1, 3);
  }
  s.note() << pbt::show(f) << "\n"; C cf(f);
  int got = -1, want = -1;
  Call<0>::go(cf, a, n, got, want);
  REQUIRE(want >= 0, "printed"); if (size_t(want) > f.size()) s.nontrivial();
  REQUIRE(got >= want, "estimated " << got << " but " << want << " characters are printed");
  REQUIRE_EQ(estimate(nullptr), 0, "no format");
}

PBT_PROP(dates, 40000, 600000, "a date that is converted")
{
  static const Strs months = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }, days = { "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun" };
  int mon = int(s.range(0, 11)), day = int(s.range(1, 28)), year = int(s.range(1971, 2037)), h = int(s.range(0, 23)), m = int(s.range(0, 59)), sec = int(s.range(0, 59)); if (s.chance(1, 4)) day = int(s.range(29, 31));
  char d[32], ts[64]; snprintf(d, sizeof d, s.chance(1, 3) ? "%s %02d %04d" : "%s %2d %04d", months[size_t(mon)].c_str(), day, year);
  snprintf(ts, sizeof ts, "%s %s %2d %02d:%02d:%02d %04d", s.pick(days).c_str(), months[size_t(mon)].c_str(), day, h, m, sec, year);
  std::string sd = d, st = ts; int how = int(s.range(0, 5)); time_t keep = time_t(s.range(0, 1000000)), got = keep;
  switch (how)
  {
  case 1: sd.resize(s.idx(sd.size())); st.resize(s.idx(st.size())); break;                       // cut short
  case 2: sd[s.idx(3)] = '?'; st[4 + s.idx(3)] = '?'; break;                                      // unknown month
  case 3: { std::string bad = s.pick(Strs{ "anF", "bMa", "jan", "JAN", "   " }); sd.replace(0, 3, bad); st.replace(4, 3, bad); break; }
  case 4: sd += "0000000"; st += "0000000"; break;
  default: break;
  }
  s.note() << pbt::show(sd) << " " << pbt::show(st); C cd(sd), ct(st);
  auto expect = [&](bool time) { struct tm t; memset(&t, 0, sizeof t); t.tm_isdst = -1; t.tm_year = year - 1900; t.tm_mon = mon; t.tm_mday = day; if (time) { t.tm_hour = h; t.tm_min = m; t.tm_sec = sec; } return mktime(&t); };
  bool ok = how == 0 || how == 5; if (ok) s.nontrivial();
  REQUIRE_EQ(ST::ConvertDateMacroString(cd, &got), ok, "date converted"); if (ok) REQUIRE_EQ(got, expect(false), "date");
  got = keep; REQUIRE_EQ(ST::ConvertTimeStampMacroString(ct, &got), ok, "time stamp converted"); if (ok) REQUIRE_EQ(got, expect(true), "time stamp");
  REQUIRE(!ST::ConvertDateMacroString(nullptr, &got) && !ST::ConvertDateMacroString(cd, nullptr) && !ST::ConvertTimeStampMacroString(nullptr, &got) && !ST::ConvertTimeStampMacroString(ct, nullptr), "without text or result");
  // the date now, in any format
  std::string f = word(s, "ab-", 2, 6); size_t n = 0; while (s.more(n, 2, s.chance(1, 10) ? 400 : 6)) f += s.pick(Strs{ "%Y", "%m-%d", "%H", "%%", "%j", "%B " }); C cf(f);
  for (int tries = 0; tries < 5; ++tries)
  {
    time_t t0 = time(nullptr); struct tm x = *localtime(&t0); std::vector<char> buf(100000); size_t len = f.empty() ? 0 : strftime(buf.data(), buf.size(), cf, &x); std::string g = ST::GetCurrentDateTime(cf);
    if (time(nullptr) != t0) continue;
    if (len < 1024) REQUIRE_EQ(pbt::show(g), pbt::show(std::string(buf.data(), len)), "date in the format " << pbt::show(f));
    else REQUIRE(g.size() < 100000, "a date");
    break;
  }
}

PBT_PROP(urls, 60000, 1500000, "user, password and port are given")
{
  std::string an = "aZ09", proto = word(s, an, 3, 6), user = word(s, an, 2, 5), pass = word(s, an + "/.-_ ?", 2, 5), host = word(s, an + ".-_?# ", 3, 8), port = word(s, "0123456789", 2, 5), data = word(s, an + "/:.?=& \n", 4, 12);
  bool hu = !user.empty() && s.flip(), hp = hu && !pass.empty() && s.flip(), hd = !port.empty() && s.flip();
  if (host.empty() || data.find('\n') != std::string::npos) { if (s.chance(3, 4)) throw Discard(); }
  std::string auth = (hu ? user + (hp ? ":" + pass : "") + "@" : "") + host + (hd ? ":" + port : ""), u = proto + "://" + auth + "/" + data; s.note() << pbt::show(u);
  if (hp && hd) s.nontrivial();
  std::string p = "1", us = "2", pw = "3", ho = "4", po = "5", da = "6";
  REQUIRE(ST::ParseURLProtocol(u, p, da), "protocol found"); REQUIRE_EQ(p, proto, "protocol"); REQUIRE_EQ(pbt::show(da), pbt::show(auth + "/" + data), "rest");
  if (!host.empty())
  {
    REQUIRE(ST::ParseURL(u, p, us, pw, ho, po, da), "parsed");
    REQUIRE_EQ(p, proto, "protocol"); REQUIRE_EQ(us, hu ? user : "", "user"); REQUIRE_EQ(pw, hp ? pass : "", "password"); REQUIRE_EQ(ho, host, "host"); REQUIRE_EQ(po, hd ? port : "", "port"); REQUIRE_EQ(pbt::show(da), pbt::show(data), "data path");
  }
  // not of the form
  p = us = pw = ho = po = da = "kept"; std::string bad;
  switch (int(s.range(0, 3))) { case 0: bad = proto + ":/" + auth; break; case 1: bad = proto + "//" + auth + "/" + data.substr(0, data.find(':')); break; case 2: bad = host; break; default: bad = proto + ":" + "/ /" + data; break; }
  if (bad.find("://") != std::string::npos) throw Discard();
  s.note() << " " << pbt::show(bad);
  REQUIRE(!ST::ParseURLProtocol(bad, p, da) && p == "kept" && da == "kept", "protocol of " << pbt::show(bad));
  REQUIRE(!ST::ParseURL(bad, p, us, pw, ho, po, da) && p == "kept" && us == "kept" && pw == "kept" && ho == "kept" && po == "kept" && da == "kept", "parsed " << pbt::show(bad));
}
