// Encodings of kwiversys: Base64, MD5, letter case, wide text, byte order marks, coloured text.
#include "pbt.hpp"
#include <kwsys/Base64.h>
#include <kwsys/Encoding.h>
#include <kwsys/Encoding.hxx>
#include <kwsys/FStream.hxx>
#include <kwsys/MD5.h>
#include <kwsys/String.h>
#include <kwsys/Terminal.h>
#include <cmath>
#include <clocale>
#include <cstdlib>
#include <cwchar>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/mman.h>
using namespace pbt;

namespace { std::set<int> g_ttys; bool g_faking = false; }
extern "C" int isatty(int fd) { return g_faking && g_ttys.count(fd) ? 1 : 0; }

namespace {
typedef std::vector<unsigned char> Bytes;
Bytes some_bytes(Src& s, size_t most)
{
  Bytes b; size_t n = 0; unsigned kind = static_cast<unsigned>(s.idx(3));
  while (s.more(n, s.chance(1, 6) ? 90 : 12, most)) b.push_back(static_cast<unsigned char>(kind == 0 ? s.idx(256) : kind == 1 ? 255 - s.idx(3) : s.pick(std::vector<int>{ 0, 'a', 128, 255 })));
  return b;
}
// exactly as many bytes as asked for, so that any other access is noticed
struct Exact { std::unique_ptr<unsigned char[]> p; size_t n; explicit Exact(size_t k) : p(new unsigned char[k]), n(k) { memset(p.get(), 0x5A, k); } explicit Exact(Bytes const& b) : Exact(b.size()) { std::copy(b.begin(), b.end(), p.get()); } operator unsigned char*() { return p.get(); } };
char const* const ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string encoded(Bytes const& b)
{
  std::string r;
  for (size_t i = 0; i < b.size(); i += 3)
  {
    unsigned long v = 0; size_t have = std::min<size_t>(3, b.size() - i); for (size_t j = 0; j < 3; ++j) v = v * 256 + (j < have ? b[i + j] : 0);
    for (size_t j = 0; j < 4; ++j) r += j <= have ? ALPHABET[(v >> (18 - 6 * j)) & 63] : '=';
  }
  return r;
}
// what the text up to its first stop means
Bytes decoded(std::string const& t)
{
  Bytes r;
  for (size_t i = 0; i + 4 <= t.size(); i += 4)
  {
    unsigned long v = 0; bool good = t[i] != '=' && t[i + 1] != '='; size_t have = t[i + 2] == '=' ? 1 : t[i + 3] == '=' ? 2 : 3;
    for (size_t j = 0; j < 4; ++j) { char const* p = t[i + j] == 0 ? nullptr : strchr(ALPHABET, t[i + j]); if (!p && t[i + j] != '=') good = false; v = v * 64 + (p ? p - ALPHABET : 0); }
    if (!good) break;
    for (size_t j = 0; j < have; ++j) r.push_back(static_cast<unsigned char>(v >> (16 - 8 * j)));
    if (have < 3) break;
  }
  return r;
}
std::string text(Exact const& e, size_t n) { return std::string(e.p.get(), e.p.get() + n); }
} // namespace

PBT_PROP(base64, 30000, 600000, "at least two bytes")
{
  Bytes b = some_bytes(s, 400); Exact in(b); bool mark = s.flip(); std::string want = encoded(b) + (mark && b.size() % 3 == 0 ? "====" : "");
  if (b.size() > 1) s.nontrivial();
  s.note() << b.size() << " bytes, end " << (mark ? "marked" : "not marked") << "\n";
  Exact out(want.size()); size_t n = kwsysBase64_Encode(in, b.size(), out, mark); REQUIRE_EQ(n, want.size(), "length of the encoded text"); REQUIRE_EQ(text(out, n), want, "encoded text");
  // with a known length of the data
  Exact back(b.size()); REQUIRE_EQ(kwsysBase64_Decode(out, b.size(), back, 0), b.size(), "length of the decoded data"); REQUIRE(Bytes(back.p.get(), back.p.get() + b.size()) == b, "data after encoding and decoding");
  // with a known length of the text
  if (n > 0) { Exact all(n / 4 * 3); REQUIRE_EQ(kwsysBase64_Decode(out, s.idx(9), all, n), b.size(), "length of the data decoded from " << n << " characters"); REQUIRE(Bytes(all.p.get(), all.p.get() + b.size()) == b, "data after encoding and decoding"); }
  // with too large a length: the end stops it
  if (mark || b.size() % 3) { size_t more = b.size() + s.idx(20) + 3; Exact big(more); REQUIRE_EQ(kwsysBase64_Decode(out, more, big, 0), b.size(), "length of the data decoded up to the mark"); REQUIRE(Bytes(big.p.get(), big.p.get() + b.size()) == b, "data decoded up to the mark"); }
  // a part of it
  size_t part = s.idx(b.size() + 1); Exact p(part); REQUIRE_EQ(kwsysBase64_Decode(out, part, p, 0), part, "length of a part of the data"); REQUIRE(Bytes(p.p.get(), p.p.get() + part) == Bytes(b.begin(), b.begin() + static_cast<long>(part)), "part of the data");
  if (b.size() >= 3)
  {
    Exact four(4); kwsysBase64_Encode3(in, four); REQUIRE_EQ(text(four, 4), encoded(Bytes(b.begin(), b.begin() + 3)), "three bytes");
    Exact three(3); REQUIRE_EQ(kwsysBase64_Decode3(four, three), 3, "three bytes decoded"); REQUIRE(Bytes(three.p.get(), three.p.get() + 3) == Bytes(b.begin(), b.begin() + 3), "three bytes decoded");
    kwsysBase64_Encode2(in, four); REQUIRE_EQ(text(four, 4), encoded(Bytes(b.begin(), b.begin() + 2)), "two bytes"); REQUIRE_EQ(kwsysBase64_Decode3(four, three), 2, "two bytes decoded"); REQUIRE(three.p[0] == b[0] && three.p[1] == b[1], "two bytes decoded");
    kwsysBase64_Encode1(in, four); REQUIRE_EQ(text(four, 4), encoded(Bytes(b.begin(), b.begin() + 1)), "one byte"); REQUIRE_EQ(kwsysBase64_Decode3(four, three), 1, "one byte decoded"); REQUIRE(three.p[0] == b[0], "one byte decoded");
  }
}

PBT_PROP(base64_odd_texts, 30000, 600000, "something was decoded and the text is odd")
{
  std::string t; size_t n = 0; bool odd = false;
  while (s.more(n, 16, 80))
  {
    if (s.chance(1, 20)) { t += static_cast<char>(s.pick(std::vector<int>{ '=', '-', '_', ' ', 0, '\n', 0x80, 0xFF, '.', '@', '[', '`', '{', ':' })); odd = true; }
    else t += ALPHABET[s.idx(64)];
  }
  if (s.chance(1, 3)) t += std::string(s.idx(5), '=');
  s.note() << show(t) << "\n"; odd = odd || t.size() % 4;
  Bytes want = decoded(t); if (odd && !want.empty()) s.nontrivial();
  Exact in(Bytes(t.begin(), t.end())), out(t.size() / 4 * 3 + 3);
  if (!t.empty()) { size_t got = kwsysBase64_Decode(in, 0, out, t.size()); REQUIRE_EQ(got, want.size(), "number of bytes decoded from " << show(t)); REQUIRE(Bytes(out.p.get(), out.p.get() + got) == want, "bytes decoded from " << show(t)); }
  // asked for no more than what the whole groups give
  size_t ask = s.idx(t.size() / 4 * 3 + 1), expect = std::min(ask, want.size()); Exact o(ask); size_t got = kwsysBase64_Decode(in, ask, o, 0);
  REQUIRE_EQ(got, expect, "number of bytes decoded from " << show(t) << " when asking for " << ask); REQUIRE(Bytes(o.p.get(), o.p.get() + got) == Bytes(want.begin(), want.begin() + static_cast<long>(got)), "bytes decoded from " << show(t));
}

// ---- MD5, from the text of RFC 1321
namespace {
struct Digest
{
  uint32_t a = 0x67452301, b = 0xefcdab89, c = 0x98badcfe, d = 0x10325476; uint64_t bytes = 0; Bytes rest;
  void block(unsigned char const* p)
  {
    static uint32_t T[64]; static bool made = false; if (!made) { for (int i = 0; i < 64; ++i) T[i] = static_cast<uint32_t>(std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0)); made = true; }
    static int const S[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
    uint32_t x[16], A = a, B = b, C = c, D = d; for (int i = 0; i < 16; ++i) x[i] = p[4 * i] | uint32_t(p[4 * i + 1]) << 8 | uint32_t(p[4 * i + 2]) << 16 | uint32_t(p[4 * i + 3]) << 24;
    for (int i = 0; i < 64; ++i)
    {
      int r = i / 16; uint32_t f = r == 0 ? (B & C) | (~B & D) : r == 1 ? (B & D) | (C & ~D) : r == 2 ? B ^ C ^ D : C ^ (B | ~D); int k = r == 0 ? i : r == 1 ? (5 * i + 1) % 16 : r == 2 ? (3 * i + 5) % 16 : (7 * i) % 16;
      uint32_t t = A + f + x[k] + T[i]; int q = S[r][i % 4]; t = (t << q) | (t >> (32 - q)); A = D; D = C; C = B; B += t;
    }
    a += A; b += B; c += C; d += D;
  }
  void add(unsigned char const* p, size_t n) { bytes += n; while (n > 0) { if (rest.empty() && n >= 64) { block(p); p += 64; n -= 64; continue; } size_t k = std::min(n, 64 - rest.size()); rest.insert(rest.end(), p, p + k); p += k; n -= k; if (rest.size() == 64) { block(rest.data()); rest.clear(); } } }
  Bytes end() { uint64_t bits = bytes * 8; rest.push_back(0x80); while (rest.size() % 64 != 56) rest.push_back(0); for (int i = 0; i < 8; ++i) rest.push_back(static_cast<unsigned char>(bits >> (8 * i))); for (size_t i = 0; i < rest.size(); i += 64) block(&rest[i]); Bytes r; for (uint32_t v : { a, b, c, d }) for (int i = 0; i < 4; ++i) r.push_back(static_cast<unsigned char>(v >> (8 * i))); return r; }
};
std::string hex(Bytes const& b) { std::string r; for (unsigned char c : b) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } return r; }
void finish(Src& s, kwsysMD5* m, Digest& d, std::string const& where)
{
  Bytes want = d.end(); 
  if (s.flip()) { Exact raw(16); kwsysMD5_Finalize(m, raw); REQUIRE_EQ(hex(Bytes(raw.p.get(), raw.p.get() + 16)), hex(want), where << ": digest"); std::unique_ptr<char[]> h(new char[32]); kwsysMD5_DigestToHex(raw, h.get()); REQUIRE_EQ(std::string(h.get(), 32), hex(want), where << ": digest in hexadecimal"); }
  else { std::unique_ptr<char[]> h(new char[32]); kwsysMD5_FinalizeHex(m, h.get()); REQUIRE_EQ(std::string(h.get(), 32), hex(want), where << ": digest in hexadecimal"); }
}
} // namespace

PBT_PROP(md5, 20000, 400000, "several pieces with more than 64 bytes in total")
{
  struct Two { kwsysMD5* m; Digest d; size_t pieces; } two[2]; for (auto& x : two) { x.m = kwsysMD5_New(); REQUIRE(x.m, "new"); kwsysMD5_Initialize(x.m); x.d = Digest(); x.pieces = 0; }
  size_t n = 0, done = 0;
  while (s.more(n, 8, 40))
  {
    Two& x = two[s.chance(1, 4)]; std::string where = "step " + std::to_string(n);
    if (s.chance(1, 6)) { s.note() << where << " digest of " << x.d.bytes << " bytes in " << x.pieces << " pieces\n"; if (x.pieces > 1 && x.d.bytes > 64) s.nontrivial(); finish(s, x.m, x.d, where); kwsysMD5_Initialize(x.m); x.d = Digest(); x.pieces = 0; ++done; continue; }
    if (s.chance(1, 20)) { kwsysMD5_Initialize(x.m); x.d = Digest(); x.pieces = 0; continue; }
    size_t len = s.weighted({ 4, 3, 2, 2 }); len = len == 0 ? s.idx(20) : len == 1 ? 50 + s.idx(30) : len == 2 ? 64 * s.idx(4) : s.idx(300);
    if (s.chance(1, 4)) { size_t fill = 56 + s.idx(9) + 64 - x.d.bytes % 64; if (fill < 200) len = fill; }
    Bytes b(len); unsigned seed = static_cast<unsigned>(s.idx(1000)); bool words = s.chance(1, 3); for (size_t i = 0; i < len; ++i) { seed = seed * 1103515245 + 12345; b[i] = static_cast<unsigned char>(seed >> 16); if (words && b[i] == 0) b[i] = 1; }
    s.note() << where << " add " << len << " bytes" << (words ? " ended by 0" : "") << "\n";
    if (words) { Bytes z = b; z.push_back(0); Exact e(z); kwsysMD5_Append(x.m, e, -1 - static_cast<int>(s.idx(3))); } else { size_t off = s.idx(4); Bytes z(off, 7); z.insert(z.end(), b.begin(), b.end()); Exact e(z); kwsysMD5_Append(x.m, e + off, static_cast<int>(len)); }
    x.d.add(b.data(), b.size()); ++x.pieces;
  }
  for (auto& x : two) { finish(s, x.m, x.d, "end"); kwsysMD5_Delete(x.m); }
  kwsysMD5_Delete(nullptr);
}

PBT_PROP(md5_of_much, 4, 24, "more than 512 MB")
{
  // around 2^32 bits the length needs its second word
  static Bytes const block(1u << 26, 0x37); uint64_t left = (uint64_t(1) << 29) + static_cast<uint64_t>(s.range(-70, 70)); if (left > (1u << 29)) s.nontrivial();
  kwsysMD5* m = kwsysMD5_New(); kwsysMD5_Initialize(m); Digest d; s.note() << left << " bytes\n"; size_t first = 1 + s.idx(100);
  if (s.flip())
  {
    size_t n = static_cast<size_t>(left); void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { kwsysMD5_Delete(m); return; }
    s.note() << "at once\n"; kwsysMD5_Append(m, static_cast<unsigned char*>(p), static_cast<int>(n)); d.add(static_cast<unsigned char*>(p), n); munmap(p, n); left = 0;
  }
  while (left > 0) { size_t n = static_cast<size_t>(std::min<uint64_t>(left, first ? first : block.size())); first = 0; kwsysMD5_Append(m, block.data(), static_cast<int>(n)); d.add(block.data(), n); left -= n; }
  finish(s, m, d, "much"); kwsysMD5_Delete(m);
}

// ---- comparison without regard to letter case
PBT_PROP(letter_case, 20000, 300000, "texts that only differ in case, or late")
{
  auto low = [](unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : static_cast<int>(c); };
  std::string a, b; size_t n = 0; std::vector<int> chars = { 'a', 'A', 'z', 'Z', 'm', 'M', '@', '[', '`', '{', '_', '0', 200, 255 };
  while (s.more(n, 6, 30)) a += static_cast<char>(s.pick(chars));
  b = a; for (char& c : b) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); else if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); }
  if (s.flip() && !b.empty()) { size_t i = s.idx(b.size()); if (s.chance(1, 3)) b.resize(i); else b[i] = static_cast<char>(s.pick(chars)); } if (s.chance(1, 5)) b += "x"; if (s.chance(1, 5)) std::swap(a, b);
  size_t k = s.idx(a.size() + 4); if (a.size() > 2) s.nontrivial();
  auto sign = [](int x) { return x < 0 ? -1 : x > 0; };
  auto compare = [&](size_t most) { for (size_t i = 0; i < most; ++i) { int x = i < a.size() ? low(static_cast<unsigned char>(a[i])) : 0, y = i < b.size() ? low(static_cast<unsigned char>(b[i])) : 0; if (x != y) return x < y ? -1 : 1; if (x == 0) return 0; } return 0; };
  REQUIRE_EQ(sign(kwsysString_strcasecmp(a.c_str(), b.c_str())), compare(1000), show(a) << " and " << show(b)); REQUIRE_EQ(sign(kwsysString_strncasecmp(a.c_str(), b.c_str(), k)), compare(k), "the first " << k << " of " << show(a) << " and " << show(b));
}

// ---- wide text
namespace {
std::string utf8(uint32_t c) { std::string r; if (c < 0x80) r += static_cast<char>(c); else if (c < 0x800) { r += static_cast<char>(0xC0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); } else if (c < 0x10000) { r += static_cast<char>(0xE0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); } else { r += static_cast<char>(0xF0 | c >> 18); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); } return r; }
struct Locale { Locale(char const* l) { good = setlocale(LC_CTYPE, l) != nullptr; } ~Locale() { setlocale(LC_CTYPE, "C"); } bool good; };
} // namespace

PBT_PROP(wide_text, 20000, 300000, "characters outside of ASCII")
{
  bool plain = s.chance(1, 6); Locale loc(plain ? "C" : "C.UTF-8"); if (!loc.good) return;
  std::wstring w; std::string t; size_t n = 0; bool zero = s.chance(1, 3), bad = false;
  while (s.more(n, 8, 60))
  {
    uint32_t c; switch (plain ? 0 : s.idx(4)) { case 0: c = 1 + static_cast<uint32_t>(s.idx(127)); break; case 1: c = 0x80 + static_cast<uint32_t>(s.idx(0x780)); break; case 2: c = s.pick(std::vector<uint32_t>{ 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF, 0x10000, 0x10FFFF, 0x20AC }); break; default: c = 0x10000 + static_cast<uint32_t>(s.idx(0x100000)); }
    if (zero && s.chance(1, 3)) c = 0;
    w += static_cast<wchar_t>(c); t += c ? utf8(c) : std::string(1, '\0'); if (c > 127) s.nontrivial();
  }
  std::string before = t; s.note() << show(t) << "\n";
  REQUIRE(kwsys::Encoding::ToWide(t) == w, "wide text of " << show(t)); REQUIRE_EQ(show(kwsys::Encoding::ToNarrow(w)), show(t), "narrow text");
  std::wstring w0 = w.c_str(); std::string t0 = t.c_str();
  REQUIRE(kwsys::Encoding::ToWide(t.c_str()) == w0, "wide text of " << show(t0)); REQUIRE_EQ(show(kwsys::Encoding::ToNarrow(w.c_str())), show(t0), "narrow text");
  wchar_t* dw = kwsysEncoding_DupToWide(t.c_str()); REQUIRE(dw && w0 == dw, "wide copy"); free(dw); char* dn = kwsysEncoding_DupToNarrow(w.c_str()); REQUIRE(dn && t0 == dn, "narrow copy"); free(dn);
  std::unique_ptr<wchar_t[]> wb(new wchar_t[w0.size() + 1]); REQUIRE_EQ(kwsysEncoding_mbstowcs(wb.get(), t0.c_str(), w0.size() + 1), w0.size(), "length of the wide text"); REQUIRE(w0 == wb.get(), "wide text"); REQUIRE_EQ(kwsysEncoding_mbstowcs(nullptr, t0.c_str(), 0), w0.size(), "length of the wide text");
  std::unique_ptr<char[]> nb(new char[t0.size() + 1]); REQUIRE_EQ(kwsysEncoding_wcstombs(nb.get(), w0.c_str(), t0.size() + 1), t0.size(), "length of the narrow text"); REQUIRE_EQ(t0, nb.get(), "narrow text");
  // texts that are none: nothing comes out, and nothing else happens
  if (!t0.empty() && s.chance(1, 3)) { t0[s.idx(t0.size())] = static_cast<char>(s.pick(std::vector<int>{ 0x80, 0xC3, 0xFF, 0xE2, 0xF5, 0xBF })); bad = mbstowcs(nullptr, t0.c_str(), 0) == static_cast<size_t>(-1); if (bad) { s.label("not a text"); REQUIRE(kwsys::Encoding::ToWide(t0).empty(), "wide text of " << show(t0)); wchar_t* d = kwsysEncoding_DupToWide(t0.c_str()); REQUIRE(!d, "wide copy of " << show(t0)); } }
  if (s.chance(1, 5)) { std::wstring x = w0 + static_cast<wchar_t>(s.pick(std::vector<int>{ 0xD800, 0x110000, -1, plain ? 0x100 : 0xDFFF })); if (wcstombs(nullptr, x.c_str(), 0) == static_cast<size_t>(-1)) { s.label("not a wide text"); REQUIRE(kwsys::Encoding::ToNarrow(x).empty(), "narrow text of something else"); REQUIRE(!kwsysEncoding_DupToNarrow(x.c_str()), "narrow copy of something else"); } }
  REQUIRE(kwsys::Encoding::ToWide(static_cast<char const*>(nullptr)).empty() && kwsys::Encoding::ToNarrow(static_cast<wchar_t const*>(nullptr)).empty() && !kwsysEncoding_DupToWide(nullptr) && !kwsysEncoding_DupToNarrow(nullptr), "no text");
}

PBT_PROP(argument_lists, 8000, 100000, "at least two arguments and a copy")
{
  Locale loc("C.UTF-8"); if (!loc.good) return;
  typedef kwsys::Encoding::CommandLineArguments A; struct Slot { std::unique_ptr<A> a; std::vector<std::string> want; }; std::vector<Slot> v(3); size_t n = 0, copies = 0, most = 0;
  auto make = [&](Slot& x) {
    std::vector<std::string> args; std::vector<std::wstring> wide; size_t k = 0; while (s.more(k, 3, 12)) { std::string t; std::wstring w; size_t q = 0; while (s.more(q, 4, 20)) { uint32_t c = s.chance(1, 4) ? 0xA0 + static_cast<uint32_t>(s.idx(0x2000)) : 32 + static_cast<uint32_t>(s.idx(95)); t += utf8(c); w += static_cast<wchar_t>(c); } args.push_back(t); wide.push_back(w); }
    std::vector<char const*> pa; std::vector<wchar_t const*> pw; for (auto const& t : args) pa.push_back(t.c_str()); for (auto const& t : wide) pw.push_back(t.c_str()); most = std::max(most, args.size());
    switch (s.idx(3)) { case 0: x.a.reset(new A(static_cast<int>(args.size()), pa.data())); break; case 1: x.a.reset(new A(static_cast<int>(args.size()), pw.data())); break; default: x.a.reset(new A(A::Main(static_cast<int>(args.size()), pa.data()))); }
    x.want = args; };
  for (auto& x : v) make(x);
  while (s.more(n, 6, 30))
  {
    Slot& x = v[s.idx(3)]; Slot& y = v[s.idx(3)]; s.note() << "step " << n << "\n";
    switch (s.idx(4)) { case 0: make(x); break; case 1: *x.a = *y.a; x.want = std::vector<std::string>(y.want); ++copies; break; case 2: x.a.reset(new A(*y.a)); x.want = std::vector<std::string>(y.want); ++copies; break; default: { A t(*x.a); A u(t); t = *y.a; (void)u; ++copies; } }
    for (auto const& z : v) { REQUIRE_EQ(static_cast<size_t>(z.a->argc()), z.want.size(), "number of arguments"); for (size_t i = 0; i < z.want.size(); ++i) REQUIRE(z.a->argv()[i] && z.want[i] == z.a->argv()[i], "argument " << i << " is not " << show(z.want[i])); REQUIRE(!z.a->argv()[z.want.size()], "end of the arguments"); for (auto const& o : v) if (&o != &z) for (size_t i = 0; i < z.want.size(); ++i) for (size_t j = 0; j < o.want.size(); ++j) REQUIRE(z.a->argv()[i] != o.a->argv()[j], "two lists share an argument"); }
  }
  if (copies && most > 1) s.nontrivial();
}

// ---- byte order marks
PBT_PROP(byte_order_marks, 20000, 300000, "a mark, or the beginning of one")
{
  using namespace kwsys::FStream;
  struct M { char const* bytes; size_t n; BOM bom; }; static M const marks[] = { { "\xFF\xFE\0\0", 4, BOM_UTF32LE }, { "\0\0\xFE\xFF", 4, BOM_UTF32BE }, { "\xEF\xBB\xBF", 3, BOM_UTF8 }, { "\xFF\xFE", 2, BOM_UTF16LE }, { "\xFE\xFF", 2, BOM_UTF16BE } };
  std::string head, body; size_t n = 0; M const& m = marks[s.idx(5)]; while (s.chance(1, 5) && s.more(n, 3, 9)) head += static_cast<char>(s.idx(256));
  if (s.chance(5, 6)) { body.assign(m.bytes, m.n); if (s.chance(1, 3)) body.resize(s.idx(m.n + 1)); if (!body.empty() && s.chance(1, 5)) body[s.idx(body.size())] = static_cast<char>(s.pick(std::vector<int>{ 0, 0xFE, 0xFF, 0xEF, 'x' })); s.nontrivial(); }
  if (s.chance(2, 3)) { n = 0; while (s.more(n, 4, 20)) body += static_cast<char>(s.chance(1, 3) ? s.pick(std::vector<int>{ 0, 0xFE, 0xFF, 0xEF, 0xBB, 0xBF }) : static_cast<int>(s.idx(256))); }
  BOM want = BOM_None; size_t skip = 0; for (M const& q : marks) if (skip == 0 && body.compare(0, q.n, q.bytes, q.n) == 0 && body.size() >= q.n) { want = q.bom; skip = q.n; }
  s.note() << "after " << head.size() << " bytes: " << show(body) << "\n";
  std::string name = scratch() + "/bom"; bool file = s.chance(1, 4); std::unique_ptr<std::istream> in;
  if (file) { std::ofstream(name, std::ios::binary) << head << body; in.reset(new kwsys::ifstream(name.c_str(), std::ios::in | std::ios::binary)); } else in.reset(new std::istringstream(head + body));
  std::string h(head.size(), 0); in->read(&h[0], static_cast<std::streamsize>(h.size())); REQUIRE(in->good(), "preparation");
  REQUIRE_EQ(static_cast<int>(ReadBOM(*in)), static_cast<int>(want), "mark of " << show(body)); REQUIRE(in->good(), "the stream can not be read after looking for a mark in " << show(body));
  std::string rest((std::istreambuf_iterator<char>(*in)), std::istreambuf_iterator<char>()); REQUIRE_EQ(show(rest), show(body.substr(skip)), "what follows the mark");
  in->setstate(std::ios::failbit); REQUIRE_EQ(static_cast<int>(ReadBOM(*in)), static_cast<int>(BOM_None), "mark in a failed stream");
  in.reset(); if (file) remove(name.c_str());
}

// ---- coloured text: a terminal that understands the sequences shows it
PBT_PROP(coloured_text, 20000, 300000, "a terminal and a colour")
{
  static std::vector<std::string> const known = { "xterm", "vt100", "linux", "screen.linux", "Eterm", "xterm-termite", "rxvt-unicode-256color", "konsole", "ansi", "screen-256color-bce", "cons25" }, unknown = { "", "dumb", "xterm ", "xter", "XTERM", "vt10", "emacs", "xtermite" };
  char* buf = nullptr; size_t size = 0; FILE* f = s.flip() ? open_memstream(&buf, &size) : nullptr; std::string name = scratch() + "/term"; bool mem = f != nullptr; if (!f) f = fopen(name.c_str(), "w"); REQUIRE(f, "stream");
  std::string want; struct Cell { char c; int fg, bg; bool bold; bool operator==(Cell const& o) const { return c == o.c && fg == o.fg && bg == o.bg && bold == o.bold; } }; std::vector<Cell> cells; size_t n = 0; bool escapes = false;
  bool tty = s.chance(3, 4); g_ttys.clear(); if (tty) g_ttys.insert(fileno(f)); else g_ttys.insert(fileno(f) + 1);
  while (s.more(n, 4, 20))
  {
    int fg = static_cast<int>(s.idx(9)), bg = static_cast<int>(s.idx(9)), color = fg | bg << 4; bool bold = s.chance(1, 3), assume = s.chance(1, 4); if (bold) color |= kwsysTerminal_Color_ForegroundBold; if (s.chance(1, 6)) color |= kwsysTerminal_Color_BackgroundBold; if (assume) color |= kwsysTerminal_Color_AssumeVT100; if (tty && s.chance(1, 5)) color |= kwsysTerminal_Color_AssumeTTY;
    int term = static_cast<int>(s.idx(3)); std::string t = term == 0 ? s.pick(unknown) : s.pick(known); bool set = s.chance(9, 10); if (set) setenv("TERM", t.c_str(), 1); else unsetenv("TERM");
    int emacs = static_cast<int>(s.idx(6)); if (emacs == 0) setenv("EMACS", "t", 1); else if (emacs == 1) setenv("EMACS", "", 1); else if (emacs == 2) setenv("EMACS", "/usr/bin/emacs", 1); else unsetenv("EMACS");
    bool vt = tty && emacs != 0 && (assume || (set && term != 0)); std::string text; size_t k = 0; while (s.more(k, 5, 40)) text += static_cast<char>(s.pick(std::vector<int>{ 'a', 'b', '%', ' ', '\n', 'm', '[', '0' })); int num = static_cast<int>(s.range(-5, 500));
    std::string all = text + "|" + std::to_string(num) + "\n"; s.note() << "color " << color << " TERM " << (set ? t : "unset") << " EMACS " << emacs << (tty ? " tty" : "") << "\n";
    g_faking = true; kwsysTerminal_cfprintf(color, f, "%s|%d%c", text.c_str(), num, '\n'); g_faking = false;
    for (char c : all) cells.push_back({ c, vt ? fg : 0, vt ? bg : 0, vt && bold }); if (vt) { escapes = true; if (fg || bg) s.nontrivial(); }
  }
  fclose(f); unsetenv("EMACS"); std::string out; if (mem) { out.assign(buf, size); free(buf); } else { std::ifstream i(name, std::ios::binary); out.assign((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); remove(name.c_str()); }
  std::vector<Cell> shown; int fg = 0, bg = 0; bool bold = false;
  for (size_t i = 0; i < out.size(); ++i)
  {
    if (out[i] != 27) { shown.push_back({ out[i], fg, bg, bold }); continue; }
    REQUIRE(escapes, "an escape sequence where none is understood: " << show(out)); size_t e = out.find('m', i); REQUIRE(i + 1 < out.size() && out[i + 1] == '[' && e != std::string::npos, "sequence in " << show(out));
    std::istringstream codes(out.substr(i + 2, e - i - 2)); std::string code; while (std::getline(codes, code, ';')) { int c = atoi(code.c_str()); if (c == 0) fg = bg = 0, bold = false; else if (c == 1) bold = true; else if (c >= 30 && c <= 37) fg = c - 29; else if (c >= 40 && c <= 47) bg = c - 39; else REQUIRE(false, "sequence " << code); } i = e;
  }
  REQUIRE(fg == 0 && bg == 0 && !bold, "the terminal is left coloured: " << show(out)); REQUIRE(shown == cells, "text shown: " << show(out));
}
