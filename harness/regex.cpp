// C27: regular expressions (kwsys::RegularExpression) against a backtracking matcher over the
// generated syntax tree.
#include "pbt.hpp"
#include <kwsys/RegularExpression.hxx>
#include <fcntl.h>
#include <memory>
#include <unistd.h>
using kwsys::RegularExpression;
using pbt::Src; using pbt::Fail; using pbt::Discard;

PBT_INIT() { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); close(n); } }   // compile() prints its errors

namespace {
struct Node;
typedef std::shared_ptr<Node> N;
struct Piece { N atom; char mult; };
typedef std::vector<Piece> Seq;
struct Node
{
  enum Kind { CHAR, ANY, CLASS, BOL, EOL, GROUP } kind;
  char c; bool escaped; bool negated; std::string text; bool in[256];   // CHAR, CLASS
  int no; std::vector<Seq> alts;                                          // GROUP
  Node(Kind k) : kind(k), c(0), escaped(false), negated(false), no(0) { for (bool& b : in) b = false; }
};

struct Gen
{
  Src& s; int groups = 0; int budget; int bad_empty = 0;
  std::string alphabet;
  Gen(Src& src) : s(src), budget(int(src.range(1, 14))), alphabet(src.pick(std::vector<std::string>{ "ab", "abc", "a-]b", "a.b", "x\\(", "\xc3\xa4z", "A*+", "^$a" })) {}
  char ch() { return alphabet[s.idx(alphabet.size())]; }
  N atom(int depth)
  {
    size_t k = s.weighted({ 8, 2, 3, 1, 1, unsigned(depth < 3 && groups < 9 && budget > 0 ? 4 : 0) });
    --budget;
    if (k == 0) { N n = std::make_shared<Node>(Node::CHAR); n->c = ch(); n->escaped = std::string("^$.[()|?+*\\").find(n->c) != std::string::npos || s.chance(1, 8); return n; }
    if (k == 1) return std::make_shared<Node>(Node::ANY);
    if (k == 2)
    {
      N n = std::make_shared<Node>(Node::CLASS); n->negated = s.flip(); std::string t;
      bool first = true; size_t cnt = 0;
      auto put = [&](unsigned char c) { n->in[c] = true; };
      int lead = int(s.range(0, 6)); if (lead == 1) { t += ']'; put(']'); first = false; } else if (lead == 2) { t += '-'; put('-'); first = false; }
      bool plain = false;   // a range may start at a plain character only
      do
      {
        if (!first && !plain && lead) {}
        char c = ch(); if (c == ']' || c == '-') c = 'q'; if (first && c == '^' && !n->negated) c = 'w';
        if (s.chance(1, 3))
        {
          unsigned char lo = (unsigned char)c, hi = (unsigned char)(std::min(255, lo + int(s.range(0, 5))));
          if (hi == ']' || hi == 0) hi = lo;
          t += c; t += '-'; t += char(hi); for (int x = lo; x <= hi; ++x) put((unsigned char)x);
        }
        else { t += c; put((unsigned char)c); }
        first = false; plain = true;
      } while (s.more(cnt, 1, 5));
      if (s.chance(1, 6)) { t += '-'; put('-'); }
      n->text = t; return n;
    }
    if (k == 3) return std::make_shared<Node>(Node::BOL);
    if (k == 4) return std::make_shared<Node>(Node::EOL);
    N n = std::make_shared<Node>(Node::GROUP); n->no = ++groups; n->alts = alts(depth + 1); return n;
  }
  std::vector<Seq> alts(int depth)
  {
    std::vector<Seq> r; size_t cnt = 0;
    do
    {
      Seq q; size_t m = 0; bool none = s.chance(1, 10);
      while (!none && s.more(m, depth ? 2 : 3, 8)) { Piece p; p.atom = atom(depth); p.mult = s.pick(std::vector<char>{ 0, 0, 0, '*', '+', '?' }); q.push_back(p); }
      r.push_back(q);
    } while (s.chance(1, 4) && ++cnt < 4);
    return r;
  }
};
bool width(std::vector<Seq> const& a);
bool width(N const& n) { return n->kind == Node::GROUP ? width(n->alts) : n->kind != Node::BOL && n->kind != Node::EOL; }
bool width(std::vector<Seq> const& a)
{
  for (auto const& q : a) { bool w = false; for (auto const& p : q) w |= p.mult != '*' && p.mult != '?' && width(p.atom); if (!w) return false; }
  return true;
}
bool valid(std::vector<Seq> const& a)   // * and + need an operand that can not be empty
{
  for (auto const& q : a) for (auto const& p : q)
  {
    if ((p.mult == '*' || p.mult == '+') && !width(p.atom)) return false;
    if (p.atom->kind == Node::GROUP && !valid(p.atom->alts)) return false;
  }
  return true;
}
std::string text(std::vector<Seq> const& a)
{
  std::string t;
  for (size_t i = 0; i < a.size(); ++i)
  {
    if (i) t += '|';
    for (auto const& p : a[i])
    {
      Node const& n = *p.atom;
      switch (n.kind)
      {
      case Node::CHAR: if (n.escaped) t += '\\'; t += n.c; break;
      case Node::ANY: t += '.'; break;
      case Node::BOL: t += '^'; break;
      case Node::EOL: t += '$'; break;
      case Node::CLASS: t += n.negated ? "[^" : "["; t += n.text; t += ']'; break;
      case Node::GROUP: t += '('; t += text(n.alts); t += ')'; break;
      }
      if (p.mult) t += p.mult;
    }
  }
  return t;
}

struct Matcher
{
  std::string const& x; std::vector<std::pair<long, long>> cap; long steps = 0;
  typedef std::function<bool(size_t)> K;
  Matcher(std::string const& t) : x(t), cap(10, std::make_pair(-1L, -1L)) {}
  void tick() { if (++steps > 6000) throw Discard(); }
  bool one(Node const& n, size_t i, K const& k)
  {
    tick();
    switch (n.kind)
    {
    case Node::CHAR: return i < x.size() && x[i] == n.c && k(i + 1);
    case Node::ANY: return i < x.size() && k(i + 1);
    case Node::CLASS: return i < x.size() && n.in[(unsigned char)x[i]] != n.negated && k(i + 1);
    case Node::BOL: return i == 0 && k(i);
    case Node::EOL: return i == x.size() && k(i);
    case Node::GROUP:
      return any(n.alts, i, [&](size_t j) {
        auto old = cap[size_t(n.no)]; cap[size_t(n.no)] = std::make_pair(long(i), long(j));
        if (k(j)) return true;
        cap[size_t(n.no)] = old; return false; });
    }
    return false;
  }
  bool any(std::vector<Seq> const& a, size_t i, K const& k) { for (auto const& q : a) if (seq(q, 0, i, k)) return true; return false; }
  bool seq(Seq const& q, size_t at, size_t i, K const& k)
  {
    tick();
    if (at == q.size()) return k(i);
    Piece const& p = q[at]; K rest = [&, at](size_t j) { return seq(q, at + 1, j, k); };
    if (p.mult == 0) return one(*p.atom, i, rest);
    if (p.mult == '?') return one(*p.atom, i, rest) || rest(i);
    if (p.mult == '+') return one(*p.atom, i, [&](size_t j) { return star(*p.atom, j, rest); });
    return star(*p.atom, i, rest);
  }
  bool star(Node const& n, size_t i, K const& k) { return one(n, i, [&](size_t j) { return star(n, j, k); }) || k(i); }
};

// a text the expression is likely to match
void sample(Src& s, std::vector<Seq> const& a, std::string& out, std::string const& alpha)
{
  Seq const& q = a[s.idx(a.size())];
  for (auto const& p : q)
  {
    int n = p.mult == 0 ? 1 : p.mult == '?' ? int(s.range(0, 1)) : int(s.range(p.mult == '+', 3));
    while (n-- > 0 && out.size() < 60)
    {
      Node const& m = *p.atom;
      switch (m.kind)
      {
      case Node::CHAR: out += m.c; break;
      case Node::ANY: out += alpha[s.idx(alpha.size())]; break;
      case Node::CLASS: { std::vector<char> v; for (int c = 1; c < 256; ++c) if (m.in[c] != m.negated && (!m.negated || alpha.find(char(c)) != std::string::npos || c == 'k')) v.push_back(char(c)); if (!v.empty()) out += s.pick(v); break; }
      case Node::GROUP: sample(s, m.alts, out, alpha); break;
      default: break;
      }
    }
  }
}
std::string subject(Src& s, Gen& g, std::vector<Seq> const& e)
{
  std::string t; size_t n = 0; auto junk = [&](unsigned avg) { n = 0; while (s.more(n, avg, 12)) t += s.chance(1, 8) ? 'k' : g.ch(); };
  if (s.chance(2, 3)) junk(2); if (s.chance(4, 5)) sample(s, e, t, g.alphabet); if (s.chance(2, 3)) junk(2);
  if (!t.empty() && s.chance(1, 4)) { size_t i = s.idx(t.size()); if (s.flip()) t.erase(i, 1); else t[i] = g.ch(); }
  return t;
}
struct Result { bool found; size_t b, e; std::vector<std::pair<long, long>> cap; };
Result expect(std::vector<Seq> const& e, std::string const& t)
{
  for (size_t i = 0; i <= t.size(); ++i)
  {
    Matcher m(t); size_t end = 0;
    if (m.any(e, i, [&](size_t j) { end = j; return true; })) return Result{ true, i, end, m.cap };
  }
  return Result{ false, 0, 0, {} };
}
void compare(RegularExpression const& r, Result const& w, std::string const& t, std::string const& what)
{
  REQUIRE_EQ(r.start(), w.b, what << ": start of the match in " << pbt::show(t));
  REQUIRE_EQ(r.end(), w.e, what << ": end of the match in " << pbt::show(t));
  REQUIRE_EQ(pbt::show(r.match(0)), pbt::show(t.substr(w.b, w.e - w.b)), what << ": match");
  for (int k = 1; k < 10; ++k)
  {
    auto c = w.cap[size_t(k)];
    REQUIRE_EQ(pbt::show(r.match(k)), pbt::show(c.first < 0 ? "" : t.substr(size_t(c.first), size_t(c.second - c.first))), what << ": group " << k << " in " << pbt::show(t));
    if (c.first >= 0) { REQUIRE_EQ(r.start(k), size_t(c.first), what << ": start of group " << k); REQUIRE_EQ(r.end(k), size_t(c.second), what << ": end of group " << k); }
  }
}
}

PBT_PROP(matches, 120000, 4000000, "a match by an expression with a group, an alternative or a repetition")
{
  Gen g(s); std::vector<Seq> e = g.alts(0); std::string p = text(e);
  s.note() << "expression " << pbt::show(p) << "\n";
  RegularExpression r;
  bool ok = s.flip() ? r.compile(p) : r.compile(p.c_str());
  REQUIRE_EQ(ok, valid(e), "expression accepted");
  REQUIRE_EQ(r.is_valid(), ok, "valid");
  if (!ok) { s.label("refused"); std::string t = subject(s, g, e); REQUIRE(!r.find(t), "an invalid expression matches nothing"); return; }
  bool rich = p.find_first_of("(|*+?") != std::string::npos;
  size_t n = 0;
  do
  {
    std::string t = subject(s, g, e); s.note() << "subject " << pbt::show(t) << "\n";
    Result w = expect(e, t); bool f = s.flip() ? r.find(t) : r.find(t.c_str());
    REQUIRE_EQ(f, w.found, "found in " << pbt::show(t));
    if (!f) { s.label("no match"); continue; }
    s.label("match"); if (rich) s.nontrivial();
    // results point into the text searched, which must live for std::string as well: t does
    compare(r, w, t, "searched");
    int how = int(s.range(0, 3));
    if (how == 1) { RegularExpression c(r); compare(c, w, t, "copied"); REQUIRE(c == r && c.deep_equal(r), "a copy is equal"); REQUIRE_EQ(c.find(t), true, "a copy finds the same"); compare(c, w, t, "found by the copy"); }
    if (how == 2) { RegularExpression c(s.flip() ? "x" : "(a|b)*c"); c = r; compare(c, w, t, "assigned"); REQUIRE(c == r && c.deep_equal(r), "an assigned one is equal"); r.set_invalid(); REQUIRE(!r.is_valid() && c.is_valid(), "independent of its original"); REQUIRE_EQ(c.find(t), true, "an assigned one finds the same"); compare(c, w, t, "found by the assigned one"); r = c; REQUIRE(r.is_valid(), "assigned back"); }
    if (how == 3) { RegularExpression none; RegularExpression c(r), d(none); c = none; REQUIRE(!c.is_valid() && !d.is_valid() && !c.find(t), "copies of an empty expression"); }
  } while (s.more(n, 2, 5));
}

PBT_PROP(refused, 30000, 600000, "every case")
{ // every single error is reported, whatever surrounds it
  Gen g(s); std::vector<Seq> e = g.alts(0); int const ga = g.groups; std::vector<Seq> e2 = g.alts(0); if (!valid(e) || !valid(e2)) throw Discard();
  std::string a = text(e), b = text(e2), p; int k = int(s.range(0, 9)); s.nontrivial();
  switch (k)
  {
  case 0: p = a + "(" + b; break;
  case 1: p = a + ")" + b; break;
  case 2: p = a + "[" + s.pick(std::vector<std::string>{ "", "^", "]", "a", "a-", "^]x" }); break;
  case 3: p = "(" + a + ")\\"; break;
  case 4: p = (a.empty() ? "" : a + "|") + s.pick(std::vector<std::string>{ "*", "+", "?" }) + b; break;
  case 5: p = a + "(" + s.pick(std::vector<std::string>{ "*", "+", "?" }) + "b)"; break;
  case 6: p = a + "x" + s.pick(std::vector<std::string>{ "**", "*+", "*?", "++", "+*", "+?", "??", "?*", "?+" }) + b; break;
  case 7: p = "x[b-a]" + a; break;
  case 8: { p = a; for (int i = ga; i < 10; ++i) p += i & 1 ? "(y)" : "(z|w)"; if (s.chance(1, 3)) { p = "a"; for (int i = 0; i < 10; ++i) p = "(" + p + ")"; } break; }
  default: p = "u(v*)" + s.pick(std::vector<std::string>{ "*", "+" }) + b; break;
  }
  s.note() << pbt::show(p); s.label("error " + std::to_string(k));
  RegularExpression r; REQUIRE(!r.compile(p), "accepted"); REQUIRE(!r.is_valid(), "valid");
  RegularExpression q(p); REQUIRE(!q.is_valid() && !q.find("abc"), "constructed from it");
  RegularExpression ok("a(b)c"); REQUIRE(ok.is_valid() && ok.find("xabc") && ok.match(1) == "b", "another expression afterwards");
}

PBT_PROP(equality, 20000, 300000, "two different expressions")
{
  Gen g(s); std::vector<Seq> e = g.alts(0); if (!valid(e)) throw Discard(); std::string p = text(e), q = p;
  if (!p.empty() && s.flip()) { Gen h(s); auto f = h.alts(0); if (!valid(f)) throw Discard(); q = text(f); }
  s.note() << pbt::show(p) << " and " << pbt::show(q);
  RegularExpression a(p), b(q);
  if (p == q) { REQUIRE(a == b && !(a != b), "the same expression"); return; }
  s.nontrivial(); REQUIRE((a == b) == !(a != b) && (a == b) == (b == a), "equal or not");
  if (a == b)
  { // then they mean the same
    for (int i = 0; i < 3; ++i) { std::string t = subject(s, g, e); bool fa = a.find(t), fb = b.find(t); REQUIRE(fa == fb && (!fa || (a.start() == b.start() && a.end() == b.end())), "equal expressions differ on " << pbt::show(t)); }
  }
}
