// C25: splitting, joining, collapsing, relating and converting paths.
#include "pbt.hpp"
#include <kwsys/SystemTools.hxx>
#include <algorithm>
#include <cstdlib>
#include <climits>
#include <pwd.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
typedef kwsys::SystemTools ST;
typedef std::vector<std::string> Strs;
static std::string show(Strs const& v) { std::string r = "["; for (auto const& e : v) r += pbt::show(e) + " "; return r + "]"; }
static std::vector<std::string> plain(std::vector<kwsys::String> const& v) { return Strs(v.begin(), v.end()); }

// ---- generators
static std::string gen_name(Src& s)
{
  static const Strs names = { "a", "b", "foo", "foo-dir", "x.tar.gz", ".hidden", "a b", "...", "..a", "file.", "\xc3\xbc", "ab", "q~", "c", "x.y.z", "-", "ab:c" };
  return s.chance(1, 30) ? std::string(size_t(s.range(1, 200)), 'n') : s.pick(names);
}
static std::string gen_rel(Src& s, unsigned avg, bool dots, bool slashes)
{
  std::string r; size_t n = 0;
  while (s.more(n, avg, 12))
  {
    if (n > 1 || !r.empty()) r += "/";
    switch (s.weighted({8, dots ? 4u : 0u, dots ? 2u : 0u, slashes ? 1u : 0u})) { case 0: r += gen_name(s); break; case 1: r += ".."; break; case 2: r += "."; break; default: break; }
  }
  return r;
}
static Strs fields(std::string const& s, std::string const& seps)
{
  Strs r(1); for (char c : s) if (seps.find(c) != std::string::npos) r.push_back(""); else r.back() += c;
  return r;
}
static std::string join(Strs const& v, std::string const& sep) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? sep : "") + v[i]; return r; }
static std::string squeeze(std::string const& p, size_t from, char c = '/')
{
  std::string r; for (size_t i = 0; i < p.size(); ++i) if (!(i > from && p[i] == c && p[i - 1] == c)) r += p[i];
  return r;
}
static std::string home_of(std::string const& user)
{
  if (user.empty()) { const char* h = getenv("HOME"); return h ? h : ""; }
  passwd* p = getpwnam(user.c_str()); return p ? p->pw_dir : "";
}
static Strs const& users()
{
  static Strs r;
  if (r.empty()) for (auto u : { "root", "daemon", "nobody", "bin" }) { std::string h = home_of(u); if (h.size() > 1 && h[0] == '/' && *h.rbegin() != '/') r.push_back(u); }
  return r;
}
static void gen_home(Src& s)
{
  static const Strs homes = { "/home/me", "/root", "/home/me/", "/", "/h", "/home/a b" };
  std::string h = s.pick(homes); setenv("HOME", h.c_str(), 1); s.note() << "HOME=" << h << " ";
}
// a root and what the documentation makes of it
static std::string gen_root(Src& s, bool homes, bool windows)
{
  switch (s.weighted({6, 4, 1, homes ? 2u : 0u, homes && !users().empty() ? 1u : 0u, windows ? 1u : 0u, windows ? 1u : 0u}))
  {
  case 0: return "/"; case 1: return ""; case 2: return "//"; case 3: return "~/"; case 4: return "~" + s.pick(users()) + "/";
  case 5: return std::string(1, char(s.range('a', 'e'))) + ":/"; default: return std::string(1, char(s.range('C', 'F'))) + ":";
  }
}

// ---- reference
static std::string split_root(std::string const& p, std::string& rest)
{
  auto sl = [&](size_t i) { return i < p.size() && (p[i] == '/' || p[i] == '\\'); };
  if (p.size() > 1 && ((p[0] == '/' && p[1] == '/') || (p[0] == '\\' && p[1] == '\\'))) { rest = p.substr(2); return "//"; }
  if (sl(0)) { rest = p.substr(1); return "/"; }
  if (p.size() > 1 && p[1] == ':') { bool full = sl(2); rest = p.substr(full ? 3 : 2); return p.substr(0, 2) + (full ? "/" : ""); }
  if (!p.empty() && p[0] == '~') { size_t k = p.find('/'); rest = k == std::string::npos ? "" : p.substr(k + 1); return p.substr(0, k) + "/"; }
  rest = p; return "";
}
static Strs split(std::string const& p, bool expand)
{
  std::string rest, root = split_root(p, rest); Strs r;
  if (expand && !root.empty() && root[0] == '~')
  {
    std::string h = home_of(root.substr(1, root.size() - 2));
    if (h.size() > 1 && *h.rbegin() == '/') h.resize(h.size() - 1);
    r = split(h, false);
  }
  else r.push_back(root);
  if (!rest.empty()) for (auto const& f : fields(rest, "/\\")) r.push_back(f);
  return r;
}
static std::string put_together(Strs const& c) { std::string r; for (size_t i = 0; i < c.size(); ++i) r += (i > 1 ? "/" : "") + c[i]; return r; }
// the components the path stands for; nothing is above the first one
static Strs resolve(Strs const& base, Strs const& p)
{
  Strs r; Strs all = p;
  if (p[0].empty()) { all = base; all.insert(all.end(), p.begin() + 1, p.end()); }
  r.push_back(all[0]);
  for (size_t i = 1; i < all.size(); ++i) if (all[i] == "..") { if (r.size() > 1) r.pop_back(); } else if (all[i] != "." && !all[i].empty()) r.push_back(all[i]);
  return r;
}
static bool trailing_slash_root(std::string const& r) { return !r.empty() && *r.rbegin() == '/'; }

// ---- translation of physical into logical names (changes the process, so a process each)
static void wipe(std::string const& d) { if (system(("rm -rf '" + d + "'").c_str())) {} }
PBT_PROP_ISOLATED(kept_names, 400, 6000, "a path inside of the kept directory, or one beside it whose name starts the same")
{
  static int n = 0;
  std::string top = pbt::scratch() + "/k" + std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(top.c_str(), 0700); { char* r = realpath(top.c_str(), nullptr); top = r; free(r); }
  struct W { std::string d; ~W() { wipe(d); } } w{top};
  std::string name = s.pick(Strs{ "foo", "a b", "x" }), phys = top + "/" + name, logical = top + "/link";
  mkdir(phys.c_str(), 0700); mkdir((phys + "-dir").c_str(), 0700); mkdir((phys + "/in").c_str(), 0700); symlink(phys.c_str(), logical.c_str());
  std::string keep = logical; bool deep = s.flip(); if (deep) keep += "/in";
  bool slash = s.flip(), kept = s.chance(4, 5);
  s.note() << "keep " << (kept ? keep : "nothing") << (slash ? "/" : "") << " for " << phys << (deep ? "/in" : "");
  if (kept) ST::AddKeepPath(keep + (slash ? "/" : ""));
  std::string from = phys + (deep ? "/in" : "");
  size_t k = 0;
  while (s.more(k, 4, 12))
  {
    std::string tail = gen_rel(s, 2, true, true), p;
    switch (s.idx(6)) { case 5: p = s.pick(Strs{ "/copy", "/" }) + from; break; case 0: p = from; break; case 1: p = from + "-dir"; break; case 2: p = phys; break; case 3: p = logical; break; default: p = top; }
    if (!tail.empty()) p += "/" + tail;
    std::string rest; Strs c = resolve({}, split(p, true)); std::string want = put_together(c);
    if (kept && (want == from || want.compare(0, from.size() + 1, from + "/") == 0)) { want = keep + want.substr(from.size()); s.nontrivial(); }
    else if (kept && want.compare(0, from.size(), from) == 0) s.nontrivial();
    REQUIRE_EQ(ST::CollapseFullPath(p), want, "collapsing " << p << " with a kept name");
    std::string t = put_together(c), t2 = t; ST::CheckTranslationPath(t2);
    REQUIRE_EQ(t2, want, "translation of " << t);
  }
}

// ---- splitting and joining
PBT_PROP(components, 60000, 1500000, "three or more components, or a home directory")
{
  gen_home(s);
  std::string root = gen_root(s, true, true), p = root + gen_rel(s, 4, true, true);
  if (s.chance(1, 5)) p += "/";
  if (root[0] != '~' && s.chance(1, 6)) std::replace(p.begin(), p.end(), '/', '\\');
  if (root.size() > 1 && root[0] == '~' && p == root && s.flip()) p.resize(p.size() - 1);
  s.note() << pbt::show(p);
  std::string wrest, wroot = split_root(p, wrest), got = "junk";
  REQUIRE_EQ(std::string(ST::SplitPathRootComponent(p, &got)), wrest, "rest after the root of " << p); REQUIRE_EQ(got, wroot, "root of " << p);
  REQUIRE_EQ(std::string(ST::SplitPathRootComponent(p)), wrest, "rest after the root, alone");
  Strs c(2, "junk"); ST::SplitPath(p, c, false); Strs want = split(p, false);
  REQUIRE(c == want, "components " << ::show(c) << " and not " << ::show(want));
  REQUIRE(!c.empty(), "the first component always exists");
  REQUIRE_EQ(ST::JoinPath(c), put_together(want), "joined components");
  if (p.find('\\') == std::string::npos && !(p[0] == '~' && p.find('/') == std::string::npos)) REQUIRE_EQ(ST::JoinPath(c), p, "splitting and joining gives the path");
  size_t a = s.idx(c.size() + 1), b = a + s.idx(c.size() + 1 - a);
  REQUIRE_EQ(ST::JoinPath(c.begin() + long(a), c.begin() + long(b)), put_together(Strs(want.begin() + long(a), want.begin() + long(b))), "part of the components joined");
  Strs e(1, "junk"); if (s.flip()) ST::SplitPath(p, e); else ST::SplitPath(p, e, true);
  Strs ew = split(p, true); REQUIRE(e == ew, "with the home directory: " << ::show(e) << " and not " << ::show(ew));
  if (c.size() > 3 || p[0] == '~') s.nontrivial();
}
PBT_PROP(fields_of_text, 40000, 600000, "two or more fields")
{
  Strs f; size_t n = 0; char sep = s.pick(std::vector<char>{ '/', ',', ' ', ':', '\n' });
  bool empty = s.chance(1, 4);
  do { std::string t; if (!empty || s.flip()) { t = gen_name(s); t.erase(std::remove(t.begin(), t.end(), sep), t.end()); if (t.empty()) t = "_"; } f.push_back(t); } while (s.more(n, 4, 12));
  bool path = s.flip(), lead = path && s.flip(); std::string body = join(f, std::string(1, sep)), p = (lead ? "/" : "") + body;
  if (path && !lead && !p.empty() && p[0] == '/') throw Discard();
  s.note() << pbt::show(p) << " at " << sep;
  Strs got = path ? plain(ST::SplitString(p, sep, true)) : s.flip() ? plain(ST::SplitString(p, sep)) : plain(ST::SplitString(p, sep, false));
  if (p.empty()) { REQUIRE(got.empty(), "fields of nothing"); return; }
  if (f.size() > 1) s.nontrivial();
  if (lead) { REQUIRE(!got.empty() && got[0] == "/", "the root is the first part of " << ::show(got)); got.erase(got.begin()); }
  if (!empty) REQUIRE(got == f, "fields " << ::show(got) << " and not " << ::show(f));
  REQUIRE_EQ(join(got, std::string(1, sep)), body, "the fields joined give the text");
}
PBT_PROP(path_lists, 20000, 300000, "three or more directories in the list")
{
  gen_home(s);
  Strs before, e; size_t n = 0; while (s.more(n, 1, 3)) before.push_back(s.pick(Strs{ "/old/", "x//y", "a\\b", "" }));
  Strs want = before; n = 0;
  while (s.more(n, 3, 10))
  {
    std::string root = gen_root(s, true, false), d = root == "//" ? "/" : root; d += gen_rel(s, 2, true, false);
    std::string t; for (char c : d) if (c != ':') t += c; d = t; std::string w = d;
    if (!w.empty() && w[0] == '~') { size_t k = w.find('/'); std::string h = home_of(w.substr(1, k - 1)); w = put_together(split(w, true)); if (w.empty()) w = h; (void)k; }
    if (w.size() > 1 && *w.rbegin() == '/') w.resize(w.size() - 1); else if (w.size() > 1 && s.chance(1, 4)) d += "/";
    e.push_back(d); want.push_back(w);
  }
  std::string v = join(e, ":"); bool end = !e.empty() && e.back().empty(); if (end) { want.pop_back(); } else if (!e.empty() && s.flip()) v += ":";
  const char* name = s.flip() ? "PATH" : "VERIF_DIRS"; bool set = s.chance(9, 10); std::string old = getenv("PATH");
  if (e.size() == 1 && e[0].empty()) { want = before; }
  if (set) setenv(name, v.c_str(), 1); else unsetenv(name);
  if (!set) want = before;
  s.note() << name << "=" << pbt::show(v);
  Strs got = before; if (std::string(name) == "PATH" && s.flip()) ST::GetPath(got); else ST::GetPath(got, name);
  setenv("PATH", old.c_str(), 1); unsetenv("VERIF_DIRS");
  REQUIRE(got == want, "directories " << ::show(got) << " and not " << ::show(want));
  if (set && e.size() > 2) s.nontrivial();
}

// ---- collapsing
PBT_PROP(collapsed, 60000, 1500000, "a '..' or '.' in the path and, for a relative path, a base")
{
  static std::string cwd;
  if (cwd.empty())
  {
    cwd = pbt::scratch() + "/cwd/b"; mkdir((pbt::scratch() + "/cwd").c_str(), 0700); mkdir(cwd.c_str(), 0700);
    if (chdir(cwd.c_str())) throw Discard();
    char b[PATH_MAX]; cwd = getcwd(b, sizeof b);
  }
  gen_home(s);
  std::string root = gen_root(s, true, true), p = root + gen_rel(s, 5, true, true), base; if (s.chance(1, 6)) p += "/";
  if (root[0] != '~' && s.chance(1, 10)) std::replace(p.begin(), p.end(), '/', '\\');
  int how = int(s.idx(4)); if (how > 1) { base = gen_root(s, true, false) + gen_rel(s, 3, true, true); }
  Strs pc = split(p, true), bc = split(how > 1 ? base : cwd, true), want = resolve(bc, pc);
  s.note() << pbt::show(p) << (how > 1 ? " from " + pbt::show(base) : "");
  std::string w = put_together(want), got;
  switch (how) { case 0: got = ST::CollapseFullPath(p); break; case 1: got = ST::CollapseFullPath(p, static_cast<const char*>(nullptr)); break; case 2: got = ST::CollapseFullPath(p, base.c_str()); break; default: got = ST::CollapseFullPath(p, base); }
  if (pc[0].empty() && bc[0].empty())
  { // relative to something relative: only where it stays inside of it
    int depth = 0, low = 0; for (auto v : { bc, pc }) for (size_t i = 1; i < v.size(); ++i) { if (v[i] == "..") --depth; else if (!v[i].empty() && v[i] != ".") ++depth; low = std::min(low, depth); }
    if (low < 0) return;
  }
  REQUIRE_EQ(got, w, "collapsed path");
  if ((p.find("..") != std::string::npos || p.find("./") != std::string::npos) && (!pc[0].empty() || how > 1)) s.nontrivial();
  if (ST::FileIsFullPath(got)) { REQUIRE_EQ(ST::CollapseFullPath(got), got, "collapsing again"); REQUIRE(got.find("/../") == std::string::npos && got.find("/./") == std::string::npos, "no dots left"); }
}
PBT_PROP(full_or_not, 20000, 200000, "a path with a root")
{
  std::string p = gen_root(s, true, false) + gen_rel(s, 2, true, true); bool want = !p.empty() && (p[0] == '/' || p[0] == '~');
  s.note() << pbt::show(p);
  REQUIRE_EQ(ST::FileIsFullPath(p), want, "full path"); REQUIRE_EQ(ST::FileIsFullPath(p.c_str()), want, "full path as C string");
  std::string r; REQUIRE(ST::GetShortPath(p, r) && r == p, "short path is the path"); REQUIRE_EQ(ST::GetActualCaseForPath(p), p, "case of the path");
  std::string q = s.flip() ? p : gen_root(s, true, false) + gen_rel(s, 2, true, true); if (s.chance(1, 4) && !q.empty()) q[s.idx(q.size())] ^= 0x20;
  if (q.find('\0') == std::string::npos) REQUIRE_EQ(ST::ComparePath(p, q), p == q, "comparing " << p << " with " << q);
  if (want) s.nontrivial();
}
PBT_PROP(relative_paths, 60000, 1500000, "paths that share directories and differ in some")
{
  gen_home(s);
  std::string common = gen_rel(s, 2, false, false), a = gen_root(s, true, false), b = s.chance(9, 10) ? a : gen_root(s, true, false);
  if (a == "//") a = "/"; if (b == "//") b = "/";
  if (!common.empty()) { a += common + "/"; b += common + "/"; }
  a += gen_rel(s, 2, true, true); b += gen_rel(s, 2, true, true);
  if (a.compare(0, 2, "//") == 0 || b.compare(0, 2, "//") == 0) throw Discard();
  s.note() << "from " << pbt::show(a) << " to " << pbt::show(b);
  std::string got = ST::RelativePath(a, b);
  auto full = [](std::string const& p) { return !p.empty() && (p[0] == '/' || p[0] == '~'); };
  if (!full(a) || !full(b)) { REQUIRE_EQ(got, "", "no relative path without full paths"); return; }
  Strs l = resolve({}, split(a, true)), r = resolve({}, split(b, true)); size_t k = 0; while (k < l.size() && k < r.size() && l[k] == r[k]) ++k;
  std::string want; for (size_t i = k; i < l.size(); ++i) want += "../";
  for (size_t i = k; i < r.size(); ++i) want += (i > k ? "/" : "") + r[i];
  REQUIRE_EQ(got, want, "relative path");
  REQUIRE_EQ(ST::CollapseFullPath(got, ST::CollapseFullPath(a)), ST::CollapseFullPath(b), "following the relative path " << got);
  if (k > 1 && (k < l.size() || k < r.size())) s.nontrivial();
}
PBT_PROP(inside, 60000, 1000000, "one path starts with the other")
{
  gen_home(s);
  std::string rt = gen_root(s, true, false); if (rt == "//") rt = "/";
  std::string d = gen_rel(s, 2, false, false), f; bool same = s.chance(3, 4);
  if (same) { f = d; switch (s.idx(4)) { case 0: break; case 1: f += (d.empty() ? "" : "/") + gen_rel(s, 2, false, false); break; case 2: f += "-dir/x"; break; default: f += "x"; } }
  else f = gen_rel(s, 3, false, false);
  std::string rf = s.chance(9, 10) ? rt : gen_root(s, true, false); if (rf == "//") rf = "/";
  d = rt + d; f = rf + f; if (s.chance(1, 4) && d != "/" && !d.empty() && *d.rbegin() != '/') d += "/";
  s.note() << pbt::show(f) << " in " << pbt::show(d);
  auto meaning = [](std::string p) { while (p.size() > 1 && *p.rbegin() == '/') p.resize(p.size() - 1); Strs c = split(p, true); Strs r; for (auto const& e : c) r.push_back(e); return r; };
  Strs dc = resolve({""}, meaning(d)), fc = resolve({""}, meaning(f));
  bool want = !d.empty() && dc.size() < fc.size() && std::equal(dc.begin(), dc.end(), fc.begin());
  if (d.empty() && !want) { REQUIRE(!ST::IsSubDirectory(f, d), "nothing is inside of no directory"); return; }
  REQUIRE_EQ(ST::IsSubDirectory(f, d), want, f << " inside of " << d);
  if (same) s.nontrivial();
}

// ---- parts of file names
PBT_PROP(parts, 60000, 1000000, "a directory and an extension")
{
  gen_home(s);
  std::string root = gen_root(s, true, true); if (root == "//" || (root.size() == 2 && root[1] == ':')) root = "/";
  std::string dir = gen_rel(s, 3, false, false), name = gen_name(s), p = root + (dir.empty() ? "" : dir + "/") + name;
  s.note() << pbt::show(p);
  std::string want = root + dir;
  if (root[0] == '~') { std::string h = home_of(root.substr(1, root.size() - 2)); if (h.size() > 1 && *h.rbegin() == '/') h.resize(h.size() - 1); want = h + (dir.empty() ? "" : (h == "/" ? "" : "/") + dir); }
  REQUIRE_EQ(ST::GetFilenamePath(p), want, "directory of " << p); REQUIRE_EQ(ST::GetParentDirectory(p), want, "parent of " << p);
  REQUIRE_EQ(ST::GetFilenameName(p), name, "name of " << p);
  size_t a = name.find('.'), b = name.rfind('.');
  REQUIRE_EQ(ST::GetFilenameExtension(p), a == std::string::npos ? "" : name.substr(a), "longest extension of " << p);
  REQUIRE_EQ(ST::GetFilenameLastExtension(p), b == std::string::npos ? "" : name.substr(b), "last extension of " << p);
  REQUIRE_EQ(ST::GetFilenameWithoutExtension(p), name.substr(0, a), "name without extension of " << p);
  REQUIRE_EQ(ST::GetFilenameWithoutLastExtension(p), name.substr(0, b), "name without last extension of " << p);
  if (!dir.empty() && a != std::string::npos) s.nontrivial();
  if (root == "/") REQUIRE(ST::IsSubDirectory(p, ST::GetFilenamePath(p)), "a file is inside of its directory");
}

// ---- conversions
static std::string gen_any(Src& s, char other)
{
  std::string r; size_t n = 0;
  while (s.more(n, 6, 20)) r += s.pick(Strs{ "/", "a", "b c", std::string(1, other), "//", " ", "x.y", "..", "/", "ab" });
  return r;
}
PBT_PROP(unix_slashes, 60000, 1000000, "a backslash and a slash")
{
  gen_home(s);
  std::string p = gen_any(s, '\\'); int tilde = int(s.weighted({6, 1, 1})); if (p.find("\\ ") != std::string::npos && s.flip()) throw Discard();
  std::string tail = p, head;
  if (tilde && (p.empty() || p[0] == '/')) { std::string u = tilde == 1 || users().empty() ? "" : s.pick(users()); head = home_of(u); p = "~" + u + p; } else tilde = 0;
  s.note() << pbt::show(p);
  std::string got = p; ST::ConvertToUnixSlashes(got);
  std::string w; for (size_t i = 0; i < tail.size(); ++i) w += tail[i] == '\\' && !(i + 1 < tail.size() && tail[i + 1] == ' ') ? '/' : tail[i];
  std::string exact = head + w, sq = squeeze(exact, 0);
  if (sq.size() > 1 && *sq.rbegin() == '/' && !(sq.size() == 3 && sq[1] == ':')) sq.resize(sq.size() - 1);
  std::string gs = squeeze(got, 0); if (gs.size() > 1 && *gs.rbegin() == '/' && !(gs.size() == 3 && gs[1] == ':')) gs.resize(gs.size() - 1);
  REQUIRE_EQ(gs, sq, "with forward slashes, up to repeated ones (" << got << ")");
  if (p.find('\\') == std::string::npos && p.find("///") == std::string::npos && p.compare(0, 2, "//") && !tilde) REQUIRE_EQ(got, sq, "with single slashes and none at the end");
  if (exact.find("//") == std::string::npos && !tilde) REQUIRE_EQ(got, sq, "without slash at the end");
  if (p.find('\\') != std::string::npos && p.find('/') != std::string::npos) s.nontrivial();
}
PBT_PROP(output_paths, 60000, 1000000, "a double slash and a space")
{
  std::string p = gen_any(s, 'e'); bool esc = s.chance(1, 5); if (esc) { std::string r; for (char c : p) r += c == ' ' && s.flip() ? std::string("\\ ") : std::string(1, c); p = r; }
  s.note() << pbt::show(p);
  std::string w = squeeze(p, 1), u; // a double slash may stay at the start
  for (size_t i = 0; i < w.size(); ++i) { if (w[i] == ' ' && !(i && w[i - 1] == '\\')) u += '\\'; u += w[i]; }
  REQUIRE_EQ(ST::ConvertToUnixOutputPath(p), u, "for a makefile"); REQUIRE_EQ(ST::ConvertToOutputPath(p), u, "for this platform");
  REQUIRE_EQ(ST::ConvertToUnixOutputPath(u), u, "again");
  if (!esc && p.size() > 1)
  {
    bool quoted = p.size() > 2 && s.chance(1, 5); std::string q = quoted ? "\"" + p + "\"" : p, v = p;
    std::replace(v.begin(), v.end(), '/', '\\'); v = squeeze(v, 1, '\\');
    if (quoted || v.find(' ') != std::string::npos) v = "\"" + v + "\"";
    REQUIRE_EQ(ST::ConvertToWindowsOutputPath(q), v, "for Windows, from " << q);
    REQUIRE_EQ(ST::ConvertToWindowsOutputPath(v), v, "for Windows, again");
  }
  if (p.find("//") != std::string::npos && p.find(' ') != std::string::npos) s.nontrivial();
}
