// Globbing of kwiversys: patterns against a matcher of their text, searches against a walk with
// system calls over generated trees with links, cycles and directories that can not be read.
#include "pbt.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <kwsys/Glob.hxx>
#include <kwsys/RegularExpression.hxx>
#include <limits.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<std::string> Strs;
typedef kwsys::Glob Glob;

namespace {
std::string show_all(Strs const& v) { std::string r; for (auto const& x : v) r += "  " + show(x) + "\n"; return r; }

// ---- what a pattern means: the end of the bracket expression that begins at i, or npos
size_t bracket_end(std::string const& p, size_t i) { size_t k = i + 1; if (k < p.size() && (p[k] == '!' || p[k] == '^')) ++k; if (k < p.size() && p[k] == ']') ++k; return p.find(']', k); }
bool matches_at(std::string const& p, size_t i, std::string const& t, size_t j)
{
  for (; i < p.size(); ++i)
  {
    if (p[i] == '*') { for (size_t k = j;; ++k) { if (matches_at(p, i + 1, t, k)) return true; if (k >= t.size() || t[k] == '/') return false; } }
    if (p[i] == '[' && bracket_end(p, i) != std::string::npos)
    {
      if (j >= t.size()) return false;
      size_t e = bracket_end(p, i), k = i + 1; bool in = false, other = p[k] == '!' || p[k] == '^'; if (other) ++k; unsigned char c = static_cast<unsigned char>(t[j]);
      while (k < e) { unsigned char a = static_cast<unsigned char>(p[k]), b = a; if (k + 2 < e && p[k + 1] == '-') { b = static_cast<unsigned char>(p[k + 2]); k += 3; } else ++k; if (c >= a && c <= b) in = true; }
      if (in == other) return false;
      ++j; i = e; continue;
    }
    if (j >= t.size() || (p[i] == '?' ? t[j] == '/' : t[j] != p[i])) return false;
    ++j;
  }
  return j == t.size();
}
bool matches(std::string const& p, std::string const& t) { return matches_at(p, 0, t, 0); }
bool occurs(std::string const& p, std::string const& t) { for (size_t i = 0; i <= t.size(); ++i) for (size_t n = 0; i + n <= t.size(); ++n) if (matches(p, t.substr(i, n))) return true; return false; }

std::string bracket(Src& s, std::string const& must)
{
  std::string r = "["; if (s.chance(1, 3)) r += s.flip() ? "!" : "^"; if (s.chance(1, 6)) r += "]"; else if (s.chance(1, 6)) r += "-"; size_t n = 0; bool any = false;
  while (s.more(n, 2, 5))
  {
    static std::vector<std::string> const items = { "a", "b", "B", "0", ".", "*", "?", "[", "+", "\\", " ", "$", "a-c", "A-Z", "0-9", "x-z", "!-/", "^-`", "\xc3-\xff", "a-a" };
    std::string t = s.chance(1, 3) && must.size() == 1 && must != "]" && must != "-" && must != "/" ? must : s.pick(items);
    if (!any && r.size() == 1 && (t[0] == '!' || t[0] == '^')) continue; // would be a complement
    if (r.back() == '[' && (t == ":" || t == ".")) continue;
    r += t; any = true;
  }
  if (!any && r.back() != ']' && r.back() != '-') r += "a"; if (s.chance(1, 8) && r.back() != '-') r += "-";
  if (r == "[-" || r == "[!-" || r == "[^-") r += "a";
  return r + "]";
}
// a pattern made from a name, so that it may well match it
std::string pattern(Src& s, std::string const& name)
{
  std::string r; size_t stars = 0;
  for (size_t i = 0; i < name.size(); ++i)
    switch (s.weighted({ 8, 2, 2, 2, 1, 1 }))
    {
      case 1: r += "?"; break;
      case 2: r += "*"; if (++stars < 4) i += s.idx(3); break;
      case 3: r += bracket(s, name.substr(i, 1)); break;
      case 4: r += "*"; r += name[i]; break;
      case 5: r += s.pick(std::vector<std::string>{ "a", "[", "]", ".", "+", "(", ")", "|", "$", "^", "{", "!" }); break;
      default: r += name[i];
    }
  if (s.chance(1, 8)) r += "*"; if (s.chance(1, 20)) r += "["; return r;
}
std::string const CHARS = "aabbcB09.-_ *?[]!^$+(){}|\\\n~\xc3\xa9";
std::string some_text(Src& s, bool slashes) { std::string t; size_t n = 0; while (s.more(n, 4, 12)) t += slashes && s.chance(1, 5) ? '/' : CHARS[s.idx(CHARS.size())]; return t; }
bool has_bracket_complement(std::string const& p) { return p.find("[!") != std::string::npos || p.find("[^") != std::string::npos; }
} // namespace

PBT_PROP(patterns, 120000, 3000000, "a pattern that is not all literal")
{
  std::string t = some_text(s, true), p = s.chance(4, 5) ? pattern(s, t) : pattern(s, some_text(s, true)); size_t slash = p.find('/');
  // a bracket expression is not meant to reach over a slash
  for (size_t i = 0; i < p.size(); ++i) if (p[i] == '[' && bracket_end(p, i) != std::string::npos) { size_t e = bracket_end(p, i); if (slash != std::string::npos && p.substr(i, e - i).find('/') != std::string::npos) return; i = e; }
  if (t.find('/') != std::string::npos && has_bracket_complement(p)) return;
  for (size_t i = 0; i < p.size(); ++i) if (p[i] == '[' && bracket_end(p, i) != std::string::npos) { size_t e = bracket_end(p, i); for (size_t k = i + 1; k < e; ++k) if (p[k] == '-' && k + 1 < e && k > i + 1 && static_cast<unsigned char>(p[k - 1]) > static_cast<unsigned char>(p[k + 1])) return; i = e; } // no valid range
  s.note() << show(p) << " on " << show(t) << "\n"; if (p.find_first_of("*?[") != std::string::npos) s.nontrivial();
  kwsys::RegularExpression whole(Glob::PatternToRegex(p)); REQUIRE(whole.is_valid(), "pattern " << show(p)); bool want = matches(p, t); if (want) s.label("match");
  REQUIRE_EQ(whole.find(t), want, "pattern " << show(p) << " on " << show(t)); REQUIRE_EQ(Glob::PatternToRegex(p, true, true), Glob::PatternToRegex(p), "case");
  if (t.size() < 10) { kwsys::RegularExpression part("x|" + Glob::PatternToRegex(p, false) + "|y"); REQUIRE(part.is_valid(), "parts of " << show(p)); bool some = occurs(p, t) || t.find_first_of("xy") != std::string::npos; REQUIRE_EQ(part.find(t), some, "pattern " << show(p) << " in " << show(t)); }
}

namespace {
bool is_dir(std::string const& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
bool is_link(std::string const& p) { struct stat st; return lstat(p.c_str(), &st) == 0 && S_ISLNK(st.st_mode); }
std::string real(std::string const& p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? b : ""; }
bool entries(std::string const& d, Strs& r) { DIR* h = opendir(d.c_str()); if (!h) return false; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(h); return true; }
void remove_tree(std::string const& p) { struct stat st; if (lstat(p.c_str(), &st)) return; if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); Strs e; entries(p, e); for (auto const& n : e) remove_tree(p + "/" + n); rmdir(p.c_str()); } else unlink(p.c_str()); }

bool g_root() { return getuid() == 0; }
struct Unprivileged // reading as a user who owns nothing
{
  bool on; explicit Unprivileged(bool o) : on(o && g_root()) { if (on && (setresgid(65534, 65534, 0) || setresuid(65534, 65534, 0))) throw Discard(); }
  ~Unprivileged() { if (on && (setresuid(0, 0, 0) || setresgid(0, 0, 0))) _exit(99); }
};

struct Settings { bool recurse, through, dirs, rdirs; };
struct Walk
{
  Settings set; Strs comps; std::vector<std::string> found, cycles; unsigned followed = 0;
  bool dir(std::string const& p) const { return is_dir(p); }
  void below(std::string const& d, std::vector<std::string>& in) // everything below that matches the last component
  {
    Strs e; if (!entries(d, e)) return;
    for (auto const& n : e)
    {
      std::string p = d + "/" + n; bool link = is_link(p);
      if (is_dir(p) && (!link || set.through))
      {
        if (link) { ++followed; std::string r = real(d); if (std::find(in.begin(), in.end(), r) != in.end()) { cycles.push_back(r + "/" + n); continue; } in.push_back(r); }
        if (set.rdirs) found.push_back(p);
        below(p, in); if (link) in.pop_back();
      }
      else if (matches(comps.back(), n)) found.push_back(p);
    }
  }
  void at(size_t i, std::string const& d)
  {
    bool last = i + 1 == comps.size(); if (last && set.recurse) { std::vector<std::string> in; below(d, in); return; }
    Strs e; if (!entries(d, e)) return;
    for (auto const& n : e)
    {
      std::string p = d + "/" + n; if (!matches(comps[i], n)) continue;
      if (!last) { if (is_dir(p)) at(i + 1, p); } else if (set.dirs || !is_dir(p)) found.push_back(p);
    }
  }
};
Strs split(std::string const& p) { Strs r; std::string c; for (char x : p + "/") if (x == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; return r; }
std::string relative(std::string const& from, std::string const& to)
{
  Strs a = split(from), b = split(to), r; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  std::string t; for (size_t k = i; k < a.size(); ++k) t += "../"; for (size_t k = i; k < b.size(); ++k) { if (!t.empty() && t.back() != '/') t += "/"; t += b[k]; } return t;
}
} // namespace

PBT_PROP(searches, 16000, 250000, "something found in a subdirectory by a pattern")
{
  static std::vector<std::string> const names = { "a", "b", "ab", "abc", "a.b", ".a", "B", "d", "a1", "[", "]", "[a]", "-", "x y", "*", "a\nb", "\xc3\xa9", "?", "^", "!", "a-b", "$a", "(a|b)", "a+" };
  static int number = 0; std::string sc = scratch(); chmod(sc.c_str(), 0711); for (std::string q = sc; q.find('/', 1) != std::string::npos; ) { q = q.substr(0, q.rfind('/')); if (q == "/tmp" || q.empty()) break; chmod(q.c_str(), 0711); }
  std::string base = sc + "/g" + std::to_string(++number); remove_tree(base); if (mkdir(base.c_str(), 0755)) throw Discard(); chmod(base.c_str(), 0755);
  Strs dirs(1, base), all, locked; size_t n = 0; bool links = false, cycles = s.flip();
  while (s.more(n, 12, 26))
  {
    std::string d = s.pick(dirs), p = d + "/" + s.pick(names); struct stat st; if (lstat(p.c_str(), &st) == 0 || p.size() - base.size() > 40) continue;
    switch (s.weighted({ 5, 5, 2, 1, 1 }))
    {
      case 0: { int f = open(p.c_str(), O_CREAT | O_WRONLY, 0644); if (f >= 0) close(f); break; }
      case 1: mkdir(p.c_str(), 0755); chmod(p.c_str(), 0755); dirs.push_back(p); if (s.chance(1, 10)) locked.push_back(p); break;
      case 2: { std::string to = s.pick(dirs); if (!cycles && (d + "/").compare(0, to.size() + 1, to + "/") == 0) continue; if (s.flip()) to = relative(d, to); if (to.empty()) to = "."; if (symlink(to.c_str(), p.c_str()) == 0) links = true; break; }
      case 3: { std::string to = all.empty() ? "nowhere" : s.pick(all); if (symlink(to.c_str(), p.c_str()) == 0) links = true; break; }
      default: if (symlink(s.flip() ? "nowhere" : p.c_str(), p.c_str())) continue;
    }
    all.push_back(p); s.note() << "have " << show(p.substr(base.size())) << "\n";
  }
  bool poor = s.flip(); if (poor) for (auto const& p : locked) { static int const modes[] = { 0, 0444, 0111 }; int m = modes[s.idx(3)]; chmod(p.c_str(), static_cast<mode_t>(m)); s.note() << "locked " << show(p.substr(base.size())) << " " << m << "\n"; }
  Glob g; size_t q = 0; unsigned counted = 0; Settings set = { false, true, true, false }; std::string rel; char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) throw Discard();
  try
  {
    while (s.more(q, 4, 10))
    {
      if (s.chance(1, 2)) { set.recurse = s.flip(); g.SetRecurse(set.recurse); } if (s.chance(1, 3)) { set.through = s.flip(); g.SetRecurseThroughSymlinks(set.through); } if (s.chance(1, 3)) { set.dirs = s.flip(); g.SetListDirs(set.dirs); } if (s.chance(1, 3)) { set.rdirs = s.flip(); g.SetRecurseListDirs(set.rdirs); }
      if (s.chance(1, 4)) { rel = s.chance(1, 2) ? "" : s.chance(1, 3) ? base.substr(0, base.rfind('/')) : s.pick(dirs); if (rel.find("~") != std::string::npos) rel = ""; g.SetRelative(rel.empty() ? nullptr : rel.c_str()); }
      REQUIRE(g.GetRecurse() == set.recurse && g.GetRecurseThroughSymlinks() == set.through && g.GetListDirs() == set.dirs && g.GetRecurseListDirs() == set.rdirs, "settings"); REQUIRE(rel.empty() ? !g.GetRelative() : g.GetRelative() && rel == g.GetRelative(), "directory the results are relative to");
      // a pattern from what is there, as a list of components
      std::string target = all.empty() ? base + "/a" : s.pick(all); Strs comps; std::string lead;
      for (auto const& c : split(target.substr(base.size()))) comps.push_back(s.chance(1, 3) ? c : pattern(s, c));
      if (s.chance(1, 4)) comps.push_back(pattern(s, s.pick(names))); if (s.chance(1, 6) && comps.size() > 1) comps.pop_back(); if (s.chance(1, 12)) comps.insert(comps.begin() + static_cast<long>(s.idx(comps.size())), "*");
      bool odd = false; for (auto const& c : comps) { if (c.empty() || c == "." || c == ".." || c.find('\\') != std::string::npos || c.find('/') != std::string::npos) odd = true; for (size_t i = 0; i < c.size(); ++i) if (c[i] == '[' && bracket_end(c, i) != std::string::npos) { size_t e = bracket_end(c, i); for (size_t k = i + 2; k + 1 < e; ++k) if (c[k] == '-' && static_cast<unsigned char>(c[k - 1]) > static_cast<unsigned char>(c[k + 1])) odd = true; i = e; } }
      if (odd) continue;
      bool from_here = s.chance(1, 3); std::string text; for (auto const& c : comps) text += (text.empty() ? "" : "/") + c; std::string asked = from_here ? text : base + "/" + text;
      // the directories before the first pattern are used as they are
      Walk w; w.set = set; std::string start = base; size_t k = 0; while (k + 1 < comps.size() && comps[k].find_first_of("*?[") == std::string::npos) start += "/" + comps[k++];
      w.comps.assign(comps.begin() + static_cast<long>(k), comps.end());
      s.note() << "search " << show(asked.substr(from_here ? 0 : base.size())) << (set.recurse ? " recurse" : "") << (set.through ? "" : " not through links") << (set.dirs ? "" : " no directories") << (set.rdirs ? " directories on the way" : "") << (rel.empty() ? "" : " relative to ") << rel << (poor ? " unprivileged" : "") << "\n";
      Glob::GlobMessages messages; bool ok, with = s.chance(3, 4); if (from_here && chdir(base.c_str())) throw Discard();
      { Unprivileged u(poor); w.at(0, start); ok = g.FindFiles(asked, with ? &messages : nullptr); }
      if (chdir(cwd)) throw Discard();
      REQUIRE(ok, "search"); Strs got = g.GetFiles(), want; for (auto const& p : w.found) { want.push_back(rel.empty() ? p : relative(rel, p)); if (std::count(p.begin() + static_cast<long>(base.size()), p.end(), '/') > 1 && w.comps.back().find_first_of("*?[") != std::string::npos) s.nontrivial(); }
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); REQUIRE(got == want, "search for " << show(asked) << " found\n" << show_all(got) << "instead of\n" << show_all(want));
      counted += w.followed; REQUIRE_EQ(g.GetFollowedSymlinkCount(), counted, "links followed");
      if (with) { std::sort(w.cycles.begin(), w.cycles.end()); Strs told; for (auto const& m : messages) { REQUIRE_EQ(static_cast<int>(m.type), static_cast<int>(Glob::cyclicRecursion), "kind of message " << show(m.content)); size_t at = m.content.rfind("\n/"); REQUIRE(at != std::string::npos, "message " << show(m.content)); told.push_back(m.content.substr(at + 1)); } std::sort(told.begin(), told.end()); REQUIRE(told == w.cycles, "cycles reported\n" << show_all(told) << "instead of\n" << show_all(w.cycles)); if (!told.empty()) s.label("cycle"); }
      if (links && !want.empty()) s.label("found with links"); if (!want.empty()) s.label("found");
    }
  }
  catch (...) { if (chdir(cwd)) {} for (auto const& p : locked) chmod(p.c_str(), 0755); remove_tree(base); throw; }
  for (auto const& p : locked) chmod(p.c_str(), 0755);
  remove_tree(base);
}
