// C26: operations on files and directories do what the plain system calls do, to these files and to no others.
// Every operation runs in one of two equal scratch trees, a reference made of system calls in the other one.
#include "pbt.hpp"
#include <kwsys/Directory.hxx>
#include <kwsys/SystemTools.hxx>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace pbt;
typedef kwsys::SystemTools ST;
typedef std::vector<std::string> Strs;
static std::string show(Strs const& v) { std::string r = "["; for (auto const& e : v) r += pbt::show(e) + " "; return r + "]"; }

namespace {
const uid_t NOBODY = 65534;
bool g_root() { static bool r = getuid() == 0; return r; }
// the code under test runs as a user who owns nothing but the scratch trees
struct Unprivileged
{
  Unprivileged() { if (g_root() && (setresgid(NOBODY, NOBODY, 0) || setresuid(NOBODY, NOBODY, 0))) throw Discard(); }
  ~Unprivileged() { if (g_root()) { if (setresuid(0, 0, 0) || setresgid(0, 0, 0)) _exit(99); } }
};
struct Limit // files larger than this can not be written
{
  rlimit old; bool on;
  explicit Limit(rlim_t n) : on(n != 0) { getrlimit(RLIMIT_FSIZE, &old); if (on) { signal(SIGXFSZ, SIG_IGN); rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } }
  ~Limit() { if (on) setrlimit(RLIMIT_FSIZE, &old); }
};

// ---- system calls
bool is_dir(std::string const& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
bool exists(std::string const& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
std::string real(std::string const& p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? b : ""; }
bool slurp(std::string const& p, std::string& out)
{
  int f = open(p.c_str(), O_RDONLY); if (f < 0) return false;
  out.clear(); char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) out.append(b, size_t(n));
  close(f); return n == 0;
}
bool spit(std::string const& p, std::string const& s)
{
  int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (f < 0) return false;
  size_t k = 0; bool ok = true; while (k < s.size() && ok) { ssize_t n = write(f, s.data() + k, s.size() - k); if (n <= 0) ok = false; else k += size_t(n); }
  close(f); return ok;
}
Strs entries(std::string const& d)
{
  Strs r; DIR* h = opendir(d.c_str()); if (!h) return r;
  while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); }
  closedir(h); std::sort(r.begin(), r.end()); return r;
}
std::string base(std::string const& p) { return p.substr(p.rfind('/') + 1); }
std::string parent(std::string const& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : k == 0 ? "/" : p.substr(0, k); }

// ---- reference operations
bool ref_mkdir(std::string const& p)
{
  if (p.empty()) return false;
  if (access(p.c_str(), R_OK) == 0) return is_dir(p);
  for (size_t k = p.find('/', 1); k != std::string::npos; k = p.find('/', k + 1)) mkdir(p.substr(0, k).c_str(), 0777);
  mkdir(p.c_str(), 0777);
  return is_dir(p);
}
bool ref_same(std::string const& a, std::string const& b) { struct stat s, t; return stat(a.c_str(), &s) == 0 && stat(b.c_str(), &t) == 0 && s.st_dev == t.st_dev && s.st_ino == t.st_ino; }
bool ref_copy(std::string const& a, std::string const& b)
{
  if (ref_same(a, b)) return true;
  std::string text; struct stat s; if (!slurp(a, text) || stat(a.c_str(), &s)) return false;
  std::string to = b; if (is_dir(b)) { to += "/" + base(a); if (ref_same(a, to)) return true; } else ref_mkdir(parent(b));
  unlink(to.c_str());
  return spit(to, text) && chmod(to.c_str(), s.st_mode & 07777) == 0;
}
bool ref_differ(std::string const& a, std::string const& b)
{
  struct stat s, t; if (stat(a.c_str(), &s) || stat(b.c_str(), &t) || s.st_size != t.st_size) return true;
  if (s.st_size == 0) return false;
  std::string x, y; return !slurp(a, x) || !slurp(b, y) || x != y;
}
bool ref_copy_changed(std::string const& a, std::string const& b) { return ref_differ(a, is_dir(b) ? b + "/" + base(a) : b) ? ref_copy(a, b) : true; }
bool ref_copydir(std::string const& a, std::string const& b, bool always)
{
  if (access(a.c_str(), R_OK) || !is_dir(a)) return false;
  Strs e = entries(a);
  if (!ref_mkdir(b)) return false;
  for (auto const& n : e)
  {
    std::string f = a + "/" + n;
    if (is_dir(f) ? !ref_copydir(f, b + "/" + n, always) : !(always ? ref_copy(f, b) : ref_copy_changed(f, b))) return false;
  }
  return true;
}
bool ref_remove_dir(std::string const& p)
{
  struct stat s; if (stat(p.c_str(), &s) == 0) chmod(p.c_str(), (s.st_mode & 07777) | S_IWUSR);
  for (auto const& n : entries(p))
  {
    std::string f = p + "/" + n; struct stat l;
    if (lstat(f.c_str(), &l) == 0 && S_ISDIR(l.st_mode)) { if (!ref_remove_dir(f)) return false; }
    else if (unlink(f.c_str()) && errno != ENOENT) return false;
  }
  return rmdir(p.c_str()) == 0;
}
bool ref_touch(std::string const& p, bool create)
{
  if (access(p.c_str(), R_OK))
  {
    if (!create) return true;
    int f = open(p.c_str(), O_RDWR | O_CREAT | O_APPEND, 0666); if (f < 0) return false;
    close(f); return true;
  }
  timespec t[2] = { { 0, UTIME_OMIT }, { 0, UTIME_NOW } };
  return utimensat(AT_FDCWD, p.c_str(), t, 0) == 0;
}

// ---- trees
const Strs NAMES = { "a", "b", "c d", "f.txt", "lib", "..x", ".h" };
struct Step { int kind; std::string path, text; mode_t mode; timespec mtime; };
std::string gen_text(Src& s)
{
  static const std::vector<size_t> sizes = { 0, 1, 5, 300, 4095, 4096, 4097, 8192, 10000 };
  size_t n = s.pick(sizes); if (s.chance(1, 30)) n = 70000;
  std::string t(n, 'x'); unsigned k = unsigned(s.range(0, 3)); for (size_t i = 0; i < n; ++i) t[i] = char(k * 31 + i * 7);
  if (n && s.flip()) t[s.idx(n)] ^= char(s.range(1, 255));
  return t;
}
// a path given by tree and the same relative to the directory of a link
std::string link_text(std::string const& at, std::string const& target)
{
  std::string r; for (char c : at) if (c == '/') r += "../";
  return r + target;
}
struct Tree
{
  std::string root;
  std::string at(std::string const& p) const { return root + (p.empty() ? "" : "/" + p); }
  void apply(Step const& e) const
  {
    std::string p = at(e.path);
    switch (e.kind)
    {
    case 0: mkdir(p.c_str(), 0755); break;
    case 1: if (exists(p)) return; spit(p, e.text); break;
    case 2: if (symlink(e.text.c_str(), p.c_str())) {} else if (g_root()) { if (lchown(p.c_str(), NOBODY, NOBODY)) {} } return;
    case 3: if (link(at(e.text).c_str(), p.c_str())) {} return;
    default: if (lchown(p.c_str(), g_root() ? NOBODY : uid_t(-1), g_root() ? NOBODY : gid_t(-1))) {} if (chmod(p.c_str(), e.mode)) {} if (e.text.empty()) { timespec t[2] = { e.mtime, e.mtime }; utimensat(AT_FDCWD, p.c_str(), t, AT_SYMLINK_NOFOLLOW); } return;
    }
  }
  void walk(std::string const& rel, std::map<std::string, std::string>& out, std::map<ino_t, std::string>& inodes, time_t recent, Strs* paths) const
  {
    for (auto const& n : entries(at(rel)))
    {
      std::string r = rel.empty() ? n : rel + "/" + n; struct stat s; if (lstat(at(r).c_str(), &s)) continue;
      if (paths) paths->push_back(r);
      std::ostringstream o; o << std::oct << (s.st_mode & 07777) << std::dec;
      if (S_ISDIR(s.st_mode)) o << " directory";
      else if (S_ISLNK(s.st_mode)) { char b[PATH_MAX]; ssize_t k = readlink(at(r).c_str(), b, sizeof b); o << " link to " << std::string(b, size_t(k > 0 ? k : 0)); }
      else
      {
        std::string t; uint64_t h = 7; if (slurp(at(r), t)) for (char c : t) h = h * 1099511628211ULL + (unsigned char)c;
        o << " file of " << s.st_size << " bytes #" << h % 100000 << " time ";
        if (s.st_mtime >= recent) o << "now"; else o << s.st_mtime << "." << s.st_mtim.tv_nsec;
        if (s.st_nlink > 1) { if (inodes.count(s.st_ino)) o << " same as " << inodes[s.st_ino]; else inodes[s.st_ino] = r; }
      }
      out[r] = o.str();
      if (S_ISDIR(s.st_mode)) walk(r, out, inodes, recent, paths);
    }
  }
  std::map<std::string, std::string> state(time_t recent, Strs* paths = nullptr) const { std::map<std::string, std::string> r; std::map<ino_t, std::string> i; walk("", r, i, recent, paths); return r; }
};
std::string gen_path(Src& s, Strs const& paths, bool fresh)
{
  std::string p;
  if (!paths.empty() && s.chance(7, 8)) p = s.pick(paths);
  if (p.empty() || (fresh && s.chance(1, 2))) { size_t n = 0; do p += (p.empty() ? "" : "/") + s.pick(NAMES); while (s.more(n, 1, 3)); }
  return p;
}
std::vector<Step> gen_tree(Src& s, bool links, Strs* twins = nullptr)
{
  std::vector<Step> r; Strs dirs(1, ""), files; size_t n = 0; std::set<std::string> used;
  while (s.more(n, 9, 18))
  {
    std::string d = s.pick(dirs), p = (d.empty() ? "" : d + "/") + s.pick(NAMES); if (used.count(p)) continue;
    if (std::count(p.begin(), p.end(), '/') > 3) continue;
    used.insert(p); Step e{}; e.path = p; int kind = int(s.weighted({5, 7, links ? 2u : 0u, links && !files.empty() ? 1u : 0u})); e.kind = kind;
    if (kind == 0) dirs.push_back(p);
    if (kind == 1) { e.text = gen_text(s); files.push_back(p); }
    if (kind == 2) { std::string t = s.chance(1, 5) ? "nothing" : gen_path(s, s.flip() ? dirs : files, false); e.text = t == p || t.empty() ? "nothing" : link_text(p, t); }
    if (kind == 3) e.text = s.pick(files);
    r.push_back(e);
  }
  size_t m = r.size(); long k = 0;
  for (size_t i = m; i-- > 0;) // children before their directories, so that these can be made read-only
  {
    if (r[i].kind > 1) continue;
    Step e{}; e.kind = 4; e.path = r[i].path; static const std::vector<mode_t> fm = { 0644, 0600, 0444, 0755, 0400, 0000, 0200, 04755 }, dm = { 0755, 0700, 0555, 0777, 02755, 0500 };
    e.mode = r[i].kind == 0 ? (s.chance(3, 4) ? 0755 : s.pick(dm)) : (s.chance(1, 2) ? 0644 : s.pick(fm));
    e.mtime.tv_sec = 1000000000 + (s.flip() ? 5000 * ++k : 0); e.mtime.tv_nsec = s.flip() ? 0 : long(s.range(0, 5)) * 1000;
    r.push_back(e);
  }
  if (twins && dirs.size() > 1 && s.chance(1, 2)) // nearly the same directory again
  {
    std::string d = dirs[1 + s.idx(dirs.size() - 1)]; m = r.size();
    for (size_t i = 0; i < m; ++i)
    {
      Step e = r[i]; if (e.kind == 2 || e.kind == 3 || !(e.path == d || e.path.compare(0, d.size() + 1, d + "/") == 0)) continue;
      e.path = "twin" + e.path.substr(d.size());
      if (e.kind == 1 && !e.text.empty() && s.chance(1, 3)) e.text[s.flip() ? e.text.size() - 1 : s.idx(e.text.size())] ^= 1;
      if (e.kind == 4 && s.chance(1, 3)) { e.mode ^= 011; e.mtime.tv_sec += 7; }
      r.push_back(e);
    }
    twins->push_back(d); twins->push_back("twin");
  }
  return r;
}
std::string tell(std::vector<Step> const& v)
{
  std::ostringstream o;
  for (auto const& e : v) switch (e.kind) { case 0: o << e.path << "/ "; break; case 1: o << e.path << "(" << e.text.size() << ") "; break; case 2: o << e.path << "->" << e.text << " "; break; case 3: o << e.path << "=" << e.text << " "; break; default: o << e.path << ":" << std::oct << e.mode << std::dec << " "; }
  return o.str();
}
std::string make_top()
{
  static int n = 0; std::string sc = pbt::scratch(); chmod(sc.c_str(), 0711); chmod(parent(sc).c_str(), 0711);
  std::string top = sc + "/t" + std::to_string(n++); mkdir(top.c_str(), 0755); return real(top);
}
void make_tree(Tree const& t, std::vector<Step> const& v) { mkdir(t.root.c_str(), 0755); for (auto const& e : v) t.apply(e); if (g_root() && chown(t.root.c_str(), NOBODY, NOBODY)) throw Discard(); }
void clean(std::string const& d)
{
  struct stat s; if (lstat(d.c_str(), &s)) return;
  if (S_ISDIR(s.st_mode)) { chmod(d.c_str(), 0700); for (auto const& e : entries(d)) clean(d + "/" + e); rmdir(d.c_str()); } else unlink(d.c_str());
}
struct Clean { std::string d; ~Clean() { if (chdir("/")) {} clean(d); } };

// directories reached when copying from p, following links; false: without end
bool reached(std::string const& p, std::set<std::string>& out, int depth = 0)
{
  std::string r = real(p); if (r.empty() || !is_dir(r)) return true;
  if (depth > 8 || out.size() > 60) return false;
  out.insert(r);
  for (auto const& e : entries(r))
  {
    if (real(r + "/" + e).empty()) return false; // a link that the copy could complete
    if (is_dir(r + "/" + e) && !reached(r + "/" + e, out, depth + 1)) return false;
  }
  return true;
}
}

PBT_PROP_ISOLATED(operations, 700, 12000, "a tree of five or more entries, changed by two or more successful operations")
{
  std::string top = make_top(); Clean c{top};
  Tree t{top + "/1"}, r{top + "/2"};
  Strs twins; std::vector<Step> v = gen_tree(s, true, &twins); umask(0); make_tree(t, v); make_tree(r, v);
  mode_t mask = s.pick(std::vector<mode_t>{ 022, 077, 0 }); umask(mask);
  time_t recent = time(nullptr) - 600;
  s.note() << "tree: " << tell(v) << "\n";
  REQUIRE(t.state(recent) == r.state(recent), "equal trees");
  size_t n = 0; int good = 0; std::string lastp, lastq;
  while (s.more(n, 5, 14))
  {
    Strs paths; auto before = t.state(recent, &paths);
    int op = int(s.weighted({3, 4, 3, 2, 2, 2, 2, 1, 1, 2})); bool absolute = s.flip(), always = s.flip(), create = s.flip(), cstr = s.flip(); rlim_t limit = s.chance(1, 12) ? rlim_t(s.pick(std::vector<int>{ 1, 4096, 5000 })) : 0;
    std::string p = gen_path(s, paths, op == 0 || op == 6 || op == 7), q = gen_path(s, paths, true); mode_t mode = s.pick(std::vector<mode_t>{ 0644, 0755, 0400, 0000, 04711, 0777, 0600 });
    if (op >= 1 && op <= 3) { if (!lastp.empty() && s.chance(1, 3)) { p = lastp; q = lastq; } lastp = p; lastq = q; } // again
    if (op == 3 && !twins.empty() && s.chance(2, 3)) { size_t k = s.idx(2); p = twins[k]; q = twins[1 - k]; }
    if (op == 0 && s.chance(1, 6)) p += "/";
    std::string text = s.chance(1, 4) ? "nothing" : link_text(p, q);
    bool a = false, b = false, ordered = true; char const* name = "";
    if (op == 3) // copying directories: only where the copy has an end and does not change its own source
    {
      std::set<std::string> from, to; std::string d = t.at(q);
      if (!reached(t.at(p), from) || !reached(d, to)) continue;
      std::string up = d; while (!exists(up)) up = parent(up);
      std::string ru = real(up); bool bad = false; for (auto const& f : from) { if (to.count(f) || ru == f || ru.compare(0, f.size() + 1, f + "/") == 0) bad = true; }
      if (bad || ru.empty()) continue;
      ordered = false;
    }
    if (op == 5) { struct stat st; if (lstat(t.at(p).c_str(), &st) || !S_ISDIR(st.st_mode)) { if (lstat(t.at(p).c_str(), &st) == 0) continue; } ordered = false; }
    if ((op == 1 || op == 2) && is_dir(t.at(p))) continue; // copies of files
    auto run = [&](Tree const& w, bool real_one) -> bool
    {
      if (chdir(w.root.c_str())) throw Discard();
      std::string x = absolute ? w.at(p) : p, y = absolute ? w.at(q) : q;
      Limit l(limit); Unprivileged u;
      switch (op)
      {
      case 0: name = "MakeDirectory"; return real_one ? (cstr ? ST::MakeDirectory(x.c_str()) : ST::MakeDirectory(x)) : ref_mkdir(x.size() > 1 && *x.rbegin() == '/' ? x.substr(0, x.size() - 1) : x);
      case 1: name = "CopyFileAlways"; return real_one ? (cstr ? ST::CopyAFile(x, y, true) : ST::CopyFileAlways(x, y)) : ref_copy(x, y);
      case 2: name = "CopyFileIfDifferent"; return real_one ? (cstr ? ST::CopyAFile(x, y, false) : ST::CopyFileIfDifferent(x, y)) : ref_copy_changed(x, y);
      case 3: name = always ? "CopyADirectory" : "CopyADirectory if different"; return real_one ? (always && cstr ? ST::CopyADirectory(x, y) : ST::CopyADirectory(x, y, always)) : ref_copydir(x, y, always);
      case 4: name = "RemoveFile"; return real_one ? ST::RemoveFile(x) : unlink(x.c_str()) == 0 || errno == ENOENT;
      case 5: name = "RemoveADirectory"; return real_one ? ST::RemoveADirectory(x) : ref_remove_dir(x);
      case 6: name = create ? "Touch or create" : "Touch"; return real_one ? ST::Touch(x, create) : ref_touch(x, create);
      case 7: name = "CreateSymlink"; return real_one ? ST::CreateSymlink(text, x) : symlink(text.c_str(), x.c_str()) == 0;
      case 8: name = "ChangeDirectory"; return real_one ? ST::ChangeDirectory(x) == 0 : chdir(x.c_str()) == 0;
      default: name = create ? "SetPermissions honouring the umask" : "SetPermissions";
        return real_one ? (cstr ? ST::SetPermissions(x.c_str(), mode, create) : create ? ST::SetPermissions(x, mode, true) : ST::SetPermissions(x, mode)) : access(x.c_str(), F_OK) == 0 && chmod(x.c_str(), create ? mode & ~mask : mode) == 0;
      }
    };
    a = run(t, true); b = run(r, false); { mode_t m = umask(mask); REQUIRE_EQ(m, mask, "file creation mask after " << name); }
    s.note() << name << " " << p << (op >= 1 && op <= 3 ? " to " + q : "") << (limit ? " (limited)" : "") << (b ? "" : " fails") << "; ";
    s.label(std::string(name) + (b ? " succeeds" : " fails"));
    REQUIRE_EQ(a, b, "success of " << name << " " << p << (op >= 1 && op <= 3 ? " to " + q : "") << (limit ? " with too little space" : ""));
    auto x = t.state(recent), y = r.state(recent);
    if (!b && !ordered)
    {
      if (op == 3) for (auto const& e : before) if (e.first.compare(0, p.size() + 1, p + "/") == 0) REQUIRE(x.count(e.first) && x[e.first] == e.second, "the source " << e.first << " of a copy that failed is unchanged");
      break;
    }
    if (!b && limit && (op == 1 || op == 2)) break; // what is left of a copy that failed is not specified
    for (auto const& e : y) { REQUIRE(x.count(e.first), "after " << name << " " << p << " there is " << e.first << ": " << e.second); REQUIRE_EQ(x[e.first], e.second, e.first << " after " << name << " " << p); }
    for (auto const& e : x) REQUIRE(y.count(e.first), "after " << name << " " << p << " there is no " << e.first << ": " << e.second);
    if (b && x != before && before.size() >= 5) ++good;
  }
  if (good > 1) s.nontrivial();
}

// ---- looking at files
PBT_PROP_ISOLATED(inspections, 700, 12000, "links or unreadable files in the tree")
{
  std::string top = make_top(); Clean c{top};
  Tree t{top + "/1"}; std::vector<Step> v = gen_tree(s, true); umask(0); make_tree(t, v); umask(022);
  s.note() << tell(v); Strs paths; t.state(0, &paths);
  for (auto const& e : v) if (e.kind == 2 || (e.kind == 4 && !(e.mode & 0400))) s.nontrivial();
  paths.push_back("nothing"); paths.push_back("a/nothing");
  if (chdir(t.root.c_str())) throw Discard();
  Unprivileged u;
  for (size_t i = 0; i < paths.size(); ++i)
  {
    std::string p = s.flip() ? paths[i] : t.at(paths[i]), w = paths[i]; struct stat st, ls; bool has = stat(p.c_str(), &st) == 0, lhas = lstat(p.c_str(), &ls) == 0, readable = access(p.c_str(), R_OK) == 0, dir = has && S_ISDIR(st.st_mode);
    REQUIRE_EQ(ST::FileExists(p), readable, "existence of " << w); REQUIRE_EQ(ST::FileExists(p.c_str()), readable, "existence of " << w);
    REQUIRE_EQ(ST::FileExists(p, true), readable && !dir, w << " is a file"); REQUIRE_EQ(ST::FileExists(p, false), readable, "existence of " << w); REQUIRE_EQ(ST::FileExists(p.c_str(), true), readable && !dir, w << " is a file");
    REQUIRE_EQ(ST::FileIsDirectory(p), dir, w << " is a directory"); REQUIRE_EQ(ST::FileIsDirectory(p + "/"), dir, w << "/ is a directory");
    REQUIRE_EQ(ST::FileIsSymlink(p), lhas && S_ISLNK(ls.st_mode), w << " is a link");
    for (int k = 0; k < 8; ++k) REQUIRE_EQ(s.flip() ? ST::TestFileAccess(p, k) : ST::TestFileAccess(p.c_str(), k), access(p.c_str(), k) == 0, "access " << k << " to " << w);
    REQUIRE(ST::TestFileAccess(p, kwsys::TEST_FILE_OK) == (access(p.c_str(), F_OK) == 0) && ST::TestFileAccess(p, kwsys::TEST_FILE_READ) == (access(p.c_str(), R_OK) == 0) && ST::TestFileAccess(p, kwsys::TEST_FILE_WRITE) == (access(p.c_str(), W_OK) == 0) && ST::TestFileAccess(p, kwsys::TEST_FILE_EXECUTE) == (access(p.c_str(), X_OK) == 0), "named access rights to " << w);
    REQUIRE_EQ(ST::FileLength(p), has ? (unsigned long)st.st_size : 0ul, "length of " << w);
    REQUIRE_EQ(ST::ModifiedTime(p), has ? long(st.st_mtime) : 0l, "time of " << w);
    REQUIRE_EQ(ST::CreationTime(p), has ? long(st.st_ctime) : 0l, "creation of " << w);
    mode_t m = 0; bool g = s.flip() ? ST::GetPermissions(p, m) : ST::GetPermissions(p.c_str(), m); REQUIRE_EQ(g, has, "permissions of " << w); if (has) REQUIRE_EQ(m & 07777, st.st_mode & 07777, "permissions of " << w);
    char b[PATH_MAX]; ssize_t k = readlink(p.c_str(), b, sizeof b); std::string l = "junk"; g = ST::ReadSymlink(p, l);
    REQUIRE_EQ(g, k >= 0, "reading the link " << w); if (g) REQUIRE_EQ(l, std::string(b, size_t(k)), "link " << w);
    std::string rp = real(p), msg = "junk", got = ST::GetRealPath(p, &msg);
    REQUIRE_EQ(got, rp, "real path of " << w); if (rp.empty()) REQUIRE(!msg.empty() && msg != "junk", "reason that there is no real path of " << w << ": " << msg);
    REQUIRE_EQ(ST::GetRealPath(p), rp.empty() ? p : rp, "real path of " << w);
    kwsys::Directory d; bool ok = d.Load(p); DIR* h = opendir(p.c_str()); REQUIRE_EQ(ok, h != nullptr, "loading directory " << w);
    Strs e, f; if (h) { while (dirent* x = readdir(h)) e.push_back(x->d_name); closedir(h); }
    for (unsigned long j = 0; j < d.GetNumberOfFiles(); ++j) f.push_back(d.GetFile(j));
    std::sort(e.begin(), e.end()); std::sort(f.begin(), f.end()); REQUIRE(e == f, "directory " << w << " has " << ::show(e) << " and not " << ::show(f));
    REQUIRE(d.GetFile(d.GetNumberOfFiles()) == nullptr, "no file after the last"); if (ok) REQUIRE_EQ(std::string(d.GetPath()), p, "path of the directory");
    REQUIRE_EQ(kwsys::Directory::GetNumberOfFilesInDirectory(p), (unsigned long)e.size(), "entries of " << w);
    if (s.flip()) { d.Clear(); REQUIRE(d.GetNumberOfFiles() == 0 && std::string(d.GetPath()).empty(), "cleared"); } else { d.Load(top + "/none"); REQUIRE(d.GetNumberOfFiles() == 0, "nothing left of the last directory"); }
  }
  size_t n = 0;
  while (s.more(n, 12, 40))
  {
    std::string a = s.pick(paths), b = s.pick(paths), x = s.flip() ? a : t.at(a), y = s.flip() ? b : t.at(b);
    REQUIRE_EQ(ST::SameFile(x, y), ref_same(x, y), a << " is " << b);
    struct stat p, q; bool hx = stat(x.c_str(), &p) == 0, hy = stat(y.c_str(), &q) == 0;
    if (!(hx && S_ISDIR(p.st_mode)) && !(hy && S_ISDIR(q.st_mode))) { bool d = ref_differ(x, y); REQUIRE_EQ(ST::FilesDiffer(x, y), d, a << " differs from " << b); s.label(d ? "different" : "equal"); }
    int cmp = 7; bool ok = ST::FileTimeCompare(x, y, &cmp); REQUIRE_EQ(ok, hx && hy, "comparing times of " << a << " and " << b);
    if (ok) { auto tp = std::make_pair(p.st_mtim.tv_sec, p.st_mtim.tv_nsec), tq = std::make_pair(q.st_mtim.tv_sec, q.st_mtim.tv_nsec); REQUIRE_EQ(cmp, tp < tq ? -1 : tp > tq ? 1 : 0, "order of the times of " << a << " and " << b); }
    std::string dir, file, name; bool sp = ST::SplitProgramPath(x, dir, file);
    if (hx && S_ISDIR(p.st_mode)) { REQUIRE(sp && dir == x && file.empty(), "a directory is all directory: " << dir << " and " << file); }
    else { std::string pd = parent(x); bool wok = pd.empty() || is_dir(pd); REQUIRE_EQ(sp, wok, "splitting program " << x); if (sp) { REQUIRE_EQ(dir, pd, "directory of " << x); REQUIRE_EQ(file, base(x), "name of " << x); REQUIRE_EQ(ST::GetProgramPath(x), pd, "directory of " << x); } }
  }
}

// ---- finding files
static bool as_nobody(std::string const& d) { return !g_root() || chown(d.c_str(), NOBODY, NOBODY) == 0; }
PBT_PROP_ISOLATED(searches, 700, 12000, "the name is found behind a directory that does not have it, or that has it as another kind")
{
  std::string top = make_top(); Clean c{top}; as_nobody(top);
  Tree t{top + "/1"}; std::vector<Step> v = gen_tree(s, s.chance(1, 4)); umask(0); make_tree(t, v); umask(022); Strs paths; t.state(0, &paths);
  if (chdir(t.root.c_str())) throw Discard();
  s.note() << tell(v);
  Strs dirs; for (auto const& p : paths) if (is_dir(t.at(p))) dirs.push_back(p); dirs.push_back("nothing"); dirs.push_back("."); if (dirs.size() < 3) dirs.push_back("");
  auto full = [&](std::string const& p) { Strs o; std::string q = p[0] == '/' ? p : t.root + "/" + p, r, cur; for (char ch : q + "/") if (ch == '/') { if (!cur.empty() && cur != ".") r += "/" + cur; cur.clear(); } else cur += ch; return r; };
  Unprivileged u;
  size_t n = 0;
  while (s.more(n, 6, 16))
  {
    Strs list, sys; size_t k = 0; while (s.more(k, 3, 6)) { std::string d = s.pick(dirs); if (d.empty()) d = "."; if (s.flip()) d = t.at(d); if (s.chance(1, 4)) d += "/"; list.push_back(d); }
    k = 0; while (s.more(k, 1, 3)) { std::string d = t.at(s.pick(dirs)); sys.push_back(d); }
    std::string env; for (auto const& d : sys) env += (env.empty() ? "" : ":") + d; setenv("PATH", env.c_str(), 1); unsetenv("CMAKE_FILE_PATH");
    std::string name = s.chance(1, 3) && !paths.empty() ? base(s.pick(paths)) : s.pick(NAMES); if (s.chance(1, 6)) name += "/" + s.pick(NAMES);
    bool nosys = s.flip(); int kind = int(s.idx(4)); if (kind == 3) { name = "x" + name; nosys = false; }
    auto ok = [&](std::string const& p, bool dir) { return access(p.c_str(), R_OK) == 0 && is_dir(p) == dir; };
    Strs order; if (!nosys) order = sys; order.insert(order.end(), list.begin(), list.end());
    auto find = [&](std::string const& nm, bool dir, size_t& where) { for (where = 0; where < order.size(); ++where) { std::string p = order[where]; if (*p.rbegin() != '/') p += "/"; if (ok(p + nm, dir)) return full(p + nm); } return std::string(); };
    std::string got, want; size_t w = 0; s.note() << "\n" << (kind == 0 ? "file " : kind == 1 ? "directory " : kind == 2 ? "program " : "library ") << name << " in " << ::show(order);
    switch (kind)
    {
    case 0: want = find(name, false, w); got = !nosys && s.flip() ? ST::FindFile(name, list) : ST::FindFile(name, list, nosys); break;
    case 1: want = find(name, true, w); got = !nosys && s.flip() ? ST::FindDirectory(name, list) : ST::FindDirectory(name, list, nosys); break;
    case 2:
    {
      Strs names(1, name); if (s.flip()) names.push_back(s.pick(NAMES));
      for (auto const& nm : names) { want = ok(nm, false) ? full(nm) : find(nm, false, w); if (!want.empty()) break; }
      got = names.size() > 1 ? (!nosys && s.flip() ? ST::FindProgram(names, list) : ST::FindProgram(names, list, nosys)) : s.flip() ? (!nosys && s.flip() ? ST::FindProgram(name, list) : ST::FindProgram(name, list, nosys)) : !nosys && s.flip() ? ST::FindProgram(name.c_str(), list) : ST::FindProgram(name.c_str(), list, nosys); break;
    }
    default:
    {
      static const Strs suffix = { ".so", ".a" }; size_t e = s.idx(2); if (dirs.empty()) break;
      std::string d = s.pick(dirs); { std::string f = t.at(d) + "/lib" + name + suffix[e]; if (name.find('/') == std::string::npos) { if (s.chance(1, 5)) mkdir(f.c_str(), 0755); else spit(f, ""); } }
      if (ok(name, false)) want = full(name);
      for (w = 0; want.empty() && w < order.size(); ++w) for (auto const& x : suffix) { std::string p = order[w]; if (*p.rbegin() != '/') p += "/"; p += "lib" + name + x; if (want.empty() && ok(p, false)) { want = full(p); } }
      if (!want.empty() && w) --w;
      got = ST::FindLibrary(name, list);
    }
    }
    REQUIRE_EQ(got, want, "found " << name);
    if (!want.empty() && w > 0) s.nontrivial();
  }
}
PBT_PROP_ISOLATED(located, 500, 8000, "found by the directories of its own name")
{
  std::string top = make_top(); Clean c{top}; as_nobody(top);
  Tree t{top + "/1"}; std::vector<Step> v = gen_tree(s, false); for (auto& e : v) if (e.kind == 4) e.mode = 0755; umask(0); make_tree(t, v); umask(022); Strs paths; t.state(0, &paths);
  Strs dirs(1, ""); for (auto const& p : paths) if (is_dir(t.at(p))) dirs.push_back(p);
  s.note() << tell(v);
  Unprivileged u; size_t n = 0;
  while (s.more(n, 8, 20))
  {
    std::string comps[3]; size_t k = s.idx(3); std::string f; for (size_t i = 0; i < k; ++i) f += s.pick(NAMES) + "/"; std::string b = s.pick(NAMES); bool lead = s.flip(); std::string name = (lead ? "/" : "") + f + b;
    std::string d = t.at(s.pick(dirs)), dir = d; if (s.chance(1, 4)) dir += "/"; else if (s.chance(1, 4)) { dir += "/no such file"; } else if (s.chance(1, 5)) { for (auto const& p : paths) if (!is_dir(t.at(p)) && parent(t.at(p)) == d) { dir = t.at(p); break; } }
    bool tries = s.flip(); std::string want; Strs cand(1, b); std::string tail = "", rest = f;
    if (tries) while (!rest.empty()) { rest.resize(rest.size() - 1); size_t p = rest.rfind('/'); std::string last = p == std::string::npos ? rest : rest.substr(p + 1); rest = p == std::string::npos ? "" : rest.substr(0, p + 1); tail = last + "/" + tail; cand.push_back(tail + b); }
    for (auto const& e : cand) if (want.empty() && access((d + "/" + e).c_str(), R_OK) == 0) want = d + "/" + e;
    s.note() << "\n" << name << " in " << dir << (tries ? " and below" : "");
    std::string got = "untouched"; bool ok = tries || s.flip() ? ST::LocateFileInDir(name.c_str(), dir.c_str(), got, tries) : ST::LocateFileInDir(name.c_str(), dir.c_str(), got);
    REQUIRE_EQ(ok, !want.empty(), "locating " << name << " in " << dir);
    REQUIRE_EQ(got, want.empty() ? std::string("untouched") : want, "location of " << name << " in " << dir);
    if (!want.empty() && base(parent(want)) != base(d)) s.nontrivial();
  }
}
PBT_PROP_ISOLATED(programs, 700, 12000, "a program whose path has spaces")
{
  std::string top = make_top(); Clean c{top}; as_nobody(top); std::string bin = top + "/bin dir"; mkdir(bin.c_str(), 0755); setenv("PATH", bin.c_str(), 1);
  static const Strs words = { "prog", "tool x", "x", "run me now", "y" }; Strs have; size_t n = 0;
  while (s.more(n, 2, 4)) { std::string w = s.pick(words); spit(bin + "/" + w, "#!"); chmod((bin + "/" + w).c_str(), 0755); have.push_back(w); }
  if (chdir(top.c_str())) throw Discard();
  Unprivileged u; n = 0;
  do
  {
    std::string cmd; bool full = s.flip(); if (s.chance(1, 8)) cmd += std::string(size_t(s.range(1, 3)), ' ');
    if (full) cmd += bin + "/"; cmd += s.pick(words); size_t k = 0; while (s.more(k, 2, 5)) cmd += std::string(size_t(s.chance(1, 5) ? 2 : 1), ' ') + s.pick(Strs{ "x", "now", "-a", "b c", "y" }); if (s.chance(1, 6)) cmd += " ";
    s.note() << pbt::show(cmd) << " with " << ::show(have) << "\n";
    auto there = [&](std::string const& p) { if (p.empty()) return std::string(); if (access(p.c_str(), R_OK) == 0) return p; std::string q = bin + "/" + p; return access(q.c_str(), R_OK) == 0 && !is_dir(q) ? q : std::string(); };
    std::string prog = there(cmd), args; size_t at = cmd.size();
    while (prog.empty()) { at = at ? cmd.rfind(' ', at - 1) : std::string::npos; if (at == std::string::npos) break; prog = there(cmd.substr(0, at)); if (!prog.empty()) { args = cmd.substr(at); break; } }
    std::string p = "junk", a = "junk"; ST::SplitProgramFromArgs(cmd, p, a);
    REQUIRE_EQ(p, prog, "program of " << pbt::show(cmd)); REQUIRE_EQ(a, args, "arguments of " << pbt::show(cmd));
    if (prog.find(' ') != std::string::npos) s.nontrivial();
    // the path of a program
    std::string self = s.flip() ? s.pick(words) : bin + "/" + s.pick(words), exe = s.pick(words), build = s.flip() ? top : top + "/none", inst = s.flip() ? top + "/inst" : top; bool ub = s.flip(), ui = s.flip();
    std::string want = there(self); if (want.empty()) { std::string q = build + "/bin/./" + exe, r = inst + "/bin/" + exe; want = ub && access(q.c_str(), R_OK) == 0 ? q : ui && access(r.c_str(), R_OK) == 0 ? r : ""; }
    std::string out = "junk", err; bool ok = ST::FindProgramPath(self.c_str(), out, err, exe.c_str(), ub ? build.c_str() : nullptr, ui ? inst.c_str() : nullptr);
    REQUIRE_EQ(ok, !want.empty(), "finding " << self); if (ok) REQUIRE_EQ(out, want, "path of " << self); else REQUIRE(err.find(self) != std::string::npos && err.find(exe) != std::string::npos, "message " << err);
  } while (s.more(n, 4, 10));
}

// ---- contents
PBT_PROP(contents, 3000, 40000, "text with a few bytes that are none, or a signature in the middle")
{
  std::string f = pbt::scratch() + "/content", text; size_t n = 0; bool bin = s.flip();
  while (s.more(n, 60, 600)) text += char(bin && s.chance(1, 8) ? s.range(0, 255) : s.pick(std::vector<int>{ 'a', ' ', '~', '\n', '\r', '\t', 'Z', 127 }));
  spit(f, text); s.note() << pbt::show(text.substr(0, 60));
  size_t at = s.idx(text.size() + 2), len = s.idx(5); std::string sig = at < text.size() ? text.substr(at, len) : "x"; if (s.chance(1, 3) && !sig.empty()) sig[s.idx(sig.size())] ^= 1;
  sig = sig.c_str(); bool want = at <= text.size() && text.compare(at, sig.size(), sig) == 0;
  REQUIRE_EQ(ST::FileHasSignature(f.c_str(), sig.c_str(), long(at)), want || sig.empty(), "signature " << pbt::show(sig) << " at " << at);
  if (at == 0) REQUIRE_EQ(ST::FileHasSignature(f.c_str(), sig.c_str()), want || sig.empty(), "signature " << pbt::show(sig) << " at the beginning");
  if (want && at && !sig.empty()) s.nontrivial();
  unsigned long l = (unsigned long)s.pick(std::vector<int>{ 256, 1, 10, 100, 100000 }); double percent = s.pick(std::vector<double>{ 0.05, 0, 0.25, 0.5, 1 });
  size_t m = std::min<size_t>(l, text.size()), odd = 0; for (size_t i = 0; i < m; ++i) { unsigned char ch = (unsigned char)text[i]; if (!((ch >= 0x20 && ch <= 0x7E) || ch == '\n' || ch == '\r' || ch == '\t')) ++odd; }
  auto w = m == 0 ? ST::FileTypeUnknown : double(odd) / double(m) > percent ? ST::FileTypeBinary : ST::FileTypeText;
  REQUIRE_EQ(int(ST::DetectFileType(f.c_str(), l, percent)), int(w), odd << " of " << m << " bytes are no text, limit " << percent);
  if (l == 256 && percent == 0.05) REQUIRE_EQ(int(ST::DetectFileType(f.c_str())), int(w), "with the defaults");
  REQUIRE_EQ(int(ST::DetectFileType((f + "none").c_str())), int(ST::FileTypeUnknown), "no file"); REQUIRE_EQ(int(ST::DetectFileType(pbt::scratch().c_str())), int(ST::FileTypeUnknown), "a directory");
  REQUIRE(!ST::FileHasSignature((f + "none").c_str(), "x"), "no file");
  if (odd && odd < m) s.nontrivial();
}
PBT_PROP(lines, 3000, 60000, "a line of more than a thousand characters")
{
  std::string text; size_t n = 0; std::vector<std::pair<std::string, bool>> want;
  while (s.more(n, 5, 20))
  {
    std::string l; size_t k = s.weighted({4, 2, 2}) ; size_t len = k == 0 ? s.idx(20) : k == 1 ? size_t(s.range(1018, 1030)) : size_t(s.range(2040, 2052)); if (len > 1000) s.nontrivial();
    for (size_t i = 0; i < len; ++i) l += char('a' + i % 26);
    if (!l.empty() && s.flip()) l[s.chance(1, 2) ? s.idx(l.size()) : std::min<size_t>(l.size() - 1, size_t(s.range(1019, 1025)))] = '\r';
    if (s.chance(1, 3)) l += "\r";
    bool last = s.chance(1, 10); text += l + (last ? "" : "\n");
    if (!last || !l.empty()) { if (!l.empty() && *l.rbegin() == '\r') l.resize(l.size() - 1); want.push_back({l, !last}); }
    if (last) break;
  }
  s.note() << pbt::show(text.substr(0, 50)) << " " << text.size() << " bytes";
  std::istringstream in(text); std::string line = "junk"; bool nl = false; size_t i = 0;
  for (;; ++i)
  {
    bool ok = s.flip() ? ST::GetLineFromStream(in, line, &nl) : (nl = i < want.size() ? want[i].second : false, ST::GetLineFromStream(in, line));
    REQUIRE_EQ(ok, i < want.size(), "line " << i << " of " << want.size()); if (!ok) break;
    REQUIRE(line == want[i].first, "line " << i << " of length " << want[i].first.size() << " read with length " << line.size()); REQUIRE_EQ(nl, want[i].second, "newline after line " << i);
  }
  REQUIRE(line.empty(), "no line after the last");
}
// ---- environment
PBT_PROP(environment, 3000, 60000, "a variable changed or removed again")
{
  static const Strs names = { "VERIF_A", "VERIF_AB", "VERIF_", "VERIF_B", "VERIF_LONG" }; static const Strs vals = { "", "x", "a=b", "=", "two words", std::string(300, 'v'), "\xc3\xbc" };
  for (auto const& e : names) unsetenv(e.c_str());
  std::map<std::string, std::string> m; size_t n = 0, known = 0; char** e = environ; while (*e) { ++e; ++known; }
  while (s.more(n, 8, 30))
  {
    std::string k = s.pick(names), v = s.pick(vals);
    switch (s.idx(4)) { case 0: case 1: if (m.count(k)) s.nontrivial(); REQUIRE(ST::PutEnv(k + "=" + v), "setting"); m[k] = v; s.note() << k << "=" << v << " "; break; case 2: REQUIRE(ST::UnPutEnv(k), "removing"); if (m.erase(k)) s.nontrivial(); s.note() << "-" << k << " "; break; default: REQUIRE(ST::UnPutEnv(k + "=" + v), "removing"); m.erase(k); s.note() << "-" << k << "= "; }
    for (auto const& q : names)
    {
      const char* g = ST::GetEnv(q), * h = ST::GetEnv(q.c_str()), * x = getenv(q.c_str()); std::string r = "junk"; bool b = s.flip() ? ST::GetEnv(q, r) : ST::GetEnv(q.c_str(), r);
      REQUIRE(bool(g) == bool(m.count(q)) && g == x && h == x, q << " is " << (g ? g : "not set")); REQUIRE_EQ(b, bool(m.count(q)), q << " is set");
      if (g) { REQUIRE_EQ(std::string(g), m[q], q); REQUIRE_EQ(r, m[q], q); } else REQUIRE_EQ(r, "junk", "result without variable");
    }
    size_t now = 0; for (e = environ; *e; ++e) ++now; REQUIRE_EQ(now, known + m.size(), "number of variables");
  }
  for (auto const& q : names) ST::UnPutEnv(q);
}
