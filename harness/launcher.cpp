// Launchers made from kwiversys/SharedForward.h: installed and built trees, found by path or through
// PATH, with search paths, options and environments of any kind; against what they have to start.
#include "pbt.hpp"
#include <algorithm>
#include <climits>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <ftw.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<std::string> Strs;
char const* sf_build[5]; char const* sf_install[5]; char const* sf_exe_build; char const* sf_exe_install;
int launch_plain(int, char**); int launch_config(int, char**); int launch_bare(int, char**);

namespace {
void dir(std::string const& d) { std::string p; for (size_t i = 1; i <= d.size(); ++i) if (i == d.size() || d[i] == '/') mkdir(d.substr(0, i).c_str(), 0755); }
void file(std::string const& f, mode_t m) { int k = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (k >= 0) close(k); chmod(f.c_str(), m); }
bool real(std::string const& p, std::string& r) { char b[PATH_MAX]; if (!realpath(p.c_str(), b)) return false; r = b; return true; }
void place(std::string const& f)
{ // the program to be started
  std::string h = std::string(getenv("VERIF_HDIR") ? getenv("VERIF_HDIR") : ".") + "/launchhelper";
  unlink(f.c_str());
  if (link(h.c_str(), f.c_str()) == 0) return;
  std::ifstream i(h, std::ios::binary); { std::ofstream o(f, std::ios::binary); o << i.rdbuf(); } chmod(f.c_str(), 0755);
}
std::string join(Strs const& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? ":" : "") + v[i]; return r; }
std::string short_(std::string const& t) { return t.size() > 300 ? t.substr(0, 200) + "...(" + std::to_string(t.size()) + ")" : t; }
std::string list(Strs const& v) { std::string r; for (auto const& x : v) r += "\n  " + show(short_(x)); return r; }
Strs entries(std::string const& p) { Strs r; std::string c; for (char x : p) if (x == ':') { r.push_back(c); c.clear(); } else c += x; r.push_back(c); return r; }

struct Result { std::string out, err; int code = -1, sig = 0; };
struct Setup
{
  int kind = 0; Strs args, build, install; std::string exe_build, exe_install, cwd, build_dir; std::vector<std::pair<std::string, std::string>> env;
};
Result launch(Setup const& u)
{
  Result r; int o[2], e[2]; if (pipe(o) || pipe(e)) throw Fail("pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    close(o[0]); close(e[0]); alarm(20); // also for what is started
    if (dup2(o[1], 1) < 0 || dup2(e[1], 2) < 0 || chdir(u.cwd.c_str())) _exit(99);
    close(o[1]); close(e[1]); close(57);
    if (!u.build_dir.empty()) { int f = open(u.build_dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (f >= 0 && f != 57) { dup3(f, 57, O_CLOEXEC); close(f); } }
    for (int i = 0; i < 5; ++i) { sf_build[i] = i < static_cast<int>(u.build.size()) ? u.build[static_cast<size_t>(i)].c_str() : nullptr; sf_install[i] = i < static_cast<int>(u.install.size()) ? u.install[static_cast<size_t>(i)].c_str() : nullptr; }
    sf_exe_build = u.exe_build.c_str(); sf_exe_install = u.exe_install.c_str();
    clearenv(); for (auto const& x : u.env) setenv(x.first.c_str(), x.second.c_str(), 1);
    std::vector<char*> v; for (auto const& x : u.args) v.push_back(strdup(x.c_str())); v.push_back(nullptr);
    int n = static_cast<int>(u.args.size()), c = u.kind == 0 ? launch_plain(n, v.data()) : u.kind == 1 ? launch_config(n, v.data()) : launch_bare(n, v.data());
    fflush(stdout); _exit(c);
  }
  close(o[1]); close(e[1]); pollfd p[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } }; int open_ = 2;
  while (open_ > 0)
  {
    if (poll(p, 2, -1) < 0) continue;
    for (int i = 0; i < 2; ++i) if (p[i].revents) { char b[65536]; ssize_t k = read(p[i].fd, b, sizeof b); if (k <= 0) { close(p[i].fd); p[i].fd = -1; --open_; } else (i ? r.err : r.out).append(b, static_cast<size_t>(k)); }
  }
  int st = 0; waitpid(pid, &st, 0); if (WIFEXITED(st)) r.code = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
  return r;
}

std::string rel(std::string const& from, std::string const& to)
{ // a way from one directory to another (both absolute, no links)
  Strs a, b; auto cut = [](std::string const& p) { Strs r; std::istringstream i(p); std::string x; while (std::getline(i, x, '/')) if (!x.empty()) r.push_back(x); return r; };
  a = cut(from); b = cut(to); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
  std::string r; for (size_t i = k; i < a.size(); ++i) r += (r.empty() ? ".." : "/.."); for (size_t i = k; i < b.size(); ++i) r += (r.empty() ? "" : "/") + b[i];
  return r.empty() ? "." : r;
}
std::string some_arg(Src& s)
{
  static Strs const words = { "", "a", "-x", "--print", "--ldd", "--command", "two words", "\"q\"", "\\", "$HOME", "*", "--show", "\xc3\xa9", "%s%n", "'" };
  if (s.chance(1, 30)) return std::string(static_cast<size_t>(s.range(4000, 9000)), 'A');
  return s.pick(words);
}
} // namespace

PBT_PROP(launches, 12000, 400000, "found through PATH, through a link, in a build tree, with an option, a long value or something missing")
{
  static std::string base; static pid_t owner = 0;
  if (owner != getpid()) { owner = getpid(); base = scratch(); std::string r; if (real(base, r)) base = r; }
  static unsigned serial = 0; std::string root = base + "/t" + std::to_string(serial++);
  struct Gone { std::string r; ~Gone() { nftw(r.c_str(), [](char const* f, struct stat const*, int, struct FTW*) { return remove(f); }, 16, FTW_DEPTH | FTW_PHYS); } } gone{ root };
  Setup u; u.kind = static_cast<int>(s.idx(3));
  bool config = u.kind == 1, built = s.flip(); // where the launcher lies
  std::string const build = root + "/build", inst = root + s.pick(Strs{ "/inst", "/in st", "/inst", "/build-2", "/build/inst", "/build/Debug/inst", "/buil" }), lib = inst + "/lib/foo-1.2", other = root + "/other";
  std::string conf = config ? build + "/Debug" : build; // where launchers are built
  for (auto const& d : { build + "/Debug", build + "/sub", inst + "/bin/sub", lib, other }) dir(d);
  std::string home = built ? conf : inst + "/bin", name = s.pick(Strs{ "foo", "foo", "a launcher", "f.o" });
  file(home + "/" + name, 0755);
  // how its directory is known
  std::string via = home; bool linked = false;
  if (s.chance(1, 3)) { linked = true; via = other + "/link"; if (symlink(home.c_str(), via.c_str())) throw Fail("symlink"); s.label("through a link"); s.nontrivial(); }
  static Strs const cwds = { "", "/build", "/build/Debug", "/build/Debug/..", "/other", "/build/sub" };
  u.cwd = root + s.pick(cwds); if (s.chance(1, 4)) u.cwd = home; else if (s.chance(1, 5)) { dir(home + "/sub"); u.cwd = home + "/sub"; }
  { std::string r; if (real(u.cwd, r)) u.cwd = r; }
  std::string near_ = s.chance(1, 3) && !linked ? rel(u.cwd, home) : linked ? rel(u.cwd, other) + "/link" : via;
  if (s.flip()) near_ = via;
  std::string self; bool found = true, self_real = true; Strs path;
  std::string argv0;
  if (s.chance(3, 5))
  { // named with a directory
    argv0 = near_ + (s.chance(1, 8) ? "//" : "/") + name; self = argv0.substr(0, argv0.rfind('/'));
    if (s.chance(1, 30)) { s.label("of an endless name"); argv0 = "/" + std::string(static_cast<size_t>(s.range(4094, 9000)), 'n') + "/" + name; found = false; }
    else if (s.chance(1, 30)) { argv0 = root + "/nowhere/" + name; self_real = false; }
  }
  else
  { // found through PATH
    s.label("found through PATH"); s.nontrivial(); argv0 = name; found = false; size_t at = s.idx(4);
    dir(other + "/dir/" + name); dir(other + "/noexec"); file(other + "/noexec/" + name, 0644);
    for (size_t i = 0; i < at + (s.chance(1, 8) ? 0 : 1) + s.idx(2); ++i)
    {
      if (i == at) { std::string e = near_; if (s.chance(1, 3)) e += "/"; path.push_back(e); self = near_; found = true; continue; }
      switch (s.idx(6))
      {
        case 0: path.push_back(root + "/nowhere"); break;
        case 1: path.push_back(other + "/noexec"); break;
        case 2: path.push_back(other + "/dir"); s.label("a directory of that name"); break;
        case 3: path.push_back(""); break;
        case 4: path.push_back("/" + std::string(static_cast<size_t>(s.range(4070, 9000)), 'p')); s.label("an endless entry"); break;
        default: path.push_back(other); break;
      }
    }
    if (path.empty() && s.flip()) path.push_back("");
    // an empty entry or a relative one may name the working directory
    bool here = access((u.cwd + "/" + name).c_str(), F_OK) == 0;
    if (here) for (auto& x : path) if (x.empty()) x = root + "/nowhere";
  }
  // where everything else lies
  std::string from = built ? build : inst + "/bin"; // what relative settings are relative to
  Strs* sets[2] = { &u.build, &u.install }; Strs want; bool missing = false;
  for (int k = 0; k < 2; ++k)
  {
    bool mine = (k == 0) == built; size_t n = 0;
    if (k == 0 && !mine) { sets[k]->push_back("/never/build"); continue; }
    while (s.more(n, 3, 4))
    {
      std::string t = s.pick(Strs{ lib, other, build, root, "/opt/none", inst }); bool abs = s.flip() || t[1] == 'o', gone_ = !abs && s.chance(1, 25);
      if (abs && s.chance(1, 4)) t += "/./x";
      std::string v = abs ? t : gone_ ? "no/such/place" : rel(from, t); if (!abs && !gone_ && s.chance(1, 4)) v = "./" + v;
      sets[k]->push_back(v); if (mine) { if (abs) want.push_back(t); else { std::string r; if (real(t, r)) want.push_back(r); } missing = missing || gone_; }
    }
    if (!mine && s.flip()) sets[k]->push_back("/never/install");
  }
  std::string exe_dir = s.pick(Strs{ lib, other, from }), exe = exe_dir + "/" + s.pick(Strs{ "foo-real", "the real one", "r" }); bool exe_missing = false, exe_bad = false, exe_abs = s.chance(1, 3);
  place(exe); std::string exe_set = exe, exe_want = exe;
  if (s.chance(1, 8)) { std::string l = exe_dir + "/linked"; if (symlink(exe.c_str(), l.c_str())) throw Fail("symlink"); exe_set = l; if (exe_abs) exe_want = l; }
  if (s.chance(1, 15)) { unlink(exe.c_str()); exe_missing = true; } else if (s.chance(1, 15)) { unlink(exe.c_str()); file(exe, 0644); exe_bad = true; }
  std::string rel_exe = exe_abs ? exe_set : rel(from, exe_set.substr(0, exe_set.rfind('/'))) + exe_set.substr(exe_set.rfind('/'));
  (built ? u.exe_build : u.exe_install) = rel_exe; (built ? u.exe_install : u.exe_build) = "../never";
  if (built || s.flip()) u.build_dir = build; // otherwise the build tree is gone
  if (built) { s.label(config ? "built, with a configuration" : "built"); s.nontrivial(); }
  // the environment
  bool have_old = s.chance(2, 3); std::string old;
  if (have_old)
  {
    static Strs const olds = { "/usr/lib", "", "a", "/x:/y", ":/z", "/z:", "/a b", "::" };
    old = s.pick(olds); if (s.chance(1, 12)) { old = std::string(static_cast<size_t>(s.range(60000, 120000)), 'L'); s.label("a long search path"); s.nontrivial(); }
    u.env.push_back({ "LD_LIBRARY_PATH", old });
  }
  int code = s.chance(1, 4) ? static_cast<int>(s.range(0, 255)) : 0; u.env.push_back({ "CODE", std::to_string(code) }); u.env.push_back({ "KEPT", s.pick(Strs{ "", "value", "a=b" }) });
  // the command line
  u.args.push_back(argv0); { size_t n = 0; while (s.more(n, 3, 6)) u.args.push_back(some_arg(s)); }
  if (s.chance(1, 3)) { u.args.insert(u.args.begin() + 1, s.pick(Strs{ "--command", "--print", "--ldd", "--show" })); if (u.args[1] == "--command" && s.chance(3, 4)) { std::string c = exe; if (s.chance(1, 4)) c = std::string(static_cast<size_t>(s.range(4000, 9000)), 'c'); else if (s.chance(1, 4)) c = "/nowhere/prog"; u.args.insert(u.args.begin() + 2, c); } }
  // without PATH, execvp() would look for ldd in the system's places
  bool ldd = std::find(u.args.begin(), u.args.end(), "--ldd") != u.args.end(), have_ldd = ldd && s.flip();
  if (ldd && path.empty()) path.push_back(root + "/nowhere");
  if (have_ldd) { dir(root + "/tools"); place(root + "/tools/ldd"); path.push_back(root + "/tools"); }
  if (!path.empty() || s.flip()) u.env.push_back({ "PATH", join(path) });
  s.note() << "kind " << u.kind << " cwd " << u.cwd << " build at " << u.build_dir << " exe " << u.exe_build << " | " << u.exe_install << "\nbuild paths" << list(u.build) << "\ninstall paths" << list(u.install) << "\nargs" << list(u.args) << "\nenv"; for (auto const& e : u.env) s.note() << "\n  " << e.first << "=" << short_(e.second); s.note() << "\n";

  Result r = launch(u);
  s.note() << "-> " << r.code << " " << r.sig << "\nout " << show(short_(r.out)) << "\nerr " << show(short_(r.err)) << "\n";
  REQUIRE(r.sig == 0 && r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "the launcher died: signal " << r.sig << " " << short_(r.err.substr(0, 300)));
  auto fails = [&](std::string const& why) { REQUIRE_EQ(r.code, 1, why << ": exit status"); REQUIRE_EQ(show(r.out), show(""), why << ": output"); REQUIRE(!r.err.empty(), why << ": no message"); s.nontrivial(); s.label(why); };
  if (!found) { fails("the launcher can not be found"); return; }
  if (!self_real) { fails("the directory of the launcher does not exist"); return; }
  if (missing) { fails("an entry of the search path does not exist"); return; }
  if (exe_missing && !exe_abs) { fails("the program does not exist"); return; }
  // what it has to do
  Strs a = u.args; std::string cmd = exe_want, ld = join(want); if (have_old && !old.empty()) ld += (ld.empty() ? "" : ":") + old;
  if (u.kind == 0 && a.size() > 1 && a[1] == "--command")
  {
    s.label("--command"); s.nontrivial(); if (a.size() < 3) { fails("--command without a command"); return; }
    if (a[2].size() >= PATH_MAX) { fails("a command no file can be called"); return; }
    cmd = a[2]; a.erase(a.begin(), a.begin() + 2);
  }
  if (a.size() > 1 && ((u.kind == 0 && a[1] == "--print") || (u.kind == 1 && a[1] == "--show")))
  {
    s.label("--print"); s.nontrivial(); REQUIRE_EQ(r.code, 0, "exit status of " << a[1]);
    REQUIRE_EQ(show(r.out), show("LD_LIBRARY_PATH=" + ld + "\n" + cmd + "\n"), "what " << a[1] << " shows"); REQUIRE_EQ(r.err, std::string(), "messages"); return;
  }
  if (u.kind == 0 && a.size() > 1 && a[1] == "--ldd")
  { // ldd is looked for in PATH like any command
    s.label("--ldd"); s.nontrivial();
    if (!have_ldd) { REQUIRE_EQ(r.code, 1, "exit status without ldd"); REQUIRE(r.err.find("\"ldd\" \"" + cmd + "\"") != std::string::npos, "message without ldd: " << short_(r.err)); REQUIRE_EQ(r.out, std::string(), "output without ldd"); return; }
    a = { "ldd", cmd }; cmd = root + "/tools/ldd";
  }
  else a[0] = cmd;
  bool runs = cmd[0] == '/' && access(cmd.c_str(), X_OK) == 0; { struct stat st; runs = runs && stat(cmd.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
  if (!runs) { fails("the program can not be started"); REQUIRE(r.err.find("\"" + cmd + "\"") != std::string::npos, "the message does not name the program: " << short_(r.err)); return; }
  Strs got; { std::string c; for (char x : r.out) if (x) c += x; else { got.push_back(c); c.clear(); } if (!c.empty()) got.push_back(c); }
  REQUIRE(got.size() >= 7 && got[0] == "started", "the program was not started: " << short_(r.err));
  REQUIRE_EQ(r.code, code, "exit status"); REQUIRE_EQ(r.err, std::string(), "messages");
  struct stat s1, s2; REQUIRE(stat(got[1].c_str(), &s1) == 0 && stat(cmd.c_str(), &s2) == 0 && s1.st_dev == s2.st_dev && s1.st_ino == s2.st_ino, "started " << got[1] << " in place of " << cmd);
  REQUIRE_EQ(got[2], u.cwd, "working directory of the program");
  REQUIRE(got[3] == "1" || ld.empty(), "no search path"); REQUIRE_EQ(short_(got[4]), short_(ld), "search path"); REQUIRE(got[4] == ld, "search path of " << ld.size());
  { size_t n = 0; for (auto const& x : entries(got[4])) n += x.empty(); size_t m = 0; if (have_old && !old.empty()) for (auto const& x : entries(old)) m += x.empty(); REQUIRE(got[4].empty() || n == m, "empty entries in the search path " << show(short_(got[4]))); }
  REQUIRE_EQ(got[5], std::to_string(u.env.size() - (have_old ? 1 : 0)), "other variables of the environment"); for (auto const& e : u.env) if (e.first == "KEPT") REQUIRE_EQ(got[6], e.second, "a variable of the environment");
  REQUIRE_EQ(list(Strs(got.begin() + 7, got.end())), list(a), "command line of the program");
  (void)exe_bad;
}
