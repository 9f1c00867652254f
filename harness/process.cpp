// Running child processes.  Each case is a process of its own, run as a user who
// owns nothing: kill() is replaced by one that refuses (and records) every target
// which is not a descendant of the case, so that nothing else can be signalled.
#include "pbt.hpp"
#include "prochelper.hpp"
#include <kwsys/Process.h>
#include <kwsys/System.h>
#include <algorithm>
#include <memory>
#include <cerrno>
#include <csignal>
#include <cmath>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<std::string> Strs;

// ---- stand-ins for system calls ------------------------------------------------------
namespace {
volatile pid_t g_guard = 0;          // the process whose descendants may be signalled
volatile int g_bad_kills = 0; volatile long g_bad_kill = 0; volatile int g_group_kills = 0;
volatile int g_fail_pipe = -1, g_fail_fork = -1, g_fail_select = -1, g_faults = 0; // countdown to a failing call
pid_t g_forked[64]; volatile int g_nforked = 0;

pid_t parent_of(pid_t p)
{
  char name[40], b[512]; snprintf(name, sizeof name, "/proc/%d/stat", static_cast<int>(p));
  int fd = open(name, O_RDONLY | O_CLOEXEC); if (fd < 0) return 0;
  ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 0;
  b[n] = 0; char* r = strrchr(b, ')'); int pp = 0; char st;
  return r && sscanf(r + 1, " %c %d", &st, &pp) == 2 ? pp : 0;
}
bool descendant(pid_t p) { for (int i = 0; i < 40 && p > 1; ++i) { p = parent_of(p); if (p == g_guard) return true; } return false; }
template <typename F> F next(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
bool countdown(volatile int& c, int err) { if (!g_guard || c < 0) return false; if (c-- != 0) return false; g_faults = g_faults + 1; errno = err; return true; }
}
extern "C" int kill(pid_t pid, int sig) noexcept
{
  static auto real = next<int (*)(pid_t, int)>("kill");
  if (!g_guard) return real(pid, sig);
  if (pid == 0) { g_group_kills = g_group_kills + 1; return 0; }
  if (pid == -1 || !descendant(pid < 0 ? -pid : pid)) { g_bad_kills = g_bad_kills + 1; g_bad_kill = pid; errno = ESRCH; return -1; }
  return real(pid, sig);
}
extern "C" int pipe(int p[2]) noexcept
{
  static auto real = next<int (*)(int*)>("pipe");
  if (countdown(g_fail_pipe, EMFILE)) return -1;
  return real(p);
}
extern "C" pid_t fork() noexcept
{
  static auto real = next<pid_t (*)()>("fork");
  if (countdown(g_fail_fork, EAGAIN)) return -1;
  pid_t r = real();
  if (g_guard == getpid() && r > 0 && g_nforked < 64) { g_forked[g_nforked] = r; g_nforked = g_nforked + 1; }
  return r;
}
extern "C" int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t)
{
  static auto real = next<int (*)(int, fd_set*, fd_set*, fd_set*, timeval*)>("select");
  if (countdown(g_fail_select, ENOMEM)) return -1;
  return real(n, r, w, e, t);
}

// the wall clock is moved by less than a second, so that its microseconds can be drawn
volatile long g_clock_offset = 0;
static int real_clock(timeval* t) { timespec q; clock_gettime(CLOCK_REALTIME, &q); t->tv_sec = q.tv_sec; t->tv_usec = q.tv_nsec / 1000; return 0; }
extern "C" int gettimeofday(timeval* __restrict t, void* __restrict) noexcept
{
  real_clock(t); t->tv_usec += g_clock_offset; if (t->tv_usec >= 1000000) { t->tv_usec -= 1000000; ++t->tv_sec; }
  return 0;
}
static void set_clock(long usec) { timeval t; real_clock(&t); g_clock_offset = (usec - t.tv_usec + 1000000) % 1000000; }

namespace {
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
void on_alarm(int) {}
void on_chld(int) {}
void on_int(int) {}
void on_term(int) {}

bool slurp(std::string const& f, std::string& out)
{
  int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return false;
  out.clear(); char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) out.append(b, static_cast<size_t>(n));
  close(fd); return true;
}
void spit(std::string const& f, std::string const& s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t p = 0; while (p < s.size()) { ssize_t n = write(fd, s.data() + p, s.size() - p); if (n <= 0) break; p += static_cast<size_t>(n); } close(fd); }
bool wait_for_file(std::string const& f) { double t0 = now(); while (access(f.c_str(), F_OK) != 0) { if (now() - t0 > 40) return false; usleep(300); } return true; }
std::set<int> open_fds() { std::set<int> r; for (int i = 0; i < 1300; ++i) if (fcntl(i, F_GETFD) >= 0) r.insert(i); return r; }
std::string list(std::set<int> const& v) { std::string r; for (int i : v) r += std::to_string(i) + " "; return r; }
Strs lines(std::string const& s) { Strs r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
std::string brief(std::string const& s) { return std::to_string(s.size()) + " bytes " + show(s.substr(0, 24)); }

// the surroundings of a case
struct Case
{
  std::string dir, helper;
  std::set<int> fds0; char cwd0[PATH_MAX]; struct sigaction acts0[4]; sigset_t mask0;
  bool storm = false; bool root, crowded = false, no_stdin = false;
  static const int SIGS[4];
  explicit Case(Src& s, bool odd = false)
  {
    root = getuid() == 0;
    dir = scratch(); chmod(dir.c_str(), 0711); chmod(dir.substr(0, dir.rfind('/')).c_str(), 0711);
    dir += "/d"; mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755);
    helper = dir + "/helper";
    std::string exe; if (!slurp(std::string(getenv("VERIF_HDIR")) + "/prochelper", exe)) throw Fail("no helper program");
    spit(helper, exe); chmod(helper.c_str(), 0755);
    spit(dir + "/noexec", "text\n"); spit(dir + "/in", pattern(5000, 77, 7));
    mkdir((dir + "/adir").c_str(), 0755);
    uid_t u = 300000 + static_cast<uid_t>(getpid());
    if (root)
    {
      for (char const* n : { "", "/sub", "/in", "/noexec", "/adir" }) if (chown((dir + n).c_str(), u, u)) throw Discard();
      if (setresgid(u, u, 0) || setresuid(u, u, 0)) throw Discard();
    }
    if (chdir(dir.c_str())) throw Discard();
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    int in = open((dir + "/in").c_str(), O_RDONLY | O_CLOEXEC); dup2(in, 0); close(in);
    // a program without some of its standard streams, or with very many files open
    if (odd && s.chance(1, 10)) for (int i = 0; i < 3; ++i) if (s.flip()) { close(i); no_stdin = no_stdin || i == 0; s.label("standard streams closed"); }
    if (odd && s.chance(1, 40)) { rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); s.label("many files open"); size_t more = 1000 + s.idx(60); for (size_t i = 0; i < more; ++i) open("/dev/null", O_RDONLY | O_CLOEXEC); crowded = true; }
    // the handlers and the mask of the program
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_alarm; sigaction(SIGALRM, &a, nullptr);
    if (s.flip()) { a.sa_handler = on_chld; sigaction(SIGCHLD, &a, nullptr); }
    if (s.flip()) { a.sa_handler = on_int; sigaction(SIGINT, &a, nullptr); }
    if (s.flip()) { a.sa_handler = on_term; sigaction(SIGTERM, &a, nullptr); }
    if (s.chance(1, 4)) signal(SIGHUP, SIG_IGN);
    if (s.chance(1, 4)) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR1); if (s.flip()) sigaddset(&m, SIGUSR2); sigprocmask(SIG_BLOCK, &m, nullptr); }
    for (int i = 0; i < 4; ++i) sigaction(SIGS[i], nullptr, &acts0[i]);
    sigprocmask(SIG_BLOCK, nullptr, &mask0);
    fds0 = open_fds(); if (!getcwd(cwd0, sizeof cwd0)) throw Discard();
    g_guard = getpid();
  }
  void set_storm(bool on) { storm = on; itimerval tv; memset(&tv, 0, sizeof tv); if (on) tv.it_value.tv_usec = tv.it_interval.tv_usec = 1500; setitimer(ITIMER_REAL, &tv, nullptr); }
  // nothing of the program has been changed and no process is left
  void finish()
  {
    set_storm(false);
    double t0 = now(); int st; pid_t p;
    while ((p = waitpid(-1, &st, WNOHANG)) >= 0)
    {
      if (p > 0) { bool direct = false; for (int i = 0; i < g_nforked; ++i) direct = direct || g_forked[i] == p; REQUIRE(!direct, "a child process was not waited for"); continue; }
      REQUIRE(now() - t0 < 15, "processes started are still running"); usleep(500);
    }
    REQUIRE_EQ(g_bad_kills, 0, "processes were signalled which are no children (last " << g_bad_kill << ")");
    REQUIRE_EQ(list(open_fds()), list(fds0), "file descriptors open afterwards");
    char c[PATH_MAX]; REQUIRE(getcwd(c, sizeof c) && std::string(c) == cwd0, "working directory of the program changed to " << c);
    for (int i = 0; i < 4; ++i) { struct sigaction a; sigaction(SIGS[i], nullptr, &a); REQUIRE(a.sa_handler == acts0[i].sa_handler, "the program's handler of signal " << SIGS[i] << " was not restored"); }
    sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m); for (int i = 1; i < 32; ++i) REQUIRE_EQ(sigismember(&m, i), sigismember(&mask0, i), "blocking of signal " << i);
  }
  ~Case()
  {
    set_storm(false);
    // end what may be left over, then take back the rights
    DIR* d = opendir("/proc");
    if (d) { while (dirent* e = readdir(d)) { pid_t p = atoi(e->d_name); if (p > 1 && descendant(p)) ::kill(p, SIGKILL); } closedir(d); }
    g_guard = 0;
    if (root) { if (setresuid(0, 0, 0) || setresgid(0, 0, 0)) _exit(99); }
  }
};
const int Case::SIGS[4] = { SIGCHLD, SIGINT, SIGTERM, SIGHUP };

struct Stage
{
  Strs ops, args; bool hangs = false, endless = false; int code = 0, sig = 0; std::string ready;
  std::string script() const { std::string r; for (auto const& o : ops) r += (r.empty() ? "" : ";") + o; return r.empty() ? "s0" : r; }
};
typedef std::vector<std::pair<int, std::string>> Pieces; // (1 or 2, bytes)

enum Route { PIPE, FILE_, SHARED, NATIVE, CLOSED };
enum Broken { NOTHING, NO_PROGRAM, NOT_EXECUTABLE, NO_DIRECTORY, DIR_IS_FILE, NO_INPUT, NO_OUTPUT_DIR, OUTPUT_IS_DIR };
struct Spec
{
  std::vector<Stage> st; Route in = SHARED, out = PIPE, err = PIPE; std::string in_file, out_file, err_file, input;
  bool merge = false, group = false, detach = false, verbatim = false; std::string dir; double timeout = 0; Broken broken = NOTHING; size_t broken_at = 0;
  int hang = -1; std::string report, marker;
  std::string text() const
  {
    std::ostringstream o; for (auto const& x : st) { o << "| " << x.script() << " "; for (auto const& a : x.args) o << show(a) << " "; }
    o << " in:" << in << " out:" << out << " err:" << err << " merge:" << merge << " group:" << group << " detach:" << detach << " verbatim:" << verbatim << " dir:" << dir << " timeout:" << timeout << " broken:" << broken << "@" << broken_at;
    return o.str();
  }
};

std::string quoted(Src& s, std::string const& w)
{
  std::string r; size_t i = 0; if (w.empty()) return s.flip() ? "\"\"" : "''";
  while (i < w.size())
  {
    size_t n = 1 + s.idx(w.size() - i); std::string part = w.substr(i, n); i += n;
    switch (s.idx(4))
    {
      case 0: r += '"'; for (char c : part) { if (c == '"' || c == '\\' || s.chance(1, 12)) r += '\\'; r += c; } r += '"'; break;
      case 1: r += '\''; for (char c : part) { if (c == '\'' || c == '\\' || s.chance(1, 12)) r += '\\'; r += c; }
              r += '\''; break;
      default: for (char c : part) { if (!isalnum(static_cast<unsigned char>(c)) || s.chance(1, 8)) r += '\\'; r += c; }
    }
  }
  return r;
}
std::string blanks(Src& s, int least) { std::string r; size_t n = static_cast<size_t>(least); while (n-- > 0 || s.chance(1, 4)) { r += s.pick(std::vector<char>{' ', ' ', '\t', '\n', '\v', '\f', '\r'}); if (n > 5) n = 0; if (r.size() > 6) break; } return r; }

std::string word(Src& s)
{
  static const Strs w = { "a", "", "x y", "it's", "say \"hi\"", "back\\slash", "tab\there", "-o", "$HOME", "a;b", "caf\xc3\xa9", "\xff", "new\nline", " lead", "trail ", "`ls`", "*" };
  if (s.chance(1, 30)) return std::string(static_cast<size_t>(s.range(500, 3000)), 'L');
  return s.pick(w);
}

Pieces simulate(Stage const& st, std::string const& input, size_t limit)
{
  Pieces r; size_t pos = 0; bool o = true, e = true; (void)limit;
  for (auto const& op : st.ops)
  {
    unsigned n = 0, seed = 0, cls = 0;
    if (op[0] == 'o' || op[0] == 'e') { sscanf(op.c_str() + 1, "%u,%u,%u", &n, &seed, &cls); if (op[0] == 'o' ? o : e) r.push_back({ op[0] == 'o' ? 1 : 2, pattern(n, seed, cls) }); }
    else if (op[0] == 'c') { if (o) r.push_back({ 1, input.substr(pos) }); pos = input.size(); }
    else if (op[0] == 'd') { sscanf(op.c_str() + 1, "%u", &n); pos = std::min(input.size(), pos + n); }
    else if (op[0] == 'q') o = false;
    else if (op[0] == 'w') e = false;
  }
  return r;
}
std::string stream(Pieces const& p, int which) { std::string r; for (auto const& x : p) if (x.first == which || which == 0) r += x.second; return r; }
std::string of_class(std::string const& s, unsigned mask) { std::string r; for (char c : s) if (mask >> (static_cast<unsigned char>(c) & 15) & 1) r += c; return r; }

// what has to arrive: stdout exactly, stderr per stage
struct Expected { std::string out; Strs err; unsigned last_mask = 0; };
Expected expected(Spec const& sp)
{
  Expected x; std::string data = sp.in == CLOSED ? "" : sp.input;
  for (size_t i = 0; i < sp.st.size(); ++i)
  {
    Pieces p = simulate(sp.st[i], data, 0);
    bool last = i + 1 == sp.st.size();
    x.err.push_back(stream(p, 2));
    if (last) x.out = sp.merge ? stream(p, 0) : stream(p, 1);
    data = stream(p, 1);
  }
  return x;
}

// classes: stage i writes stdout as class i, stderr as class 8 + i; the first input is class 7, endless output 15
void check_streams(Spec const& sp, std::string const& out, std::string const& err, bool complete, std::string const& where, bool gaps = false)
{
  Expected x = expected(sp); size_t n = sp.st.size();
  bool endless = sp.hang >= 0 && sp.st[static_cast<size_t>(sp.hang)].endless;
  auto same = [&](std::string got, std::string const& want, char const* what) {
    if (endless) got = of_class(got, 0x7fff);
    if (gaps) { size_t j = 0; for (char g : got) { while (j < want.size() && want[j] != g) ++j; REQUIRE(j < want.size(), where << what << ": data that was not written"); ++j; } }
    else if (complete) REQUIRE(got == want, where << what << ": " << brief(got) << ", expected " << brief(want));
    else REQUIRE(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, where << what << " is no beginning of what was written: " << brief(got) << ", of " << brief(want));
  };
  if (!sp.merge)
  {
    same(out, x.out, "stdout");
    for (size_t i = 0; i < n; ++i) same(of_class(err, 1u << (8 + i)), x.err[i], ("stderr of process " + std::to_string(i)).c_str());
    unsigned all = 0; for (size_t i = 0; i < n; ++i) all |= 1u << (8 + i);
    REQUIRE_EQ(of_class(err, ~all).size(), 0u, where << "foreign data on stderr");
  }
  else
  {
    unsigned others = 0; for (size_t i = 0; i + 1 < n; ++i) { same(of_class(out, 1u << (8 + i)), x.err[i], "stderr in merged output"); others |= 1u << (8 + i); }
    same(of_class(out, ~others), x.out, "merged output"); REQUIRE_EQ(err.size(), 0u, where << "data on stderr although the streams are merged");
  }
}

struct Proc
{
  kwsysProcess* cp = kwsysProcess_New(); Spec sp; std::string out, err, shared_out, shared_err; int nat_in[2] = { -1, -1 }, nat_out[2] = { -1, -1 }, nat_err[2] = { -1, -1 };
  double set_timeout = 0, started = 0; bool running = false, read_all = true, gaps = false, killed = false, expired = false, interrupted = false; std::set<int> inheritable; sigset_t mask; std::string cwd;
  ~Proc() { if (cp) kwsysProcess_Delete(cp); }
};

size_t amount(Src& s, bool small)
{
  switch (s.weighted({ 5, 3, 2, 1 }))
  {
    case 0: return static_cast<size_t>(s.range(0, 40));
    case 1: return static_cast<size_t>(s.range(1000, 1050)) * static_cast<size_t>(s.range(1, 2));
    case 2: return static_cast<size_t>(s.range(41, 9000));
    default: return static_cast<size_t>(s.range(9000, small ? 20000 : 200000));
  }
}

Spec gen_spec(Src& s, Case& c, int no, bool may_hang)
{
  Spec sp; std::string id = std::to_string(no);
  size_t n = 1 + s.weighted({ 6, 3, 2, 1 });
  switch (s.weighted({ 6, 2, 2, 2 })) { case 0: sp.in = CLOSED; break; case 1: sp.in = FILE_; break; case 2: sp.in = SHARED; break; default: sp.in = NATIVE; }
  switch (s.weighted({ 8, 2, 1, 1 })) { case 0: sp.out = PIPE; break; case 1: sp.out = FILE_; break; case 2: sp.out = SHARED; break; default: sp.out = NATIVE; }
  switch (s.weighted({ 8, 2, 1, 1 })) { case 0: sp.err = PIPE; break; case 1: sp.err = FILE_; break; case 2: sp.err = SHARED; break; default: sp.err = NATIVE; }
  sp.merge = s.chance(1, 5); sp.group = s.chance(1, 4); sp.verbatim = s.chance(1, 6);
  if (sp.merge) sp.err = PIPE;
  switch (s.weighted({ 5, 1, 1 })) { case 0: break; case 1: sp.dir = "sub"; break; default: sp.dir = c.dir + "/sub"; }
  std::string base = sp.dir.empty() ? c.dir : c.dir + "/sub";
  if (sp.in == FILE_ || sp.in == NATIVE) sp.input = pattern(amount(s, true), static_cast<unsigned>(s.range(0, 99)), 7);
  if (sp.in == SHARED) sp.input = pattern(5000, 77, 7);
  // relative names are meant relative to the working directory of the process
  auto file = [&](char const* k) { std::string f = k + id; return s.flip() ? f : base + "/" + f; };
  sp.in_file = file("input"); sp.out_file = file("output"); sp.err_file = file("errors");
  bool small = sp.out == NATIVE || sp.err == NATIVE;
  for (size_t i = 0; i < n; ++i)
  {
    Stage st; size_t cnt = 0; unsigned cls = static_cast<unsigned>(i);
    while (s.more(cnt, 3, 8))
      switch (s.weighted({ 5, 4, 4, 1, 2, 1, 1 }))
      {
        case 0: st.ops.push_back("o" + std::to_string(amount(s, small)) + "," + std::to_string(s.range(0, 99)) + "," + std::to_string(cls)); break;
        case 1: st.ops.push_back("e" + std::to_string(amount(s, true) / (small ? 4 : 1)) + "," + std::to_string(s.range(0, 99)) + "," + std::to_string(8 + cls)); break;
        case 2: st.ops.push_back("c"); break;
        case 3: st.ops.push_back("d" + std::to_string(s.range(0, 2000))); break;
        case 4: st.ops.push_back("s" + std::to_string(s.range(0, 8))); break;
        case 5: st.ops.push_back("q"); break;
        default: st.ops.push_back("w"); break;
      }
    if (i > 0 && s.chance(3, 4)) { bool has = false; for (auto const& o : st.ops) has = has || o == "c"; if (!has) st.ops.insert(st.ops.begin() + static_cast<long>(s.idx(st.ops.size() + 1)), "c"); }
    size_t na = 0; while (s.more(na, 1, 4)) st.args.push_back(word(s));
    sp.st.push_back(st);
  }
  if (small) { size_t total = expected(sp).out.size(); for (auto const& e : expected(sp).err) total += e.size(); if (total > 30000) /* a pipe holds 16 pages, each at least half full */ { sp.out = sp.out == NATIVE ? PIPE : sp.out; sp.err = sp.err == NATIVE ? PIPE : sp.err; } }
  if (s.chance(1, 3)) { sp.report = base + "/report" + id; size_t k = s.idx(n); sp.st[k].ops.insert(sp.st[k].ops.begin(), "r" + sp.report); sp.broken_at = k; }
  if (may_hang)
  {
    size_t k = s.idx(n); sp.hang = static_cast<int>(k); Stage& st = sp.st[k];
    size_t keep = s.idx(st.ops.size() + 1); st.ops.resize(keep); sp.report.clear();
    st.hangs = true; st.ready = c.dir + "/ready" + id;
    for (auto& x : sp.st) { Strs o; for (auto const& y : x.ops) if (y[0] != 'r') o.push_back(y); x.ops = o; }
    static const Strs names = { "x) R 1", "(((", ")", "a b c", "1 (2) 3", "" };
    if (s.chance(1, 3)) st.ops.push_back("N" + s.pick(names));
    switch (s.idx(4)) { case 0: break; case 1: st.ops.push_back("g"); break; case 2: st.ops.push_back("G"); break; default: st.ops.push_back("g"); st.ops.push_back("G"); }
    if (sp.group && s.chance(1, 8)) st.ops.insert(st.ops.begin(), "I");
    st.endless = k + 1 == n && sp.out == PIPE && s.chance(1, 3);
    // output before this has to fit into the pipes, because the ready file is awaited first
    for (auto& x : sp.st) for (auto& y : x.ops) if (y[0] == 'o' || y[0] == 'e') { unsigned a, b, d; sscanf(y.c_str() + 1, "%u,%u,%u", &a, &b, &d); y = std::string(1, y[0]) + std::to_string(a % 1500) + "," + std::to_string(b) + "," + std::to_string(d); }
    if (sp.input.size() > 5000) sp.input.resize(5000);
    st.ops.push_back("m" + st.ready); st.ops.push_back(st.endless ? "z" : "h");
  }
  else
  {
    for (auto& st : sp.st) switch (s.weighted({ 4, 3, 2 })) { case 0: break; case 1: st.code = static_cast<int>(s.range(0, 255)); st.ops.push_back("x" + std::to_string(st.code)); break;
      default: { static const std::vector<int> sg = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGINT, SIGABRT, SIGKILL, SIGTERM, SIGHUP, SIGQUIT, SIGTRAP, SIGUSR1, SIGUSR2, SIGPIPE, SIGALRM, SIGSYS, SIGXCPU, SIGVTALRM }; st.sig = s.pick(sg); st.ops.push_back("k" + std::to_string(st.sig)); } }
    if (s.chance(1, 8)) sp.timeout = s.flip() ? 1000 : -5;
  }
  return sp;
}

void some_time(Src& s) { if (s.chance(1, 3)) set_clock(s.pick(std::vector<long>{ 0, 999900, 999600, 980000, 700000, 500000, 1 })); }

int fault_errno(Broken b) { switch (b) { case NOT_EXECUTABLE: return EACCES; case DIR_IS_FILE: return ENOTDIR; case OUTPUT_IS_DIR: return EISDIR; default: return ENOENT; } }

int high_pipe(int p[2]) { int q[2]; if (::pipe(q)) return -1; for (int i = 0; i < 2; ++i) { p[i] = fcntl(q[i], F_DUPFD, 3); close(q[i]); } return 0; }
int open_high(std::string const& f) { int a = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), b = fcntl(a, F_DUPFD_CLOEXEC, 50); close(a); return b; }

// set up the object; every option is set each time, because objects are used again
void configure(Src& s, Case& c, Proc& p)
{
  Spec& sp = p.sp; kwsysProcess* cp = p.cp;
  kwsysProcess_SetOption(cp, kwsysProcess_Option_Verbatim, sp.verbatim);
  REQUIRE_EQ(kwsysProcess_SetCommand(cp, nullptr), 1, "SetCommand(null)");
  for (size_t i = 0; i < sp.st.size(); ++i)
  {
    Strs a; a.push_back(sp.broken == NO_PROGRAM && sp.broken_at == i ? c.dir + "/nothing" : sp.broken == NOT_EXECUTABLE && sp.broken_at == i ? c.dir + "/noexec" : c.helper);
    a.push_back(sp.st[i].script()); a.insert(a.end(), sp.st[i].args.begin(), sp.st[i].args.end());
    std::vector<char const*> v;
    std::string line;
    if (sp.verbatim) { line = blanks(s, 0); for (auto const& w : a) line += quoted(s, w) + blanks(s, 1); v.push_back(line.c_str()); v.push_back("ignored"); }
    else for (auto const& w : a) v.push_back(w.c_str());
    v.push_back(nullptr);
    int r = i == 0 && s.flip() ? kwsysProcess_SetCommand(cp, v.data()) : kwsysProcess_AddCommand(cp, v.data());
    REQUIRE_EQ(r, 1, "adding a command");
    char const* none[1] = { nullptr };
    if (s.chance(1, 20)) REQUIRE_EQ(kwsysProcess_AddCommand(cp, s.flip() ? none : nullptr), 0, "adding a command without program");
  }
  std::string where = sp.broken == NO_DIRECTORY ? c.dir + "/nowhere" : sp.broken == DIR_IS_FILE ? c.dir + "/in" : sp.dir;
  REQUIRE_EQ(kwsysProcess_SetWorkingDirectory(cp, where.empty() ? nullptr : where.c_str()), 1, "SetWorkingDirectory");
  kwsysProcess_SetOption(cp, kwsysProcess_Option_MergeOutput, sp.merge); kwsysProcess_SetOption(cp, kwsysProcess_Option_CreateProcessGroup, sp.group);
  kwsysProcess_SetOption(cp, kwsysProcess_Option_Detach, sp.detach);
  REQUIRE_EQ(kwsysProcess_GetOption(cp, kwsysProcess_Option_MergeOutput), int(sp.merge), "GetOption(merge)");
  REQUIRE_EQ(kwsysProcess_GetOption(cp, kwsysProcess_Option_CreateProcessGroup), int(sp.group), "GetOption(group)");
  REQUIRE_EQ(kwsysProcess_GetOption(cp, kwsysProcess_Option_Detach), int(sp.detach), "GetOption(detach)");
  REQUIRE_EQ(kwsysProcess_GetOption(cp, kwsysProcess_Option_Verbatim), int(sp.verbatim), "GetOption(verbatim)");
  // a timeout that stays as it was need not be set again
  if (sp.timeout != p.set_timeout || s.flip()) kwsysProcess_SetTimeout(cp, sp.timeout);
  p.set_timeout = sp.timeout;
  std::string base = sp.dir.empty() ? c.dir : c.dir + "/sub";
  auto abs = [&](std::string const& f) { return f[0] == '/' ? f : base + "/" + f; };
  auto route = [&](int which, Route r, std::string const& file, int* native) {
    // an earlier setting of the same pipe is replaced
    if (s.chance(1, 5)) kwsysProcess_SetPipeFile(cp, which, "elsewhere");
    if (s.chance(1, 5)) kwsysProcess_SetPipeShared(cp, which, 1);
    if (s.chance(1, 8)) { int np[2] = { 900, 901 }; kwsysProcess_SetPipeNative(cp, which, np); }
    switch (r)
    {
      case FILE_: REQUIRE_EQ(kwsysProcess_SetPipeFile(cp, which, file.c_str()), 1, "SetPipeFile"); break;
      case SHARED: kwsysProcess_SetPipeShared(cp, which, 1); break;
      case NATIVE: if (high_pipe(native)) throw Discard(); kwsysProcess_SetPipeNative(cp, which, native); break;
      default: kwsysProcess_SetPipeShared(cp, which, 0); kwsysProcess_SetPipeNative(cp, which, nullptr); REQUIRE_EQ(kwsysProcess_SetPipeFile(cp, which, nullptr), 1, "SetPipeFile(null)");
    }
  };
  std::string of = sp.broken == NO_OUTPUT_DIR ? c.dir + "/nowhere/x" : sp.broken == OUTPUT_IS_DIR ? c.dir + "/adir" : sp.out_file;
  if (sp.broken == NO_OUTPUT_DIR || sp.broken == OUTPUT_IS_DIR) sp.out = FILE_;
  if (sp.broken == NO_INPUT) { sp.in = FILE_; sp.in_file = c.dir + "/noinput"; }
  else if (sp.in == FILE_) spit(abs(sp.in_file), sp.input);
  route(kwsysProcess_Pipe_STDIN, sp.in, sp.in_file, p.nat_in); route(kwsysProcess_Pipe_STDOUT, sp.out, of, p.nat_out); route(kwsysProcess_Pipe_STDERR, sp.err, sp.err_file, p.nat_err);
  if (sp.in == NATIVE) { size_t k = 0; while (k < sp.input.size()) { ssize_t w = write(p.nat_in[1], sp.input.data() + k, sp.input.size() - k); if (w <= 0) throw Discard(); k += static_cast<size_t>(w); } }
  unlink(abs(sp.out_file).c_str());
  if (sp.out == FILE_ && s.flip()) spit(abs(sp.out_file), "old contents which are longer than nothing");
  for (auto const& st : sp.st) if (!st.ready.empty()) unlink(st.ready.c_str());
  if (!sp.report.empty()) unlink(sp.report.c_str());
}
void close_(int& fd) { if (fd >= 0) close(fd); fd = -1; }

void execute(Case& c, Proc& p, int no)
{
  Spec& sp = p.sp; p.out.clear(); p.err.clear(); p.killed = p.expired = p.interrupted = false; p.read_all = true; p.gaps = false;
  lseek(0, 0, SEEK_SET);
  // give this program other standard streams for the time of the call
  int save1 = -1, save2 = -1; p.shared_out = c.dir + "/shared_out" + std::to_string(no); p.shared_err = c.dir + "/shared_err" + std::to_string(no);
  if (sp.out == SHARED) { save1 = fcntl(1, F_DUPFD_CLOEXEC, 50); int f = open_high(p.shared_out); dup2(f, 1); close(f); }
  if (sp.err == SHARED) { save2 = fcntl(2, F_DUPFD_CLOEXEC, 50); int f = open_high(p.shared_err); dup2(f, 2); close(f); }
  p.inheritable.clear(); for (int f : open_fds()) if (!(fcntl(f, F_GETFD) & FD_CLOEXEC)) p.inheritable.insert(f);
  for (int f : { p.nat_in[0], p.nat_in[1], p.nat_out[0], p.nat_out[1], p.nat_err[0], p.nat_err[1] }) p.inheritable.erase(f);
  sigprocmask(SIG_BLOCK, nullptr, &p.mask);
  p.started = now();
  kwsysProcess_Execute(p.cp);
  if (sp.out == SHARED) { if (save1 >= 0) { dup2(save1, 1); close(save1); } else close(1); }
  if (sp.err == SHARED) { if (save2 >= 0) { dup2(save2, 2); close(save2); } else close(2); }
  p.running = kwsysProcess_GetState(p.cp) == kwsysProcess_State_Executing;
  if (p.running)
  {
    // documented: the child's ends of native pipes are closed here
    if (sp.in == NATIVE) { REQUIRE(fcntl(p.nat_in[0], F_GETFD) < 0, "the read end of the native stdin is still open"); p.nat_in[0] = -1; }
    if (sp.out == NATIVE) { REQUIRE(fcntl(p.nat_out[1], F_GETFD) < 0, "the write end of the native stdout is still open"); p.nat_out[1] = -1; }
    if (sp.err == NATIVE) { REQUIRE(fcntl(p.nat_err[1], F_GETFD) < 0, "the write end of the native stderr is still open"); p.nat_err[1] = -1; }
    close_(p.nat_in[1]);
    char b[PATH_MAX]; REQUIRE(getcwd(b, sizeof b) && std::string(b) == c.cwd0, "working directory after Execute");
  }
  else
    for (int* f : { &p.nat_in[0], &p.nat_in[1], &p.nat_out[0], &p.nat_out[1], &p.nat_err[0], &p.nat_err[1] }) { if (*f >= 0 && fcntl(*f, F_GETFD) >= 0) close(*f); *f = -1; }
}

// one call of WaitForData; false when there is nothing more
bool take(Proc& p, double const* timeout, std::string const& where)
{
  char* data = nullptr; int len = -77; double t = timeout ? *timeout : 0, t0 = now();
  int r = kwsysProcess_WaitForData(p.cp, &data, &len, timeout ? &t : nullptr);
  double took = now() - t0;
  switch (r)
  {
    case kwsysProcess_Pipe_None: return false;
    case kwsysProcess_Pipe_STDOUT: case kwsysProcess_Pipe_STDERR:
      REQUIRE(data && len > 0, where << "data of length " << len);
      (r == kwsysProcess_Pipe_STDOUT ? p.out : p.err).append(data, static_cast<size_t>(len));
      if (timeout && *timeout > 0) REQUIRE(t >= 0 && t <= *timeout && t >= *timeout - took - 0.1 - 1e-9 * *timeout, where << "time left " << t << " of " << *timeout << " after " << took);
      return true;
    case kwsysProcess_Pipe_Timeout:
      REQUIRE(timeout, where << "time out although none was given");
      REQUIRE_EQ(t, 0.0, where << "time left after the time was up");
      if (*timeout > 0) REQUIRE(took > *timeout * 0.9 - 0.003, where << "waited " << took << " s of " << *timeout);
      return true;
    default: throw Fail(where + "WaitForData returned " + std::to_string(r));
  }
}

std::string drain(int& fd) { std::string r; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) != 0) { if (n < 0) { if (errno == EINTR) continue; break; } r.append(b, static_cast<size_t>(n)); } close_(fd); return r; }

// the process has ended: everything that can be said about it
void check_end(Case& c, Proc& p, std::string const& where)
{
  Spec& sp = p.sp; kwsysProcess* cp = p.cp; int state = kwsysProcess_GetState(cp);
  Stage const& last = sp.st.back();
  if (p.killed) REQUIRE_EQ(state, int(kwsysProcess_State_Killed), where << "state of a killed process");
  else if (p.expired) REQUIRE_EQ(state, int(kwsysProcess_State_Expired), where << "state of a process whose time was up");
  else if (p.interrupted)
  {
    // an interrupted last process ends by the signal; another one decides for itself
    if (sp.hang + 1 == static_cast<int>(sp.st.size())) { REQUIRE_EQ(state, int(kwsysProcess_State_Exception), where << "state of an interrupted process: " << kwsysProcess_GetErrorString(cp)); REQUIRE_EQ(kwsysProcess_GetExitException(cp), int(kwsysProcess_Exception_Interrupt), where << "exception"); }
  }
  else if (last.sig)
  {
    REQUIRE_EQ(state, int(kwsysProcess_State_Exception), where << "state of a process ended by signal " << last.sig);
    int e = kwsysProcess_Exception_Other;
    switch (last.sig) { case SIGSEGV: case SIGBUS: e = kwsysProcess_Exception_Fault; break; case SIGFPE: e = kwsysProcess_Exception_Numerical; break; case SIGILL: e = kwsysProcess_Exception_Illegal; break; case SIGINT: e = kwsysProcess_Exception_Interrupt; break; default: break; }
    REQUIRE_EQ(kwsysProcess_GetExitException(cp), e, where << "exception for signal " << last.sig);
    int code = kwsysProcess_GetExitCode(cp); REQUIRE(WIFSIGNALED(code) && WTERMSIG(code) == last.sig, where << "exit code " << code);
    char const* t = kwsysProcess_GetExceptionString(cp); REQUIRE(t && *t && strcmp(t, "No exception"), where << "exception string");
  }
  else
  {
    REQUIRE_EQ(state, int(kwsysProcess_State_Exited), where << "state of a process that ended by itself: " << kwsysProcess_GetErrorString(cp));
    REQUIRE_EQ(kwsysProcess_GetExitValue(cp), last.code, where << "exit value");
    int code = kwsysProcess_GetExitCode(cp); REQUIRE(WIFEXITED(code) && WEXITSTATUS(code) == last.code, where << "exit code " << code);
    REQUIRE_EQ(kwsysProcess_GetExitException(cp), int(kwsysProcess_Exception_None), where << "exception");
  }
  bool complete = !p.killed && !p.expired && !p.interrupted;
  std::string out = p.out, err = p.err;
  bool ro = p.read_all, re = p.read_all;
  std::string base = sp.dir.empty() ? c.dir : c.dir + "/sub"; auto abs = [&](std::string const& f) { return f[0] == '/' ? f : base + "/" + f; };
  if (sp.out != PIPE) { REQUIRE_EQ(p.out.size(), 0u, where << "data from a redirected stdout"); ro = true; if (sp.out == NATIVE) out = drain(p.nat_out[0]); else slurp(sp.out == FILE_ ? abs(sp.out_file) : p.shared_out, out); }
  if (sp.err != PIPE) { REQUIRE_EQ(p.err.size(), 0u, where << "data from a redirected stderr"); re = true; if (sp.err == NATIVE) err = drain(p.nat_err[0]); else slurp(sp.err == FILE_ ? abs(sp.err_file) : p.shared_err, err); }
  if (sp.merge && !ro) re = false;
  Spec view = sp; (void)view;
  check_streams(sp, out, err, complete && ro && re, where, p.gaps || (!complete && sp.st.size() > 1)); // an earlier process that is ended cuts the input of the next
  if (complete && (ro != re)) // at least what was redirected is complete
  {
    Expected x = expected(sp);
    if (ro && !sp.merge) REQUIRE(out == x.out, where << "redirected stdout: " << brief(out) << " of " << brief(x.out));
    if (re && !sp.merge) for (size_t i = 0; i < sp.st.size(); ++i) REQUIRE(of_class(err, 1u << (8 + i)) == x.err[i], where << "redirected stderr");
  }
  if (complete && !sp.report.empty())
  {
    std::string r; REQUIRE(slurp(sp.report, r), where << "the process did not run"); Strs args, want; std::set<int> fds, blocked, handled; std::string cwd, leader;
    for (auto const& l : lines(r)) { if (l.find("arg ") == 0) { std::string h = l.substr(4), w; for (size_t i = 0; i + 1 < h.size(); i += 2) w += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16)); args.push_back(w); } else if (l == "arg") args.push_back("");
      else if (l.find("cwd ") == 0) cwd = l.substr(4); else if (l.find("fd ") == 0) fds.insert(atoi(l.c_str() + 3)); else if (l.find("blocked ") == 0) blocked.insert(atoi(l.c_str() + 8)); else if (l.find("handled ") == 0) handled.insert(atoi(l.c_str() + 8)); else if (l.find("leader ") == 0) leader = l.substr(7); }
    Stage const& st = sp.st[sp.broken_at];
    REQUIRE_EQ(args.size(), st.args.size(), where << "number of arguments received");
    for (size_t i = 0; i < args.size(); ++i) REQUIRE(args[i] == st.args[i], where << "argument " << i << " is " << show(args[i]) << ", not " << show(st.args[i]));
    char b[PATH_MAX]; REQUIRE_EQ(cwd, std::string(realpath(base.c_str(), b) ? b : "?"), where << "working directory of the process");
    REQUIRE_EQ(leader, std::string(sp.group ? "1" : "0"), where << "own session");
    std::set<int> extra; for (int f : fds) if (f > 2 && !p.inheritable.count(f)) extra.insert(f);
    REQUIRE_EQ(list(extra), std::string(), where << "descriptors that should not be open in the process");
    REQUIRE_EQ(list(handled), std::string(), where << "signals not set to their default in the process");
    std::set<int> wb; for (int i = 1; i < 32; ++i) if (sigismember(&p.mask, i)) wb.insert(i);
    REQUIRE_EQ(list(blocked), list(wb), where << "signals blocked in the process");
    REQUIRE(fds.count(1) && fds.count(2), where << "stdout and stderr of the process");
    REQUIRE_EQ(fds.count(0) != 0, sp.in != CLOSED || sp.broken_at > 0, where << "stdin of the process");
  }
  // a finished object does nothing more
  double z = 0; char* d = nullptr; int l = 0;
  REQUIRE_EQ(kwsysProcess_WaitForData(cp, &d, &l, &z), int(kwsysProcess_Pipe_None), where << "WaitForData after the end");
  REQUIRE_EQ(kwsysProcess_WaitForExit(cp, nullptr), 1, where << "WaitForExit after the end");
  kwsysProcess_Kill(cp); kwsysProcess_Interrupt(cp); kwsysProcess_Disown(cp);
  REQUIRE_EQ(kwsysProcess_GetState(cp), state, where << "state changed after the end");
  p.running = false;
  close_(p.nat_out[0]); close_(p.nat_err[0]);
}

double some_timeout(Src& s) { switch (s.idx(6)) { case 0: return 0; case 1: return -1; case 2: return 0.0004; case 3: return 0.01; case 4: return -0.3; default: return 1000; } }

// grandchildren in sessions of their own are not reached by an interrupt
bool interruptible(Spec const& sp) { for (auto const& o : sp.st[static_cast<size_t>(sp.hang)].ops) if (o == "G" || o == "I") return false; return true; }

// advance by one step; true when the process has ended (and has been checked)
bool step(Src& s, Case& c, Proc& p, int& budget, std::string const& where)
{
  Spec& sp = p.sp; kwsysProcess* cp = p.cp;
  if (sp.hang >= 0 && !p.killed && !p.expired && !p.interrupted)
  {
    // wait until the whole family has been started
    REQUIRE(wait_for_file(sp.st[static_cast<size_t>(sp.hang)].ready), where << "the process did not get as far as it should");
    for (size_t i = 0, n = s.idx(4); i < n; ++i) { double t = s.pick(std::vector<double>{ 0, 0.001, -1, 0.01 }); if (sp.timeout > 0) break; take(p, &t, where); }
    if (sp.timeout > 0)
    {
      switch (s.idx(3))
      {
        case 0: while (take(p, nullptr, where)) {} break;
        case 1: { double t = 0.05; while (take(p, &t, where)) t = 0.05; break; }
        default: p.read_all = false; p.gaps = true;
      }
      REQUIRE_EQ(kwsysProcess_WaitForExit(cp, nullptr), 1, where << "WaitForExit"); p.expired = true;
      double took = now() - p.started; REQUIRE(took >= sp.timeout - 0.05, where << "given up after " << took << " s of " << sp.timeout);
    }
    else if (sp.group && interruptible(sp) && s.flip())
    {
      s.label("interrupted"); kwsysProcess_Interrupt(cp); p.interrupted = true; p.read_all = false; p.gaps = true;
      if (s.flip()) { double t = 40; REQUIRE_EQ(kwsysProcess_WaitForExit(cp, &t), 1, where << "an interrupted process goes on"); }
      else REQUIRE_EQ(kwsysProcess_WaitForExit(cp, nullptr), 1, where << "WaitForExit");
    }
    else
    {
      int st = kwsysProcess_GetState(cp); REQUIRE_EQ(st, int(kwsysProcess_State_Executing), where << "state while running");
      kwsysProcess_Kill(cp); p.killed = true; if (s.chance(1, 4)) kwsysProcess_Kill(cp);
      if (s.flip()) REQUIRE(!take(p, nullptr, where), where << "data after Kill");
      double t = 1000; REQUIRE_EQ(kwsysProcess_WaitForExit(cp, s.flip() ? &t : nullptr), 1, where << "WaitForExit after Kill");
    }
    check_end(c, p, where); return true;
  }
  --budget; if (sp.timeout <= 0) some_time(s);
  if (s.chance(1, 8))
  { // the program holds signals back for a while: those of several children become one
    sigset_t m, o; sigemptyset(&m); sigaddset(&m, SIGCHLD); sigprocmask(SIG_BLOCK, &m, &o); usleep(static_cast<unsigned>(s.pick(std::vector<int>{ 100, 2000, 12000 }))); sigprocmask(SIG_SETMASK, &o, nullptr);
  }
  switch (budget <= 0 ? 0 : s.weighted({ 4, 5, 1, 1 }))
  {
    case 0: if (take(p, nullptr, where)) return false; break;
    case 1: { double t = some_timeout(s); if (take(p, &t, where)) return false; break; }
    case 2: kwsysProcess_Execute(cp); REQUIRE_EQ(kwsysProcess_GetState(cp), int(kwsysProcess_State_Executing), where << "Execute while running"); return false;
    default: { p.read_all = false; p.gaps = true; double t = some_timeout(s), t0 = t; double b = now(); int r = kwsysProcess_WaitForExit(cp, s.chance(2, 3) ? &t : nullptr); if (r == 0) { if (t0 > 0) REQUIRE(now() - b > t0 * 0.9 - 0.003, where << "WaitForExit came back early"); return false; } check_end(c, p, where); return true; }
  }
  // no more data
  double t = some_timeout(s); (void)t;
  REQUIRE_EQ(kwsysProcess_WaitForExit(cp, nullptr), 1, where << "WaitForExit");
  check_end(c, p, where); return true;
}

void check_error(Proc& p, int err, std::string const& where)
{
  REQUIRE_EQ(kwsysProcess_GetState(p.cp), int(kwsysProcess_State_Error), where << "state of a process that can not be started");
  char const* t = kwsysProcess_GetErrorString(p.cp); REQUIRE(t && *t, where << "no error string");
  if (err) REQUIRE_EQ(std::string(t), std::string(strerror(err)), where << "error string");
  double z = 0; char* d; int l; REQUIRE_EQ(kwsysProcess_WaitForData(p.cp, &d, &l, &z), int(kwsysProcess_Pipe_None), where << "data of a process that was not started");
  REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, where << "waiting for a process that was not started");
}
} // namespace

// ---- one object used several times
PBT_PROP_ISOLATED(outcomes, 2400, 40000, "a pipeline, redirections, a failure or an end other than exit(0)")
{
  Case c(s, true);
  {
    Proc p; REQUIRE(p.cp, "New"); REQUIRE_EQ(kwsysProcess_GetState(p.cp), int(kwsysProcess_State_Starting), "state of a new object");
    REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, "waiting for nothing");
    if (s.chance(1, 10)) { kwsysProcess_Execute(p.cp); check_error(p, 0, "without command: "); }
    size_t n = 0;
    while (s.more(n, 2, 4))
    {
      std::string where = "run " + std::to_string(n) + ": ";
      p.sp = gen_spec(s, c, static_cast<int>(n), s.chance(1, 4));
      if (c.no_stdin && p.sp.in == SHARED) p.sp.in = CLOSED;
      if (p.sp.hang >= 0 && s.chance(1, 4)) p.sp.timeout = s.real(0.02, 0.25);
      if (p.sp.hang < 0 && s.chance(1, 5)) { p.sp.broken = static_cast<Broken>(1 + s.idx(7)); p.sp.report.clear(); for (auto& x : p.sp.st) { Strs o; for (auto const& y : x.ops) if (y[0] != 'r') o.push_back(y); x.ops = o; } p.sp.broken_at = s.idx(p.sp.st.size()); }
      s.note() << where << p.sp.text() << "\n";
      configure(s, c, p); some_time(s);
      bool storm = s.chance(1, 4); if (storm) { s.label("interrupting signals"); c.set_storm(true); }
      execute(c, p, static_cast<int>(n));
      if (c.crowded && !p.running) { check_error(p, 0, where); s.nontrivial(); c.set_storm(false); continue; } // select() has its limit
      if (p.sp.broken != NOTHING) { s.label("can not start"); check_error(p, fault_errno(p.sp.broken), where); s.nontrivial(); c.set_storm(false); continue; }
      REQUIRE(p.running, where << "not started: " << kwsysProcess_GetErrorString(p.cp));
      int budget = 40; bool done = false;
      if (s.chance(1, 40) && p.sp.hang < 0) { p.sp.report.clear(); kwsysProcess_Delete(p.cp); p.cp = kwsysProcess_New(); p.set_timeout = 0; done = true; close_(p.nat_out[0]); close_(p.nat_err[0]); s.label("deleted while running"); }
      while (!done) done = step(s, c, p, budget, where);
      c.set_storm(false);
      s.label(p.killed ? "killed" : p.expired ? "expired" : p.sp.st.back().sig ? "signalled" : "exited");
      if (p.sp.st.size() > 1 || p.sp.in != CLOSED || p.sp.out != PIPE || p.sp.err != PIPE || p.killed || p.expired || p.sp.st.back().sig || p.sp.st.back().code) s.nontrivial();
    }
  }
  c.finish();
}

// ---- several objects at the same time
PBT_PROP_ISOLATED(concurrent, 900, 15000, "two or more processes overlapped")
{
  Case c(s);
  {
    size_t n = static_cast<size_t>(s.range(2, 6)); std::vector<std::unique_ptr<Proc>> ps; std::vector<int> state(n, 0), budget(n, 25); // 0 idle, 1 running, 2 done
    for (size_t i = 0; i < n; ++i)
    {
      ps.emplace_back(new Proc); ps[i]->sp = gen_spec(s, c, static_cast<int>(i), s.chance(1, 5));
      Spec& sp = ps[i]->sp; if (sp.out == NATIVE) sp.out = PIPE; if (sp.err == NATIVE) sp.err = PIPE; if (sp.in == SHARED) sp.in = CLOSED; // the offset of a shared stdin would be common
      if (sp.in == NATIVE) sp.in = FILE_;
      s.note() << i << ": " << sp.text() << "\n";
    }
    if (s.chance(1, 3)) c.set_storm(true);
    size_t left = n, together = 0;
    while (left > 0)
    {
      size_t i = s.idx(n); while (state[i] == 2) i = (i + 1) % n;
      std::string where = "process " + std::to_string(i) + ": ";
      if (state[i] == 0) { configure(s, c, *ps[i]); execute(c, *ps[i], static_cast<int>(i)); REQUIRE(ps[i]->running, where << "not started: " << kwsysProcess_GetErrorString(ps[i]->cp)); state[i] = 1; size_t k = 0; for (int x : state) k += x == 1; together = std::max(together, k); }
      else if (step(s, c, *ps[i], budget[i], where)) { state[i] = 2; --left; if (s.flip()) { kwsysProcess_Delete(ps[i]->cp); ps[i]->cp = nullptr; } }
    }
    if (together > 1) s.nontrivial();
  }
  c.finish();
}

// ---- system calls that fail
PBT_PROP_ISOLATED(failing_calls, 900, 12000, "a call failed")
{
  Case c(s);
  {
    Proc p; size_t n = 0;
    while (s.more(n, 2, 3))
    {
      std::string where = "run " + std::to_string(n) + ": ";
      p.sp = gen_spec(s, c, static_cast<int>(n), false); p.sp.detach = false;
      configure(s, c, p);
      int what = static_cast<int>(s.idx(4)), at = 0;
      switch (what) { case 0: at = g_fail_fork = static_cast<int>(s.idx(p.sp.st.size() + 1)); break; case 1: at = g_fail_pipe = static_cast<int>(s.idx(3 + 3 * p.sp.st.size())); break; case 2: at = g_fail_select = static_cast<int>(s.idx(4)); break; default: break; }
      s.note() << where << p.sp.text() << " failing " << what << " at " << at << "\n";
      g_faults = 0; execute(c, p, static_cast<int>(n));
      g_fail_fork = g_fail_pipe = -1;
      if (g_faults) { s.nontrivial(); s.label(what == 0 ? "fork" : "pipe"); check_error(p, what == 0 ? EAGAIN : EMFILE, where); g_fail_select = -1; continue; }
      REQUIRE(p.running, where << "not started: " << kwsysProcess_GetErrorString(p.cp));
      int budget = 20; bool done = false;
      while (!done)
      {
        if (what == 2)
        {
          while (take(p, nullptr, where)) {}
          REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, where << "WaitForExit");
          if (g_faults) { s.label("select"); s.nontrivial(); check_error(p, ENOMEM, where); close_(p.nat_out[0]); close_(p.nat_err[0]); }
          else check_end(c, p, where);
          done = true;
        }
        else done = step(s, c, p, budget, where);
      }
      g_fail_select = -1;
    }
  }
  c.finish();
}

// ---- times at every position of the clock, with nothing else happening
PBT_PROP_ISOLATED(timeouts, 400, 8000, "a time was up")
{
  Case c(s);
  {
    Proc p; size_t n = 0;
    while (s.more(n, 1, 2))
    {
      std::string where = "run " + std::to_string(n) + ": "; Spec& sp = p.sp; double before = sp.timeout; sp = Spec(); sp.in = CLOSED; sp.hang = 0; Stage st; st.hangs = true; st.ready = c.dir + "/ready"; st.ops = { "m" + st.ready, "h" }; sp.st.push_back(st);
      bool own = s.flip(); if (own) sp.timeout = before > 0 && s.flip() ? before : s.real(0.03, 0.2); s.note() << where << sp.text() << "\n";
      configure(s, c, p);
      auto clock = [&]() { long us = s.flip() ? 1000000 - static_cast<long>(s.range(1, 2000)) : 1000000 - static_cast<long>(s.range(1, 200)) * 1000; s.note() << "clock " << us << "\n"; set_clock(us); };
      clock(); execute(c, p, 0); REQUIRE(p.running, where << "not started: " << kwsysProcess_GetErrorString(p.cp));
      if (!own)
      {
        REQUIRE(wait_for_file(st.ready), where << "the process did not get as far as it should");
        for (size_t i = 1 + s.idx(4); i > 0; --i)
        {
          double t = s.pick(std::vector<double>{ 0.002, 0.01, 0.0005, 0.03 }), t0 = t; clock(); s.nontrivial();
          if (s.flip()) { s.note() << "WaitForData " << t << "\n"; take(p, &t, where); }
          else { s.note() << "WaitForExit " << t << "\n"; double b = now(); REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, &t), 0, where << "a process that goes on has ended"); double took = now() - b; REQUIRE(took > t0 * 0.9 - 0.0015, where << "WaitForExit came back after " << took << " s of " << t0); REQUIRE_EQ(t, 0.0, where << "time left after the time was up"); }
        }
        kwsysProcess_Kill(p.cp); p.killed = true; REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, where << "WaitForExit after Kill");
      }
      else
      {
        s.nontrivial(); if (s.flip()) { double t = s.flip() ? 1000 : -1; take(p, &t, where); if (t < 0) take(p, nullptr, where); }
        REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, where << "WaitForExit"); p.expired = true;
        double took = now() - p.started; REQUIRE(took >= sp.timeout - 0.002, where << "given up after " << took << " s of " << sp.timeout);
        REQUIRE(took <= sp.timeout + 15, where << "given up only after " << took << " s of " << sp.timeout);
      }
      check_end(c, p, where);
    }
  }
  c.finish();
}

// ---- processes left to themselves
PBT_PROP_ISOLATED(detached, 500, 8000, "disowned while running")
{
  Case c(s); std::string marker = c.dir + "/marker";
  {
    Proc p; p.sp = gen_spec(s, c, 0, false); Spec& sp = p.sp; sp.detach = true; sp.timeout = 0; sp.report.clear();
    for (auto& x : sp.st) { Strs o; for (auto const& y : x.ops) if (y[0] != 'r') o.push_back(y); x.ops = o; }
    for (auto& y : sp.st.back().ops) if (y[0] == 'k') y = "x0";
    sp.st.back().code = 0; sp.st.back().sig = 0; Strs o; for (auto const& y : sp.st.back().ops) if (y[0] != 'x') o.push_back(y); sp.st.back().ops = o;
    sp.st.back().ops.push_back("s" + std::to_string(s.range(0, 20))); sp.st.back().ops.push_back("m" + marker);
    s.note() << sp.text() << "\n";
    configure(s, c, p); execute(c, p, 0); REQUIRE(p.running, "not started: " << kwsysProcess_GetErrorString(p.cp));
    switch (s.idx(3))
    {
      case 0: { s.nontrivial(); for (size_t i = s.idx(3); i > 0; --i) { double t = s.pick(std::vector<double>{ 0, 0.002, -1 }); take(p, &t, ""); }
                if (s.flip()) { kwsysProcess_Disown(p.cp); REQUIRE_EQ(kwsysProcess_GetState(p.cp), int(kwsysProcess_State_Disowned), "state after Disown"); REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, "WaitForExit after Disown"); kwsysProcess_Kill(p.cp); }
                check_streams(sp, sp.out == PIPE ? p.out : "", sp.err == PIPE ? p.err : "", false, ""); break; }
      case 1: { while (take(p, nullptr, "")) {} if (sp.out == PIPE && sp.err == PIPE) check_streams(sp, p.out, p.err, true, ""); REQUIRE_EQ(kwsysProcess_WaitForExit(p.cp, nullptr), 1, "WaitForExit"); s.label("waited for"); break; }
      default: s.nontrivial(); break; // deleted while running
    }
    kwsysProcess_Delete(p.cp); p.cp = nullptr;
    REQUIRE(wait_for_file(marker), "the detached process did not get to its end");
    close_(p.nat_out[0]); close_(p.nat_err[0]); close_(p.nat_in[1]);
  }
  c.finish();
}

// ---- the program itself is interrupted: children in groups of their own are told, then the program ends by that signal
PBT_PROP_ISOLATED(program_interrupted, 400, 6000, "the program got the signal while processes ran in groups of their own")
{
  Case c(s); s.nontrivial();
  size_t n = static_cast<size_t>(s.range(1, 3)); int sig = s.flip() ? SIGINT : SIGTERM; int groups = 0; Strs ready;
  std::vector<Spec> specs; for (size_t i = 0; i < n; ++i)
  {
    Spec sp; size_t k = 1 + s.idx(2); sp.in = CLOSED; sp.group = true; ++groups;
    for (size_t j = 0; j < k; ++j) { Stage st; std::string f = c.dir + "/r" + std::to_string(i) + "_" + std::to_string(j); st.ops = { "m" + f, "h" }; ready.push_back(f); sp.st.push_back(st); }
    specs.push_back(sp); s.note() << sp.text() << "\n";
  }
  sigset_t none; sigemptyset(&none);
  pid_t pid = fork();
  if (pid == 0)
  {
    sigprocmask(SIG_SETMASK, &none, nullptr); g_guard = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
    std::vector<std::unique_ptr<Proc>> ps;
    for (size_t i = 0; i < n; ++i) { ps.emplace_back(new Proc); ps[i]->sp = specs[i]; Src z; z.replay_ = true; configure(z, c, *ps[i]); execute(c, *ps[i], static_cast<int>(i)); }
    spit(c.dir + "/started", "");
    for (auto& p : ps) kwsysProcess_WaitForExit(p->cp, nullptr);
    _exit(5);
  }
  REQUIRE(pid > 0, "fork");
  bool ok = wait_for_file(c.dir + "/started"); for (auto const& f : ready) ok = ok && wait_for_file(f);
  REQUIRE(ok, "processes not started");
  if (s.flip()) usleep(2000);
  ::kill(pid, sig);
  int st = 0; double t0 = now(); pid_t r;
  while ((r = waitpid(pid, &st, WNOHANG)) == 0 && now() - t0 < 8) usleep(500);
  REQUIRE_EQ(r, pid, "the program does not end after signal " << sig);
  REQUIRE(WIFSIGNALED(st) && WTERMSIG(st) == sig, "the program ended with status " << st << " instead of by signal " << sig);
  g_nforked = 0;
  c.finish();
}

// ---- command lines
PBT_PROP(command_text, 30000, 500000, "an argument needed quoting")
{
  Strs want; std::string line = blanks(s, 0); size_t n = 0; bool open_quote = false;
  while (s.more(n, 4, 60)) { std::string w; size_t k = 0; if (s.chance(1, 3)) w = word(s); else while (s.more(k, 4, 40)) w += s.pick(std::vector<char>{ 'a', 'b', ' ', '"', '\'', '\\', '\t', '\n', '$', '\x80' }); want.push_back(w); std::string q = quoted(s, w); if (q != w) s.nontrivial(); line += q + blanks(s, 1); }
  if (s.chance(1, 6)) { open_quote = true; s.label("missing close quote"); std::string w = s.pick(Strs{ "", "x", "x y", "  ", "it" }); line += (s.flip() ? "\"" : "'") + w; want.push_back(w); }
  s.note() << show(line) << "\n"; (void)open_quote;
  char** r = kwsysSystem_Parse_CommandForUnix(line.c_str(), 0); REQUIRE(r, "parsing failed");
  Strs got; for (char** p = r; *p; ++p) { got.push_back(*p); free(*p); } free(r);
  REQUIRE_EQ(got.size(), want.size(), "number of arguments of " << show(line));
  for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == want[i], "argument " << i << " is " << show(got[i]) << ", expected " << show(want[i]) << " in " << show(line));
  if (s.chance(1, 50)) REQUIRE(kwsysSystem_Parse_CommandForUnix(line.c_str(), static_cast<int>(s.range(1, 9))) == nullptr, "flags are reserved");
}
