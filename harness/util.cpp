// C24: the small utilities: sparse matrix enumeration, tokenizing, timers, paths of executable and module, plugin_explorer.
#include "vital_common.hpp"
#include <iostream>
#include <string>
#include <vital/util/cpu_timer.h>
#include <vital/util/enumerate_matrix.h>
#include <vital/util/tokenize.h>
#include <vital/util/wall_timer.h>
#include <vital/vital_foreach.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <list>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pbt;
namespace kv = kwiver::vital;

// ---- sparse matrices
template <typename V, int O, typename I>
static void enumerate_case(Src& s)
{
  typedef Eigen::SparseMatrix<V, O, I> M;
  int rows = int(s.chance(1, 10) ? 0 : s.range(0, 12)), cols = int(s.chance(1, 10) ? 0 : s.range(0, 12));
  if (sizeof(I) > 2 && s.chance(1, 200)) (O == Eigen::RowMajor ? rows : cols) = 400000; // long runs without any cell
  bool def = s.chance(1, 12); if (def) rows = cols = 0;
  M m; if (!def) { m = M(rows, cols); }
  std::map<std::pair<I, I>, V> model; // (outer, inner)
  size_t n = 0; bool sparse_rows = false;
  if (rows && cols)
  {
    if (s.flip()) while (s.more(n, 5, 40))
    {
      I r = I(s.idx(size_t(rows))), c = I(s.idx(size_t(cols))); V v = V(s.range(-2, 9));
      m.coeffRef(r, c) = v; model[O == Eigen::RowMajor ? std::make_pair(r, c) : std::make_pair(c, r)] = v;
    }
    else
    {
      std::vector<Eigen::Triplet<V, I>> t;
      while (s.more(n, 5, 40))
      {
        I r = I(s.idx(size_t(rows))), c = I(s.idx(size_t(cols))); V v = V(s.range(1, 9));
        auto k = O == Eigen::RowMajor ? std::make_pair(r, c) : std::make_pair(c, r);
        if (model.count(k)) continue;
        t.push_back(Eigen::Triplet<V, I>(r, c, v)); model[k] = v;
      }
      m.setFromTriplets(t.begin(), t.end());
    }
    if (s.flip()) m.makeCompressed(); else if (s.flip()) m.uncompress();
  }
  s.note() << rows << "x" << cols << (m.isCompressed() ? " compressed" : "") << (O == Eigen::RowMajor ? " by row" : " by column") << ":";
  for (auto const& e : model) s.note() << " (" << e.first.first << "," << e.first.second << ")=" << double(e.second);
  for (auto a = model.begin(); a != model.end(); ++a) { auto b = a; if (++b != model.end() && b->first.first > a->first.first + 1) sparse_rows = true; }
  if (sparse_rows && model.size() > 1) s.nontrivial();
  auto check = [&](std::vector<std::pair<std::pair<I, I>, V>> const& got)
  {
    size_t i = 0;
    for (auto const& e : model)
    {
      REQUIRE(i < got.size(), "cell " << e.first.first << "," << e.first.second << " was not visited: " << got.size() << " cells");
      REQUIRE(got[i].first == e.first && got[i].second == e.second, "cell " << i << " is (" << e.first.first << "," << e.first.second << ") and not (" << got[i].first.first << "," << got[i].first.second << ")");
      ++i;
    }
    REQUIRE_EQ(got.size(), model.size(), "number of cells visited");
  };
  auto en = kv::enumerate(m);
  typedef typename decltype(en)::iterator It;
  std::vector<std::pair<std::pair<I, I>, V>> got;
  auto put = [&](typename decltype(en)::iterator_t const& c) // not from the iterator's own idea of outer and inner
  { got.push_back({O == Eigen::RowMajor ? std::make_pair(I(c.row()), I(c.col())) : std::make_pair(I(c.col()), I(c.row())), c.value()}); };
  VITAL_FOREACH(auto const& c, en) { put(c); if (got.size() > model.size()) break; }
  check(got); got.clear();
  // again by hand, with copies of the iterators and comparisons
  std::vector<std::unique_ptr<It>> its; size_t guard = 0;
  for (It i = en.begin(); i != en.end(); ++i)
  {
    REQUIRE(!(i == en.end()), "an iterator on a cell is not the end");
    REQUIRE(i == i, "an iterator equals itself");
    its.push_back(std::unique_ptr<It>(new It(i)));
    put(*i); if (++guard > model.size()) break;
  }
  check(got); got.clear();
  for (auto const& p : its) put(**p); // copies stay where they were
  check(got);
  if (its.size() > 1)
  {
    size_t a = s.idx(its.size()), b = s.idx(its.size());
    REQUIRE_EQ(*its[a] == *its[b], a == b, "iterators are equal if and only if they are at the same cell: " << a << " and " << b);
    REQUIRE_EQ(*its[a] != *its[b], a != b, "iterators differ if and only if they are at different cells: " << a << " and " << b);
    got.clear(); It j(*its[a]); // a copy goes on independently
    for (; j != en.end() && got.size() <= its.size(); ++j) put(*j);
    REQUIRE_EQ(got.size(), its.size() - a, "cells left from cell " << a);
    M other = m; It k = kv::enumerate(other).begin();
    REQUIRE(!(k == en.begin()), "iterators on different matrices differ");
  }
  It e = en.end(); ++e; REQUIRE(e == en.end(), "the end stays the end");
}

PBT_PROP(sparse_cells, 30000, 800000, "at least two cells, with an empty row or column between cells")
{
  switch (s.idx(5))
  {
  case 0: enumerate_case<double, Eigen::ColMajor, int>(s); break;
  case 1: enumerate_case<double, Eigen::RowMajor, int>(s); break;
  case 2: enumerate_case<float, Eigen::RowMajor, short>(s); break;
  case 3: enumerate_case<int, Eigen::ColMajor, long>(s); break;
  default: enumerate_case<unsigned, Eigen::RowMajor, long>(s); break;
  }
}

// ---- tokens
template <typename C> static void tokenize_case(Src& s)
{
  static const std::vector<std::string> bits = { "a", "bc", ":", ",", " ", "", "::", " ,", "x y", std::string(1, '\0'), "\t", "longer text", "\xc3\xa9" };
  std::string t; size_t n = 0; while (s.more(n, 5, 30)) t += s.pick(bits);
  int kind = int(s.idx(4)); std::string d; bool trim = s.flip(); size_t k = 0;
  if (kind) while (s.more(k, 2, 4)) d += s.pick(std::vector<std::string>{ ":", ",", " ", "a", std::string(1, '\0'), "\xa9" }); else d = " ";
  C c; std::vector<std::string> want; k = 0;
  while (s.more(k, 1, 3)) { c.push_back("before"); want.push_back("before"); }
  std::string cur; bool any = false;
  for (char ch : t) if (d.find(ch) != std::string::npos) { if (!trim || !cur.empty()) want.push_back(cur); cur.clear(); any = true; } else cur += ch;
  if (!trim || !cur.empty()) want.push_back(cur);
  if (any) s.nontrivial();
  s.note() << pbt::show(t) << " at " << pbt::show(d) << (trim ? " without empty tokens" : "");
  if (kind == 0 && !trim && s.flip()) kv::tokenize(t, c); else if (!trim && s.flip()) kv::tokenize(t, c, d); else kv::tokenize(t, c, d, trim);
  std::vector<std::string> got(c.begin(), c.end());
  REQUIRE_EQ(got.size(), want.size(), "number of tokens");
  for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == want[i], "token " << i << " is " << pbt::show(want[i]) << " and not " << pbt::show(got[i]));
}
PBT_PROP(tokens, 100000, 2000000, "a text with a delimiter in it")
{
  switch (s.idx(3)) { case 0: tokenize_case<std::vector<std::string>>(s); break; case 1: tokenize_case<std::list<std::string>>(s); break; default: tokenize_case<std::deque<std::string>>(s); }
}

// ---- timers
namespace {
struct Wall { typedef kv::wall_timer T; static double now() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); } static double eps() { return 2e-6; } };
struct Cpu { typedef kv::cpu_timer T; static double now() { return double(std::clock()) / CLOCKS_PER_SEC; } static double eps() { return 1e-9; } };
void pass_time(Src& s)
{
  auto us = s.chance(1, 3) ? 0 : s.range(1, 1500); bool busy = s.flip();
  auto t = std::chrono::steady_clock::now() + std::chrono::microseconds(us);
  if (busy) while (std::chrono::steady_clock::now() < t) {} else usleep(useconds_t(us));
}
template <typename P> void timer_case(Src& s)
{
  typename P::T t; kv::timer& b = t;
  REQUIRE(b.timer_available(), "the timer is available"); REQUIRE(!b.is_active(), "a new timer is not active");
  REQUIRE_EQ(b.elapsed(), 0.0, "time of a timer that was never started");
  double e = 1e-5; // system_clock and its conversion
  double s0 = 0, s1 = 0, x0 = 0, x1 = 0; bool started = false, active = false; size_t n = 0; int stops = 0;
  while (s.more(n, 6, 20))
  {
    pass_time(s);
    switch (s.weighted({3, 3, 4}))
    {
    case 0: s0 = P::now(); b.start(); s1 = P::now(); started = active = true; s.note() << "start "; break;
    case 1: if (!started) break; x0 = P::now(); b.stop(); x1 = P::now(); active = false; ++stops; s.note() << "stop "; break;
    default:
      if (!started) break;
      double y0 = P::now(), g = b.elapsed(), y1 = P::now();
      s.note() << "elapsed=" << g << " ";
      if (active) REQUIRE(g >= y0 - s1 - e && g <= y1 - s0 + e, "a running timer shows " << g << " s, between " << y0 - s1 << " and " << y1 - s0);
      else { REQUIRE(g >= x0 - s1 - e && g <= x1 - s0 + e, "a stopped timer shows " << g << " s, between " << x0 - s1 << " and " << x1 - s0); REQUIRE_EQ(b.elapsed(), g, "a stopped timer stands still"); if (stops > 1) s.nontrivial(); }
    }
    REQUIRE_EQ(b.is_active(), active, "active");
  }
}
template <typename T, typename P> void scoped_case(Src& s)
{
  static const std::vector<std::string> titles = { "", "title", "a - b", "two\nlines", "elapsed time: 3 sec" };
  std::string title = s.pick(titles); bool with = s.flip() || !title.empty();
  std::ostringstream o; auto old = std::cerr.rdbuf(o.rdbuf());
  double a = 0, b = 0, c = 0, d = 0; a = P::now();
  if (with) { T t(title); b = P::now(); pass_time(s); c = P::now(); } else { T t; b = P::now(); pass_time(s); c = P::now(); }
  d = P::now(); std::cerr.rdbuf(old);
  std::string g = o.str(), pre = title.empty() ? "elapsed time: " : title + " - elapsed time: ";
  REQUIRE(g.compare(0, pre.size(), pre) == 0, "report " << pbt::show(g) << " of a timer called " << pbt::show(title));
  char* end = nullptr; std::string rest = g.substr(pre.size()); double v = std::strtod(rest.c_str(), &end);
  REQUIRE(std::string(end) == " sec\n", "report " << pbt::show(g));
  double tol = 1e-5 + 1e-5 * std::fabs(v);
  REQUIRE(v >= c - b - tol && v <= d - a + tol, "report " << pbt::show(g) << " of between " << c - b << " and " << d - a << " s");
  if (!title.empty()) s.nontrivial();
}
}
PBT_PROP(timers, 2000, 20000, "a timer used more than once, or a report with a title")
{
  switch (s.idx(4)) { case 0: timer_case<Wall>(s); break; case 1: timer_case<Cpu>(s); break; case 2: scoped_case<kv::scoped_wall_timer, Wall>(s); break; default: scoped_case<kv::scoped_cpu_timer, Cpu>(s); }
}

// ---- paths of the running executable and of the library
static void copy_file(std::string const& a, std::string const& b, mode_t m)
{
  { std::ifstream i(a.c_str(), std::ios::binary); std::ofstream o(b.c_str(), std::ios::binary); o << i.rdbuf(); REQUIRE(o && i, "scratch copy of " << a); }
  chmod(b.c_str(), m);
}
static std::string run(std::string const& exe, std::vector<std::string> const& args, std::map<std::string, std::string> const& env, int& status)
{
  int p[2]; if (pipe2(p, O_CLOEXEC)) throw pbt::Discard();
  std::vector<char*> a, e; a.push_back(const_cast<char*>(args[0].c_str())); for (size_t i = 1; i < args.size(); ++i) a.push_back(const_cast<char*>(args[i].c_str())); a.push_back(nullptr);
  std::vector<std::string> es; for (char** x = environ; *x; ++x) { std::string v = *x; if (!env.count(v.substr(0, v.find('=')))) es.push_back(v); }
  for (auto const& v : env) es.push_back(v.first + "=" + v.second);
  for (auto const& v : es) e.push_back(const_cast<char*>(v.c_str())); e.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  pid_t pid = 0; int r = posix_spawn(&pid, exe.c_str(), &fa, nullptr, a.data(), e.data());
  posix_spawn_file_actions_destroy(&fa); close(p[1]);
  REQUIRE(r == 0, "starting " << exe << ": " << strerror(r));
  std::string out; char buf[4096]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) out.append(buf, size_t(k));
  close(p[0]); waitpid(pid, &status, 0);
  return out;
}
static std::string fresh()
{
  static int n = 0; std::string d = pbt::scratch() + "/c" + std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(d.c_str(), 0700); char* r = realpath(d.c_str(), nullptr); d = r; free(r); return d;
}
namespace { struct Clean { std::string d; ~Clean() { if (system(("rm -rf '" + d + "'").c_str())) {} } }; }
static std::string gen_name(Src& s)
{
  static const std::vector<std::string> bits = { "a", "bin", " ", "lib", ".", "-", "_", "%", "\xc3\xbc", "(deleted)", "'", "&", "so", "x.y", "  ", "#", "\\" };
  std::string r = "d"; size_t n = 0; while (s.more(n, 3, 12)) r += s.pick(bits);
  if (s.chance(1, 10)) r += std::string(size_t(s.range(1, 150)), 'l');
  std::replace(r.begin(), r.end(), '\'', '"'); // for the shell that removes the directory
  return r;
}
PBT_PROP(own_paths, 300, 4000, "a directory whose name has a space or a symbolic link in the path")
{
  static std::string hd = getenv("VERIF_HDIR"), lib = getenv("VERIF_LIB"), store;
  static pid_t owner = 0;
  if (owner != getpid()) { store = fresh(); copy_file(hd + "/paths_helper", store + "/exe", 0755); copy_file(lib + "/libvital.so", store + "/lib", 0755); owner = getpid(); }
  std::string root = fresh(); Clean clean{root};
  auto make = [&](std::string& real, std::string& used, std::string const& name, std::string const& src)
  {
    std::string d = root; size_t n = 0;
    while (s.more(n, 2, 5)) { d += "/" + gen_name(s); mkdir(d.c_str(), 0700); }
    real = d; used = d + "/" + name; link((store + "/" + src).c_str(), used.c_str());
    if (s.chance(1, 3)) { std::string l = root + "/" + name + " link"; if (s.flip()) { symlink(d.c_str(), l.c_str()); used = l + "/" + name; } else { symlink(used.c_str(), l.c_str()); used = l; } s.nontrivial(); }
    if (s.chance(1, 4)) { size_t k = used.find_last_of('/'); used.insert(k, "/./."); }
    if (d.find(' ') != std::string::npos) s.nontrivial();
  };
  std::string er, eu, mr, mu; make(er, eu, gen_name(s) + ".e", "exe"); make(mr, mu, gen_name(s) + ".l", "lib");
  std::string order; size_t n = 0; do { order += s.flip() ? 'm' : 'e'; } while (s.more(n, 3, 6));
  s.note() << "executable " << pbt::show(eu) << " library " << pbt::show(mu) << " " << order;
  int st = 0; std::string got = run(eu, {s.flip() ? eu : "name", mu, order}, {}, st), want;
  for (char c : order) want += (c == 'e' ? er : mr) + "\n";
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program fails: " << st << " " << pbt::show(got));
  REQUIRE(got == want, "paths " << pbt::show(got) << ", not " << pbt::show(want));
}

// ---- the plugin explorer
PBT_PROP(explorer, 200, 3000, "two or more modules with implementations and a detailed listing")
{
  static std::string hd = getenv("VERIF_HDIR"), lib = getenv("VERIF_LIB");
  std::string root = fresh(); Clean clean{root};
  std::vector<std::string> dirs; size_t n = 0; std::map<std::string, int> impls; std::set<std::string> mods; std::map<std::string, std::map<std::string, int>> regs;
  static const std::vector<std::string> names = { "alpha", "beta", "gamma.v2", "delta" };
  std::vector<std::string> args = { "plugin_explorer" }; std::string only; std::string env;
  if (s.chance(1, 4)) only = s.pick(names);
  size_t id = 0; std::vector<std::pair<std::string, bool>> order; // directory, by environment
  while (s.more(n, 2, 4))
  {
    std::string d = root + "/p" + std::to_string(n) + (s.chance(1, 4) ? " q" : ""); bool in_env = s.chance(1, 3);
    if (!s.chance(1, 6)) mkdir(d.c_str(), 0700);
    dirs.push_back(d); order.push_back({d, in_env});
    size_t k = 0; while (s.more(k, 2, 3))
    {
      std::string m = s.pick(names); if (access(d.c_str(), F_OK) || regs.count(d + "/" + m)) continue;
      if (symlink((hd + "/plug.so").c_str(), (d + "/" + m + ".so").c_str())) {}
      unlink((d + "/" + m + ".so").c_str()); copy_file(hd + "/plug.so", d + "/" + m + ".so", 0755);
      std::ofstream o((d + "/" + m + ".so.reg").c_str()); auto& r = regs[d + "/" + m]; size_t q = 0;
      while (s.more(q, 1, 3)) { std::string i = "impl" + std::to_string(id++); r[i] = int(s.range(0, 999)); o << "impl " << i << " " << r[i] << "\n"; }
    }
  }
  for (auto const& o : order) if (o.second) env += (env.empty() ? "" : ":") + o.first;
  bool detail = s.flip(), help = s.chance(1, 12), wrong = s.chance(1, 20); std::string shown;
  for (auto const& o : order) if (!o.second) { if (s.flip()) { args.push_back("--path"); args.push_back(o.first); } else args.push_back("-I" + o.first); }
  if (!only.empty()) { args.push_back("--plugin-name"); args.push_back(only); }
  if (detail) args.push_back(s.flip() ? "--detail" : "-d");
  if (help) args.push_back("--help");
  if (wrong) args.push_back("--no-such-option");
  for (auto const& a : args) s.note() << a << " | "; s.note() << env;
  for (auto const& r : regs)
  {
    std::string m = r.first.substr(r.first.find_last_of('/') + 1);
    if (!only.empty() && m != only) continue;
    mods.insert(m); for (auto const& i : r.second) impls[i.first] = i.second;
  }
  int st = 0; std::string got = run(lib + "/../bin/plugin_explorer", args, {{"KWIVER_PLUGIN_PATH", env}}, st);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "plugin_explorer ends with " << st);
  if (wrong) { REQUIRE(got.find("----") == std::string::npos, "wrong options: " << got); return; }
  if (help) { for (auto w : { "--help", "--plugin-name", "--path", "-I", "--detail", "-d" }) REQUIRE(got.find(w) != std::string::npos, "help on " << w); REQUIRE(got.find("----") == std::string::npos, "help lists nothing"); return; }
  if (mods.size() > 1 && !impls.empty() && detail) s.nontrivial();
  // sections
  std::vector<std::string> lines; kv::tokenize(got, lines, "\n"); std::string sec; std::vector<std::string> gp; std::set<std::string> gm, ga; std::map<std::string, std::string> values; std::string cur;
  for (auto const& l : lines)
  {
    if (l.compare(0, 5, "---- ") == 0) sec = l.substr(5, 10);
    else if (l.compare(0, 8, "--------") == 0) sec = "detail";
    else if (sec == "Algorithm " && !l.empty()) gp.push_back(l);
    else if (sec == "Registered" && !l.empty()) gm.insert(l.substr(3));
    else if (sec == "registered" && !l.empty()) ga.insert(l.substr(3));
    else if (sec == "detail") { size_t k = l.find("implementation \""); if (k != std::string::npos) { cur = l.substr(k + 16); cur = cur.substr(0, cur.find('"')); values[cur]; } k = l.find("\"value\" = \""); if (k != std::string::npos) { values[cur] = l.substr(k + 11); values[cur] = values[cur].substr(0, values[cur].find('"')); } }
  }
  REQUIRE_EQ(gp.size(), 1u, "one line with the search path");
  size_t at = 0; for (int pass = 1; pass >= 0; --pass) for (auto const& o : order) if (o.second == bool(pass)) { size_t k = gp[0].find(o.first + ":", at); REQUIRE(k != std::string::npos, "search path " << gp[0] << " has " << o.first << " after " << at); at = k + o.first.size(); }
  auto all = [](std::set<std::string> const& x) { std::string r; for (auto const& y : x) r += y + " "; return r; };
  REQUIRE_EQ(all(gm), all(mods), "modules listed");
  std::set<std::string> want; for (auto const& i : impls) want.insert("detect_features:" + i.first);
  REQUIRE_EQ(all(ga), all(want), "algorithms listed");
  if (detail) { REQUIRE_EQ(values.size(), impls.size(), "detailed listing"); for (auto const& i : impls) REQUIRE_EQ(values[i.first], std::to_string(i.second), "configuration of " << i.first); }
  else REQUIRE(values.empty(), "details only when asked for");
}
