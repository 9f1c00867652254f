// C22: loggers
#include "pbt.hpp"
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/kwiver_logger_factory.cxx> // not exported: users compile it in
#include <atomic>
#include <fstream>
#include <iostream>
#include <mutex>
#include <regex>
#include <thread>
#include <ctime>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace kwiver::vital;
using pbt::Src;
typedef kwiver_logger KL;

// ---- a clock of our own for threads that ask for it: real time is a generated value that moves on at every reading
namespace {
struct Fake { bool on = false; int64_t us = 0, step = 0, first = -1, last = -1; };
thread_local Fake fake;
int64_t tick() { int64_t t = fake.us; if (fake.first < 0) fake.first = t; fake.last = t; fake.us += fake.step; return t; }
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
  if (fake.on && c == CLOCK_REALTIME) { int64_t t = tick(); ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; return 0; }
  return int(syscall(SYS_clock_gettime, c, ts));
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
extern "C" time_t time(time_t* t) noexcept
{
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}

namespace {
// std::cerr goes here
struct Cap : std::streambuf {
  std::mutex m; std::string out; bool yield = false;
  int overflow(int c) override { if (c != EOF) { char x = char(c); xsputn(&x, 1); } return 0; }
  std::streamsize xsputn(char const* p, std::streamsize n) override { { std::lock_guard<std::mutex> g(m); out.append(p, size_t(n)); } if (yield) sched_yield(); return n; }
  std::string take() { std::lock_guard<std::mutex> g(m); std::string r; r.swap(out); return r; }
};
Cap* cap()
{
  static Cap* c = new Cap;
  std::cerr.clear(); std::cerr.rdbuf(c);
  return c;
}
char const* const LV[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL" };
KL::log_level_t lev(int i) { return KL::log_level_t(KL::LEVEL_TRACE + i); }
bool enabled(KL const& l, int i)
{
  switch (i) { case 0: return l.is_trace_enabled(); case 1: return l.is_debug_enabled(); case 2: return l.is_info_enabled();
  case 3: return l.is_warn_enabled(); case 4: return l.is_error_enabled(); default: return l.is_fatal_enabled(); }
}
void log_at(KL& l, int i, std::string const& m)
{
  switch (i) { case 0: l.log_trace(m); break; case 1: l.log_debug(m); break; case 2: l.log_info(m); break;
  case 3: l.log_warn(m); break; case 4: l.log_error(m); break; default: l.log_fatal(m); }
}
void log_at(KL& l, int i, std::string const& m, logger_ns::location_info const& w)
{
  switch (i) { case 0: l.log_trace(m, w); break; case 1: l.log_debug(m, w); break; case 2: l.log_info(m, w); break;
  case 3: l.log_warn(m, w); break; case 4: l.log_error(m, w); break; default: l.log_fatal(m, w); }
}
std::vector<std::string> lines(std::string const& m) { std::vector<std::string> r; std::istringstream i(m); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
// "<date> <time>.<fraction> LEVEL rest" -> whether it is one; time in us
bool split(std::string const& l, int64_t& us, std::string& level, std::string& rest)
{
  int y, mo, d, h, mi, se, n = 0; char lv[16];
  if (sscanf(l.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &y, &mo, &d, &h, &mi, &se, &n) != 6 || n != 19) return false;
  struct tm t = {}; t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = se; t.tm_isdst = -1;
  us = int64_t(mktime(&t)) * 1000000;
  size_t p = 19;
  if (p < l.size() && (l[p] == '.' || l[p] == ',')) { int64_t f = 100000; for (++p; p < l.size() && isdigit((unsigned char)l[p]); ++p, f /= 10) us += (l[p] - '0') * f; }
  n = 0;
  if (sscanf(l.c_str() + p, " %15[A-Z]%n", lv, &n) != 1) return false;
  level = lv; p += size_t(n);
  if (p >= l.size() || l[p] != ' ') return false;
  rest = l.substr(p + 1);
  return true;
}
void expect(std::string const& out, bool on, std::string const& msg, int level, std::string const& where, std::string const& what)
{
  if (!on) { REQUIRE_EQ(out, "", "written although the level is not enabled: " << what); return; }
  std::vector<std::string> want = lines(msg), got = lines(out);
  if (msg.empty() && got.size() == 1) want.push_back("");
  REQUIRE_EQ(got.size(), want.size(), "number of lines written by " << what << ": " << pbt::show(out));
  if (!got.empty()) REQUIRE_EQ(out.back(), '\n', "the output ends with a new line: " << what);
  for (size_t i = 0; i < got.size(); ++i)
  {
    int64_t us; std::string lv, rest;
    REQUIRE(split(got[i], us, lv, rest), "line " << i << " lacks time and level: " << pbt::show(got[i]));
    REQUIRE_EQ(lv, LV[level], "level of line " << i << " of " << what);
    REQUIRE_EQ(pbt::show(rest), pbt::show(where + want[i]), "line " << i << " of " << what);
    REQUIRE(us / 1000 >= fake.first / 1000 && us / 1000 <= fake.last / 1000, "time stamp of " << pbt::show(got[i]) << " is " << us << " us, logged at " << fake.first << ".." << fake.last << " us");
  }
}
std::string gen_line(Src& s)
{
  switch (s.weighted({6, 2, 2, 1}))
  {
  case 0: { static std::vector<std::string> const v = { "x", "", " ", "two words", "100%s %d", "a\rb", "\t", "2015-01-01 00:00:00.000 INFO fake", std::string("n\0ul", 4), "\xc3\xa9\xff" }; return s.pick(v); }
  case 1: return std::string(size_t(s.integer(0, 3000)), 'l');
  case 2: { std::string r; size_t n = 0; while (s.more(n, 8, 60)) { char c = char(s.range(1, 255)); if (c != '\n') r += c; } return r; }
  default: return std::to_string(s.integer(INT64_MIN, INT64_MAX));
  }
}
std::string gen_msg(Src& s) { std::string m = gen_line(s); size_t n = 0; while (s.more(n, 1, 6)) m += "\n" + gen_line(s); if (s.chance(1, 6)) m += "\n"; return m; }
std::string gen_name(Src& s)
{
  static std::vector<std::string> const v = { "a", "b", "a.b", "A", "a.", "main.logger", "", "a.b.c", "vital.x y" };
  if (s.chance(5, 6)) return s.pick(v);
  return std::string(size_t(s.range(1, 40)), 'n') + std::to_string(s.range(0, 3));
}
void set_zone(Src& s)
{
  static std::vector<std::string> const v = { "UTC", "XXX-5:30", "YYY+8", "ZZZ-14", "QQQ+11:59:59", "EST5" };
  setenv("TZ", s.pick(v).c_str(), 1); tzset();
}
int64_t gen_time(Src& s)
{
  int64_t t = s.range(0, 4000000000ll) * 1000000;
  return t + (s.flip() ? s.range(0, 999) * 1000 + s.range(0, 999) : s.pick(std::vector<int64_t>{0, 999, 1000, 9999, 50000, 99999, 100000, 999000, 999999}));
}
void fake_on(Src& s) { fake.us = gen_time(s); fake.step = s.pick(std::vector<int64_t>{0, 1, 500, 1000, 7000, 400000}); fake.first = fake.last = -1; fake.on = true; }
struct Off { ~Off() { fake.on = false; } };
}

// The properties that need a process without loggers come first: their cases are forked from the worker.
PBT_PROP_ISOLATED(threads, 1500, 40000, "at least three threads writing messages of several lines, some to the same logger")
{
  Cap* c = cap(); c->yield = s.flip(); set_zone(s);
  size_t nt = size_t(s.range(2, 8)), nn = size_t(s.range(1, 40));
  struct Msg { size_t logger; int level; bool loc, via; std::vector<std::string> body; int64_t us; };
  std::vector<std::vector<Msg>> todo(nt);
  bool multi = false;
  for (size_t t = 0; t < nt; ++t)
  {
    size_t n = 0;
    while (s.more(n, 8, 30))
    {
      Msg m; m.logger = s.idx(nn); m.level = int(s.range(0, 5)); m.loc = s.flip(); m.via = s.flip(); m.us = gen_time(s);
      size_t k = size_t(s.range(1, 4)); multi = multi || k > 1;
      for (size_t i = 0; i < k; ++i) m.body.push_back("T" + std::to_string(t) + "M" + std::to_string(todo[t].size()) + "L" + std::to_string(i) + std::string(size_t(s.range(0, 20)), 'x'));
      todo[t].push_back(m);
    }
  }
  if (nt > 2 && multi && nn < 10) s.nontrivial();
  s.note() << nt << " threads, " << nn << " loggers\n";
  std::vector<std::vector<logger_handle_t>> got(nt, std::vector<logger_handle_t>(nn));
  std::vector<unsigned> order(nt); for (auto& o : order) o = unsigned(s.range(0, 3));
  std::vector<kwiver_logger_manager*> mgr(nt);
  c->take();
  std::atomic<size_t> ready(0);
  auto body = [&](size_t t)
  {
    ++ready; while (ready < nt) sched_yield();
    mgr[t] = kwiver_logger_manager::instance();
    // every thread asks for all loggers, in one of four orders
    for (size_t j = 0; j < nn; ++j) { size_t i = order[t] & 1 ? nn - 1 - j : j; std::string nm = "l" + std::to_string(i * 7919 % 1009); got[t][i] = order[t] & 2 ? get_logger(nm) : get_logger(nm.c_str()); }
    for (Msg const& m : todo[t])
    {
      std::string text; for (size_t i = 0; i < m.body.size(); ++i) text += (i ? "\n" : "") + m.body[i];
      fake.us = m.us; fake.step = 0; fake.on = true;
      if (!got[t][m.logger]) { fake.on = false; continue; }
      KL& k = *got[t][m.logger]; logger_ns::location_info w("/x/f.cxx", "void f()", 12);
      if (m.via) { if (m.loc) k.log_message(lev(m.level), text, w); else k.log_message(lev(m.level), text); }
      else if (m.loc) log_at(k, m.level, text, w); else log_at(k, m.level, text);
      fake.on = false;
    }
  };
  std::vector<std::thread> th; for (size_t t = 0; t < nt; ++t) th.emplace_back(body, t);
  for (auto& t : th) t.join();
  for (size_t t = 1; t < nt; ++t) REQUIRE(mgr[t] == mgr[0], "one manager");
  for (size_t t = 1; t < nt; ++t) for (size_t i = 0; i < nn; ++i) REQUIRE(got[t][i] && got[t][i] == got[0][i], "threads 0 and " << t << " got different loggers of the same name l" << i * 7919 % 1009);
  std::string const out = c->take();
  std::vector<std::string> ls = lines(out);
  size_t start = 0; while (start < ls.size() && ls[start].find(" T") == std::string::npos && !isdigit((unsigned char)ls[start][0])) ++start; // what the manager says when it is made
  std::vector<size_t> at(nt, 0);
  for (size_t p = start; p < ls.size(); )
  {
    int64_t us; std::string lv, rest; size_t t, m, l;
    REQUIRE(split(ls[p], us, lv, rest), "line " << p << " is not one whole line of a message: " << pbt::show(ls[p]));
    size_t T = rest.find('T'); REQUIRE(T != std::string::npos, "line " << pbt::show(ls[p]));
    REQUIRE(sscanf(rest.c_str() + T, "T%zuM%zuL%zu", &t, &m, &l) == 3 && t < nt && m < todo[t].size(), "line " << pbt::show(ls[p]));
    REQUIRE_EQ(m, at[t], "order of the messages of thread " << t); REQUIRE_EQ(l, size_t(0), "a message is written in one piece: " << pbt::show(ls[p]));
    Msg const& e = todo[t][m]; ++at[t];
    for (size_t i = 0; i < e.body.size(); ++i, ++p)
    {
      REQUIRE(p < ls.size() && split(ls[p], us, lv, rest), "line " << i << " of message " << m << " of thread " << t << ": " << pbt::show(p < ls.size() ? ls[p] : "missing"));
      REQUIRE_EQ(lv, LV[e.level], "level"); REQUIRE_EQ(rest, (e.loc ? "f.cxx(12): " : "") + e.body[i], "a message is written in one piece");
      REQUIRE_EQ(us / 1000, e.us / 1000, "time of the message in " << pbt::show(ls[p]));
    }
  }
  for (size_t t = 0; t < nt; ++t) REQUIRE_EQ(at[t], todo[t].size(), "messages of thread " << t << " written");
}

namespace {
struct Rec : KL {
  std::vector<std::string>& log; bool off = false;
  Rec(logger_ns::kwiver_logger_factory* f, std::string const& n, std::vector<std::string>& l) : KL(f, n), log(l) {}
  bool is_fatal_enabled() const { return true; } bool is_error_enabled() const { return true; } bool is_warn_enabled() const { return !off; }
  bool is_info_enabled() const { return !off; } bool is_debug_enabled() const { return !off; } bool is_trace_enabled() const { return !off; }
  void set_level(log_level_t l) { off = l > LEVEL_WARN; } log_level_t get_level() const { return off ? LEVEL_ERROR : LEVEL_TRACE; }
  typedef logger_ns::location_info W;
  void put(char const* l, std::string const& m) { log.push_back(l + m); }
  void log_fatal(std::string const& m) { put("F", m); } void log_fatal(std::string const& m, W const&) { put("F@", m); }
  void log_error(std::string const& m) { put("E", m); } void log_error(std::string const& m, W const& w) { put("E@", m + "|" + w.get_file_name()); }
  void log_warn(std::string const& m) { put("W", m); } void log_warn(std::string const& m, W const& w) { put("W@", m + "|" + w.get_file_name()); }
  void log_info(std::string const& m) { put("I", m); } void log_info(std::string const& m, W const& w) { put("I@", m + "|" + w.get_file_name()); }
  void log_debug(std::string const& m) { put("D", m); } void log_debug(std::string const& m, W const& w) { put("D@", m + "|" + w.get_file_name()); }
  void log_trace(std::string const& m) { put("T", m); } void log_trace(std::string const& m, W const& w) { put("T@", m + "|" + w.get_file_name()); }
  void log_message(log_level_t, std::string const& m) { put("M", m); } void log_message(log_level_t, std::string const& m, W const&) { put("M@", m); }
};
struct RecFactory : logger_ns::kwiver_logger_factory {
  std::vector<std::string> log, asked; bool* dead;
  RecFactory(std::string const& n, bool* d) : kwiver_logger_factory(n), dead(d) {}
  ~RecFactory() { *dead = true; }
  logger_handle_t get_logger(std::string const& n) { asked.push_back(n); return std::make_shared<Rec>(this, n, log); }
};
}
PBT_PROP_ISOLATED(factories, 1500, 20000, "a factory named in the environment, or several factories set one after the other")
{
  Cap* c = cap();
  std::string const dir = pbt::scratch(), h = getenv("VERIF_HDIR");
  std::string want = "default_logger factory";
  bool dead[16] = {}; int made = 0;
  size_t k = s.weighted({2, 2, 2, 2, 3});
  bool complain = true;
  unsetenv("VITAL_LOGGER_FACTORY");
  if (k == 0) complain = false;
  else if (k == 1) setenv("VITAL_LOGGER_FACTORY", (dir + "/missing.so").c_str(), 1);
  else if (k == 2) { std::ofstream(dir + "/text.so") << "not a library"; setenv("VITAL_LOGGER_FACTORY", (dir + "/text.so").c_str(), 1); }
  else if (k == 3) setenv("VITAL_LOGGER_FACTORY", (h + "/logplug_nofunc.so").c_str(), 1);
  else { setenv("VITAL_LOGGER_FACTORY", (h + "/logplug.so").c_str(), 1); want = "factory of a plugin"; complain = false; s.nontrivial(); }
  s.note() << "environment " << k << "\n";
  c->take();
  logger_handle_t first = get_logger("first");
  std::string said = c->take();
  if (complain) REQUIRE(said.find("VITAL_LOGGER_FACTORY") != std::string::npos && said.find("ERROR") != std::string::npos, "a factory that cannot be loaded is reported, not: " << pbt::show(said));
  else REQUIRE(said.find("ERROR") == std::string::npos, "reported " << pbt::show(said));
  auto mgr = kwiver_logger_manager::instance();
  REQUIRE_EQ(mgr->get_factory_name(), want, "factory in use"); REQUIRE_EQ(first->get_factory_name(), want, "factory of a logger"); REQUIRE_EQ(first->get_name(), "first", "name");
  if (k == 4) { c->take(); LOG_INFO(first, "hello"); REQUIRE_EQ(c->take(), "PLUGIN first hello\n", "what a logger of the plugin writes"); }
  else { LOG_ERROR(first, "hello"); REQUIRE(c->take().find("hello") != std::string::npos, "the default logger writes"); }
  RecFactory* cur = nullptr; int curid = -1;
  size_t n = 0;
  std::unique_ptr<logger_ns::kwiver_logger_factory> orig;
  std::vector<std::pair<logger_handle_t, std::unique_ptr<logger_ns::kwiver_logger_factory>>> keep;
  while (s.more(n, 2, 8) && made < 12)
  {
    std::string nm = "fac" + std::to_string(made);
    std::unique_ptr<logger_ns::kwiver_logger_factory> f(new RecFactory(nm, &dead[made]));
    RecFactory* raw = static_cast<RecFactory*>(f.get());
    mgr->set_logger_factory(std::move(f));
    REQUIRE(f && f->get_factory_name() == want, "the factory in use so far is given back");
    if (cur) { REQUIRE(f.get() == cur && !dead[curid], "the factory set before is given back alive"); }
    keep.emplace_back(logger_handle_t(), std::move(f));
    want = nm; cur = raw; curid = made++;
    REQUIRE_EQ(mgr->get_factory_name(), want, "factory in use");
    if (made > 1) s.nontrivial();
    size_t q = 0;
    while (s.more(q, 2, 6))
    {
      std::string ln = gen_name(s), m = gen_line(s); while (ln.empty()) ln = "x";
      size_t before = cur->asked.size(), lb = cur->log.size();
      logger_handle_t l = get_logger(ln);
      REQUIRE(cur->asked.size() == before + 1 && cur->asked.back() == ln, "the factory in use makes the logger");
      REQUIRE_EQ(l->get_factory_name(), want, "factory of the logger"); REQUIRE_EQ(l->get_name(), ln, "name");
      bool off = s.flip(); l->set_level(off ? KL::LEVEL_ERROR : KL::LEVEL_TRACE);
      char const* tag = "E@";
      switch (s.range(0, 4)) { case 0: LOG_ERROR(l, m); break; case 1: LOG_WARN(l, m); tag = off ? "" : "W@"; break; case 2: LOG_INFO(l, m); tag = off ? "" : "I@"; break;
      case 3: LOG_DEBUG(l, m); tag = off ? "" : "D@"; break; default: LOG_TRACE(l, m); tag = off ? "" : "T@"; }
      if (*tag) { REQUIRE(cur->log.size() == lb + 1, "message reached the logger"); REQUIRE_EQ(pbt::show(cur->log.back()), pbt::show(tag + m + "|logger.cpp"), "message as received"); }
      else REQUIRE_EQ(cur->log.size(), lb, "nothing is logged");
    }
  }
}

PBT_PROP(levels_and_lines, 60000, 3000000, "a message was withheld and another of several lines written, with at least two loggers")
{
  Cap* c = cap(); c->yield = false; Off off; set_zone(s);
  static unsigned serial = 0;
  std::string const pre = "case" + std::to_string(serial++) + "."; // a process keeps its loggers: every case has names of its own
  struct L { logger_handle_t h; int level; };
  std::map<std::string, L> model;
  std::vector<std::string> names;
  bool withheld = false, multi = false; size_t n = 0;
  while (s.more(n, 12, 60) || n == 0)
  {
    size_t op = names.empty() ? 0 : s.weighted({3, 4, 6, 4, 4});
    if (op == 0)
    {
      std::string name = pre + gen_name(s);
      logger_handle_t h = s.flip() ? get_logger(name) : get_logger(name.c_str());
      s.note() << "get " << name << "\n";
      REQUIRE(h, "a logger for " << name);
      auto it = model.find(name);
      if (it != model.end()) REQUIRE(it->second.h == h, "the same logger for the same name " << name);
      else { names.push_back(name); L l = { h, int(h->get_level()) - int(KL::LEVEL_TRACE) }; for (auto const& o : model) if (o.second.h == h) l.level = o.second.level; model[name] = l; }
      REQUIRE_EQ(h->get_name(), name, "name of the logger");
      REQUIRE_EQ(h->get_factory_name(), kwiver_logger_manager::instance()->get_factory_name(), "factory of the logger");
      continue;
    }
    L& l = model[s.pick(names)];
    KL& k = *l.h;
    int level = int(s.range(0, 5));
    bool on = level >= l.level;
    if (op == 1) { l.level = level; s.note() << k.get_name() << " set " << LV[level] << "\n"; k.set_level(lev(level)); }
    else
    {
      std::string msg = gen_msg(s);
      bool loc = s.flip();
      static char file[64]; snprintf(file, sizeof file, "/src/d%d/f%d.cxx", int(s.range(0, 2)), int(s.range(0, 9)));
      int ln = int(s.integer(0, 100000));
      logger_ns::location_info where(file, "void f()", ln);
      std::string wh = loc ? std::string(strrchr(file, '/') + 1) + "(" + std::to_string(ln) + "): " : "";
      std::string what = k.get_name() + " at " + LV[l.level < 0 ? 0 : l.level] + " " + (op == 2 ? "log_" : op == 3 ? "log_message " : "macro ") + LV[level] + " " + pbt::show(msg);
      s.note() << what << "\n";
      c->take();
      fake_on(s);
      if (op == 2) { if (loc) log_at(k, level, msg, where); else log_at(k, level, msg); }
      else if (op == 3) { if (loc) k.log_message(lev(level), msg, where); else k.log_message(lev(level), msg); }
      else
      {
        if (level == 5) { --level; on = level >= l.level; } // there is no macro for fatal messages
        int evaluated = 0; logger_handle_t const& h = l.h; int at = 0;
        auto text = [&]() -> std::string const& { ++evaluated; return msg; };
        switch (level)
        {
        case 0: at = __LINE__; LOG_TRACE(h, text() << ""); break;
        case 1: at = __LINE__; LOG_DEBUG(h, text() << ""); break;
        case 2: at = __LINE__; LOG_INFO(h, text() << ""); break;
        case 3: at = __LINE__; LOG_WARN(h, text() << ""); break;
        default: at = __LINE__; LOG_ERROR(h, text() << ""); break;
        }
        wh = "logger.cpp(" + std::to_string(at) + "): ";
        REQUIRE_EQ(evaluated, on ? 1 : 0, "the text of a message is built exactly when it is written: " << what);
      }
      fake.on = false;
      expect(c->take(), on, msg, level, wh, what);
      if (!on) withheld = true; else if (lines(msg).size() > 1) multi = true;
    }
    for (auto const& m : model)
    {
      REQUIRE_EQ(int(m.second.h->get_level()), int(KL::LEVEL_TRACE) + m.second.level, "level of " << m.first);
      for (int i = 0; i < 6; ++i) REQUIRE_EQ(enabled(*m.second.h, i), i >= m.second.level, LV[i] << " enabled in " << m.first << " at " << m.second.level);
    }
    for (int i = 0; i < 6; ++i)
    {
      bool b = i == 0 ? IS_TRACE_ENABLED(l.h) : i == 1 ? IS_DEBUG_ENABLED(l.h) : i == 2 ? IS_INFO_ENABLED(l.h) : i == 3 ? IS_WARN_ENABLED(l.h) : i == 4 ? IS_ERROR_ENABLED(l.h) : IS_FATAL_ENABLED(l.h);
      REQUIRE_EQ(b, i >= l.level, "macro for " << LV[i]);
    }
  }
  if (withheld && multi && names.size() > 1) s.nontrivial();
}

PBT_PROP(location, 60000, 2000000, "a method of a class in a directory")
{
  auto id = [&]() { static std::vector<std::string> const v = { "a", "foo", "ns1", "My_class", "x9", "_y", "kwiver", "vital" }; return s.pick(v); };
  std::string dir, file = id() + (s.flip() ? ".cxx" : s.flip() ? "" : ".tar.h"); size_t n = 0;
  bool abs = s.flip();
  while (s.more(n, 1, 4)) dir += (dir.empty() && !abs ? "" : "/") + (s.chance(1, 8) ? std::string("..") : id() + (s.chance(1, 4) ? " 1" : ""));
  std::string path = dir.empty() ? (abs ? "/" + file : file) : dir + "/" + file;
  std::string wantdir = dir.empty() ? (abs ? "/" : "") : dir;
  auto type = [&]() { std::string t = id(); size_t k = 0; while (s.more(k, 1, 3)) t += "::" + id(); if (s.chance(1, 4)) t += "<" + id() + "::" + id() + ">"; if (s.chance(1, 4)) t += "&"; else if (s.chance(1, 4)) t += "*"; return t; };
  std::string cls; n = 0; while (s.more(n, 1, 4)) cls += (cls.empty() ? "" : "::") + id();
  std::string m = id(), sig;
  if (s.chance(1, 5)) sig += s.flip() ? "virtual " : "static ";
  if (s.chance(1, 5)) sig += "const ";
  if (s.chance(4, 5)) sig += type() + " ";
  sig += cls.empty() ? m : cls + "::" + m;
  sig += "(";
  n = 0; while (s.more(n, 1, 4)) { if (sig.back() != '(') sig += ", "; if (s.flip()) sig += "const "; sig += type(); if (s.chance(1, 8)) sig += " (*)(" + type() + ")"; }
  sig += ")"; if (s.flip()) sig += " const";
  int line = int(s.integer(-1, INT32_MAX));
  if (!cls.empty() && !dir.empty()) s.nontrivial();
  s.note() << path << " " << sig << "\n";
  logger_ns::location_info w(path.c_str(), sig.c_str(), line);
  REQUIRE_EQ(w.get_file_name(), file, "file name of " << path); REQUIRE_EQ(w.get_file_path(), wantdir, "directory of " << path);
  REQUIRE_EQ(w.get_signature(), sig, "signature"); REQUIRE_EQ(w.get_method_name(), m, "method of " << sig); REQUIRE_EQ(w.get_class_name(), cls, "class of " << sig);
  REQUIRE_EQ(w.get_line_number(), line, "line"); REQUIRE_EQ(std::string(w.get_file_name_ptr()), path, "path as given"); REQUIRE_EQ(std::string(w.get_method_name_ptr()), sig, "signature as given");
  logger_ns::location_info u;
  REQUIRE(u.get_file_name() == "?" && u.get_method_name() == "?" && u.get_class_name() == "?" && u.get_line_number() == -1, "an unknown location");
}
