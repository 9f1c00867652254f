#include "pbt.hpp"

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <fcntl.h>
#include <ftw.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" void __sanitizer_set_death_callback(void (*callback)(void));

namespace pbt {

std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Init g_init = nullptr;

namespace {

const size_t MAX_TAPE = 1 << 20;
const int CASE_CPU_S = 20;
double g_wall = 120; // seconds after which a case that only waits is given up

struct Shared {
  volatile int stop;
  struct W { volatile int prop; volatile uint64_t idx; } w[64];
};
struct TapeShared { volatile size_t n; uint64_t v[MAX_TAPE]; };

Shared* g_shared = nullptr;
TapeShared* g_tape = nullptr;
Src* g_record_shared = nullptr; // the case whose draws are kept, not others made within it
int g_worker_no = -1;

std::string g_tmp = "/tmp";
std::string g_property = "X";
uint64_t g_seed = 1;
bool g_thorough = false;
std::set<int> g_skip; // sub-properties with a failure that can not be reproduced

std::string g_scratch;
pid_t g_scratch_owner = 0;
std::string scratch_if_made() { return g_scratch_owner == getpid() ? g_scratch : std::string(); }
int remove_entry(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
void remove_tree(std::string const& d) { nftw(d.c_str(), remove_entry, 16, FTW_DEPTH | FTW_PHYS); }

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
uint64_t hash_str(std::string const& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ULL; } return h; }
uint64_t hash_tape(std::vector<uint64_t> const& t) { uint64_t h = 88172645463325252ULL; for (uint64_t x : t) h = mix(h ^ mix(x)); return h; }

void seed_src(Src& s, int prop, uint64_t idx)
{
  uint64_t k = mix(g_seed * 0x2545F4914F6CDD1DULL ^ hash_str(g_property + "/" + props()[prop].name));
  s.st_[0] = mix(k ^ mix(idx));
  s.st_[1] = mix(s.st_[0] ^ 0x1234567);
  s.index_ = idx;
  s.thorough_ = g_thorough;
}

void arm_cpu(int secs)
{
  itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

struct Outcome {
  enum Kind { PASS, DISCARD, FAIL, CRASH, HANG } kind = PASS;
  std::string msg;
  std::vector<uint64_t> tape;
  std::string notes;
  std::string key() const
  {
    if (kind == CRASH) return "crash";
    if (kind == HANG) return "hang";
    size_t p = msg.rfind('(');
    return p == std::string::npos ? msg.substr(0, 40) : msg.substr(p);
  }
  bool bad() const { return kind >= FAIL; }
};

// run the body here
Outcome run_here(Src& s, Prop const& p)
{
  Outcome o;
  try { p.body(s); }
  catch (Discard const&) { o.kind = Outcome::DISCARD; }
  catch (Fail const& e) { o.kind = Outcome::FAIL; o.msg = e.what(); }
  catch (std::exception const& e) { o.kind = Outcome::FAIL; o.msg = std::string("unexpected exception escaped: ") + e.what() + " (exception)"; }
  catch (...) { o.kind = Outcome::FAIL; o.msg = "unexpected non-standard exception escaped (exception)"; }
  return o;
}

std::string slurp(std::string const& f, size_t lim = 1 << 22)
{
  std::ifstream i(f.c_str(), std::ios::binary); std::string r; r.resize(lim); i.read(&r[0], lim); r.resize(i.gcount()); return r;
}

void child_setup(std::string const& errfile)
{
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 1); close(fd); }
  std::cerr.rdbuf(nullptr);
  std::clog.rdbuf(nullptr);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (g_init) g_init();
}

std::string crash_summary(std::string const& err)
{
  // keep the informative lines of a sanitizer report
  std::istringstream i(err); std::string l, r; int frames = 0;
  while (std::getline(i, l))
  {
    bool head = l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("what():") != std::string::npos;
    bool frame = l.find("    #") == 0 && frames < 8;
    if (frame) ++frames;
    if (head || frame) r += l + "\n";
    if (r.size() > 3000) break;
  }
  return r;
}

// run one case of the search in a child of the worker (properties about process-wide state)
Outcome run_isolated(Src& s, Prop const& p)
{
  Outcome o;
  std::string base = g_tmp + "/iso" + std::to_string(g_worker_no), errf = base + ".err", outf = base + ".out";
  unlink(outf.c_str());
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    arm_cpu(CASE_CPU_S);
    Outcome c = run_here(s, p);
    arm_cpu(0);
    std::ofstream f(outf.c_str(), std::ios::binary);
    f << int(c.kind) << " " << c.msg.size() << " " << s.nontrivial_ << " " << hash_tape(s.tape_) << " " << s.labels_.size() << "\n" << c.msg << "\n";
    for (auto const& l : s.labels_) f << l << "\n";
    f.close();
    std::string sc = scratch_if_made();
    if (!sc.empty()) remove_tree(sc);
    _exit(0);
  }
  int st = 0; double t0 = now();
  for (;;)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > g_wall) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(now() - t0 < 0.05 ? 200 : 2000);
  }
  kill(-pid, SIGKILL);
  std::ifstream f(outf.c_str(), std::ios::binary);
  int k = 0; size_t n = 0, nl = 0; bool nt = false; uint64_t h = 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && f >> k >> n >> nt >> h >> nl)
  {
    f.get(); o.kind = Outcome::Kind(k); o.msg.resize(n); if (n) f.read(&o.msg[0], n); f.get();
    s.nontrivial_ = nt; s.tape_.assign(1, h);
    for (size_t i = 0; i < nl; ++i) { std::string l; std::getline(f, l); s.labels_.insert(l); }
  }
  else
  {
    o.kind = Outcome::FAIL;
    std::ostringstream m;
    if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "process exited with status " << WEXITSTATUS(st);
    m << "\n" << crash_summary(slurp(errf));
    o.msg = m.str();
  }
  return o;
}

// notes of a case that dies are written by the sanitizer's death callback
Src* g_dying_src = nullptr;
std::string g_dying_file;
void on_death()
{
  if (!g_dying_src) return;
  std::string n = g_dying_src->notes_.str(); g_dying_src = nullptr;
  int fd = open(g_dying_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { ssize_t r = write(fd, n.data(), n.size()); (void)r; close(fd); }
}

// run a tape (or a generated case) in a forked child
Outcome run_forked(int prop, std::vector<uint64_t> const* tape, uint64_t idx, bool verbose)
{
  Outcome o;
  std::string base = g_tmp + "/fork";
  std::string errf = base + ".err", outf = base + ".out";
  unlink(outf.c_str()); unlink((base + ".notes").c_str());
  g_tape->n = 0;
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    child_setup(errf);
    Src s;
    g_record_shared = &s;
    seed_src(s, prop, idx);
    if (tape) { s.replay_ = true; s.tape_ = *tape; }
    s.verbose_ = verbose;
    if (verbose) { g_dying_src = &s; g_dying_file = base + ".notes"; __sanitizer_set_death_callback(on_death); }
    arm_cpu(CASE_CPU_S);
    Outcome c = run_here(s, props()[prop]);
    arm_cpu(0);
    std::ofstream f(outf.c_str(), std::ios::binary);
    f << int(c.kind) << "\n" << c.msg.size() << "\n" << c.msg << "\n" << s.notes_.str();
    f.close();
    _exit(0);
  }
  int st = 0;
  double t0 = now();
  bool wall = false;
  for (;;)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > g_wall) { wall = true; kill(-pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(now() - t0 < 0.05 ? 200 : 2000);
  }
  kill(-pid, SIGKILL);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
  {
    std::ifstream f(outf.c_str(), std::ios::binary);
    int k = 0; size_t n = 0; f >> k >> n; f.get(); o.kind = Outcome::Kind(k); o.msg.resize(n); if (n) f.read(&o.msg[0], n); f.get();
    std::ostringstream rest; rest << f.rdbuf(); o.notes = rest.str();
  }
  else
  {
    bool hang = wall || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU));
    o.kind = hang ? Outcome::HANG : Outcome::CRASH;
    std::ostringstream m;
    if (hang) m << "did not end" << (wall ? "" : ": more than 20 s of CPU time");
    else if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st);
    else m << "process exited with status " << WEXITSTATUS(st);
    m << "\n" << crash_summary(slurp(errf));
    o.msg = m.str();
    if (verbose) o.notes = slurp(base + ".notes");
  }
  size_t n = g_tape->n;
  o.tape.assign(g_tape->v, g_tape->v + std::min(n, MAX_TAPE));
  return o;
}

std::vector<uint64_t> trim(std::vector<uint64_t> t) { while (!t.empty() && t.back() == 0) t.pop_back(); return t; }

bool smaller(std::vector<uint64_t> const& a, std::vector<uint64_t> const& b)
{
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

// greedy tape shrinking
Outcome shrink(int prop, Outcome best, double budget, size_t& tried)
{
  double t0 = now();
  std::string key = best.key();
  best.tape = trim(best.tape);
  std::set<std::vector<uint64_t>> seen;
  auto attempt = [&](std::vector<uint64_t> c) -> bool {
    c = trim(c);
    if (!smaller(c, best.tape) || !seen.insert(c).second) return false;
    if (now() - t0 > budget) return false;
    ++tried;
    Outcome o = run_forked(prop, &c, 0, false);
    if (o.bad() && o.key() == key)
    {
      std::vector<uint64_t> used = trim(o.tape);
      o.tape = smaller(used, c) ? used : c;
      best = o;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && now() - t0 < budget)
  {
    improved = false;
    // truncation
    for (size_t k = best.tape.size() / 2; k > 0 && now() - t0 < budget; k /= 2)
    {
      if (k < best.tape.size()) { std::vector<uint64_t> c(best.tape.begin(), best.tape.end() - k); if (attempt(c)) improved = true; }
    }
    // deletion of blocks
    static const size_t blocks[] = {64, 32, 16, 12, 8, 7, 6, 5, 4, 3, 2, 1};
    for (size_t b : blocks)
    {
      size_t i = best.tape.size() > b ? best.tape.size() - b : 0;
      for (;; --i)
      {
        if (now() - t0 > budget) break;
        if (i + b <= best.tape.size())
        {
          std::vector<uint64_t> c = best.tape; c.erase(c.begin() + i, c.begin() + i + b);
          if (attempt(c)) { improved = true; }
          else if (i > 0 && i - 1 < best.tape.size() && best.tape[i - 1] > 0 && b <= 8)
          { // lower a preceding count as well
            c = best.tape; c[i - 1] -= 1; c.erase(c.begin() + i, c.begin() + i + b);
            if (b <= 3 && attempt(c)) improved = true;
          }
        }
        if (i == 0) break;
      }
    }
    // zero blocks, then lower single values
    static const size_t zb[] = {8, 4, 2, 1};
    for (size_t b : zb)
      for (size_t i = 0; i + b <= best.tape.size() && now() - t0 < budget; ++i)
      {
        bool any = false; for (size_t k = 0; k < b; ++k) any |= best.tape[i + k] != 0;
        if (!any) continue;
        std::vector<uint64_t> c = best.tape; for (size_t k = 0; k < b; ++k) c[i + k] = 0;
        if (attempt(c)) improved = true;
      }
    for (size_t i = 0; i < best.tape.size() && now() - t0 < budget; ++i)
    {
      uint64_t lo = 0;
      while (i < best.tape.size() && best.tape[i] > lo && now() - t0 < budget)
      {
        uint64_t mid = lo + (best.tape[i] - lo) / 2;
        std::vector<uint64_t> c = best.tape; c[i] = mid;
        if (attempt(c)) improved = true; else lo = mid + 1;
      }
    }
  }
  return best;
}

struct Stat {
  uint64_t evals = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<uint64_t> sample_idx;
};

std::string jesc(std::string const& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

int worker(int w, int nw, double deadline, double scale, std::string const& only)
{
  std::string base = g_tmp + "/w" + std::to_string(w);
  child_setup(base + ".err");
  g_worker_no = w;
  std::vector<Stat> stats(props().size());
  for (size_t p = 0; p < props().size(); ++p)
  {
    Prop const& pr = props()[p];
    if (!only.empty() && pr.name != only) continue;
    if (g_skip.count(static_cast<int>(p))) continue;
    if (pr.per_worker == 1 && static_cast<int>(p) % nw != w) continue;
    uint64_t n = static_cast<uint64_t>((g_thorough ? pr.thorough : pr.quick) * scale);
    if (n == 0) n = 1;
    uint64_t i0 = pr.per_worker == 1 ? 0 : w, step = pr.per_worker == 1 ? 1 : nw;
    for (uint64_t i = i0; i < n; i += step)
    {
      if (g_shared->stop || now() > deadline) break;
      g_shared->w[w].prop = p; g_shared->w[w].idx = i;
      Src s; seed_src(s, p, i);
      arm_cpu(CASE_CPU_S);
      if (pr.per_worker == 2) arm_cpu(0);
      Outcome o = pr.per_worker == 2 ? run_isolated(s, pr) : run_here(s, pr);
      arm_cpu(0);
      Stat& st = stats[p];
      ++st.evals;
      if (o.kind == Outcome::DISCARD) { ++st.discards; continue; }
      if (o.kind == Outcome::FAIL)
      {
        g_shared->stop = 1;
        std::ofstream f((base + ".fail").c_str());
        f << p << " " << i << "\n" << o.msg << "\n";
        f.close();
        _exit(3);
      }
      if (s.nontrivial_) { ++st.nontrivial; st.distinct.insert(hash_tape(s.tape_)); if (st.sample_idx.size() < 1) st.sample_idx.push_back(i); }
      for (auto const& l : s.labels_) ++st.labels[l];
    }
  }
  std::ofstream f((base + ".stat").c_str());
  for (size_t p = 0; p < props().size(); ++p)
  {
    Stat& st = stats[p];
    f << p << " " << st.evals << " " << st.discards << " " << st.nontrivial << " " << st.labels.size() << " " << st.distinct.size() << " " << st.sample_idx.size() << "\n";
    for (auto const& l : st.labels) f << l.second << " " << l.first << "\n";
    for (uint64_t h : st.distinct) f << h << " ";
    f << "\n";
    for (uint64_t i : st.sample_idx) f << i << " ";
    f << "\n";
  }
  f.close();
  _exit(f.good() || true ? 0 : 1);
}

int do_replay(std::string const& file)
{
  std::ifstream f(file.c_str());
  std::string line, sub; std::vector<uint64_t> tape; uint64_t idx = 0; bool have = false;
  while (std::getline(f, line))
  {
    if (line.compare(0, 5, "sub: ") == 0) sub = line.substr(5);
    if (line.compare(0, 6, "seed: ") == 0) g_seed = strtoull(line.c_str() + 6, nullptr, 10);
    if (line.compare(0, 6, "case: ") == 0) idx = strtoull(line.c_str() + 6, nullptr, 10);
    if (line.compare(0, 6, "tape: ") == 0 || line == "tape:") { have = true; std::istringstream i(line.substr(5)); uint64_t v; while (i >> v) tape.push_back(v); }
  }
  for (size_t p = 0; p < props().size(); ++p)
    if (props()[p].name == sub)
    {
      Outcome o = run_forked(p, have ? &tape : nullptr, idx, true);
      std::cout << "sub-property: " << sub << "\n" << o.notes << "\n" << (o.bad() ? "FAILS: " : "passes") << o.msg << std::endl;
      return o.bad() ? 1 : 0;
    }
  std::cout << "no such sub-property: " << sub << std::endl;
  return 2;
}

} // anonymous

uint64_t Src::next()
{ // xorshift128+
  uint64_t a = st_[0], const_b = st_[1]; st_[0] = const_b; a ^= a << 23; st_[1] = a ^ const_b ^ (a >> 18) ^ (const_b >> 5); return st_[1] + const_b;
}

uint64_t Src::raw(uint64_t n)
{
  if (n == 0) n = 1;
  uint64_t v;
  if (replay_)
  {
    v = pos_ < tape_.size() ? tape_[pos_] : 0;
    if (v >= n) v = n - 1;
    if (pos_ < tape_.size()) tape_[pos_] = v; else tape_.push_back(v);
  }
  else
  {
    v = n == 1 ? 0 : static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64);
    tape_.push_back(v);
  }
  ++pos_;
  if (g_record_shared == this && pos_ <= MAX_TAPE) { g_tape->v[pos_ - 1] = v; g_tape->n = pos_; }
  return v;
}

bool Src::more(size_t& count, unsigned avg, size_t max)
{
  if (count >= max) return false;
  if (raw(avg + 1) == 0) return false;
  ++count;
  return true;
}

size_t Src::weighted(std::vector<unsigned> const& w)
{
  unsigned t = 0; for (unsigned x : w) t += x;
  uint64_t v = raw(t);
  for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return i; v -= w[i]; }
  return w.size() - 1;
}

int64_t Src::integer(int64_t lo, int64_t hi)
{
  uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
  switch (raw(8))
  {
  case 6: { // edges
    uint64_t d = raw(std::min<uint64_t>(span, 4) + 1); return flip() ? static_cast<int64_t>(static_cast<uint64_t>(hi) - d) : static_cast<int64_t>(static_cast<uint64_t>(lo) + d); }
  case 7: { if (span == ~0ULL) return static_cast<int64_t>(raw(~0ULL)); return static_cast<int64_t>(static_cast<uint64_t>(lo) + raw(span + 1)); }
  case 5: { // any bit width
    unsigned bits = raw(63); int64_t v = static_cast<int64_t>(raw(1ULL << bits)); if (flip()) v = -v; return std::min(hi, std::max(lo, v)); }
  default: { // small around zero (clamped into range)
    int64_t v = static_cast<int64_t>(raw(33)); v = (v & 1) ? -((v + 1) / 2) : v / 2; return std::min(hi, std::max(lo, v)); }
  }
}

double Src::unit() { return raw(1ULL << 53) * (1.0 / 9007199254740992.0); }

double Src::nice(double mag)
{
  double v;
  switch (raw(6))
  {
  case 0: { int64_t k = range(0, 20); v = (k & 1) ? -double((k + 1) / 2) : double(k / 2); if (std::fabs(v) > mag) v = 0; return v; }
  case 1: v = range(-1000, 1000) / 8.0; break;
  case 2: v = range(-100000, 100000) / 1000.0; break;
  case 3: { double e = real(-6, 0); v = std::pow(10.0, e); if (flip()) v = -v; return v * mag; }
  default: return real(-mag, mag);
  }
  while (std::fabs(v) > mag) v /= 10;
  return v;
}

double Src::finite()
{
  switch (raw(6))
  {
  case 0: return static_cast<double>(range(0, 10));
  case 1: return nice(100);
  case 2: return nice(1e9);
  case 3: { double m = real(1, 2); int e = static_cast<int>(range(-300, 300)); return std::ldexp(flip() ? -m : m, e); }
  case 4: { static const double sp[] = {0.0, -0.0, 1e-310, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 1e15, 123456789012345678.0, 0.1, 1.0 / 3, 1e22, 1e23}; return sp[raw(sizeof sp / sizeof *sp)]; }
  default: { uint64_t b = raw(~0ULL); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
  }
}

std::string show(std::string const& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

std::string scratch()
{
  if (g_scratch_owner != getpid()) { g_scratch_owner = getpid(); g_scratch = g_tmp + "/s" + std::to_string(g_scratch_owner); mkdir(g_scratch.c_str(), 0700); }
  return g_scratch;
}

} // namespace pbt

using namespace pbt;

int main(int argc, char** argv)
{
  std::string out = "result.json", replay_out = "replay.txt", only, replay;
  int nw = 8; double scale = 1, budget = 500, shrink_s = -1; bool show_case = false; uint64_t case_no = 0;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") g_property = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--workers") nw = atoi(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--shrink") shrink_s = atof(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--tmp") g_tmp = val();
    else if (a == "--out") out = val();
    else if (a == "--replay-out") replay_out = val();
    else if (a == "--replay") replay = val();
    else if (a == "--show") { show_case = true; case_no = strtoull(val().c_str(), nullptr, 10); }
    else if (a == "--list") { for (auto const& p : props()) std::cout << p.name << " " << p.quick << "\n"; return 0; }
  }
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_tape = static_cast<TapeShared*>(mmap(nullptr, sizeof(TapeShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  mkdir(g_tmp.c_str(), 0700);
  if (!replay.empty()) return do_replay(replay);
  if (show_case)
  {
    for (size_t p = 0; p < props().size(); ++p)
      if (only.empty() || props()[p].name == only)
      { Outcome o = run_forked(p, nullptr, case_no, true); std::cout << props()[p].name << "#" << case_no << "\n" << o.notes << "\n" << (o.bad() ? "FAILS: " : "passes ") << o.msg << "\n"; }
    return 0;
  }
  double t0 = now();
  int verdict = 0;
  size_t tried = 0;
  bool worker_lost = false;
  for (int round = 0; round < 3; ++round)
  {
  bool retry = false;
  g_shared->stop = 0;
  std::vector<pid_t> pids(nw);
  for (int w = 0; w < nw; ++w)
  {
    g_shared->w[w].prop = -1;
    unlink((g_tmp + "/w" + std::to_string(w) + ".stat").c_str());
    pids[w] = fork();
    if (pids[w] == 0) { worker(w, nw, t0 + budget, scale, only); }
  }
  int fp = -1; uint64_t fi = 0; std::string fmsg;
  for (int k = 0; k < nw; ++k)
  {
    int st = 0; pid_t r = wait(&st); int w = -1;
    for (int j = 0; j < nw; ++j) if (pids[j] == r) w = j;
    if (w < 0) { --k; continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    g_shared->stop = 1;
    std::string base = g_tmp + "/w" + std::to_string(w);
    int p; uint64_t i; std::string m;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
    {
      std::ifstream f((base + ".fail").c_str()); f >> p >> i; f.get(); std::ostringstream ss; ss << f.rdbuf(); m = ss.str();
    }
    else
    {
      p = g_shared->w[w].prop; i = g_shared->w[w].idx;
      std::ostringstream ss;
      if (WIFSIGNALED(st)) ss << "worker killed by signal " << WTERMSIG(st); else ss << "worker exited with status " << WEXITSTATUS(st);
      ss << "\n" << crash_summary(slurp(base + ".err"));
      m = ss.str();
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { worker_lost = true; std::cout << "NOTE worker " << w << " was killed from outside (memory?)\n"; continue; }
    }
    if (p >= 0 && (fp < 0 || p < fp || (p == fp && i < fi))) { fp = p; fi = i; fmsg = m; }
  }
  if (fp >= 0)
  {
    std::cout << "FAILURE in " << props()[fp].name << " case " << fi << ": " << fmsg << std::endl;
    g_wall = 60; // nothing else is running any more
    Outcome first = run_forked(fp, nullptr, fi, false);
    int again = first.bad();
    for (int k = 0; k < 4 && !first.bad(); ++k) { first = run_forked(fp, nullptr, fi, false); again += first.bad(); }
    if (first.bad())
    {
      Outcome best = first;
      if (!first.tape.empty()) best = shrink(fp, first, shrink_s >= 0 ? shrink_s : g_thorough ? 120 : 45, tried);
      // a case that hangs costs a minute each time
      bool slow = first.kind == Outcome::HANG; const int times = slow ? 1 : 3;
      int bad = 0; for (int k = 0; k < times; ++k) bad += run_forked(fp, &best.tape, fi, false).bad();
      if (bad < times)
      { // the shrunk case is not stable: fall back to the original one
        best = first; bad = 0;
        for (int k = 0; k < 3 && !(slow && bad); ++k) bad += run_forked(fp, &best.tape, fi, false).bad();
      }
      if (bad > 0)
      {
        Outcome v = run_forked(fp, &best.tape, fi, true);
        if (!v.bad()) v = best;
        std::ofstream f(replay_out.c_str());
        f << "property: " << g_property << "\nsub: " << props()[fp].name << "\nseed: " << g_seed << "\ncase: " << fi << "\nreproduced: " << bad << "/" << times << "\nshrink-attempts: " << tried << "\ntape:";
        for (uint64_t x : best.tape) f << " " << x;
        f << "\n\n--- minimal failing case ---\n" << v.notes << "\n--- observed ---\n" << v.msg << "\n";
        f.close();
        std::cout << "minimal case of " << props()[fp].name << ":\n" << v.notes << "\n=> " << v.msg << std::endl;
        verdict = 1;
      }
      else { retry = true; g_wall = 120; std::cout << "NOTE failure did not reproduce on replay; treated as inconclusive\n"; }
    }
    else
    { // depends on earlier cases of the same process: repeat the worker's share up to that case
      g_wall = 120;
      std::cout << "NOTE failure does not reproduce in isolation; repeating the worker's history\n";
      int bad = 0;
      for (int k = 0; k < 3; ++k)
      {
        g_shared->stop = 0;
        int w = props()[fp].per_worker == 1 ? fp % nw : static_cast<int>(fi % nw);
        pid_t pid = fork();
        if (pid == 0) worker(w, nw, now() + budget, scale, only);
        int st; waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++bad;
      }
      if (bad == 3)
      {
        std::ofstream f(replay_out.c_str());
        f << "property: " << g_property << "\nsub: " << props()[fp].name << "\nseed: " << g_seed << "\ncase: " << fi << "\nNOTE: fails only after the preceding cases of its worker (stride " << nw << "); replay by re-running the check with this seed\n\n--- observed ---\n" << fmsg << "\n";
        verdict = 1;
      }
      else { retry = true; g_wall = 120; std::cout << "NOTE failure did not reproduce (" << bad << "/3); treated as inconclusive\n"; }
    }
  }
  if (!retry) break;
  // what can not be decided there is left to the other sub-properties
  g_skip.insert(fp);
  }
  // merge statistics
  std::vector<Stat> tot(props().size());
  for (int w = 0; w < nw; ++w)
  {
    std::ifstream f((g_tmp + "/w" + std::to_string(w) + ".stat").c_str());
    size_t p; uint64_t e, d, n; size_t nl, nd, ns;
    while (f >> p >> e >> d >> n >> nl >> nd >> ns)
    {
      Stat& t = tot[p]; t.evals += e; t.discards += d; t.nontrivial += n;
      for (size_t k = 0; k < nl; ++k) { uint64_t c; std::string l; f >> c; f.get(); std::getline(f, l); t.labels[l] += c; }
      for (size_t k = 0; k < nd; ++k) { uint64_t h; f >> h; t.distinct.insert(h); }
      for (size_t k = 0; k < ns; ++k) { uint64_t h; f >> h; t.sample_idx.push_back(h); }
    }
  }
  std::ofstream j(out.c_str());
  uint64_t te = 0, tn = 0, tdisc = 0;
  for (auto const& t : tot) { te += t.evals; tn += t.distinct.size(); tdisc += t.discards; }
  j << "{\"verdict\":" << verdict << ",\"worker_lost\":" << (worker_lost ? "true" : "false") << ",\"evaluations\":" << te << ",\"discarded\":" << tdisc << ",\"distinct_nontrivial\":" << tn << ",\"wall_s\":" << now() - t0 << ",\"shrink_attempts\":" << tried << ",\n\"subs\":[";
  bool first = true;
  for (size_t p = 0; p < props().size(); ++p)
  {
    if (!only.empty() && props()[p].name != only) continue;
    Stat& t = tot[p];
    j << (first ? "" : ",") << "\n {\"name\":\"" << jesc(props()[p].name) << "\",\"rule\":\"" << jesc(props()[p].rule) << "\",\"evaluations\":" << t.evals << ",\"discarded\":" << t.discards << ",\"nontrivial\":" << t.nontrivial << ",\"distinct_nontrivial\":" << t.distinct.size() << ",\"classes\":{";
    first = false;
    bool fl = true; for (auto const& l : t.labels) { j << (fl ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; fl = false; }
    j << "},\"samples\":[";
    std::sort(t.sample_idx.begin(), t.sample_idx.end());
    size_t shown = 0;
    if (verdict == 0)
      for (uint64_t i : t.sample_idx)
      {
        if (shown >= 2) break;
        Outcome o = run_forked(p, nullptr, i, true);
        std::string n = o.notes.substr(0, 600);
        j << (shown ? "," : "") << "\"" << jesc("case " + std::to_string(i) + ": " + n) << "\"";
        ++shown;
      }
    j << "]}";
  }
  j << "\n]}\n";
  j.close();
  return verdict;
}
