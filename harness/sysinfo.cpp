// C32: what SystemInformation and $SYSENV{...} report is what the kernel and the C library say.
// The kernel's answers (/proc files, uname, limits, host and interface names, load) are replaced
// by generated ones, by defining the library calls here, in the executable.
#include "vital_common.hpp"
#include <kwiversys/SystemInformation.hxx>
#include <vital/config/config_block_io.h>
#include <arpa/inet.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <ifaddrs.h>
#include <iostream>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <ext/stdio_filebuf.h>
#include <sanitizer/allocator_interface.h>
using namespace pbt;
typedef kwiversys::SystemInformation SI;
typedef long long LL;

// ---- the generated world
namespace {
struct Iface { int family; bool has_name; std::string name; };
struct World {
  std::map<std::string, std::string> files;   // path -> stand-in file; empty: does not exist
  std::string sysname, nodename, release, version, machine;
  std::string host; bool host_fails = false; bool ifs_fail = false;
  std::vector<Iface> ifs;
  double load = 0; bool load_fails = false;
  rlim_t data = RLIM_INFINITY, as = RLIM_INFINITY;
};
World* g_world = nullptr;
template <typename F> F next(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
// what to open instead: null = leave alone, "" = not there
std::string const* stand_in(char const* p)
{
  if (!g_world || !p) return nullptr;
  auto it = g_world->files.find(p);
  return it == g_world->files.end() ? nullptr : &it->second;
}
std::vector<std::pair<struct ifaddrs, sockaddr_storage>> g_ifs;
}
#define OPENER(NAME) \
  extern "C" FILE* NAME(char const* p, char const* m) \
  { static auto real = next<FILE* (*)(char const*, char const*)>(#NAME); std::string const* f = stand_in(p); \
    if (!f) return real(p, m); \
    if (f->empty()) { errno = ENOENT; return nullptr; } \
    return real(f->c_str(), m); }
OPENER(fopen)
OPENER(fopen64)
#define OPENFD(NAME) \
  extern "C" int NAME(char const* p, int flags, ...) \
  { static auto real = next<int (*)(char const*, int, ...)>(#NAME); va_list a; va_start(a, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    std::string const* f = stand_in(p); \
    if (!f) return real(p, flags, mode); \
    if (f->empty()) { errno = ENOENT; return -1; } \
    return real(f->c_str(), flags, mode); }
OPENFD(open)
OPENFD(open64)
extern "C" int uname(struct utsname* u) noexcept
{
  static auto real = next<int (*)(struct utsname*)>("uname");
  if (!g_world) return real(u);
  memset(u, 0, sizeof *u);
  snprintf(u->sysname, sizeof u->sysname, "%s", g_world->sysname.c_str()); snprintf(u->nodename, sizeof u->nodename, "%s", g_world->nodename.c_str());
  snprintf(u->release, sizeof u->release, "%s", g_world->release.c_str()); snprintf(u->version, sizeof u->version, "%s", g_world->version.c_str());
  snprintf(u->machine, sizeof u->machine, "%s", g_world->machine.c_str());
  return 0;
}
template <typename R> static int limits(char const* fn, int what, R* r)
{
  static auto real = next<int (*)(int, R*)>(fn);
  if (!g_world || (what != RLIMIT_DATA && what != RLIMIT_AS)) return real(what, r);
  r->rlim_cur = what == RLIMIT_DATA ? g_world->data : g_world->as; r->rlim_max = RLIM_INFINITY;
  return 0;
}
extern "C" int getrlimit(__rlimit_resource_t what, struct rlimit* r) noexcept { return limits("getrlimit", static_cast<int>(what), r); }
extern "C" int getrlimit64(__rlimit_resource_t what, struct rlimit64* r) noexcept { return limits("getrlimit64", static_cast<int>(what), r); }
extern "C" int gethostname(char* b, size_t n) noexcept
{
  static auto real = next<int (*)(char*, size_t)>("gethostname");
  if (!g_world) return real(b, n);
  if (g_world->host_fails) { errno = EINVAL; return -1; }
  snprintf(b, n, "%s", g_world->host.c_str()); return 0;
}
extern "C" int getifaddrs(struct ifaddrs** out) noexcept
{
  static auto real = next<int (*)(struct ifaddrs**)>("getifaddrs");
  if (!g_world) return real(out);
  if (g_world->ifs_fail) { errno = ENOMEM; return -1; }
  g_ifs.assign(g_world->ifs.size(), {});
  for (size_t i = 0; i < g_ifs.size(); ++i) {
    Iface const& f = g_world->ifs[i]; struct ifaddrs& a = g_ifs[i].first; sockaddr_storage& ss = g_ifs[i].second;
    ss.ss_family = static_cast<sa_family_t>(f.family);
    uint32_t n = htonl(static_cast<uint32_t>(i));
    if (f.family == AF_INET) memcpy(&reinterpret_cast<sockaddr_in*>(&ss)->sin_addr, &n, 4);
    else if (f.family == AF_INET6) memcpy(&reinterpret_cast<sockaddr_in6*>(&ss)->sin6_addr, &n, 4);
    a.ifa_name = const_cast<char*>("if"); a.ifa_addr = f.family < 0 ? nullptr : reinterpret_cast<sockaddr*>(&ss);
    a.ifa_next = i + 1 < g_ifs.size() ? &g_ifs[i + 1].first : nullptr;
  }
  *out = g_ifs.empty() ? nullptr : &g_ifs[0].first;
  return 0;
}
extern "C" void freeifaddrs(struct ifaddrs* p) noexcept
{
  static auto real = next<void (*)(struct ifaddrs*)>("freeifaddrs");
  if (!g_world) real(p);
  else g_ifs.clear();
}
extern "C" int getnameinfo(struct sockaddr const* sa, socklen_t len, char* host, socklen_t hn, char* serv, socklen_t sn, int flags)
{
  static auto real = next<int (*)(struct sockaddr const*, socklen_t, char*, socklen_t, char*, socklen_t, int)>("getnameinfo");
  if (!g_world) return real(sa, len, host, hn, serv, sn, flags);
  size_t need = sa->sa_family == AF_INET ? sizeof(sockaddr_in) : sa->sa_family == AF_INET6 ? sizeof(sockaddr_in6) : 0;
  if (!need || len < need) return EAI_FAMILY;
  uint32_t n; memcpy(&n, sa->sa_family == AF_INET ? static_cast<void const*>(&reinterpret_cast<sockaddr_in const*>(sa)->sin_addr) : &reinterpret_cast<sockaddr_in6 const*>(sa)->sin6_addr, 4);
  Iface const& f = g_world->ifs.at(ntohl(n));
  if (!f.has_name) { if (flags & NI_NAMEREQD) return EAI_NONAME; snprintf(host, hn, "10.0.0.%u", ntohl(n)); return 0; }
  if (f.name.size() + 1 > hn) return EAI_OVERFLOW;
  strcpy(host, f.name.c_str()); return 0;
}
extern "C" int getloadavg(double* l, int n) noexcept
{
  static auto real = next<int (*)(double*, int)>("getloadavg");
  if (!g_world) return real(l, n);
  if (g_world->load_fails) return -1;
  for (int i = 0; i < n && i < 3; ++i) l[i] = g_world->load + i;
  return n < 3 ? n : 3;
}

// ---- peak of memory in use
static size_t g_live, g_peak; static bool g_counting;
static void on_malloc(void const volatile*, size_t n) { if (g_counting) { g_live += n; if (g_live > g_peak) g_peak = g_live; } }
static void on_free(void const volatile* p) { if (g_counting && p) { size_t n = __sanitizer_get_allocated_size(const_cast<void const*>(p)); g_live -= n < g_live ? n : g_live; } }
PBT_INIT() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }

namespace {
struct Enter { Enter(World& w) { g_world = &w; } ~Enter() { g_world = nullptr; } };
struct Mute { std::streambuf* b; std::ostringstream o; Mute() { b = std::cout.rdbuf(o.rdbuf()); } ~Mute() { std::cout.rdbuf(b); } };

std::string word(Src& s, char const* extra = "")
{
  std::string set = std::string("abcdefghijklmnopqrstuvwxyz0123456789") + extra, r(1, static_cast<char>('a' + s.range(0, 25)));
  size_t n = 0; while (s.more(n, 5, 30)) r += set[s.idx(set.size())];
  return r;
}
std::string name_word(Src& s) { std::string r = word(s, "-_."); while (!isalnum(r.back())) r.pop_back(); return r; }
void put(World& w, char const* path, std::string const& text)
{
  std::string f = scratch() + "/proc"; mkdir(f.c_str(), 0700);
  for (char const* c = path; *c; ++c) f += *c == '/' ? '_' : *c;
  std::ofstream o(f); o << text; o.close();
  w.files[path] = f;
}
void os(Src& s, World& w)
{
  w.sysname = s.flip() ? name_word(s) : "Linux"; w.nodename = name_word(s); w.machine = s.flip() ? name_word(s) : "x86_64";
  int64_t major = s.pick(std::vector<int64_t>{5, 6, 3, 4, 10, 11, 12, 20, 2}), minor = major == 2 ? s.pick(std::vector<int64_t>{6, 4, 2, 0}) : s.integer(0, 130);
  w.release = str(major) + "." + str(minor);
  if (s.flip()) w.release += "." + str(s.range(0, 300));
  if (s.flip()) w.release += "-" + name_word(s);
  w.version = "#" + str(s.range(1, 200)); if (s.flip()) w.version += " SMP Fri Nov 20 03:22:11 UTC 2026";
  w.host = s.flip() ? w.nodename : name_word(s);
}
bool old_kernel(World const& w) { return w.release.compare(0, 2, "2.") == 0 && atoi(w.release.c_str() + 2) < 6; }

// ---- processors
struct Cpu {
  std::string text;
  unsigned logical = 0, physical = 0; bool logical_known = true, physical_known = true;
  std::string vendor, vendor_id = "Unknown Manufacturer", model_name, name; bool name_known = false;
  LL family = 0, model = 0, stepping = 0, cache = 0;
  double mhz = 0;
  std::map<long, bool> features;
};
const std::vector<std::pair<char const*, char const*>> VENDORS = {
  {"GenuineIntel", "Intel Corporation"}, {"AuthenticAMD", "Advanced Micro Devices"}, {"CentaurHauls", "IDT\\Centaur, Via Inc."}, {"CyrixInstead", "Cyrix Corp., VIA Inc."},
  {"GenuineTMx86", "Transmeta"}, {"TransmetaCPU", "Transmeta"}, {"UMC UMC UMC", nullptr}, {"NexGenDriven", "NexGen Inc., Advanced Micro Devices"}, {"RiseRiseRise", "Rise"},
  {"Geode By NSC", "National Semiconductor"}, {"HygonGenuine", "Unknown Manufacturer"}, {"  Shanghai  ", "Unknown Manufacturer"}, {"Genuineintel", "Unknown Manufacturer"}, {"UMC UMC UMC ", "United Microelectronics Corp."}};

void x86(Src& s, Cpu& c)
{
  size_t sockets = 1 + s.weighted({6, 3, 1, 1}), cores = 1 + static_cast<size_t>(s.range(0, 7)), threads = 1 + s.weighted({3, 3});
  if (s.chance(1, 40)) { sockets = 2; cores = static_cast<size_t>(s.range(8, 64)); threads = 2; s.label("many processors"); }
  bool topology = !s.chance(1, 10);
  std::vector<LL> ids; LL id = 0;
  for (size_t i = 0; i < sockets; ++i) { if (s.chance(1, 6)) id += s.range(1, 3); ids.push_back(id++); }
  if (s.chance(1, 8)) std::reverse(ids.begin(), ids.end());
  auto const& v = s.pick(VENDORS); c.vendor = v.first; c.vendor_id = v.second ? v.second : "Unknown Manufacturer";
  c.family = s.pick(std::vector<LL>{6, 15, 23, 25, 5, 4}); c.model = s.range(0, 160); c.stepping = s.range(0, 12);
  c.model_name = s.pick(std::vector<std::string>{"Intel(R) Xeon(R) CPU E5-2680 v4 @ 2.40GHz", "AMD EPYC 7B12", "Intel(R) Core(TM)2 Duo CPU     T9500  @ 2.60GHz", "unknown", "cpu", "flags : none"});
  if (s.chance(1, 8)) c.model_name = name_word(s);
  c.cache = s.pick(std::vector<LL>{512, 35840, 4096, 0, 128, 1048576});
  static const std::vector<std::pair<char const*, long>> FL = {{"mmx", 0x1}, {"sse", 0x4}, {"sse2", 0x8}, {"3dnow", 0x10}, {"apic", 0x400}, {"cmov", 0x2000}, {"mtrr", 0x4000}, {"acpi", 0x40000}};
  static const std::vector<char const*> OTHER = {"fpu", "vme", "tsc", "x2apic", "mmxext", "sse4_1", "ssse3", "3dnowext", "3dnowprefetch", "misalignsse", "cmovx", "mtrr2", "syscall", "cpuid", "cpuid_fault"};
  std::vector<std::string> words;
  for (auto const& f : FL) { bool on = s.flip(); c.features[f.second] = on; if (on) words.push_back(f.first); }
  for (auto const& o : OTHER) if (s.flip()) words.push_back(o);
  for (size_t i = words.size(); i > 1; --i) std::swap(words[i - 1], words[s.idx(i)]);
  std::string flags; for (auto const& w : words) { if (!flags.empty()) flags += ' '; flags += w; }
  bool new_kernel = s.flip(), socket_major = s.flip();
  c.logical = static_cast<unsigned>(sockets * cores * threads); c.physical = static_cast<unsigned>(sockets * cores); c.physical_known = topology;
  unsigned n = 0;
  double first = 0;
  std::ostringstream o;
  for (size_t a = 0; a < (socket_major ? sockets : threads); ++a) for (size_t b = 0; b < (socket_major ? threads : sockets); ++b) for (size_t k = 0; k < cores; ++k) {
    size_t sock = socket_major ? a : b, th = socket_major ? b : a;
    double mhz = 800 + static_cast<double>(s.range(0, 4000000)) / 1000; if (!n) first = mhz;
    char m[40]; snprintf(m, sizeof m, "%.3f", mhz);
    o << "processor\t: " << n++ << "\nvendor_id\t: " << c.vendor << "\ncpu family\t: " << c.family << "\nmodel\t\t: " << c.model << "\nmodel name\t: " << c.model_name << "\nstepping\t: " << c.stepping
      << "\nmicrocode\t: 0x5003006\ncpu MHz\t\t: " << m << "\ncache size\t: " << c.cache << " KB\n";
    if (topology) o << "physical id\t: " << ids[sock] << "\nsiblings\t: " << cores * threads << "\ncore id\t\t: " << k << "\ncpu cores\t: " << cores << "\n";
    if (topology) o << "apicid\t\t: " << n * 2 + th << "\ninitial apicid\t: " << n * 2 + th << "\n";
    o << "fpu\t\t: yes\nfpu_exception\t: yes\ncpuid level\t: 22\nwp\t\t: yes\nflags\t\t: " << flags << (s.raw(2) ? " " : "") << "\n";
    if (new_kernel) o << "vmx flags\t: vnmi 3dnow sse2 mtrr\nbugs\t\t: spectre_v1 mmx\n";
    o << "bogomips\t: " << 2 * mhz << "\nclflush size\t: 64\ncache_alignment\t: 64\naddress sizes\t: 46 bits physical, 48 bits virtual\npower management:\n\n";
  }
  c.mhz = first; c.text = o.str();
  s.label("x86, " + str(sockets) + " sockets" + (topology ? "" : ", no topology"));
}
void arm(Src& s, Cpu& c)
{
  unsigned n = static_cast<unsigned>(s.range(1, 16)); c.logical = n; c.physical_known = false; c.family = s.range(5, 9); c.stepping = s.range(0, 15);
  std::ostringstream o; bool named = s.flip();
  if (named) c.model_name = "ARMv7 Processor rev " + str(c.stepping) + " (v7l)";
  for (unsigned i = 0; i < n; ++i) {
    o << "processor\t: " << i << "\n";
    if (named) o << "model name\t: " << c.model_name << "\n";
    o << "BogoMIPS\t: 50.00\nFeatures\t: fp asimd evtstrm crc32\nCPU implementer\t: 0x41\nCPU architecture: " << c.family << "\nCPU variant\t: 0x3\nCPU part\t: 0xd0c\nCPU revision\t: " << c.stepping << "\n\n";
  }
  if (s.flip()) o << "Hardware\t: BCM2835\nRevision\t: a02082\nSerial\t\t: 00000000f00dbabe\n";
  c.text = o.str(); s.label("ARM");
}
void hppa(Src& s, Cpu& c)
{
  unsigned n = static_cast<unsigned>(s.range(1, 4)); c.logical = n; c.physical_known = false;
  bool two = s.flip(); c.family = two ? 0x200 : 0x11a; c.vendor_id = "Hewlett-Packard"; c.name = "PA8700 (PCX-W2)"; c.name_known = true; c.model = 9000;
  LL ic = s.range(1, 2000), dc = s.range(1, 2000); c.cache = ic + dc; c.mhz = 650;
  std::ostringstream o;
  for (unsigned i = 0; i < n; ++i)
    o << "processor\t: " << i << "\ncpu family\t: PA-RISC " << (two ? "2.0" : "1.1a") << "\ncpu\t\t: " << c.name << "\ncpu MHz\t\t: 650.000000\nmodel\t\t: 9000/800/rp2470\nmodel name\t: Marcato\nhversion\t: 0x00005e90\nI-cache\t\t: " << ic << " KB\nD-cache\t\t: " << dc << " KB (WB, direct mapped)\nITLB entries\t: 240\n\n";
  c.model_name = "Marcato"; c.text = o.str(); s.label("PA-RISC");
}
void sparc(Src& s, Cpu& c)
{
  c.physical = static_cast<unsigned>(s.range(1, 64)); c.logical_known = false; uint64_t hz = static_cast<uint64_t>(s.range(400000000, 5000000000LL)); c.mhz = static_cast<double>(hz) / 1e6; c.name = "TI UltraSparc IIIi (Jalapeno)"; c.name_known = true;
  char t[40]; snprintf(t, sizeof t, "%016llx", static_cast<unsigned long long>(hz));
  c.text = "cpu\t\t: " + c.name + "\nfpu\t\t: UltraSparc IIIi integrated FPU\nprom\t\t: OBP 4.16.2\ntype\t\t: sun4u\nncpus probed\t: 64\nncpus active\t: " + str(c.physical) + "\nD$ parity tl1\t: 0\nCpu0ClkTck\t: " + t + "\nMMU Type\t: Cheetah+\n";
  s.label("SPARC");
}
Cpu processors(Src& s) { Cpu c; switch (s.weighted({12, 2, 1, 1})) { case 0: x86(s, c); break; case 1: arm(s, c); break; case 2: hppa(s, c); break; default: sparc(s, c); } return c; }

// ---- memory
struct Mem { LL v[6]; bool have[6]; std::string text; bool complete() const { for (bool h : have) if (!h) return false; return true; } };
enum { TOTAL, FREE, BUFFERS, CACHED, SWAPT, SWAPF };
Mem memory(Src& s, bool old, bool may_miss)
{
  Mem m;
  LL total = s.chance(1, 6) ? s.range(0, LL(1) << 42) : s.range(1024, LL(1) << 28);
  m.v[TOTAL] = total; m.v[FREE] = s.range(0, total); m.v[BUFFERS] = s.range(0, total); m.v[CACHED] = s.range(0, total); m.v[SWAPT] = s.flip() ? s.range(0, total) : 0; m.v[SWAPF] = m.v[SWAPT] ? s.range(0, m.v[SWAPT]) : 0;
  for (bool& h : m.have) h = !(may_miss && s.chance(1, 30));
  std::ostringstream o;
  if (old) { // bytes, in one table
    for (bool& h : m.have) h = true;
    LL K = 1024;
    o << "        total:    used:    free:  shared: buffers:  cached:\nMem:  " << total * K << " " << (total - m.v[FREE]) * K << " " << m.v[FREE] * K << " 0 " << m.v[BUFFERS] * K << " " << m.v[CACHED] * K
      << "\nSwap: " << m.v[SWAPT] * K << " " << (m.v[SWAPT] - m.v[SWAPF]) * K << " " << m.v[SWAPF] * K << "\n";
  }
  struct L { char const* n; int i; };
  static const L LINES[] = {{"MemTotal", TOTAL}, {"MemFree", FREE}, {"MemAvailable", -1}, {"Buffers", BUFFERS}, {"Cached", CACHED}, {"SwapCached", -1}, {"Active", -1}, {"Inactive", -1}, {"Active(anon)", -1}, {"HighTotal", -1}, {"LowFree", -1}, {"SwapTotal", SWAPT}, {"SwapFree", SWAPF}, {"Dirty", -1}, {"CommitLimit", -1}, {"VmallocTotal", -1}, {"HugePages_Total", -2}, {"HugePages_Free", -2}, {"Hugepagesize", -1}};
  bool pad = !s.chance(1, 5);
  for (auto const& l : LINES) {
    if (l.i >= 0 && !m.have[l.i]) continue;
    if (l.i < 0 && s.chance(1, 4)) continue;
    char b[120]; snprintf(b, sizeof b, pad ? "%-15s %8lld%s\n" : "%s %lld%s\n", (std::string(l.n) + ":").c_str(), l.i >= 0 ? m.v[l.i] : static_cast<LL>(s.range(0, 1 << 20)), l.i == -2 ? "" : " kB");
    o << b;
  }
  m.text = o.str();
  return m;
}
// a limit in an environment variable: its text, and the number it stands for (0: no limit)
LL env_limit(Src& s, char const* var)
{
  unsetenv(var);
  switch (s.weighted({3, 4, 1, 1})) {
  case 0: return 0;
  case 1: { LL v = s.range(1, LL(1) << 29); setenv(var, str(v).c_str(), 1); return v; }
  case 2: setenv(var, s.flip() ? "0" : "-5000", 1); return 0;
  default: setenv(var, s.flip() ? "" : "unlimited", 1); return 0;
  }
}
rlim_t limit(Src& s) { switch (s.weighted({4, 4, 1, 1})) { case 0: return RLIM_INFINITY; case 1: return static_cast<rlim_t>(s.range(1, LL(1) << 39)); case 2: return static_cast<rlim_t>(s.range(0, 4096)); default: return RLIM_INFINITY - 1 - static_cast<rlim_t>(s.range(0, LL(1) << 33)); } }
}

PBT_PROP(processors, 9000, 150000, "more than one processor")
{
  Cpu c = processors(s); World w; os(s, w); put(w, "/proc/cpuinfo", c.text);
  if (c.logical > 1) s.nontrivial();
  if (s.verbose()) s.note() << "cpuinfo:\n" << c.text;
  Enter e(w);
  SI si; si.RunOSCheck();
  g_live = g_peak = 0; g_counting = true; si.RunCPUCheck(); g_counting = false;
  if (s.flip()) si.RunCPUCheck();
  if (c.logical_known) { REQUIRE_EQ(si.GetNumberOfLogicalCPU(), c.logical, "processors listed"); }
  if (c.physical_known) { REQUIRE_EQ(si.GetNumberOfPhysicalCPU(), c.physical, "cores of all sockets"); }
  else REQUIRE(si.GetNumberOfPhysicalCPU() >= 1 && (!c.logical_known || si.GetNumberOfPhysicalCPU() <= c.logical), "physical processors: " << si.GetNumberOfPhysicalCPU());
  if (c.logical_known) REQUIRE_EQ(si.GetLogicalProcessorsPerPhysical(), c.logical / si.GetNumberOfPhysicalCPU(), "threads of a core");
  REQUIRE_EQ(std::string(si.GetVendorID()), c.vendor_id, "vendor " << c.vendor);
  REQUIRE_EQ(std::string(si.GetVendorString()), c.vendor, "vendor string");
  REQUIRE_EQ(si.GetFamilyID(), str(c.family), "family"); REQUIRE_EQ(si.GetModelID(), str(c.model), "model"); REQUIRE_EQ(si.GetSteppingCode(), str(c.stepping), "stepping");
  REQUIRE_EQ(si.GetModelName(), c.model_name, "model name");
  REQUIRE_EQ(LL(si.GetProcessorCacheSize()), c.cache, "cache size"); REQUIRE_EQ(LL(si.GetProcessorCacheXSize(0x8000)), c.cache, "cache size");
  REQUIRE(std::fabs(si.GetProcessorClockFrequency() - c.mhz) <= 1e-6 * c.mhz, "clock " << si.GetProcessorClockFrequency() << ", expected " << c.mhz);
  for (auto const& f : c.features) REQUIRE_EQ(si.DoesCPUSupportFeature(f.first), f.second, "feature " << f.first);
  if (c.name_known) REQUIRE_EQ(std::string(si.GetExtendedProcessorName()), c.name, "processor name");
  if (!c.model_name.empty()) {
    std::string d = str(si.GetNumberOfPhysicalCPU()) + " core " + c.model_name; size_t p;
    while ((p = d.find("  ")) != std::string::npos) d.erase(p, 1);
    REQUIRE_EQ(si.GetCPUDescription(), d, "description");
  }
  REQUIRE(g_peak <= 16 * c.text.size() + (1 << 20), "looking at " << c.text.size() << " bytes of processor description took " << g_peak << " bytes of memory");
}

PBT_PROP(memory_and_limits, 30000, 600000, "a limit below the memory of the host is in force")
{
  World w; os(s, w); bool old = old_kernel(w); Mem m = memory(s, old, true); put(w, "/proc/meminfo", m.text);
  LL rss = s.range(1, 1 << 26); put(w, "/proc/self/status", "Name:\t" + name_word(s) + "\nState:\tR (running)\nVmPeak:\t  " + str(rss * 3) + " kB\nVmHWM:\t  " + str(rss + 7) + " kB\nVmRSS:\t  " + str(rss) + " kB\nRssAnon:\t   100 kB\nVmData:\t  9 kB\n");
  LL host = env_limit(s, "VERIF_HOST_LIMIT"), proc = env_limit(s, "VERIF_PROC_LIMIT"); w.data = limit(s); w.as = limit(s);
  bool use_host = s.chance(3, 4), use_proc = s.chance(3, 4);
  if (s.verbose()) s.note() << "kernel " << w.release << " host limit " << host << (use_host ? "" : " (not asked for)") << " process limit " << proc << (use_proc ? "" : " (not asked for)") << " RLIMIT_DATA " << w.data << " RLIMIT_AS " << w.as << "\nmeminfo:\n" << m.text;
  if (!m.have[TOTAL]) s.label("no MemTotal");
  if (old) s.label("kernel before 2.6");
  Enter e(w); Mute mute;
  SI si; si.RunMemoryCheck();
  bool ok = m.complete();
  REQUIRE_EQ(LL(si.GetTotalPhysicalMemory()), ok ? m.v[TOTAL] / 1024 : 0, "total physical memory, MiB"); REQUIRE_EQ(LL(si.GetAvailablePhysicalMemory()), ok ? (m.v[FREE] + m.v[BUFFERS] + m.v[CACHED]) / 1024 : 0, "available physical memory, MiB");
  REQUIRE_EQ(LL(si.GetTotalVirtualMemory()), ok ? m.v[SWAPT] / 1024 : 0, "total swap, MiB"); REQUIRE_EQ(LL(si.GetAvailableVirtualMemory()), ok ? m.v[SWAPF] / 1024 : 0, "available swap, MiB");
  REQUIRE_EQ(LL(si.GetProcMemoryUsed()), rss, "memory of this process");
  char const* hv = use_host ? "VERIF_HOST_LIMIT" : nullptr; char const* pv = use_proc ? "VERIF_PROC_LIMIT" : nullptr;
  LL used = si.GetHostMemoryUsed();
  if (m.have[TOTAL] && m.have[FREE]) REQUIRE_EQ(used, m.v[TOTAL] - m.v[FREE], "memory in use");
  else REQUIRE(used < 0, "memory in use: " << used << " though the kernel does not say");
  if (!m.have[TOTAL]) { REQUIRE(si.GetHostMemoryTotal() < 0, "total: " << si.GetHostMemoryTotal()); return; }
  LL total = m.v[TOTAL], h = total;
  REQUIRE_EQ(LL(si.GetHostMemoryTotal()), total, "host total");
  if (use_host && host > 0) h = std::min(h, host);
  REQUIRE_EQ(LL(si.GetHostMemoryAvailable(hv)), h, "host memory available");
  LL p = h;
  if (use_proc && proc > 0) p = std::min(p, proc);
  if (w.data != RLIM_INFINITY) p = std::min<LL>(p, static_cast<LL>(w.data / 1024));
  if (w.as != RLIM_INFINITY) p = std::min<LL>(p, static_cast<LL>(w.as / 1024));
  if (p < total) s.nontrivial();
  REQUIRE_EQ(LL(si.GetProcMemoryAvailable(hv, pv)), p, "process memory available");
  REQUIRE_EQ(si.GetMemoryDescription(hv, pv), "Host Total: " + str(total) + " KiB, Host Available: " + str(h) + " KiB, Process Available: " + str(p) + " KiB", "description");
}

static std::string expected_domain(World const& w)
{
  if (w.host_fails) return "localhost";
  if (w.ifs_fail) return w.host;
  for (auto const& f : w.ifs)
    if (f.family >= 0 && f.family != AF_PACKET && f.has_name && f.name.size() > w.host.size() && f.name.find(w.host) != std::string::npos) return f.name;
  return w.host;
}
static void names(Src& s, World& w)
{
  w.host_fails = s.chance(1, 15); w.ifs_fail = s.chance(1, 15);
  size_t n = 0;
  while (s.more(n, 3, 8)) {
    Iface f; f.family = s.pick(std::vector<int>{AF_INET, AF_INET6, AF_PACKET, -1}); f.has_name = s.chance(3, 4);
    switch (s.range(0, 4)) { case 0: f.name = w.host + "." + name_word(s); break; case 1: f.name = "localhost"; break; case 2: f.name = w.host; break; case 3: f.name = name_word(s); break; default: f.name = w.host.substr(0, s.idx(w.host.size() + 1)) + "." + name_word(s); }
    w.ifs.push_back(f);
  }
  w.load_fails = s.chance(1, 10); w.load = s.chance(1, 5) ? 0 : static_cast<double>(s.range(0, 10000)) / 100;
}

PBT_PROP(names_and_system, 40000, 800000, "an interface carries a longer name")
{
  World w; os(s, w); names(s, w);
  std::string domain = expected_domain(w);
  if (domain != w.host && !w.host_fails) s.nontrivial();
  if (s.verbose()) { s.note() << "host " << w.host << (w.host_fails ? " (fails)" : "") << (w.ifs_fail ? " no interfaces" : ""); for (auto const& f : w.ifs) s.note() << "\n  family " << f.family << (f.has_name ? " " : " unnamed ") << f.name; }
  Enter e(w);
  SI si; bool ran = s.chance(3, 4); if (ran) si.RunOSCheck();
  if (s.flip()) { SI other; other.RunOSCheck(); REQUIRE_EQ(other.GetFullyQualifiedDomainName(), domain, "domain name"); }
  REQUIRE_EQ(std::string(si.GetHostname()), w.nodename, "host name");
  REQUIRE_EQ(std::string(si.GetOSName()), ran ? w.sysname : "", "system name"); REQUIRE_EQ(std::string(si.GetOSRelease()), ran ? w.release : "", "release");
  REQUIRE_EQ(std::string(si.GetOSVersion()), ran ? w.version : "", "version"); REQUIRE_EQ(std::string(si.GetOSPlatform()), ran ? w.machine : "", "platform");
  if (ran) REQUIRE_EQ(si.GetOSDescription(), w.sysname + " " + w.release + " " + w.version, "description");
  REQUIRE_EQ(si.GetFullyQualifiedDomainName(), domain, "domain name");
  double l = si.GetLoadAverage();
  REQUIRE_EQ(l, w.load_fails ? -0.0 : w.load, "load average");
  REQUIRE_EQ(LL(si.GetProcessId()), LL(getpid()), "process id");
  REQUIRE_EQ(si.GetOSIsLinux(), 1, "Linux"); REQUIRE_EQ(si.GetOSIsWindows(), 0, "Windows"); REQUIRE_EQ(si.GetOSIsApple(), 0, "Apple"); REQUIRE_EQ(si.Is64Bits(), sizeof(void*) == 8, "64 bits");
}

PBT_PROP(config_values, 3000, 60000, "a value with two or more tokens")
{
  World w; os(s, w); names(s, w); Cpu c = processors(s); Mem m = memory(s, old_kernel(w), false);
  put(w, "/proc/cpuinfo", c.text); put(w, "/proc/meminfo", m.text);
  std::string dir = scratch() + "/cwd_" + name_word(s); mkdir(dir.c_str(), 0700);
  std::map<std::string, std::string> t;
  t["hostname"] = w.nodename; t["domainname"] = expected_domain(w); t["osname"] = w.sysname; t["osdescription"] = w.sysname + " " + w.release + " " + w.version; t["osplatform"] = w.machine; t["osversion"] = w.version;
  t["is64bits"] = sizeof(void*) == 8 ? "TRUE" : "FALSE"; t["iswindows"] = "FALSE"; t["islinux"] = "TRUE"; t["isapple"] = "FALSE";
  t["totalvirtualmemory"] = str(m.v[SWAPT] / 1024); t["availablevirtualmemory"] = str(m.v[SWAPF] / 1024); t["totalphysicalmemory"] = str(m.v[TOTAL] / 1024); t["availablephysicalmemory"] = str((m.v[FREE] + m.v[BUFFERS] + m.v[CACHED]) / 1024);
  if (c.logical_known) t["numproc"] = str(c.logical);
  t["cwd"] = dir;
  t["nothing_known"] = "";
  std::vector<std::string> keys; for (auto const& k : t) keys.push_back(k.first);
  std::string file = dir + "/a.conf", text; std::map<std::string, std::string> want;
  size_t n = 0;
  while (s.more(n, 5, 12) || n == 0) {
    std::string k = "key" + str(n), v = "<", x = "<"; size_t parts = 0;
    while (s.more(parts, 2, 4)) { std::string const& key = s.pick(keys); std::string lit = s.flip() ? word(s) : ""; v += "$SYSENV{" + key + "}" + lit; x += t[key] + lit; }
    if (parts > 1) s.nontrivial();
    text += k + " = " + v + ">\n"; want[k] = x + ">";
    if (n == 0) ++n;
  }
  { std::ofstream o(file); o << text; }
  if (s.verbose()) s.note() << text;
  char here[4096]; REQUIRE(getcwd(here, sizeof here), "getcwd");
  kwiver::vital::config_block_sptr b; std::string what;
  REQUIRE(chdir(dir.c_str()) == 0, "chdir");
  { Enter e(w); try { b = kwiver::vital::read_config_file("a.conf"); } catch (std::exception const& ex) { what = ex.what(); } }
  int back = chdir(here); (void)back; unlink(file.c_str()); rmdir(dir.c_str());
  REQUIRE(b, "reading the file failed: " << what);
  for (auto const& k : want) REQUIRE_EQ(b->get_value<std::string>(k.first), k.second, "value of " << k.first);
}

// ---- files that are missing, empty, cut or full of other things
PBT_PROP(odd_files, 9000, 200000, "some text, but not what the kernel writes")
{
  World w; os(s, w);
  static char const* const paths[] = {"/proc/cpuinfo", "/proc/meminfo", "/proc/self/status"};
  for (char const* p : paths) {
    std::string t = p == paths[0] ? processors(s).text : p == paths[1] ? memory(s, s.chance(1, 5), false).text : std::string("Name:\tx\nVmRSS:\t  77 kB\n");
    switch (s.range(0, 6)) {
    case 0: w.files[p] = ""; continue;
    case 1: t = ""; break;
    case 2: t = t.substr(0, s.idx(t.size() + 1)); break;
    case 3: t = t.substr(s.idx(t.size() + 1)); break;
    case 4: { size_t k = 1 + s.idx(6); for (size_t i = 0; i < k && !t.empty(); ++i) t[s.idx(t.size())] = s.pick(std::vector<char>{'\n', ':', '\t', ' ', '\0', 'x', '9', '-'}); break; }
    case 5: t = s.pick(std::vector<std::string>{"\n", ":", "processor\t", "physical id", "model:\n", "flags\t:\n", "cpu", "cpu\t:", "vendor_id\t:\nflags\t\t:\nmodel name\t:\n", "MemTotal:", "MemTotal: \n", std::string("\0\0\n", 3), "physical id\t: -1\n", "cpu cores\t: -4\nphysical id\t: 3\n", "cpu cores\t: 0\nphysical id\t: 1\n\n", "physical id\t: 99999999999\n\n"}); break;
    default: { size_t n = 0; t = ""; while (s.more(n, 30, 4000)) t += static_cast<char>(s.range(0, 255)); }
    }
    if (!t.empty()) s.nontrivial();
    put(w, p, t);
    if (s.verbose()) s.note() << p << ": " << show(t.substr(0, 3000)) << "\n";
  }
  Enter e(w); Mute mute;
  try {
    SI si; si.RunCPUCheck(); si.RunOSCheck(); si.RunMemoryCheck();
    if (w.files["/proc/cpuinfo"].empty()) REQUIRE(si.GetNumberOfLogicalCPU() == 0 && si.GetModelName().empty(), "a processor without /proc/cpuinfo");
    else {
      REQUIRE(si.GetNumberOfPhysicalCPU() >= 1, "no physical processor");
      REQUIRE_EQ(si.GetLogicalProcessorsPerPhysical(), si.GetNumberOfLogicalCPU() / si.GetNumberOfPhysicalCPU(), "threads of a core");
    }
    si.GetCPUDescription(); si.GetMemoryDescription(); si.GetHostMemoryUsed(); si.GetProcMemoryUsed(); si.GetProcMemoryAvailable("VERIF_NONE", "VERIF_NONE");
    if (w.files["/proc/meminfo"].empty()) { REQUIRE(si.GetHostMemoryTotal() < 0, "a total without /proc/meminfo"); REQUIRE(si.GetHostMemoryUsed() < 0, "memory used without /proc/meminfo"); }
    if (w.files["/proc/self/status"].empty()) REQUIRE(si.GetProcMemoryUsed() < 0, "memory of the process without its status");
    // each value is taken from its own line
    REQUIRE(si.GetModelName().find('\n') == std::string::npos, "model name of several lines " << show(si.GetModelName()));
    REQUIRE(std::string(si.GetVendorString()).find('\n') == std::string::npos, "vendor of several lines " << show(si.GetVendorString()));
  } catch (Fail const&) { throw; } catch (std::exception const& ex) { REQUIRE(false, "exception: " << ex.what()); }
}

// ---- signals that print the stack: histories of switching, against a model of the handlers
static volatile sig_atomic_t g_mine;
static void mine1(int) { g_mine = 1; }
static void mine2(int) { g_mine = 2; }
static void mine_exit(int sig) { char c[] = "user handler\n"; ssize_t k = write(2, c, sizeof c - 1); (void)k; _exit(40 + (sig == SIGABRT)); }
static const int SIGS[] = {SIGABRT, SIGSEGV, SIGTERM, SIGINT, SIGILL, SIGBUS, SIGFPE};
static char const* sig_name(int i) { static char const* const n[] = {"SIGABRT", "SIGSEGV", "SIGTERM", "SIGINT", "SIGILL", "SIGBUS", "SIGFPE"}; return n[i]; }
typedef void (*Handler)(int);

PBT_PROP_ISOLATED(stack_on_error, 1500, 20000, "the stack handler is on at the end")
{
  // model: the user's handler for each signal, and those saved by switching on
  Handler now[7], saved[7]; bool on = false, was[7] = {};
  static const Handler choices[] = {SIG_DFL, SIG_IGN, mine1, mine2, mine_exit};
  for (int i = 0; i < 7; ++i) { now[i] = choices[s.idx(5)]; signal(SIGS[i], now[i]); }
  size_t n = 0; std::ostringstream log;
  while (s.more(n, 4, 12)) {
    switch (s.range(0, 3)) {
    case 0: { int v = s.flip() ? 1 : 7; SI::SetStackTraceOnError(v); log << " on(" << v << ")"; if (!on) { for (int i = 0; i < 7; ++i) { saved[i] = now[i]; was[i] = true; } on = true; } break; }
    case 1: SI::SetStackTraceOnError(0); log << " off"; if (on) { for (int i = 0; i < 7; ++i) { now[i] = saved[i]; was[i] = false; } on = false; } break;
    case 2: { int i = static_cast<int>(s.idx(7)); Handler h = choices[s.idx(5)]; signal(SIGS[i], h); now[i] = h; was[i] = false; log << " signal(" << sig_name(i) << ")"; break; }
    default: { SI other; (void)other; log << " object"; }
    }
    for (int i = 0; i < 7; ++i) {
      struct sigaction a; sigaction(SIGS[i], nullptr, &a);
      if (!was[i]) REQUIRE(!(a.sa_flags & SA_SIGINFO) && a.sa_handler == now[i], "after" << log.str() << ": the handler of " << sig_name(i) << " is not the user's");
      else REQUIRE((a.sa_flags & SA_SIGINFO) || (a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN && a.sa_handler != mine1 && a.sa_handler != mine2 && a.sa_handler != mine_exit), "after" << log.str() << ": " << sig_name(i) << " does not print the stack");
    }
  }
  if (s.verbose()) s.note() << log.str() << "\n";
  int which = static_cast<int>(s.idx(7));
  if (!was[which]) return;
  s.nontrivial();
  int p[2]; REQUIRE(pipe(p) == 0, "pipe");
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  pid_t c = fork();
  if (!c) {
    dup2(p[1], 2); close(p[0]); close(p[1]); alarm(60);
    static __gnu_cxx::stdio_filebuf<char> err(2, std::ios::out); std::cerr.rdbuf(&err); std::cerr.clear();
    raise(SIGS[which]); _exit(99);
  }
  close(p[1]); std::string out; char b[4096]; ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k));
  close(p[0]); int st = 0; waitpid(c, &st, 0);
  s.label(std::string("raised ") + sig_name(which));
  REQUIRE(out.find("Caught " + std::string(sig_name(which))) != std::string::npos, "after" << log.str() << ", raising " << sig_name(which) << " printed " << show(out.substr(0, 800)) << ", status " << st);
  for (int i = 0; i < 7; ++i) if (i != which) REQUIRE(out.find(std::string("Caught ") + sig_name(i)) == std::string::npos, "another signal is named: " << show(out.substr(0, 800)));
  REQUIRE(out.find("Process id " + str(c) + " ") != std::string::npos, "the process is not named: " << show(out.substr(0, 800)));
  // the user's handlers are back before the process aborts
  if (saved[0] == mine_exit) { REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 41 && out.find("user handler") != std::string::npos, "the user's SIGABRT handler did not run: status " << st); }
  else REQUIRE(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "the process did not abort: status " << st << " " << show(out.substr(0, 800)));
}

// ---- the program stack
__attribute__((noinline)) static std::string deep(int n, int first, int whole) { if (n <= 0) return SI::GetProgramStack(first, whole); std::string r = deep(n - 1, first, whole); asm volatile("" ::: "memory"); return r; }
PBT_PROP(program_stack, 400, 6000, "frames are left out")
{
  int n = static_cast<int>(s.range(0, 40)), first = static_cast<int>(s.range(0, 60)), whole = s.flip();
  if (first) s.nontrivial();
  auto lines = [](std::string const& t) { std::vector<std::string> r; std::istringstream i(t); std::string l; while (std::getline(i, l)) r.push_back(l); return r; };
  std::vector<std::string> v[2], body[2];
  size_t head = 0;
  for (int k = 0; k < 2; ++k) v[k] = lines(deep(n, k ? first : 0, whole));
  while (head < v[0].size() && v[0][head].compare(0, 8, "WARNING:") == 0) ++head;
  for (int k = 0; k < 2; ++k) { REQUIRE(v[k].size() >= head, "the notes are missing"); body[k].assign(v[k].begin() + static_cast<long>(head), v[k].end()); }
  REQUIRE(body[0].size() > static_cast<size_t>(n) || body[0].size() >= 256 || body[0].empty(), "a stack of more than " << n << " calls is shown as " << body[0].size());
  size_t want = body[0].size() > static_cast<size_t>(first) ? body[0].size() - static_cast<size_t>(first) : 0;
  REQUIRE_EQ(body[1].size(), want, "frames from " << first << " of " << body[0].size());
  // frames of the callers below deep() are the same calls
  for (size_t i = 0; i < want; ++i) if (i + static_cast<size_t>(first) > static_cast<size_t>(n) + 8) REQUIRE_EQ(body[1][i], body[0][i + static_cast<size_t>(first)], "frame " << i);
}
