// C20: loading of plugins: which modules are loaded from where, and what is registered then.
#include "vital_common.hpp"
#include <vital/algorithm_plugin_manager.h>
#include <vital/algo/detect_features.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace kv = kwiver::vital;
using namespace pbt;
typedef kv::algo::detect_features algo_t;

enum Kind { PLUGIN, FAILING, NO_FUNCTION, TEXT, EMPTY, DIRECTORY };
struct Module { std::string file; Kind kind; std::map<std::string, int> impls; int sleep; };
struct Dir { std::string path; bool exists; bool is_file; std::map<std::string, Module> mods; };

static void copy_file(std::string const& a, std::string const& b)
{
  std::ifstream i(a.c_str(), std::ios::binary); std::ofstream o((b + "~").c_str(), std::ios::binary); o << i.rdbuf(); o.close();
  rename((b + "~").c_str(), b.c_str());
}
static void write_file(std::string const& f, std::string const& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }

static void put_reg(Dir const& d, Module const& m)
{
  std::ostringstream r;
  if (m.sleep) r << "sleep " << m.sleep << "\n";
  for (auto const& i : m.impls) r << "impl " << i.first << " " << i.second << "\n";
  if (m.kind == FAILING) r << "fail 1\n";
  write_file(d.path + "/" + m.file + ".reg", r.str());
}
static void put(Dir const& d, Module const& m)
{
  static std::string h = getenv("VERIF_HDIR");
  std::string f = d.path + "/" + m.file;
  switch (m.kind)
  {
  case PLUGIN: case FAILING: copy_file(h + "/plug.so", f); break;
  case NO_FUNCTION: copy_file(h + "/plug_nofunc.so", f); break;
  case TEXT: write_file(f, "this is not a library\n"); break;
  case EMPTY: write_file(f, ""); break;
  case DIRECTORY: mkdir(f.c_str(), 0700); break;
  }
  if (m.kind != DIRECTORY) put_reg(d, m);
}

static std::string join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string r; for (auto const& x : v) r += x + " "; return r; }

struct Model {
  std::set<std::string> modules;                       // loaded modules
  std::map<std::string, std::set<int>> impls;          // name -> values it may have
  std::map<std::string, std::set<int>> maybe;          // registered by a module that failed
  void load(Dir const& d, std::string const& name)
  {
    std::map<std::string, std::set<int>> here; // order inside one directory is not specified
    for (auto const& e : d.mods)
    {
      Module const& m = e.second;
      if (m.file.size() < 4 || m.file.substr(m.file.size() - 3) != ".so") continue;
      std::string mod = m.file.substr(0, m.file.size() - 3);
      if (!name.empty() && mod != name) continue;
      if (m.kind == PLUGIN) { modules.insert(mod); for (auto const& i : m.impls) here[i.first].insert(i.second); }
      if (m.kind == FAILING) for (auto const& i : m.impls) maybe[i.first].insert(i.second);
    }
    for (auto const& h : here)
    { impls[h.first] = h.second; }
  }
};

static Module gen_module(Src& s, size_t no)
{
  static const std::vector<std::string> names = { "alpha.so", "beta.so", "alpha.v2.so", "gamma.so", "delta_x.so", "libalpha.so", "alpha.so.1", "alpha", "alpha.dll", "beta.so.bak", "gamma-1.so", "alpha.SO", "so", "alphabet.so" };
  Module m; m.file = s.pick(names);
  m.kind = Kind(s.weighted({10, 2, 2, 1, 1, 1}));
  m.sleep = 0;
  size_t n = 0;
  while (s.more(n, 2, 4))
  {
    // names are shared between directories but not inside of one
    std::string i = "impl" + std::to_string(s.range(0, 3));
    if (m.kind == FAILING) i = "bad_" + m.file;
    m.impls[i] = int(no * 100 + s.range(0, 99));
  }
  return m;
}

static void compare(kv::algorithm_plugin_manager& pm, Model const& model)
{
  std::vector<std::string> want(model.modules.begin(), model.modules.end());
  REQUIRE_EQ(join(pm.registered_module_names()), join(want), "loaded modules");
  std::vector<std::string> names = algo_t::registered_names();
  for (auto const& i : model.impls) REQUIRE(std::find(names.begin(), names.end(), i.first) != names.end(), "implementation " << i.first << " is not registered");
  for (auto const& n : names)
  {
    REQUIRE(model.impls.count(n) || model.maybe.count(n), "implementation " << n << " should not be there");
    // everything registered can be made and used
    auto a = algo_t::create(n);
    REQUIRE(a, "create " << n);
    REQUIRE_EQ(a->impl_name(), n, "implementation");
    int v = a->get_configuration()->get_value<int>("value");
    bool ok = (model.impls.count(n) && model.impls.find(n)->second.count(v)) || (model.maybe.count(n) && model.maybe.find(n)->second.count(v));
    REQUIRE(ok, "implementation " << n << " has value " << v);
    auto c = a->clone(); REQUIRE_EQ(c->impl_name(), n, "clone");
  }
}

static void gen_dirs(Src& s, std::vector<Dir>& dirs, size_t max)
{
  std::string base = scratch();
  size_t nd = s.range(1, max), no = 0;
  for (size_t i = 0; i < nd; ++i)
  {
    Dir d; d.path = base + "/" + (s.chance(1, 5) ? "dir " : "d") + std::to_string(i); d.exists = !s.chance(1, 6); d.is_file = d.exists && s.chance(1, 12);
    if (d.is_file) write_file(d.path, "x");
    else if (d.exists)
    {
      mkdir(d.path.c_str(), 0700);
      size_t n = 0;
      std::set<std::string> used;
      while (s.more(n, 2, 5))
      {
        Module m = gen_module(s, no++);
        if (d.mods.count(m.file)) continue;
        for (auto k = m.impls.begin(); k != m.impls.end();) { if (!used.insert(k->first).second) k = m.impls.erase(k); else ++k; }
        d.mods[m.file] = m; put(d, m);
        s.note() << d.path.substr(base.size()) << "/" << m.file << " kind=" << m.kind << " impls=" << m.impls.size() << "\n";
      }
    }
    dirs.push_back(d);
  }
}

static void start_model(std::vector<std::string> const& search, std::vector<Dir> const& dirs, Model& m, std::string const& name)
{
  for (auto const& p : search) for (auto const& d : dirs) if (d.path == p && d.exists && !d.is_file) m.load(d, name);
}

PBT_PROP_ISOLATED(plugin_histories, 3000, 40000, "at least two modules were loaded and one candidate was not a plugin")
{
  std::string old; char cwd[4096]; if (getcwd(cwd, sizeof cwd)) old = cwd;
  std::vector<Dir> dirs; gen_dirs(s, dirs, 4);
  std::vector<std::string> search; std::string env; bool have_env = s.chance(3, 4);
  if (have_env)
  {
    size_t n = 0;
    while (s.more(n, 2, 5))
    {
      std::string p = s.chance(1, 8) ? std::string() : dirs[s.idx(dirs.size())].path;
      if (!env.empty() || n > 1) env += ":";
      env += p; if (!p.empty()) search.push_back(p);
    }
    setenv("KWIVER_PLUGIN_PATH", env.c_str(), 1);
  }
  else unsetenv("KWIVER_PLUGIN_PATH");
  s.note() << "KWIVER_PLUGIN_PATH=" << env << "\n";
  if (chdir(scratch().c_str())) throw Discard();
  kv::algorithm_plugin_manager& pm = kv::algorithm_plugin_manager::instance();
  REQUIRE(&pm == &kv::algorithm_plugin_manager::instance(), "one plugin manager");
  REQUIRE(pm.registered_module_names().empty(), "nothing is loaded before it is asked for");
  REQUIRE(algo_t::registered_names().empty(), "nothing is registered before it is asked for");
  // the environment's directories come first, in their order, then the built-in ones
  std::vector<std::string> sp, ne; for (auto const& p : pm.get_search_path()) if (!p.empty()) ne.push_back(p);
  REQUIRE(ne.size() >= search.size(), "search path");
  REQUIRE(std::equal(search.begin(), search.end(), ne.begin()), "the directories of the environment come first");
  std::vector<std::string> const base_path(ne);
  std::vector<std::string> added;
  Model model; size_t n = 0; bool once = false, odd = false;
  while (s.more(n, 6, 15))
  {
    switch (s.weighted({4, 3, 3, 2, 2}))
    {
    case 0: { s.note() << "register_plugins()\n"; pm.register_plugins(); start_model(search, dirs, model, ""); break; }
    case 1: {
      static const std::vector<std::string> names = { "alpha", "beta", "alpha.v2", "libalpha", "gamma-1", "nothing", "alpha.so", "so", "alphabet" };
      std::string nm = s.pick(names); s.note() << "register_plugins(" << nm << ")\n";
      pm.register_plugins(nm); start_model(search, dirs, model, nm); s.label("by name"); break; }
    case 2: {
      std::string p = s.chance(1, 8) ? std::string() : s.chance(1, 8) ? scratch() + "/none" : dirs[s.idx(dirs.size())].path;
      s.note() << "add_search_path(" << p << ")\n"; pm.add_search_path(p); added.push_back(p); if (!p.empty()) search.push_back(p); break; }
    case 3: {
      s.note() << "load_plugins_once()\n";
      bool r = kv::algorithm_plugin_manager::load_plugins_once();
      REQUIRE_EQ(r, !once, "load_plugins_once loads the first time only");
      if (!once) start_model(search, dirs, model, ""); once = true; break; }
    default: { // what a module registers changes, or it goes away or a new one comes
      Dir& d = dirs[s.idx(dirs.size())];
      if (!d.exists || d.is_file) break;
      if (d.mods.empty() || s.flip())
      {
        Module m = gen_module(s, 50 + n);
        if (d.mods.count(m.file)) break;
        for (auto const& e : d.mods) for (auto const& i : e.second.impls) m.impls.erase(i.first);
        d.mods[m.file] = m; put(d, m); s.note() << "new " << d.path << "/" << m.file << " kind=" << m.kind << "\n"; s.label("module added");
      }
      else
      {
        auto i = d.mods.begin(); std::advance(i, s.idx(d.mods.size()));
        if (i->second.kind == DIRECTORY) break;
        if (s.flip()) { for (auto& x : i->second.impls) x.second += 1000; put_reg(d, i->second); s.note() << "changed " << d.path << "/" << i->first << "\n"; s.label("module changed"); }
        else { unlink((d.path + "/" + i->first).c_str()); s.note() << "removed " << d.path << "/" << i->first << "\n"; d.mods.erase(i); s.label("module removed"); }
      }
      break; }
    }
    compare(pm, model);
    std::vector<std::string> now; for (auto const& p : pm.get_search_path()) now.push_back(p);
    std::vector<std::string> want = pm.get_search_path(); want.resize(now.size() - std::min(now.size(), added.size()));
    for (auto const& a : added) want.push_back(a);
    REQUIRE_EQ(join(now), join(want), "added directories are in the search path");
    REQUIRE(now.size() >= added.size() && std::equal(added.begin(), added.end(), now.end() - added.size()), "added directories come last, in order");
  }
  for (auto const& d : dirs) for (auto const& m : d.mods) if (m.second.kind != PLUGIN) { odd = true; s.label("kind " + std::to_string(m.second.kind)); }
  if (model.modules.size() >= 2 && odd) s.nontrivial();
  if (!old.empty() && chdir(old.c_str())) {}
}

// Threads that start at the same time: one loads, all find everything loaded when the call returns.
PBT_PROP_ISOLATED(plugin_threads, 600, 8000, "at least three threads and one module to load")
{
  std::vector<Dir> dirs; gen_dirs(s, dirs, 2);
  std::string env; std::vector<std::string> search; Model model; bool any = false;
  for (auto& d : dirs)
  {
    env += (env.empty() ? "" : ":") + d.path; search.push_back(d.path);
    for (auto& m : d.mods) { m.second.sleep = s.range(0, 8); if (m.second.kind != DIRECTORY) put_reg(d, m.second); }
  }
  setenv("KWIVER_PLUGIN_PATH", env.c_str(), 1);
  start_model(search, dirs, model, "");
  any = !model.modules.empty();
  int nt = s.range(2, 6); std::vector<int> delay; for (int i = 0; i < nt; ++i) delay.push_back(s.range(0, 3000));
  bool warm = s.flip(); if (warm) kv::algorithm_plugin_manager::instance();
  std::atomic<int> ready(0), firsts(0); std::vector<std::string> seen(nt);
  std::vector<std::thread> th;
  for (int i = 0; i < nt; ++i)
    th.emplace_back([&, i]() {
      ++ready; while (ready < nt) {}
      if (delay[i]) usleep(delay[i]);
      if (kv::algorithm_plugin_manager::load_plugins_once()) ++firsts;
      seen[i] = join(kv::algorithm_plugin_manager::instance().registered_module_names());
    });
  for (auto& t : th) t.join();
  REQUIRE_EQ(int(firsts), 1, "exactly one call loads the plugins");
  std::vector<std::string> want(model.modules.begin(), model.modules.end());
  for (int i = 0; i < nt; ++i) REQUIRE_EQ(seen[i], join(want), "modules seen by thread " << i << " after load_plugins_once");
  REQUIRE(!kv::algorithm_plugin_manager::load_plugins_once(), "a later call does nothing");
  compare(kv::algorithm_plugin_manager::instance(), model);
  if (nt >= 3 && any) s.nontrivial();
}

PBT_INIT() { quiet_all(); setenv("KWIVER_DEFAULT_LOG_LEVEL", "none", 1); }
