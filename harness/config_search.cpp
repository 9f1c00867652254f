// C07: finding and merging config files along the documented search path
#include "vital_common.hpp"
#include <vital/config/config_block.h>
#include <vital/config/config_block_exception.h>
#include <vital/config/config_block_io.h>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <cassert>

using namespace kwiver::vital;
using pbt::Src;

namespace {
std::string root; // scratch directory of this process
std::string const app = "verif_app_x", other_app = "verif_app_y";
void mk(std::string const& p) { for (size_t i = root.size() + 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0700); }
void put(std::string const& f, std::string const& text) { mk(f.substr(0, f.rfind('/'))); std::ofstream o(f.c_str()); o << text; }
void wipe(std::string const& d)
{
  if (d.compare(0, root.size(), root) != 0 || root.size() < 5) throw pbt::Fail("scratch");
  if (DIR* h = opendir(d.c_str()))
  {
    while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
    closedir(h);
  }
}
struct File { std::map<std::string, std::string> kv; bool include = false, bad = false; };
struct Loc { std::vector<std::string> dirs; bool search; /* part of the search path of includes */ int state = 0; /* 0 none, 1 file, 2 directory of that name */ File f; int inc = -1; };
}
PBT_INIT() { quiet_all(); root = pbt::scratch(); }

PBT_PROP(search_path, 12000, 400000, "at least two files on the search path with a common key, or an include found on the search path")
{
  std::string const D = root + "/t"; wipe(D); mk(D + "/cwd"); if (chdir((D + "/cwd").c_str())) throw pbt::Fail("chdir");
  static const std::vector<std::string> names = {"a.conf", "sub/a.conf", "b"};
  std::string const name = s.pick(names), inc = "common.conf";
  std::string const ver = s.chance(1, 3) ? "" : "1.2";
  bool const set_k = !s.chance(1, 4), set_x = !s.chance(1, 4), set_h = !s.chance(1, 4);
  int const pre = s.range(0, 3); // prefix given, none, or a standard one
  std::string const prefix = pre <= 1 ? D + "/prefix" : pre == 2 ? "" : s.flip() ? "/usr" : "/usr/local";
  std::vector<Loc> locs;
  auto add = [&](std::vector<std::string> const& d, bool search = true) { Loc l; l.dirs = d; l.search = search; locs.push_back(l); };
  std::string kpath;
  if (set_k)
  {
    size_t n = s.range(1, 3); std::vector<int> order = {0, 1, 2}; for (size_t i = 0; i < n; ++i) std::swap(order[i], order[i + s.idx(3 - i)]);
    for (size_t i = 0; i < n; ++i) { std::string d = D + "/k" + std::to_string(order[i]); kpath += (i ? ":" : "") + d; add({d}); }
    setenv("KWIVER_CONFIG_PATH", kpath.c_str(), 1);
  }
  else unsetenv("KWIVER_CONFIG_PATH");
  // the documentation and the code disagree about "/config" below these two places: files are put in both
  auto user = [&](std::string const& base) { if (!ver.empty()) add({base + "/" + app + "/" + ver, base + "/" + app + "/" + ver + "/config"}); add({base + "/" + app, base + "/" + app + "/config"}); };
  if (set_x) { setenv("XDG_CONFIG_HOME", (D + "/xdg").c_str(), 1); user(D + "/xdg"); } else unsetenv("XDG_CONFIG_HOME");
  if (set_h) { setenv("HOME", (D + "/home").c_str(), 1); user(D + "/home/.config"); } else if (s.flip()) setenv("HOME", "", 1); else unsetenv("HOME");
  if (pre <= 1)
  {
    if (!ver.empty()) add({prefix + "/share/" + app + "/" + ver + "/config"});
    add({prefix + "/share/" + app + "/config"}); add({prefix + "/share/config"}); add({prefix + "/config"});
  }
  add({D + "/cwd"}, false);
  // places that must never be looked at
  std::vector<std::string> decoys = {D, D + "/prefix", D + "/prefix/share", D + "/home", D + "/xdg", D + "/k9", D + "/prefix/share/" + other_app + "/config", D + "/home/.config/" + other_app, D + "/cwd/config", D + "/prefix/share/" + app + "/9.9/config"};
  if (ver.empty()) decoys.push_back(D + "/prefix/share/" + app + "/1.2/config");
  if (pre > 1) { decoys.push_back(D + "/prefix/config"); decoys.push_back(D + "/prefix/share/config"); }
  if (!set_k) decoys.push_back(D + "/k0"); if (!set_x) decoys.push_back(D + "/xdg/" + app); if (!set_h) decoys.push_back(D + "/home/.config/" + app);
  for (auto const& d : decoys) if (s.chance(1, 3)) { put(d + "/" + name, "decoy = 1\nk1 = decoy\n"); put(d + "/" + inc, "decoy = 1\n"); }
  int uid = 0;
  for (auto& l : locs)
  {
    l.state = s.weighted({3, 4, 1});
    if (l.state == 1)
    {
      size_t n = 0; while (s.more(n, 3, 6)) { std::string k = "k" + std::to_string(s.range(1, 5)); if (s.chance(1, 4)) k = "blk:" + k; l.f.kv[k] = "v" + std::to_string(++uid); }
      l.f.include = s.chance(1, 5); l.f.bad = s.chance(1, 25);
    }
    if (s.chance(1, 4)) l.inc = ++uid;
    for (auto const& d : l.dirs)
    {
      if (l.state == 2) mk(d + "/" + name);
      if (l.state == 1)
      {
        std::ostringstream o; for (auto const& e : l.f.kv) if (e.first.compare(0, 4, "blk:")) o << e.first << " = " << e.second << "\n";
        o << "block blk\n"; for (auto const& e : l.f.kv) if (!e.first.compare(0, 4, "blk:")) o << e.first.substr(4) << " = " << e.second << "\n"; o << "endblock\n";
        if (l.f.include) o << "include " << inc << "\n";
        if (l.f.bad) o << "endblock\n";
        put(d + "/" + name, o.str());
      }
      if (l.inc >= 0) { put(d + "/" + inc, "inc_key = i" + std::to_string(l.inc) + "\n"); if (name.compare(0, 4, "sub/") == 0) put(d + "/sub/" + inc, "inc_key = s" + std::to_string(l.inc) + "\n"); }
    }
  }
  bool const merge = s.chance(2, 3); bool const absolute = s.chance(1, 8);
  s.note() << "name " << name << " version '" << ver << "' prefix '" << prefix << "' merge " << merge << "\n";
  for (auto const& l : locs) { s.note() << l.dirs[0] << ": " << (l.state == 0 ? "nothing" : l.state == 2 ? "a directory" : "file"); for (auto const& e : l.f.kv) s.note() << " " << e.first << "=" << e.second; if (l.f.include) s.note() << " +include"; if (l.f.bad) s.note() << " malformed"; if (l.inc >= 0) s.note() << " (has " << inc << " " << l.inc << ")"; s.note() << "\n"; }

  // the reference
  size_t target = s.idx(locs.size());
  std::map<std::string, std::string> want; bool found = false, bad = false, noinc = false; size_t used = 0; bool common = false, inc_used = false;
  for (size_t i = 0; i < locs.size() && !bad && !noinc; ++i)
  {
    Loc const& l = locs[i];
    if (absolute && i != target) continue;
    if (l.state != 1) { if (absolute) break; continue; }
    std::map<std::string, std::string> kv = l.f.kv;
    if (l.f.include)
    {
      Loc const* hit = nullptr; for (auto const& x : locs) if (x.search && x.inc >= 0) { hit = &x; break; }
      if (hit) { kv["inc_key"] = "i" + std::to_string(hit->inc); inc_used = true; }
      else if (l.inc >= 0) kv["inc_key"] = (name.compare(0, 4, "sub/") ? "i" : "s") + std::to_string(l.inc);
      else { noinc = true; break; }
    }
    if (l.f.bad) { bad = true; break; }
    found = true; ++used;
    for (auto const& e : kv) { if (want.count(e.first)) common = true; want.insert(e); }
    if (!merge || absolute) break;
  }
  if ((used > 1 && common) || inc_used) s.nontrivial();
  s.label(bad ? "malformed" : noinc ? "include missing" : !found ? "not found" : used > 1 ? "merged" : "one file"); if (absolute) s.label("absolute name"); if (inc_used) s.label("include from the search path");

  std::string outcome; config_block_sptr c;
  try { c = read_config_file(absolute ? locs[target].dirs[0] + "/" + name : name, app, ver, prefix, merge); outcome = "read"; }
  catch (config_file_not_found_exception const&) { outcome = "not found"; }
  catch (config_file_not_parsed_exception const&) { outcome = "not parsed"; }
  std::string expected = bad ? "not parsed" : (noinc || !found) ? "not found" : "read";
  if (chdir(root.c_str())) throw pbt::Fail("chdir");
  REQUIRE_EQ(outcome, expected, "outcome of looking for " << name);
  if (outcome != "read") return;
  std::map<std::string, std::string> got; for (auto const& k : c->available_values()) got[k] = c->get_value<std::string>(k);
  std::string g, w; for (auto const& e : got) g += e.first + "=" + e.second + " "; for (auto const& e : want) w += e.first + "=" + e.second + " ";
  REQUIRE_EQ(g, w, "merged configuration");
}

// The list of places alone, which also covers install prefixes that no scratch directory can stand for.
PBT_PROP(search_places, 6000, 100000, "an install prefix that is not a standard one, and a version")
{
  static const std::vector<std::string> prefixes = {"", "/usr", "/usr/local", "/usr/lib/app", "/usr2", "/usr/local/app", "/usr/localx", "/opt/x", "/u", "/", "/usr/", "/home/me/install", "rel/dir"};
  static const std::vector<std::string> dirs = {"/a", "/b c", "/usr", "/usr/local", "/a/b", "~", "/etc"};
  std::string const name = s.pick(std::vector<std::string>{"app", "my app", "a", "share"}), ver = s.pick(std::vector<std::string>{"", "1", "1.2.3", "9"}), pre = s.pick(prefixes);
  std::vector<std::string> want; auto list = [&](char const* var) { size_t n = 0; std::string v; std::vector<std::string> r; while (s.more(n, 1, 3)) { std::string d = s.pick(dirs); v += (v.empty() ? "" : ":") + d; r.push_back(d == "~" ? "?" : d); } if (r.empty() && s.flip()) unsetenv(var); else setenv(var, v.c_str(), 1); return r; };
  std::string const home = s.chance(1, 4) ? "" : s.pick(std::vector<std::string>{"/home/me", "/root", "/h x"}); if (home.empty()) { if (s.flip()) unsetenv("HOME"); else setenv("HOME", "", 1); } else setenv("HOME", home.c_str(), 1);
  auto app_dirs = [&](std::string const& base, std::string const& tail) { if (!ver.empty()) want.push_back(base + "/" + name + "/" + ver + tail); want.push_back(base + "/" + name + tail); };
  for (auto const& d : list("KWIVER_CONFIG_PATH")) want.push_back(d);
  for (auto const& d : list("XDG_CONFIG_HOME")) app_dirs(d, "?"); // "?": with or without "/config", where documentation and code disagree
  if (!home.empty()) app_dirs(home + "/.config", "?");
  app_dirs("/etc/xdg", "?"); app_dirs("/etc", "?");
  app_dirs("/usr/local/share", "/config"); app_dirs("/usr/share", "/config");
  if (!pre.empty() && pre != "/usr" && pre != "/usr/local") { app_dirs(pre + "/share", "/config"); want.push_back(pre + "/share/config"); want.push_back(pre + "/config"); if (!ver.empty()) s.nontrivial(); }
  s.note() << "name " << name << " version '" << ver << "' prefix '" << pre << "' home '" << home << "'";
  std::vector<std::string> got = config_file_paths(name, ver, pre);
  std::string g; for (auto const& e : got) g += e + "\n";
  REQUIRE_EQ(got.size(), want.size(), "number of places in\n" << g);
  for (size_t i = 0; i < got.size(); ++i)
  {
    std::string w = want[i]; if (w[0] == '?') continue; // home directory in a list of the environment
    if (*w.rbegin() == '?') { w.resize(w.size() - 1); if (w[0] == '?') continue; REQUIRE(got[i] == w || got[i] == w + "/config", "place " << i << " is " << got[i] << " and not " << w); }
    else REQUIRE_EQ(got[i], w, "place " << i);
  }
}
