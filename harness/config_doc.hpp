// Generator of valid config documents (a set of files) with a reference
// interpretation written from the documentation of the format.
#ifndef VERIF_CONFIG_DOC
#define VERIF_CONFIG_DOC
#include "vital_common.hpp"
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <sys/utsname.h>
#include <unistd.h>

namespace cdoc {
using pbt::Src;
using pbt::show;

inline std::string trim(std::string s)
{
  char const* ws = " \t\n\v\f\r";
  size_t b = s.find_first_not_of(ws);
  if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(ws) - b + 1);
}

struct Line {
  enum Kind { NOISE, ENTRY, LOCAL, BLOCK, ENDBLOCK, INCLUDE } kind;
  std::string text;       // as written
  std::string key, value; // value as written (trimmed, no comment)
  bool ro, rel;
};

struct File { std::string path; std::vector<Line> lines; bool final_newline; bool crlf; };

struct Slot { std::string value, file; int line; bool ro; };

struct Result {
  std::map<std::string, Slot> kv;
  bool ro_violation = false;
  std::set<std::string> files_read;
  int includes = 0, macros = 0, rels = 0, blocks = 0, ros = 0;
};

inline bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit(char c) { return c >= '0' && c <= '9'; }

// SYSENV values which follow from the system alone
inline std::string system_value(std::string const& name)
{
  struct utsname u; uname(&u); std::string l; long n = 0;
  auto mem = [](char const* k) { std::ifstream f("/proc/meminfo"); std::string w; long v = 0; while (f >> w) if (w == k) { f >> v; break; } return std::to_string(v / 1024); };
  if (name == "hostname") { char b[256] = {0}; gethostname(b, 255); return b; }
  if (name == "osname") return u.sysname;
  if (name == "osplatform") return u.machine;
  if (name == "osversion") return u.version;
  if (name == "osdescription") return std::string(u.sysname) + " " + u.release + " " + u.version;
  if (name == "is64bits") return sizeof(void*) == 8 ? "TRUE" : "FALSE";
  if (name == "totalphysicalmemory") return mem("MemTotal:");
  if (name == "totalvirtualmemory") return mem("SwapTotal:");
  if (name == "numproc") { std::ifstream f("/proc/cpuinfo"); while (std::getline(f, l)) n += l.compare(0, 10, "processor\t") == 0; return std::to_string(n); }
  return "";
}

struct Doc {
  std::map<std::string, File> files;        // by absolute path
  std::string main;                         // as passed to the reader
  std::vector<std::string> search;          // config search path
  std::map<std::string, std::string> env;   // environment visible to the document
  std::string cwd;

  std::string expand(std::string const& in, Result& r, std::map<std::string, std::string> const& local) const
  {
    std::string out; size_t i = 0;
    while (i < in.size())
    {
      if (in[i] == '$' && i + 1 < in.size() && alpha(in[i + 1]))
      {
        size_t j = i + 1; while (j < in.size() && (alpha(in[j]) || digit(in[j]) || in[j] == '_')) ++j;
        if (j < in.size() && in[j] == '{')
        {
          size_t k = j + 1; while (k < in.size() && (alpha(in[k]) || digit(in[k]) || in[k] == '.' || in[k] == '_' || in[k] == ':')) ++k;
          if (k < in.size() && in[k] == '}')
          {
            std::string type = in.substr(i + 1, j - i - 1), name = in.substr(j + 1, k - j - 1), val; bool known = true;
            if (type == "LOCAL") { auto it = local.find(name); if (it != local.end()) val = it->second; }
            else if (type == "ENV") { auto it = env.find(name); if (it != env.end()) val = it->second; }
            else if (type == "CONFIG") { auto it = r.kv.find(name); if (it != r.kv.end()) val = it->second.value; }
            else if (type == "SYSENV") { if (name == "cwd") val = cwd; else if (name == "islinux") val = "TRUE"; else if (name == "iswindows" || name == "isapple") val = "FALSE"; else val = system_value(name); }
            else known = false;
            if (known) { out += val; ++r.macros; } else out += in.substr(i, k + 1 - i);
            i = k + 1;
            continue;
          }
        }
      }
      out += in[i++];
    }
    return out;
  }

  static std::string dir_of(std::string const& p)
  {
    size_t s = p.rfind('/');
    if (s == std::string::npos) return ".";
    return s == 0 ? "/" : p.substr(0, s);
  }

  std::string absolute(std::string const& p) const
  {
    std::string a = !p.empty() && p[0] == '/' ? p : cwd + "/" + p;
    // collapse "." and ".."
    std::vector<std::string> parts; std::string c;
    for (char x : a + "/") { if (x == '/') { if (c == "..") { if (!parts.empty()) parts.pop_back(); } else if (!c.empty() && c != ".") parts.push_back(c); c.clear(); } else c += x; }
    std::string r; for (auto const& q : parts) r += "/" + q;
    return r.empty() ? "/" : r;
  }

  std::string find(std::string const& name, std::vector<std::string> const& stack) const
  {
    if (!name.empty() && name[0] == '/') return name;
    for (auto const& d : search) { std::string p = absolute(d + "/" + name); if (files.count(p)) return p; }
    for (size_t i = stack.size(); i-- > 0;) { std::string p = absolute(dir_of(stack[i]) + "/" + name); if (files.count(p)) return p; }
    return "";
  }

  void eval_file(std::string const& path, Result& r, std::string& ctx, std::vector<std::string>& ctxs, std::map<std::string, std::string>& local, std::vector<std::string>& stack) const
  {
    File const& f = files.find(absolute(path))->second;
    r.files_read.insert(absolute(path));
    stack.push_back(path);
    for (size_t n = 0; n < f.lines.size() && !r.ro_violation; ++n)
    {
      Line const& l = f.lines[n];
      switch (l.kind)
      {
      case Line::NOISE: break;
      case Line::ENTRY:
      {
        std::string key = ctx + l.key, v = expand(l.value, r, local);
        if (l.rel) { v = dir_of(path) + "/" + v; ++r.rels; }
        v = trim(v);
        auto it = r.kv.find(key);
        if (it != r.kv.end() && it->second.ro) { r.ro_violation = true; break; }
        Slot s = {v, path, static_cast<int>(n + 1), l.ro};
        if (l.ro) ++r.ros;
        r.kv[key] = s;
        break;
      }
      case Line::LOCAL: local[l.key] = expand(l.value, r, local); break;
      case Line::BLOCK: ctxs.push_back(ctx); ctx += l.key + ":"; ++r.blocks; break;
      case Line::ENDBLOCK: ctx = ctxs.back(); ctxs.pop_back(); break;
      case Line::INCLUDE:
      {
        std::string name = expand(l.value, r, local), p = find(name, stack);
        if (p.empty()) throw std::logic_error("generator: include not found " + name);
        ++r.includes;
        eval_file(p, r, ctx, ctxs, local, stack);
        break;
      }
      }
    }
    stack.pop_back();
  }

  Result eval() const
  {
    Result r; std::string ctx; std::vector<std::string> ctxs, stack; std::map<std::string, std::string> local;
    eval_file(main, r, ctx, ctxs, local, stack);
    return r;
  }

  void write() const
  {
    for (auto const& f : files)
    {
      for (size_t q = f.first.find('/', 1); q != std::string::npos; q = f.first.find('/', q + 1)) mkdir(f.first.substr(0, q).c_str(), 0700);
      std::ofstream o(f.first.c_str(), std::ios::binary);
      if (!o) throw std::logic_error("can not write " + f.first);
      for (size_t i = 0; i < f.second.lines.size(); ++i)
      {
        o << f.second.lines[i].text;
        if (i + 1 < f.second.lines.size() || f.second.final_newline) o << (f.second.crlf ? "\r\n" : "\n");
      }
    }
  }
  void erase() const { for (auto const& f : files) unlink(f.first.c_str()); }
  void describe(std::ostream& o) const
  {
    o << "main " << main << " search"; for (auto const& d : search) o << " " << d; o << "\n";
    for (auto const& f : files) { o << "--- " << f.first << (f.second.crlf ? " (CRLF)" : "") << "\n"; for (auto const& l : f.second.lines) o << l.text << "\n"; }
  }
};

inline std::string gen_word(Src& s)
{
  static const std::vector<std::string> pool = {"aa", "b", "mode", "blocks", "include_dir", "endblock2", "relativepaths", "x.y", "x-y", "p/q", "A_1", "foo:bar", "foo", "bar", "foo:bar:baz", "Include", "k1", "k2", "k3"};
  return s.pick(pool);
}

inline std::string gen_macro(Src& s, std::vector<std::string> const& keys)
{
  static const std::vector<std::string> types = {"LOCAL", "LOCAL", "CONFIG", "CONFIG", "ENV", "SYSENV", "OTHER", "local"};
  std::string t = s.pick(types), n;
  if (t == "ENV") { static const std::vector<std::string> v = {"V_ONE", "V_TWO", "V_EMPTY", "V_UNSET", "V_MACRO"}; n = s.pick(v); }
  else if (t == "SYSENV") { static const std::vector<std::string> v = {"cwd", "cwd", "islinux", "iswindows", "isapple", "nosuch", "hostname", "osname", "osdescription", "osplatform", "osversion", "is64bits", "numproc", "totalphysicalmemory", "totalvirtualmemory"}; n = s.pick(v); }
  else if (!keys.empty() && s.chance(3, 4)) n = keys[s.idx(keys.size())];
  else n = s.chance(1, 6) ? "" : gen_word(s);
  return "$" + t + "{" + n + "}";
}

inline std::string gen_value(Src& s, std::vector<std::string> const& keys)
{
  std::string v; size_t n = 0;
  while (s.more(n, 2, 8))
  {
    switch (s.range(0, 5))
    {
    case 0: { static const std::vector<std::string> w = {"v", "red", "two words", "\"quoted  text\"", "a/b.dat", "1.5", "true"}; v += s.pick(w); break; }
    case 1: case 2: v += gen_macro(s, keys); break;
    case 3: v += static_cast<char>(s.range(33, 126)); break;
    case 4: v += ' '; break;
    default: { static const std::vector<std::string> w = {"=", ":=", "[RO]", "$", "{", "}", "$LOCAL", "$ENV{", "LOCAL{aa}", "$1{x}", "  "}; v += s.pick(w); }
    }
  }
  for (char& c : v) if (c == '#') c = '+';
  return trim(v);
}

inline std::string spaces(Src& s, int lo) { static const std::vector<std::string> w = {"", " ", "  ", "\t", " \t "}; std::string r = s.pick(w); if (lo && r.empty()) r = " "; return r; }
inline std::string tail(Src& s) { static const std::vector<std::string> t = {"", "", "", " ", "# trailing", "  # a = b", "#", "\t # endblock"}; return s.pick(t); }

struct Gen {
  Src& s; Doc d; std::string base; bool allow_ro_conflict;
  std::vector<std::string> locals;
  std::vector<std::string> dirs;
  int depth_files;

  Gen(Src& src, bool ro_conflict) : s(src), allow_ro_conflict(ro_conflict), depth_files(0) {}

  void body(File& f, int level, int depth, std::vector<std::string>& keys, std::set<std::string>& ro_words)
  {
    size_t n = 0;
    while (s.more(n, depth == 0 ? 6 : 3, 25))
    {
      Line l; l.ro = l.rel = false; l.kind = Line::NOISE;
      std::string ind = spaces(s, 0);
      switch (s.weighted({8, 3, 3, 3, 3}))
      {
      case 0:
      {
        l.kind = Line::ENTRY; l.key = gen_word(s);
        l.rel = s.chance(1, 6); l.ro = s.chance(1, 7);
        l.value = gen_value(s, keys);
        if (l.ro) ro_words.insert(l.key);
        std::string flag; if (l.ro) { static const std::vector<std::string> fl = {"[RO]", "[ro]", " [Ro]", "[RO] "}; flag = s.pick(fl); }
        l.text = ind + (l.rel ? "relativepath" + spaces(s, 1) : "") + l.key + flag + spaces(s, 0) + "=" + spaces(s, 0) + l.value + tail(s);
        keys.push_back(l.key);
        break;
      }
      case 1:
        l.kind = Line::LOCAL; l.key = gen_word(s); l.value = gen_value(s, keys);
        l.text = ind + l.key + spaces(s, 0) + ":=" + spaces(s, 0) + l.value + tail(s);
        keys.push_back(l.key);
        break;
      case 2:
      { static const std::vector<std::string> t = {"", "   ", "# comment", "  # key = value", "#endblock", "\t", "## [RO] include x"}; l.text = s.pick(t); break; }
      case 3:
      {
        if (depth >= 4) { l.text = "# deep"; break; }
        l.kind = Line::BLOCK; l.key = gen_word(s);
        l.text = ind + "block" + spaces(s, 1) + l.key + tail(s);
        f.lines.push_back(l);
        std::vector<std::string> inner = keys;
        body(f, level, depth + 1, inner, ro_words);
        l.kind = Line::ENDBLOCK; l.text = spaces(s, 0) + "endblock" + tail(s);
        break;
      }
      default:
      {
        if (level >= 3) { l.text = ""; break; }
        l.kind = Line::INCLUDE;
        // the included file is a candidate of the next level: choose among several names
        std::string name = "f" + std::to_string(level + 1) + (s.flip() ? "a" : "b") + ".conf";
        if (s.chance(1, 4)) name = "sub/" + name;
        l.value = name;
        int form = s.range(0, 5);
        if (form == 1) l.value = base + "/" + s.pick(dirs) + "/" + name;
        if (form == 2) { size_t dot = name.find(".conf"); l.value = name.substr(0, dot) + "$ENV{V_CONF}"; }
        l.text = ind + "include" + spaces(s, 1) + l.value + tail(s);
        break;
      }
      }
      f.lines.push_back(l);
    }
  }

  // base: scratch directory; creates directory names d0..d3 each with sub/
  Doc make(std::string const& scratch)
  {
    base = scratch;
    dirs = {"d0", "d1", "d2"};
    for (auto const& x : dirs) { mkdir((base + "/" + x).c_str(), 0700); mkdir((base + "/" + x + "/sub").c_str(), 0700); mkdir((base + "/" + x + "/sub/sub").c_str(), 0700); }
    d.cwd = base + "/d0";
    d.env["V_ONE"] = "one"; d.env["V_TWO"] = "  two words "; d.env["V_EMPTY"] = ""; d.env["V_CONF"] = ".conf"; d.env["V_MACRO"] = "$LOCAL{aa}#not a comment";
    int ns = s.range(0, 2);
    if (ns >= 1) d.search.push_back(base + "/d" + std::to_string(s.range(1, 2)));
    if (ns >= 2) d.search.push_back(d.search[0] == base + "/d1" ? base + "/d2" : base + "/d1");
    d.main = s.chance(1, 6) ? "main.conf" : s.chance(1, 6) ? "sub/main.conf" : base + "/d0/main.conf";
    std::vector<std::string> keys; std::set<std::string> ro;
    add(d.absolute(d.main), 0);
    settle();
    return d;
  }

  void add(std::string const& path, int level)
  {
    File f; f.path = path; f.final_newline = !s.chance(1, 5); f.crlf = s.chance(1, 8);
    std::vector<std::string> keys; std::set<std::string> ro;
    body(f, level, 0, keys, ro);
    d.files[path] = f;
  }

  // make every include resolvable: create the files (at several places of the search order)
  void settle()
  {
    for (int guard = 0; guard < 200; ++guard)
    {
      std::string missing, parent; int level = 0;
      // walk the documents the way the reader does and find the first unresolvable include
      if (!walk(d.main, std::vector<std::string>(), missing, parent, level)) break;
      if (!missing.empty() && missing[0] == '/') { if (guard < 60) add(missing, level); else plain(missing); continue; }
      std::vector<std::string> places;
      for (auto const& x : d.search) places.push_back(d.absolute(x + "/" + missing));
      places.push_back(d.absolute(Doc::dir_of(parent) + "/" + missing));
      places.push_back(d.absolute(Doc::dir_of(d.main) + "/" + missing));
      // one or two of the places, so that the search order decides
      std::string a = s.pick(places); bool deep = guard < 60;
      if (deep) add(a, level); else plain(a);
      if (s.flip()) { std::string b = s.pick(places); if (!d.files.count(b)) { if (deep) add(b, level); else plain(b); } }
    }
  }
  void plain(std::string const& p) { File f; f.path = p; f.final_newline = true; f.crlf = false; d.files[p] = f; }

  bool walk(std::string const& path, std::vector<std::string> stack, std::string& missing, std::string& parent, int& level)
  {
    stack.push_back(path);
    Result dummy; std::map<std::string, std::string> nolocal;
    for (auto const& l : d.files[d.absolute(path)].lines)
      if (l.kind == Line::INCLUDE)
      {
        std::string name = d.expand(l.value, dummy, nolocal), p = d.find(name, stack);
        if (p.empty() || !d.files.count(d.absolute(p))) { missing = name; parent = path; size_t q = name.rfind("f"); size_t at = name.rfind('/'); at = at == std::string::npos ? 0 : at + 1; level = name[at + 1] - '0'; (void)q; return true; }
        if (walk(p, stack, missing, parent, level)) return true;
      }
    return false;
  }
};

// The generated read-only marks may collide with later assignments; for documents
// that must be valid, later assignments to a read-only key are turned into comments.
inline Result make_consistent(Doc& d)
{
  for (;;)
  {
    Result r = d.eval();
    if (!r.ro_violation) return r;
    // drop all read-only marks of the last colliding key: simplest is to clear the marks file by file
    bool done = false;
    for (auto& f : d.files)
    {
      for (auto& l : f.second.lines)
        if (l.kind == Line::ENTRY && l.ro && !done) { l.ro = false; size_t p = l.text.find('['); size_t q = l.text.find(']', p); l.text.erase(p, q - p + 1); done = true; }
    }
    if (!done) return r;
  }
}

inline void clear_ro(Doc& d)
{
  for (auto& f : d.files)
    for (auto& l : f.second.lines)
      if (l.kind == Line::ENTRY && l.ro) { l.ro = false; size_t p = l.text.find('['); size_t q = l.text.find(']', p); l.text.erase(p, q - p + 1); }
}

inline void apply_env(Doc const& d)
{
  for (auto const& e : d.env) setenv(e.first.c_str(), e.second.c_str(), 1);
  unsetenv("V_UNSET");
  if (chdir(d.cwd.c_str()) != 0) throw std::runtime_error("chdir");
}

} // namespace cdoc
#endif
