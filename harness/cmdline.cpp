// C28: command line arguments (kwsys::CommandLineArguments) against an interpreter of the list of
// registered arguments.
#include "pbt.hpp"
#include <kwsys/CommandLineArguments.hxx>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <unistd.h>
using pbt::Src; using pbt::Fail; using pbt::Discard;
typedef kwsys::CommandLineArguments CLA;
typedef std::vector<std::string> Strs;

namespace {
struct Mute { std::streambuf* old; std::ostringstream o; Mute() { old = std::cerr.rdbuf(o.rdbuf()); } ~Mute() { std::cerr.rdbuf(old); } };

struct Event { std::string name; bool has; std::string value; bool operator==(Event const& o) const { return name == o.name && has == o.has && value == o.value; } };
struct CallLog { std::vector<Event> ev; int fail_at; };
int on_argument(const char* a, const char* v, void* d) { CallLog* l = static_cast<CallLog*>(d); l->ev.push_back(Event{ a, v != nullptr, v ? v : "" }); return int(l->ev.size()) != l->fail_at; }
struct UnknownLog { Strs args; int answer; };
int on_unknown(const char* a, void* d) { UnknownLog* l = static_cast<UnknownLog*>(d); l->args.push_back(a); return l->answer; }

enum { NO, CONCAT, SPACE, EQUAL, MULTI };
CLA::ArgumentTypeEnum const types[] = { CLA::NO_ARGUMENT, CLA::CONCAT_ARGUMENT, CLA::SPACE_ARGUMENT, CLA::EQUAL_ARGUMENT, CLA::MULTI_ARGUMENT };
enum { BOOL, INT, DOUBLE, CHARP, STRING, VBOOL, VINT, VDOUBLE, VCHARP, VSTRING, CALL };

struct Var
{
  int kind; bool b; int i; double d; char* c; std::string s;
  std::vector<bool> vb; std::vector<int> vi; std::vector<double> vd; std::vector<char*> vc; Strs vs; CallLog log;
  Var() : kind(0), b(false), i(-77), d(-7.5), c(nullptr), s("unset") { log.fail_at = 0; }
  ~Var() { delete[] c; for (char* x : vc) delete[] x; }
  Var(Var const&) = delete;
};
bool truth(std::string const& v) { static std::set<std::string> const t = { "1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES" }; return t.count(v) > 0; }
std::string num(double d) { std::ostringstream o; o.precision(17); if (std::isnan(d)) o << "nan"; else o << d; return o.str(); }
std::string state(Var const& v)   // what the variable holds
{
  std::ostringstream o; o.precision(17);
  switch (v.kind)
  {
  case BOOL: o << v.b; break; case INT: o << v.i; break; case DOUBLE: o << num(v.d); break;
  case CHARP: o << (v.c ? pbt::show(v.c) : "null"); break; case STRING: o << pbt::show(v.s); break;
  case VBOOL: for (bool x : v.vb) o << x << ","; break; case VINT: for (int x : v.vi) o << x << ","; break; case VDOUBLE: for (double x : v.vd) o << num(x) << ","; break;
  case VCHARP: for (char* x : v.vc) o << pbt::show(x) << ","; break; case VSTRING: for (auto const& x : v.vs) o << pbt::show(x) << ","; break;
  default: for (auto const& e : v.log.ev) o << e.name << "=" << (e.has ? pbt::show(e.value) : "null") << ","; break;
  }
  return o.str();
}
int to_int(std::string const& t) { return static_cast<int>(strtol(t.c_str(), nullptr, 10)); }
struct Model   // values assigned to a variable, in order
{
  int kind; Strs names, values;
  std::string state() const
  {
    std::ostringstream o; o.precision(17); std::string last = values.empty() ? "" : values.back();
    switch (kind)
    {
    case BOOL: o << (values.empty() ? false : truth(last)); break;
    case INT: o << (values.empty() ? -77 : to_int(last)); break;
    case DOUBLE: o << (values.empty() ? num(-7.5) : num(strtod(last.c_str(), nullptr))); break;
    case CHARP: o << (values.empty() ? "null" : pbt::show(last)); break;
    case STRING: o << (values.empty() ? pbt::show("unset") : pbt::show(last)); break;
    case VBOOL: for (auto const& x : values) o << truth(x) << ","; break;
    case VINT: for (auto const& x : values) o << to_int(x) << ","; break;
    case VDOUBLE: for (auto const& x : values) o << num(strtod(x.c_str(), nullptr)) << ","; break;
    case VCHARP: case VSTRING: for (auto const& x : values) o << pbt::show(x) << ","; break;
    default: for (size_t k = 0; k < values.size(); ++k) o << names[k] << "=" << pbt::show(values[k]) << ","; break;
    }
    return o.str();
  }
};
struct Opt { std::string name; int type; size_t var; std::string help; };

void add(CLA& a, Opt const& o, Var& v, bool boolean)
{
  const char* n = o.name.c_str(); const char* h = o.help.c_str(); CLA::ArgumentTypeEnum t = types[o.type];
  switch (v.kind)
  {
#define ADD(x) if (boolean) a.AddBooleanArgument(n, &x, h); else a.AddArgument(n, t, &x, h); break
  case BOOL: ADD(v.b); case INT: ADD(v.i); case DOUBLE: ADD(v.d); case CHARP: ADD(v.c); case STRING: ADD(v.s);
#undef ADD
  case VBOOL: a.AddArgument(n, t, &v.vb, h); break; case VINT: a.AddArgument(n, t, &v.vi, h); break; case VDOUBLE: a.AddArgument(n, t, &v.vd, h); break;
  case VCHARP: a.AddArgument(n, t, &v.vc, h); break; case VSTRING: a.AddArgument(n, t, &v.vs, h); break;
  default: a.AddCallback(n, t, on_argument, &v.log, h); break;
  }
}
std::string value(Src& s)
{
  static const Strs v = { "1", "0", "x", "", "two words", "3.25", "-12", "1e3", "on", "YES", "yEs", "true", "=", "a=b", "2147483647", "-2147483648", "12abc", " 7", "off", "--", "nan", "-v", "plain" };
  return s.pick(v);
}
Strs rest(CLA& a, void (CLA::*f)(int*, char***))
{
  int c = 0; char** v = nullptr; (a.*f)(&c, &v); Strs r; for (int k = 0; k < c; ++k) r.push_back(v[k]);
  a.DeleteRemainingArguments(c, &v); return r;
}
std::string join(Strs const& v) { std::string r; for (auto const& x : v) r += pbt::show(x) + " "; return r; }
}

PBT_PROP(parsed, 60000, 1500000, "at least two different registered arguments are used, or one is used twice")
{
  static const Strs pool = { "-v", "-vv", "--alpha", "--al", "--beta", "-I", "/x", "plain", "--beta-2" };
  std::deque<Var> vars; std::vector<Opt> opts; std::vector<Model> model; size_t n = 0;
  CLA a; Strs names = pool; std::ostringstream desc;
  while (!names.empty() && s.more(n, 4, 7))
  {
    size_t k = s.idx(names.size()); Opt o; o.name = names[k]; names.erase(names.begin() + long(k)); o.type = int(s.range(0, 4));
    bool share = !vars.empty() && s.chance(1, 5);
    if (share) o.var = s.idx(vars.size()); else { vars.emplace_back(); vars.back().kind = int(s.range(0, CALL)); model.push_back(Model{ vars.back().kind, {}, {} }); o.var = vars.size() - 1; if (vars.back().kind == CALL && s.chance(1, 4)) vars.back().log.fail_at = int(s.range(1, 3)); }
    o.help = "help of " + o.name; opts.push_back(o);
    s.note() << o.name << " " << std::vector<std::string>{ "none", "concat", "space", "equal", "multi" }[size_t(o.type)] << " into variable " << o.var << " kind " << vars[o.var].kind << "\n";
  }
  if (opts.empty()) throw Discard();
  for (auto const& o : opts) add(a, o, vars[o.var], o.type == NO && vars[o.var].kind <= STRING && s.flip());
  // which argument a text is: the longest name that it is, or starts with, as its type wants
  auto match = [&](std::string const& t) { long best = -1; size_t len = 0;
    for (size_t k = 0; k < opts.size(); ++k) { Opt const& o = opts[k]; bool m = o.type == NO || o.type == SPACE ? t == o.name : t.compare(0, o.name.size(), o.name) == 0; if (m && o.name.size() > len) { best = long(k); len = o.name.size(); } }
    return best; };
  // the command line
  Strs args; n = 0; std::set<size_t> used; bool twice = false;
  while (s.more(n, 4, 10))
  {
    if (s.chance(1, 6)) { args.push_back(s.pick(Strs{ "file.txt", "-", "-z", "", "--gamma=1", "alpha" })); continue; }
    Opt const& o = opts[s.idx(opts.size())]; twice |= !used.insert(size_t(&o - &opts[0])).second;
    switch (o.type)
    {
    case NO: args.push_back(o.name); break;
    case CONCAT: args.push_back(o.name + value(s)); break;
    case SPACE: args.push_back(o.name); args.push_back(value(s)); break;
    case EQUAL: args.push_back(o.name + "=" + value(s)); break;
    default: { args.push_back(o.name); size_t m = 0; while (s.more(m, 2, 4)) args.push_back(value(s)); break; }
    }
  }
  if (!args.empty() && s.chance(1, 8)) args.pop_back();
  // a text that only starts like a MULTI or EQUAL argument has no documented meaning
  for (size_t k = 0; k < args.size(); ++k)
  {
    long m = match(args[k]); if (m < 0) continue; Opt const& o = opts[size_t(m)];
    if (o.type == MULTI && args[k] != o.name) throw Discard();
    if (o.type == EQUAL && args[k].size() > o.name.size() && args[k][o.name.size()] != '=') throw Discard();
  }
  if (used.size() > 1 || twice) s.nontrivial();
  s.note() << "arguments: " << join(args) << "\n";
  int mode = int(s.range(0, 3));   // 0 nothing, 1 store unused, 2 callback that refuses, 3 callback that accepts
  UnknownLog unk; unk.answer = mode == 3; if (mode == 1) a.StoreUnusedArguments(true); if (mode >= 2) { a.SetUnknownArgumentCallback(on_unknown); a.SetClientData(&unk); }
  s.note() << "mode " << mode << "\n";
  // expected
  Strs unused, unknown; bool ok = true, stopped = false; size_t done = 0; // done: arguments parsed
  auto assign = [&](Opt const& o, std::string const& v) { Model& m = model[o.var]; m.names.push_back(o.name); m.values.push_back(v); return !(vars[o.var].kind == CALL && int(m.values.size()) == vars[o.var].log.fail_at); };
  for (size_t k = 0; ok && !stopped && k < args.size();)
  {
    long m = match(args[k]); size_t next = k + 1;
    if (m < 0)
    {
      if (mode == 0) { ok = false; break; } if (mode == 1) unused.push_back(args[k]);
      if (mode >= 2) { unknown.push_back(args[k]); if (mode == 2) { ok = false; break; } stopped = true; }
    }
    else
    {
      Opt const& o = opts[size_t(m)]; std::string tail = args[k].substr(o.name.size());
      switch (o.type)
      {
      case NO: ok = assign(o, "1"); break;
      case CONCAT: ok = assign(o, tail); break;
      case EQUAL: if (tail.empty()) ok = false; else ok = assign(o, tail.substr(1)); break;
      case SPACE: if (next >= args.size()) ok = false; else ok = assign(o, args[next++]); break;
      default: while (ok && next < args.size() && match(args[next]) < 0) { ok = assign(o, args[next]); ++next; } break;
      }
    }
    if (!ok) break;
    done = next; k = next;
  }
  // run
  std::vector<const char*> av; av.push_back("prog"); for (auto const& x : args) av.push_back(x.c_str());
  bool one_by_one = s.chance(1, 4); std::string argv0 = "prog";
  if (s.chance(1, 4))
  { // initialising again starts over
    const char* other[] = { "other", "junk", "more junk" }; a.Initialize(3, other);
    if (mode == 1 && match("junk") < 0 && match("more junk") < 0) { a.Parse(); Strs u = rest(a, &CLA::GetUnusedArguments); REQUIRE_EQ(join(u), join(Strs({ "other", "junk", "more junk" })), "unused arguments of an earlier parse"); }
  }
  if (one_by_one) { a.Initialize(); for (auto const& x : args) a.ProcessArgument(x.c_str()); }
  else a.Initialize(int(av.size()), av.data());
  int r; { Mute mute; r = a.Parse(); }
  REQUIRE_EQ(r != 0, ok, "parsed");
  s.label(ok ? stopped ? "stopped" : "ok" : "failed");
  for (size_t k = 0; k < vars.size(); ++k) REQUIRE_EQ(state(vars[k]), model[k].state(), "variable " << k);
  REQUIRE_EQ(join(unk.args), join(unknown), "unknown arguments");
  if (!one_by_one) REQUIRE_EQ(std::string(a.GetArgv0()), argv0, "program name");
  if (mode == 1) { Strs u = rest(a, &CLA::GetUnusedArguments); REQUIRE(!u.empty(), "program name first"); REQUIRE_EQ(join(Strs(u.begin() + 1, u.end())), join(unused), "unused arguments"); }
  if (!stopped && !args.empty())
  { // what was not parsed remains; after a failure that is from the argument or from its value that failed on
    Strs left = rest(a, &CLA::GetRemainingArguments); REQUIRE(!left.empty(), "program name first"); left.erase(left.begin());
    if (ok) { REQUIRE_EQ(join(left), "", "remaining arguments"); REQUIRE_EQ(size_t(a.GetLastArgument()), args.size(), "index of the last argument"); }
    else
    {
      REQUIRE(left.size() <= args.size() - done && std::equal(left.begin(), left.end(), args.end() - long(left.size())), "remaining arguments " << join(left));
      REQUIRE_EQ(size_t(a.GetLastArgument()) + left.size(), args.size(), "index of the last argument");
      if (match(args[done]) < 0) REQUIRE_EQ(left.size(), args.size() - done, "everything from the unknown argument remains");
    }
  }
}

PBT_PROP(help, 30000, 600000, "an alias and a text that has to be split")
{
  CLA a; static int sink; size_t n = 0; std::deque<Opt> opts; std::map<std::string, Strs> groups; std::map<std::string, std::string> text; bool alias = false, split = false;
  unsigned line = 80; 
  auto words = [&](unsigned avg) { std::string t; size_t m = 0; while (s.more(m, avg, 40)) { if (!t.empty() || s.chance(1, 12)) t += std::string(size_t(s.chance(1, 6) ? s.range(2, 4) : 1), s.chance(1, 10) ? '\t' : ' '); t += std::string(size_t(s.range(1, 8)), char('a' + s.range(0, 25))); } if (s.chance(1, 10)) t += std::string(size_t(s.range(1, 3)), ' '); return t; };
  std::set<std::string> have; auto mayset = [&]() { if (s.chance(1, 3)) { unsigned l = unsigned(s.pick(std::vector<int>{ 80, 20, 30, 40, 9, 8, 0, 100, 1000, 1001, 13, 16 })); a.SetLineLength(l); if (l >= 9 && l <= 1000) line = l; } };
  while (s.more(n, 4, 8))
  {
    std::string name = (s.flip() ? "--" : "-") + std::string(size_t(s.chance(1, 12) ? s.range(60, 200) : s.range(1, 9)), char('a' + s.range(0, 25)));
    if (!have.insert(name).second) continue;
    opts.push_back(Opt()); Opt& o = opts.back(); o.name = name; o.type = int(s.range(0, 4));
    if (!groups.empty() && s.chance(1, 4)) { auto it = groups.begin(); std::advance(it, long(s.idx(groups.size()))); o.help = it->first; it->second.push_back(name); alias = true; }
    else { o.help = words(7); if (s.chance(1, 15)) o.help.clear(); groups[name].push_back(name); text[name] = o.help; }
    mayset(); a.AddArgument(o.name.c_str(), types[o.type], &sink, o.help.c_str());
    s.note() << o.name << " " << o.type << " " << pbt::show(o.help) << "\n";
  }
  if (opts.empty()) throw Discard();
  mayset(); s.note() << "line length " << line << "\n"; 
  for (auto& g : groups) for (auto const& m : g.second) { const char* h = a.GetHelp(m.c_str()); REQUIRE(h && text[g.first] == h, "help of " << m); }
  REQUIRE(a.GetHelp("--nothing") == nullptr, "help of an argument that is none");
  static const char* const suffix[] = { "", "opt", " opt", "=opt", " opt opt ..." };
  size_t column = 0; for (auto const& o : opts) column = std::max(column, o.name.size() + strlen(suffix[o.type]));
  std::string h = a.GetHelp(); s.note() << h << "\n";
  // the words of the whole text: for each group its names, sorted, and the help text
  Strs want; auto put = [&](std::string const& t) { std::istringstream i(t); std::string w; while (i >> w) want.push_back(w); };
  size_t longest = 0;
  for (auto& g : groups)
  {
    std::sort(g.second.begin(), g.second.end());
    for (auto const& m : g.second) for (auto const& o : opts) if (o.name == m) put(o.name + suffix[o.type]);
    std::istringstream i(text[g.first]); std::string w; while (i >> w) { want.push_back(w); longest = std::max(longest, w.size()); }
    split |= column + 4 + text[g.first].size() > line;
  }
  if (alias && split) s.nontrivial();
  bool narrow = column + 4 < line && line - column - 4 <= longest + 1;   // words do not fit and are cut
  Strs got; { std::istringstream i(h); std::string w; while (i >> w) got.push_back(w); }
  if (!narrow) REQUIRE_EQ(join(got), join(want), "words of the help");
  else { std::string g, w; for (auto const& x : got) g += x; for (auto const& x : want) w += x; REQUIRE_EQ(g, w, "characters of the help"); }
  if (column + 4 < line) { std::istringstream i(h); std::string l; while (std::getline(i, l)) REQUIRE(l.size() <= line, "line of " << l.size() << " characters: " << l); }
}
