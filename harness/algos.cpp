// C19: registry of algorithms, creation, and configuration of nested algorithms, against a model.
#include "vital_common.hpp"
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
#include <vital/algo/analyze_tracks.h>
#include <vital/registrar.h>
#include <algorithm>

namespace kv = kwiver::vital;
using namespace pbt;
typedef std::shared_ptr<kv::algorithm> aptr;

// Definition types whose names are prefixes of each other.
struct def_a : kv::algorithm_def<def_a> { static std::string static_type_name() { return "shape"; } virtual int value() const = 0; };
struct def_b : kv::algorithm_def<def_b> { static std::string static_type_name() { return "shape_ext"; } virtual int value() const = 0; };
struct def_c : kv::algorithm_def<def_c> { static std::string static_type_name() { return "sha"; } virtual int value() const = 0; };
static char const* const TYPES[] = { "shape", "shape_ext", "sha" };

// description of one registered implementation
struct ImplSpec {
  int type; std::string name, descr; int k;
  std::vector<std::pair<std::string, int>> slots; // nested algorithms: key, type
  bool plain;                                      // leaves the base configuration as it is
};

static aptr make_nested(int t, std::string const& name) { return kv::algorithm::create(TYPES[t], name); }

struct core {
  ImplSpec spec; int k; std::vector<std::shared_ptr<def_a>> na; std::vector<std::shared_ptr<def_b>> nb; std::vector<std::shared_ptr<def_c>> nc;
  explicit core(ImplSpec const& s) : spec(s), k(s.k), na(s.slots.size()), nb(s.slots.size()), nc(s.slots.size()) {}
  aptr nested(size_t i) const { int t = spec.slots[i].second; return t == 0 ? aptr(na[i]) : t == 1 ? aptr(nb[i]) : aptr(nc[i]); }
  void get(kv::config_block_sptr c) const
  {
    if (spec.plain) return;
    c->set_value("k", k, "the value");
    for (size_t i = 0; i < spec.slots.size(); ++i)
    {
      std::string const& n = spec.slots[i].first;
      switch (spec.slots[i].second)
      {
      case 0: def_a::get_nested_algo_configuration(n, c, na[i]); break;
      case 1: def_b::get_nested_algo_configuration(n, c, nb[i]); break;
      default: def_c::get_nested_algo_configuration(n, c, nc[i]);
      }
    }
  }
  void set(kv::config_block_sptr c)
  {
    if (spec.plain) return;
    k = c->get_value<int>("k", k);
    for (size_t i = 0; i < spec.slots.size(); ++i)
    {
      std::string const& n = spec.slots[i].first;
      switch (spec.slots[i].second)
      {
      case 0: def_a::set_nested_algo_configuration(n, c, na[i]); break;
      case 1: def_b::set_nested_algo_configuration(n, c, nb[i]); break;
      default: def_c::set_nested_algo_configuration(n, c, nc[i]);
      }
    }
  }
  bool check(kv::config_block_sptr c) const
  {
    if (spec.plain) return true;
    if (!c->has_value("k") || c->get_value<int>("k") < 0) return false;
    for (size_t i = 0; i < spec.slots.size(); ++i)
    {
      std::string const& n = spec.slots[i].first;
      bool ok = spec.slots[i].second == 0 ? def_a::check_nested_algo_configuration(n, c) : spec.slots[i].second == 1 ? def_b::check_nested_algo_configuration(n, c) : def_c::check_nested_algo_configuration(n, c);
      if (!ok) return false;
    }
    return true;
  }
};

template <typename D>
struct impl : kv::algorithm_impl<impl<D>, D> {
  core c;
  impl() : c(ImplSpec()) {}
  explicit impl(ImplSpec const& s) : c(s) {}
  std::string impl_name() const { return c.spec.name; }
  std::string description() const { return c.spec.descr; }
  kv::config_block_sptr get_configuration() const { kv::config_block_sptr r = D::get_configuration(); c.get(r); return r; }
  void set_configuration(kv::config_block_sptr cfg) { c.set(cfg); }
  bool check_configuration(kv::config_block_sptr cfg) const { return c.check(cfg); }
  int value() const { return c.k; }
};

static core const& core_of(aptr a)
{
  if (auto p = dynamic_cast<impl<def_a> const*>(a.get())) return p->c;
  if (auto p = dynamic_cast<impl<def_b> const*>(a.get())) return p->c;
  if (auto p = dynamic_cast<impl<def_c> const*>(a.get())) return p->c;
  throw Fail("an algorithm of an unexpected class");
}

// --- model -------------------------------------------------------------
struct Alg; typedef std::shared_ptr<Alg> malg;
struct Alg { ImplSpec spec; int k; std::vector<malg> sub; };
typedef std::map<std::pair<int, std::string>, ImplSpec> Registry; // what create() starts from

static malg fresh(ImplSpec const& s) { malg a(new Alg); a->spec = s; a->k = s.k; a->sub.resize(s.slots.size()); return a; }

static void model_get(Alg const& a, std::string const& pre, std::map<std::string, std::string>& out)
{
  if (a.spec.plain) return;
  out[pre + "k"] = std::to_string(a.k);
  for (size_t i = 0; i < a.sub.size(); ++i)
  {
    std::string p = pre + a.spec.slots[i].first + ":";
    out[p + "type"] = a.sub[i] ? a.sub[i]->spec.name : "";
    if (a.sub[i]) model_get(*a.sub[i], p + a.sub[i]->spec.name + ":", out);
  }
}
typedef std::map<std::string, std::string> Conf;
static void model_set(Registry const& r, Alg& a, Conf const& c, std::string const& pre)
{
  if (a.spec.plain) return;
  auto i = c.find(pre + "k"); if (i != c.end()) a.k = atoi(i->second.c_str());
  for (size_t s = 0; s < a.sub.size(); ++s)
  {
    std::string p = pre + a.spec.slots[s].first + ":";
    auto t = c.find(p + "type"); if (t == c.end()) continue;
    auto m = r.find(std::make_pair(a.spec.slots[s].second, t->second)); if (m == r.end()) continue;
    a.sub[s] = fresh(m->second);
    model_set(r, *a.sub[s], c, p + t->second + ":");
  }
}
static bool model_check(Registry const& r, ImplSpec const& s, Conf const& c, std::string const& pre, int depth)
{
  if (s.plain) return true;
  auto i = c.find(pre + "k"); if (i == c.end() || atoi(i->second.c_str()) < 0) return false;
  for (auto const& sl : s.slots)
  {
    std::string p = pre + sl.first + ":";
    auto t = c.find(p + "type"); if (t == c.end()) return false;
    auto m = r.find(std::make_pair(sl.second, t->second)); if (m == r.end()) return false;
    if (!model_check(r, m->second, c, p + t->second + ":", depth + 1)) return false;
  }
  return true;
}
static Conf as_map(kv::config_block_sptr c) { Conf m; for (auto const& k : c->available_values()) m[k] = c->get_value<std::string>(k); return m; }
static std::string text(Conf const& m) { std::string r; for (auto const& e : m) r += e.first + " = " + e.second + "; "; return r; }
static kv::config_block_sptr as_block(Conf const& m) { kv::config_block_sptr c = kv::config_block::empty_config("t"); for (auto const& e : m) c->set_value(e.first, e.second); return c; }

static void same_tree(aptr a, Alg const& m)
{
  REQUIRE(a, "no algorithm where one is expected: " << m.spec.name);
  REQUIRE_EQ(a->impl_name(), m.spec.name, "implementation");
  REQUIRE_EQ(a->type_name(), std::string(TYPES[m.spec.type]), "type");
  core const& c = core_of(a);
  REQUIRE_EQ(c.k, m.k, "value of " << m.spec.name);
  REQUIRE_EQ(c.spec.slots.size(), m.spec.slots.size(), "stale implementation of " << m.spec.name);
  for (size_t i = 0; i < m.sub.size(); ++i)
    if (m.sub[i]) same_tree(c.nested(i), *m.sub[i]); else REQUIRE(!c.nested(i), "an unset nested algorithm");
}

static std::string gen_name(Src& s)
{
  static const std::vector<std::string> n = { "ocv", "ocvx", "oc", "a", "aa", "core.v2", "x-y", "Z_1", "type" };
  return s.pick(n);
}

static std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
static std::string join(std::vector<std::string> const& v) { std::string r; for (auto const& x : v) r += x + " "; return r; }

static bool register_one(ImplSpec const& sp)
{
  kv::registrar& r = kv::registrar::instance();
  switch (sp.type)
  {
  case 0: return kv::algorithm_def<def_a>::register_instance(r, std::make_shared<impl<def_a>>(sp));
  case 1: return kv::algorithm_def<def_b>::register_instance(r, std::make_shared<impl<def_b>>(sp));
  default: return kv::algorithm_def<def_c>::register_instance(r, std::make_shared<impl<def_c>>(sp));
  }
}

static void audit(Registry const& reg)
{
  std::vector<std::string> all; std::vector<std::string> per[3];
  for (auto const& e : reg) { all.push_back(std::string(TYPES[e.first.first]) + ":" + e.first.second); per[e.first.first].push_back(e.first.second); }
  REQUIRE_EQ(join(sorted(kv::algorithm::registered_names())), join(sorted(all)), "names of all types");
  REQUIRE_EQ(join(sorted(kv::algorithm::registered_names(""))), join(sorted(all)), "names of all types");
  for (int t = 0; t < 3; ++t)
  {
    REQUIRE_EQ(join(sorted(kv::algorithm::registered_names(TYPES[t]))), join(sorted(per[t])), "names of type " << TYPES[t]);
    REQUIRE_EQ(kv::algorithm::has_type_name(TYPES[t]), !per[t].empty(), "has_type_name " << TYPES[t]);
  }
  REQUIRE_EQ(join(sorted(def_a::registered_names())), join(sorted(per[0])), "names of the definition");
  REQUIRE_EQ(join(sorted(def_b::registered_names())), join(sorted(per[1])), "names of the definition");
  REQUIRE_EQ(join(sorted(def_c::registered_names())), join(sorted(per[2])), "names of the definition");
  REQUIRE(!kv::algorithm::has_type_name("shap"), "not a type");
  REQUIRE(!kv::algorithm::has_type_name("shape_"), "not a type");
}

PBT_PROP_ISOLATED(algorithm_model, 6000, 100000, "an algorithm with a nested algorithm was configured and at least two implementations are registered")
{
  Registry reg;
  struct Live { aptr a; malg m; };
  std::vector<Live> live;
  size_t n = 0; bool deep = false;
  // implementations only nest types "above" them by registration order, so checks end
  while (s.more(n, 24, 40))
  {
    switch (s.weighted({5, 4, 2, 4, 3, 3, 1}))
    {
    case 0: { // register (or replace) an implementation
      ImplSpec sp; sp.type = s.weighted({3, 2, 2}); sp.name = gen_name(s); sp.k = s.range(0, 9); sp.plain = s.chance(1, 6);
      if (s.flip()) sp.descr = "does " + sp.name;
      size_t ns = s.weighted({1, 4, 2});
      if (!sp.plain) for (size_t i = 0; i < ns && sp.type < 2; ++i)
      {
        std::string key = i == 0 ? (s.flip() ? "inner" : "algo:first") : "other";
        sp.slots.push_back(std::make_pair(key, int(s.range(sp.type + 1, 2))));
      }
      s.note() << "register " << TYPES[sp.type] << ":" << sp.name << " k=" << sp.k << " slots=" << sp.slots.size() << (sp.plain ? " plain" : "") << "\n";
      REQUIRE(register_one(sp), "registration of an instance");
      if (reg.count(std::make_pair(sp.type, sp.name))) s.label("replaced");
      reg[std::make_pair(sp.type, sp.name)] = sp;
      break; }
    case 1: { // create
      int t = s.idx(3); std::string name = gen_name(s); bool typed = s.flip();
      if (!reg.empty() && !s.chance(1, 4)) { auto i = reg.begin(); std::advance(i, s.idx(reg.size())); t = i->first.first; name = i->first.second; }
      s.note() << "create " << TYPES[t] << ":" << name << (typed ? " typed" : "") << "\n";
      aptr a;
      if (!typed) a = kv::algorithm::create(TYPES[t], name);
      else if (t == 0) a = def_a::create(name); else if (t == 1) a = def_b::create(name); else a = def_c::create(name);
      auto r = reg.find(std::make_pair(t, name));
      REQUIRE_EQ(bool(a), r != reg.end(), "create");
      REQUIRE_EQ(kv::algorithm::has_impl_name(TYPES[t], name), r != reg.end(), "has_impl_name");
      bool hi = t == 0 ? def_a::has_impl_name(name) : t == 1 ? def_b::has_impl_name(name) : def_c::has_impl_name(name);
      REQUIRE_EQ(hi, r != reg.end(), "has_impl_name of the definition");
      if (a) { Live l; l.a = a; l.m = fresh(r->second); same_tree(a, *l.m); live.push_back(l); }
      break; }
    case 2: { // clone a live one
      if (live.empty()) break;
      Live const& o = live[s.idx(live.size())]; Live l;
      s.note() << "clone " << o.m->spec.name << "\n";
      l.a = o.a->base_clone(); REQUIRE(l.a && l.a != o.a, "a clone is another object");
      l.m.reset(new Alg(*o.m)); same_tree(l.a, *l.m); live.push_back(l);
      break; }
    case 3: case 4: { // configure a live one from a configuration (possibly of another live one, edited)
      if (live.empty()) break;
      Live& l = live[s.idx(live.size())]; Live const& from = live[s.idx(live.size())];
      Conf c; model_get(*from.m, "", c);
      if (s.flip())
      { // fill a type by hand
        Alg const* m = l.m.get(); std::string pre;
        for (int depth = 0; depth < 3; ++depth)
        {
          if (m->spec.slots.empty()) break;
          auto const& sl = m->spec.slots[s.idx(m->spec.slots.size())];
          std::vector<ImplSpec const*> cand; for (auto const& e : reg) if (e.first.first == sl.second) cand.push_back(&e.second);
          if (cand.empty()) break;
          ImplSpec const* is = cand[s.idx(cand.size())];
          c[pre + sl.first + ":type"] = is->name; pre += sl.first + ":" + is->name + ":";
          c[pre + "k"] = std::to_string(s.range(-1, 99));
          static std::vector<malg> keep; keep.push_back(fresh(*is)); m = keep.back().get();
        }
      }
      size_t e = 0;
      while (!c.empty() && s.more(e, 1, 4))
      { auto i = c.begin(); std::advance(i, s.idx(c.size())); if (s.flip()) c.erase(i); else if (i->first.size() > 4 && i->first.substr(i->first.size() - 4) == "type") i->second = gen_name(s); else i->second = std::to_string(s.range(-5, 50)); }
      s.note() << "set_configuration of " << l.m->spec.name << ": " << text(c) << "\n";
      kv::config_block_sptr b = as_block(c);
      bool viewed = s.chance(1, 3);
      if (viewed) { kv::config_block_sptr top = kv::config_block::empty_config("top"); top->subblock_view("pipe:step")->merge_config(b); top->set_value("k", "12345"); top->set_value("inner:type", "nonsense"); b = top->subblock_view("pipe:step"); }
      auto check = [&](kv::config_block_sptr bb) {
        bool want = model_check(reg, l.m->spec, c, "", 0);
        s.label(want ? "valid configuration" : "invalid configuration");
        REQUIRE_EQ(l.a->check_configuration(bb), want, "check of " << text(c));
      };
      check(b);
      l.a->set_configuration(b);
      REQUIRE_EQ(text(as_map(b)), text(c), "the configuration given is unchanged");
      model_set(reg, *l.m, c, "");
      same_tree(l.a, *l.m);
      for (auto const& x : l.m->sub) if (x) { deep = true; for (auto const& y : x->sub) if (y) s.label("three levels"); }
      break; }
    case 5: { // get the configuration, and round trip
      if (live.empty()) break;
      Live const& l = live[s.idx(live.size())];
      Conf want; model_get(*l.m, "", want);
      kv::config_block_sptr c = l.a->get_configuration();
      REQUIRE_EQ(text(as_map(c)), text(want), "configuration of " << l.m->spec.name);
      REQUIRE_EQ(c->get_name(), std::string(TYPES[l.m->spec.type]), "name of the configuration");
      for (size_t i = 0; i < l.m->sub.size(); ++i)
      {
        std::string d = c->get_description(l.m->spec.slots[i].first + ":type");
        std::istringstream is(d); std::set<std::string> lines; std::string ln; while (std::getline(is, ln)) lines.insert(ln);
        size_t cnt = 0;
        for (auto const& e : reg) if (e.first.first == l.m->spec.slots[i].second)
        { ++cnt; std::string x = "\t- " + e.first.second; if (!e.second.descr.empty()) x += " :: " + e.second.descr; REQUIRE(lines.count(x), "option " << x << " is described in " << show(d)); }
        size_t opt = 0; for (auto const& x : lines) opt += x.compare(0, 3, "\t- ") == 0;
        REQUIRE_EQ(opt, cnt, "options described in " << show(d));
      }
      auto r = reg.find(std::make_pair(l.m->spec.type, l.m->spec.name));
      aptr b = kv::algorithm::create(TYPES[l.m->spec.type], l.m->spec.name);
      REQUIRE(b && r != reg.end(), "a registered algorithm can be made again");
      malg bm = fresh(r->second); b->set_configuration(c); model_set(reg, *bm, want, ""); same_tree(b, *bm);
      break; }
    default: { // nothing to register; unknown switch leaves the algorithm
      REQUIRE(!kv::algorithm_def<def_a>::register_instance(kv::registrar::instance(), std::shared_ptr<def_a>()), "no instance to register");
      kv::config_block_sptr c = kv::config_block::empty_config("x");
      if (s.flip()) c->set_value("n:type", "no_such");
      std::shared_ptr<def_a> p; for (auto const& l : live) if (auto q = std::dynamic_pointer_cast<def_a>(l.a)) p = q;
      std::shared_ptr<def_a> before = p;
      def_a::set_nested_algo_configuration("n", c, p);
      REQUIRE(p == before, "the nested algorithm stays without a valid type");
      REQUIRE(!def_a::check_nested_algo_configuration("n", c), "no valid type");
      // get without an algorithm keeps a type that is there
      Conf m0 = as_map(c); def_a::get_nested_algo_configuration("n", c, std::shared_ptr<def_a>());
      if (!m0.count("n:type")) m0["n:type"] = "";
      REQUIRE_EQ(text(as_map(c)), text(m0), "get_nested without an algorithm");
      break; }
    }
    audit(reg);
    for (auto const& l : live) same_tree(l.a, *l.m); // nothing else changed
    for (int t = 0; t < 3; ++t)
    {
      Conf want;
      for (auto const& e : reg) if (e.first.first == t) model_get(*fresh(e.second), e.first.second + ":", want);
      kv::config_block_sptr c = t == 0 ? def_a::get_impl_configurations() : t == 1 ? def_b::get_impl_configurations() : def_c::get_impl_configurations();
      REQUIRE_EQ(text(as_map(c)), text(want), "configurations of all implementations of " << TYPES[t]);
    }
  }
  if (deep && reg.size() >= 2) s.nontrivial();
}

PBT_INIT() { quiet_all(); }
