// C01 / C02: the config block against a reference store (stateful, model based)
#include "vital_common.hpp"
#include <vital/config/config_block.h>
#include <algorithm>
#include <memory>

using namespace kwiver::vital;
using pbt::Src;
using pbt::show;

PBT_INIT() { quiet_all(); }

namespace {

struct Entry { std::string value, descr; };
struct Model {
  std::map<std::string, Entry> kv;
  std::set<std::string> ro;
  std::map<std::string, std::pair<std::string, int> > loc; // known locations only
};
typedef std::shared_ptr<Model> ModelP;

struct Handle { config_block_sptr cb; ModelP m; bool view; std::string prefix; };

bool starts(std::string const& s, std::string const& p) { return s.compare(0, p.size(), p) == 0; }

std::string resolve(Handle const& h, std::string const& k)
{
  if (!h.view || starts(k, "_global:")) return k;
  return h.prefix + ":" + k;
}

std::string trim(std::string s)
{
  char const* ws = " \t\n\v\f\r";
  size_t b = s.find_first_not_of(ws);
  if (b == std::string::npos) return "";
  size_t e = s.find_last_not_of(ws);
  return s.substr(b, e - b + 1);
}

std::vector<std::string> visible(Handle const& h)
{
  std::vector<std::string> r;
  for (auto const& e : h.m->kv)
  {
    if (!h.view) r.push_back(e.first);
    else if (starts(e.first, h.prefix + ":")) r.push_back(e.first.substr(h.prefix.size() + 1));
    else if (starts(e.first, "_global:")) r.push_back(e.first);
  }
  std::sort(r.begin(), r.end());
  return r;
}

std::string gen_component(Src& s)
{
  static const std::vector<std::string> c = {"a", "b", "ab", "a1", "sub", "x"};
  return s.pick(c);
}

std::string gen_key(Src& s)
{
  std::string k = gen_component(s);
  size_t n = 0;
  while (s.more(n, 1, 3)) k += ":" + gen_component(s);
  if (s.chance(1, 10)) k = "_global:" + k;
  return k;
}

std::string gen_name(Src& s)
{
  std::string k = gen_component(s);
  if (s.chance(1, 4)) k += ":" + gen_component(s);
  return k;
}

std::string gen_text(Src& s, bool pad)
{
  static const std::vector<std::string> w = {"", "v", "value", "1", "two words", "a:b", "$x", "=", "#", "\xc3\xa9", "tab\tin", "line\nin", "0.5"};
  std::string r = s.pick(w);
  if (s.chance(1, 3)) r += static_cast<char>(s.range(33, 126));
  if (pad && s.chance(1, 3))
  {
    static const std::vector<std::string> ws = {" ", "\t", "  ", "\n", "\r\n", " \v\f "};
    if (s.flip()) r = s.pick(ws) + r;
    if (s.flip()) r += s.pick(ws);
  }
  return r;
}

void check_key(Handle const& h, std::string const& k)
{
  std::string rk = resolve(h, k);
  auto it = h.m->kv.find(rk);
  bool has = it != h.m->kv.end();
  REQUIRE_EQ(h.cb->has_value(k), has, "presence of " << show(k) << " seen as " << show(rk));
  REQUIRE_EQ(h.cb->is_read_only(k), h.m->ro.count(rk) != 0, "read-only mark of " << show(rk) << " via " << show(k));
  if (has)
  {
    REQUIRE_EQ(h.cb->get_value<std::string>(k), it->second.value, "value of " << show(rk) << " via " << show(k));
    REQUIRE_EQ(h.cb->get_value<std::string>(k, std::string("dflt?")), it->second.value, "defaulted read of present key " << show(rk));
    REQUIRE_EQ(h.cb->get_description(k), it->second.descr, "description of " << show(rk) << " via " << show(k));
    auto l = h.m->loc.find(rk);
    if (l != h.m->loc.end())
    {
      std::string f; int line = -1;
      REQUIRE(h.cb->get_location(k, f, line), "location of " << show(rk) << " via " << show(k));
      REQUIRE(f == l->second.first && line == l->second.second, "location of " << show(rk));
    }
  }
  else
  {
    bool threw = false;
    try { h.cb->get_value<std::string>(k); } catch (no_such_configuration_value_exception const&) { threw = true; }
    REQUIRE(threw, "reading absent key " << show(rk) << " must throw");
    threw = false;
    try { h.cb->get_description(k); } catch (no_such_configuration_value_exception const&) { threw = true; }
    REQUIRE(threw, "description of absent key " << show(rk) << " must throw");
    REQUIRE_EQ(h.cb->get_value<std::string>(k, std::string("dflt?")), std::string("dflt?"), "defaulted read of absent key");
    REQUIRE_EQ(h.cb->get_value<int>(k, 42), 42, "defaulted read of absent key");
    std::string f("keep"); int line = -7;
    REQUIRE(!h.cb->get_location(k, f, line), "absent key " << show(rk) << " has a location");
    REQUIRE(f == "keep" && line == -7, "location outputs changed for a key without location");
  }
}

void check_handle(Handle const& h, std::vector<std::string> const& probes)
{
  std::vector<std::string> got = h.cb->available_values();
  std::sort(got.begin(), got.end());
  std::vector<std::string> want = visible(h);
  std::string gs, ws; for (auto const& k : got) gs += show(k) + " "; for (auto const& k : want) ws += show(k) + " ";
  REQUIRE_EQ(gs, ws, "listed keys of " << (h.view ? "view " + show(h.prefix) : std::string("block")));
  for (auto const& k : want) check_key(h, k);
  for (auto const& k : probes) check_key(h, k);
}

void resync(Model& m, config_block_sptr root)
{
  m.kv.clear();
  for (auto const& k : root->available_values()) { Entry e = {root->get_value<std::string>(k), root->get_description(k)}; m.kv[k] = e; }
}

void run(Src& s, bool with_ro)
{
  std::vector<Handle> hs;
  { Handle h = {config_block::empty_config(), std::make_shared<Model>(), false, ""}; hs.push_back(h); }
  std::vector<std::string> probes;
  for (int i = 0; i < 3; ++i) probes.push_back(gen_key(s));
  size_t n = 0; bool did_view_write = false, did_merge = false, did_ro_refusal = false, did_unset = false;
  // seed a few entries so that early steps are not all misses
  while (s.more(n, 12, 60))
  {
    Handle& h = hs[s.idx(hs.size())];
    static const std::vector<unsigned> w_no = {8, 3, 2, 3, 2, 2, 1, 1, 0, 1}, w_ro = {8, 2, 2, 2, 1, 3, 1, 1, 4, 1};
    size_t op = s.weighted(with_ro ? w_ro : w_no);
    auto key = [&]() -> std::string {
      std::vector<std::string> v = visible(h);
      if (!v.empty() && s.chance(1, 2)) return v[s.idx(v.size())];
      return s.chance(1, 2) ? s.pick(probes) : gen_key(s); };
    switch (op)
    {
    case 0: // set
    {
      std::string k = key(), rk = resolve(h, k), v = gen_text(s, true), d = s.flip() ? gen_text(s, false) : "";
      int form = s.range(0, 3);
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".set(" << show(k) << ", " << show(v) << ", descr=" << show(d) << ", form " << form << ")\n";
      std::string stored = trim(v);
      bool refused = false;
      try
      {
        if (form == 0) { h.cb->set_value(k, v, d); }
        else if (form == 1) { h.cb->set_value(k, v); d = ""; }
        else if (form == 2) { int iv = static_cast<int>(s.integer(-100000, 100000)); stored = std::to_string(iv); h.cb->set_value(k, iv, d); }
        else { bool b = s.flip(); stored = b ? "true" : "false"; h.cb->set_value(k, b, d); }
      }
      catch (set_on_read_only_value_exception const&) { refused = true; }
      REQUIRE_EQ(refused, h.m->ro.count(rk) != 0, "setting " << show(rk) << " refused iff it is read-only");
      if (refused) did_ro_refusal = true;
      else
      {
        if (h.view) did_view_write = true;
        Entry& e = h.m->kv[rk];
        e.value = stored;
        if (!d.empty()) e.descr = d;
        h.m->loc.erase(rk);
      }
      break;
    }
    case 1: // unset
    {
      std::string k = key(), rk = resolve(h, k);
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".unset(" << show(k) << ")\n";
      int got = 0;
      try { h.cb->unset_value(k); }
      catch (unset_on_read_only_value_exception const&) { got = 1; }
      catch (no_such_configuration_value_exception const&) { got = 2; }
      int want = h.m->ro.count(rk) ? 1 : h.m->kv.count(rk) ? 0 : 2;
      REQUIRE_EQ(got, want, "unset of " << show(rk) << " (0 done, 1 refused as read-only, 2 no such key)");
      if (got == 0) { h.m->kv.erase(rk); h.m->loc.erase(rk); did_unset = true; }
      if (got == 1) did_ro_refusal = true;
      break;
    }
    case 2: // view
    {
      if (hs.size() >= 7) break;
      std::string name = gen_name(s);
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".subblock_view(" << show(name) << ")\n";
      Handle v = {h.cb->subblock_view(name), h.m, true, h.view ? h.prefix + ":" + name : name};
      REQUIRE_EQ(v.cb->get_name(), name, "name of a view");
      hs.push_back(v);
      break;
    }
    case 3: // merge
    {
      Handle& o = hs[s.idx(hs.size())];
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".merge(" << (o.view ? "view(" + o.prefix + ")" : "block") << (o.m == h.m ? ", same store" : "") << ")\n";
      std::vector<std::string> keys = visible(o);
      Model before = *h.m;
      bool hits_ro = false;
      std::map<std::string, Entry> incoming;
      for (auto const& k : keys) { incoming[resolve(h, k)] = o.m->kv[resolve(o, k)]; hits_ro = hits_ro || h.m->ro.count(resolve(h, k)); }
      bool refused = false;
      if (o.m == h.m && h.view != o.view) break; // overlapping views of one store: order dependent
      if (o.m == h.m && h.prefix != o.prefix) break;
      try { h.cb->merge_config(o.cb); } catch (set_on_read_only_value_exception const&) { refused = true; }
      REQUIRE_EQ(refused, hits_ro, "merge refused iff an incoming key is read-only here");
      did_merge = did_merge || !keys.empty();
      for (auto const& e : incoming)
      {
        Entry want = e.second;
        auto old = before.kv.find(e.first);
        if (old != before.kv.end() && want.descr.empty()) want.descr = old->second.descr;
        if (!refused) { h.m->kv[e.first] = want; h.m->loc.erase(e.first); }
      }
      if (refused)
      {
        did_ro_refusal = true;
        // partially complete: every key is either untouched or has the incoming entry; read-only keys are untouched
        config_block_sptr root; for (auto& r : hs) if (r.m == h.m && !r.view) root = r.cb;
        Model now; resync(now, root);
        for (auto const& e : now.kv)
        {
          auto old = before.kv.find(e.first); auto in = incoming.find(e.first);
          bool same = old != before.kv.end() && old->second.value == e.second.value && old->second.descr == e.second.descr;
          bool merged = in != incoming.end() && !before.ro.count(e.first) && in->second.value == e.second.value;
          REQUIRE(same || merged, "after a refused merge key " << show(e.first) << " has neither its old nor the incoming entry");
        }
        for (auto const& e : before.kv) REQUIRE(now.kv.count(e.first), "a refused merge dropped key " << show(e.first));
        h.m->kv = now.kv; h.m->loc.clear();
      }
      break;
    }
    case 4: // snapshot
    {
      if (hs.size() >= 7) break;
      std::string name = s.chance(1, 4) && h.view == false ? std::string("_global") : gen_name(s);
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".subblock(" << show(name) << ")\n";
      Handle c = {h.cb->subblock(name), std::make_shared<Model>(), false, ""};
      for (auto const& k : visible(h))
      {
        Entry const& e = h.m->kv[resolve(h, k)];
        if (starts(k, name + ":")) c.m->kv[k.substr(name.size() + 1)] = e;
        else if (starts(k, "_global:")) c.m->kv[k] = e;
      }
      REQUIRE_EQ(c.cb->get_name(), name, "name of a subblock");
      hs.push_back(c);
      break;
    }
    case 5: // fresh block
    {
      if (hs.size() >= 7) break;
      s.note() << "new block\n";
      Handle c = {config_block::empty_config("named"), std::make_shared<Model>(), false, ""};
      REQUIRE_EQ(c.cb->get_name(), std::string("named"), "name");
      size_t m = 0;
      while (s.more(m, 3, 10)) { std::string k = gen_key(s), v = gen_text(s, false), d = gen_text(s, false); c.cb->set_value(k, v, d); Entry& e = c.m->kv[k]; e.value = trim(v); if (!d.empty()) e.descr = d; s.note() << "   .set(" << show(k) << ", " << show(v) << ", " << show(d) << ")\n"; }
      hs.push_back(c);
      break;
    }
    case 6: // location of an existing key
    {
      std::vector<std::string> v = visible(h);
      if (v.empty()) break;
      std::string k = v[s.idx(v.size())]; int line = s.range(1, 99);
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".set_location(" << show(k) << ", f.conf, " << line << ")\n";
      h.cb->set_location(k, std::make_shared<std::string>("f.conf"), line);
      h.m->loc[resolve(h, k)] = std::make_pair(std::string("f.conf"), line);
      break;
    }
    case 7: // print lists exactly the entries
    {
      std::ostringstream o; h.cb->print(o);
      std::string t = o.str();
      for (auto const& k : visible(h))
      {
        std::string line = k + (h.m->ro.count(resolve(h, k)) ? "[RO]" : "") + " = " + h.m->kv[resolve(h, k)].value;
        REQUIRE(("\n" + t).find("\n" + line) != std::string::npos, "printed form lacks " << show(line) << " in " << show(t));
      }
      break;
    }
    case 8: // mark read-only
    {
      std::string k = key();
      s.note() << (h.view ? "view(" + h.prefix + ")" : "block") << ".mark_read_only(" << show(k) << ")\n";
      h.cb->mark_read_only(k);
      h.m->ro.insert(resolve(h, k));
      break;
    }
    case 9: // a view keeps its store alive
    {
      break;
    }
    }
    for (auto const& x : hs) check_handle(x, probes);
  }
  if (did_view_write) s.label("write through a view");
  if (did_merge) s.label("merge");
  if (did_unset) s.label("unset");
  if (did_ro_refusal) s.label("read-only refusal");
  size_t entries = 0; for (auto const& h : hs) entries += h.view ? 0 : h.m->kv.size();
  if (with_ro ? did_ro_refusal : (hs.size() > 1 && entries >= 2)) s.nontrivial();
  // drop the root handles: views must keep working on the shared store
  if (s.chance(1, 3))
  {
    std::vector<Handle> views; for (auto const& h : hs) if (h.view) views.push_back(h);
    hs.clear();
    for (auto const& x : views) check_handle(x, probes);
  }
}

} // namespace

#ifndef RO_PART
PBT_PROP(store_model, 16000, 1500000, "at least two blocks/views and two stored entries")
{ run(s, false); }
#else
PBT_PROP(read_only_model, 16000, 1500000, "at least one write refused because of a read-only mark")
{ run(s, true); }
#endif
