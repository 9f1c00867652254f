// C30: the Python interface, against the C++ interface.  The interpreter runs inside the harness, so that
// both sides see the same library and the sanitizers see what the Python side does to it.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "vital_common.hpp"
#include <vital/algo/algorithm.txx>
#include <vital/algo/convert_image.h>
#include <vital/algo/image_io.h>
#include <vital/algo/track_features.h>
#include <vital/algorithm_plugin_manager.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_exception.h>
#include <vital/config/config_block_io.h>
#include <vital/exceptions.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>
#include <vital/registrar.h>
#include <vital/types/camera.h>
#include <vital/types/image_container.h>
#include <vital/types/track_set.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track_set.h>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
using namespace pbt;
namespace kv = kwiver::vital;

namespace {
PyObject* py_call = nullptr;
PyObject* checked(PyObject* o)
{
  if (o) return o;
  PyObject* e = PyErr_GetRaisedException(); PyObject* tb = PyImport_ImportModule("traceback"); std::string why = "?";
  if (tb) { PyObject* l = PyObject_CallMethod(tb, "format_exception", "O", e); PyObject* t = l ? PyUnicode_Join(PyUnicode_FromString(""), l) : nullptr; if (t) why = PyUnicode_AsUTF8(t); }
  throw std::runtime_error("the Python side failed: " + why);
}
void start()
{
  if (py_call) return;
  setenv("PYTHONHASHSEED", "0", 1);
  PyConfig config; PyConfig_InitIsolatedConfig(&config); config.install_signal_handlers = 0; config.write_bytecode = 0;
  wchar_t* exe = Py_DecodeLocale("/usr/bin/python3", nullptr); PyConfig_SetString(&config, &config.program_name, exe);
  if (PyStatus_Exception(Py_InitializeFromConfig(&config))) throw std::runtime_error("no Python");
  std::ifstream f(getenv("VERIF_PYDRIVER")); std::ostringstream o; o << f.rdbuf();
  PyObject* code = checked(Py_CompileString(o.str().c_str(), "pydriver.py", Py_file_input));
  PyObject* m = checked(PyImport_ExecCodeModule("pydriver", code));
  checked(PyObject_CallMethod(m, "start", "ss", getenv("VERIF_PYROOT"), getenv("VERIF_TREE")));
  py_call = checked(PyObject_GetAttrString(m, "call"));
}
struct R {
  bool ok = false; std::string cls, text;   // ex: classes of the exception, message; ok: result
  bool is(char const* c) const { return !ok && ("," + cls + ",").find(std::string(",") + c + ",") != std::string::npos; }
};
std::ostream& operator<<(std::ostream& o, R const& r) { return o << (r.ok ? "" : "exception " + r.cls + " ") << pbt::show(r.text); }
R py(std::vector<std::string> const& a, int id = 0)
{
  start();
  std::string t; std::vector<std::string> f = a; f.insert(f.begin() + 1, std::to_string(id));
  for (auto const& x : f) t += std::to_string(x.size()) + " " + x;
  PyObject* r = checked(PyObject_CallFunction(py_call, "y#", t.data(), Py_ssize_t(t.size())));
  char* p; Py_ssize_t n; PyBytes_AsStringAndSize(r, &p, &n); std::string s(p, size_t(n)); Py_DECREF(r);
  R o; o.ok = s.substr(0, 3) == "ok:"; s = s.substr(3);
  if (!o.ok) { size_t k = s.find(':'); o.cls = s.substr(0, k); s = s.substr(k + 1); }
  o.text = s; return o;
}
std::string S(std::string const& x) { return "s:" + x; }
std::string I(long long x) { return "i:" + std::to_string(x); }
std::string O(int x) { return "o:" + std::to_string(x); }
std::string T(bool b) { return b ? "True" : "False"; }
std::string get(std::vector<std::string> const& a, int id = 0) { R r = py(a, id); REQUIRE(r.ok, a[0] << " " << (a.size() > 2 ? a[2] : a.back()) << " raises " << r); return r.text; }
void want(std::vector<std::string> const& a, std::string const& v, char const* what, int id = 0) { R r = py(a, id); REQUIRE(r.ok && r.text == v, what << ": " << r << ", expected " << pbt::show(v)); }
void raises(std::vector<std::string> const& a, char const* c, char const* what, int id = 0) { R r = py(a, id); REQUIRE(r.is(c), what << ": " << r << ", expected " << c); }
std::vector<std::string> items(std::string const& t)
{
  std::vector<std::string> v; REQUIRE(t.substr(0, 2) == "l:", "a list: " << pbt::show(t)); size_t k = 2;
  while (k < t.size()) { size_t e = t.find(' ', k); size_t n = std::stoul(t.substr(k, e - k)); v.push_back(t.substr(e + 1, n)); k = e + 1 + n; }
  return v;
}
std::string join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string r; for (auto const& x : v) r += pbt::show(x) + " "; return r; }
struct Clear { Clear() { py({ "clear" }); } ~Clear() { py({ "clear" }); } };

std::string gen_key(Src& s)
{
  static std::vector<std::string> const p = { "a", "b", "sub", "sub2", "k_1", "X" };
  std::string k = s.pick(p); size_t n = 0; while (s.more(n, 1, 3)) k += ":" + s.pick(p);
  return k;
}
std::string gen_text(Src& s)
{
  switch (s.weighted({4, 3, 1}))
  {
  case 0: { static std::vector<std::string> const v = { "x", "", "true", "no", "12", "3.5", "off", "/a/b", "two words", "tRue", "0", "1" }; return s.pick(v); }
  case 1: { std::string r; size_t n = 0; while (s.more(n, 6, 50)) r += char(s.range(1, 255)); return r; }
  default: return std::string(size_t(s.integer(0, 3000)), 'v');
  }
}
void dump(std::string const& f, std::string const& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
std::string slurp(std::string const& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
std::string fresh_dir() { static unsigned n = 0; std::string d = pbt::scratch() + "/p" + std::to_string(n++); mkdir(d.c_str(), 0755); return d; }
void* address(int id) { return (void*)(size_t)std::stoull(get({ "address", std::to_string(id) }).substr(2)); }
// is the handle released
template <typename T> bool gone(T* p, vital_string_t* (*f)(T*)) { vital_string_t* s = f(p); if (s) vital_string_free(s); return !s; }
template <typename F> bool refused(F f) { vital_error_handle_t* h = vital_eh_new(); f(h); bool r = h->error_code != 0; vital_eh_destroy(h); return r; }
std::string L(std::vector<int> const& v) { std::string r = "l:"; for (int x : v) r += std::to_string(x) + ","; return r; }
}
PBT_INIT() { quiet_all(); quiet_logger("vital.c_utils"); }

// every key, value, description and mark
static void same(int id, kv::config_block_sptr m)
{
  std::string p = std::to_string(id); std::vector<std::string> ks = m->available_values();
  REQUIRE_EQ(join(items(get({ "call", p, "available_keys" }))), join(ks), "keys");
  std::sort(ks.begin(), ks.end());
  std::vector<std::string> d = items(get({ "call", p, "as_dict" }));
  REQUIRE_EQ(d.size(), 2 * ks.size(), "size of the dictionary");
  for (size_t i = 0; i < ks.size(); ++i)
  {
    std::string v = m->get_value<std::string>(ks[i]);
    REQUIRE_EQ(pbt::show(d[2 * i]), pbt::show(ks[i]), "key of the dictionary"); REQUIRE_EQ(pbt::show(d[2 * i + 1]), pbt::show(v), "value in the dictionary of " << ks[i]);
    want({ "call", p, "get_value", S(ks[i]) }, S(v), "value"); want({ "call", p, "get_description", S(ks[i]) }, S(m->get_description(ks[i])), "description");
    want({ "call", p, "is_read_only", S(ks[i]) }, T(m->is_read_only(ks[i])), "read-only"); want({ "call", p, "has_value", S(ks[i]) }, "True", "has_value");
  }
  want({ "get", p, "name" }, S(m->get_name()), "name");
}

PBT_PROP(config, 1500, 60000, "a view and its parent were both used, one of them after the other was deleted, or blocks were merged")
{
  Clear guard; struct H { int id; kv::config_block_sptr m; bool derived; vital_config_block_t* c; }; std::vector<H> live; int next = 1; size_t n = 0; bool after = false;
  auto at = [](int id) { return (vital_config_block_t*)address(id); };
  want({ "const", "ConfigBlock", "BLOCK_SEP" }, S(kv::config_block::block_sep), "separator"); want({ "const", "ConfigBlock", "GLOBAL_VALUE" }, S(kv::config_block::global_value), "global block");
  while (s.more(n, 14, 60) || n == 0)
  {
    size_t op = live.empty() ? 0 : s.weighted({2, 2, 3, 8, 3, 3, 2, 2, 2, 2, 2, 2});
    std::string k = gen_key(s);
    if (op == 0)
    {
      std::string nm = s.flip() ? "" : gen_text(s); int id = next++;
      get(s.flip() && nm.empty() ? std::vector<std::string>{ "new", "ConfigBlock" } : std::vector<std::string>{ "new", "ConfigBlock", S(nm) }, id);
      live.push_back(H{ id, kv::config_block::empty_config(nm), false, at(id) }); s.note() << "new " << pbt::show(nm) << " as " << id << "\n"; want({ "bool", std::to_string(id) }, "True", "a block");
      continue;
    }
    size_t i = s.idx(live.size()); H h = live[i]; std::string p = std::to_string(h.id);
    s.note() << "op " << op << " on " << h.id << " key " << k << "\n";
    switch (op)
    {
    case 1:
    {
      get({ "del", p }); if (h.derived || live.size() > 1) after = true; live.erase(live.begin() + long(i)); bool last = true; for (auto const& l : live) last = last && l.c != h.c;
      REQUIRE_EQ(gone(h.c, vital_config_block_get_name), last, "a block is released with its last object"); break;
    }
    case 2:
    {
      bool view = s.chance(2, 3); int id = next++;
      get({ "call", p, view ? "subblock_view" : "subblock", S(k) }, id);
      live.push_back(H{ id, view ? h.m->subblock_view(k) : h.m->subblock(k), true, at(id) }); break;
    }
    case 3:
    {
      std::string v = gen_text(s), d = gen_text(s), a = S(v); bool desc = s.flip();
      switch (s.weighted({5, 1, 1, 1})) { case 1: { long long x = s.integer(-100000, 100000); a = I(x); v = std::to_string(x); break; } case 2: { bool b = s.flip(); a = b ? "b:1" : "b:0"; v = T(b); break; } case 3: { a = "f:0.25"; v = "0.25"; break; } default:; }
      if (desc) { get({ "call", p, "set_value", S(k), a, S(d) }); try { h.m->set_value<std::string>(k, v, d); } catch (kv::set_on_read_only_value_exception const&) {} }
      else { if (s.flip()) get({ "call", p, "set_value", S(k), a }); else get({ "call", p, "set_value", S(k), a, "n:" }); try { h.m->set_value<std::string>(k, v); } catch (kv::set_on_read_only_value_exception const&) {} }
      if (a[0] == 'b' && h.m->has_value(k) && h.m->get_value<std::string>(k) == v) want({ "call", p, "get_value_bool", S(k) }, v, "a bool comes back");
      break;
    }
    case 4:
    {
      std::string d = gen_text(s); bool has = h.m->has_value(k);
      if (s.flip()) want({ "call", p, "get_value", S(k), S(d) }, S(h.m->get_value<std::string>(k, d)), "value or default"); else want({ "call", p, "get_value", S(k) }, has ? S(h.m->get_value<std::string>(k)) : "None", "value");
      want({ "call", p, "has_value", S(k) }, T(has), "has_value");
      break;
    }
    case 5:
    {
      std::vector<std::string> a = { "call", p, "get_value_bool", S(k) }; int d = int(s.range(0, 2)); if (d == 1) a.push_back("n:"); else if (d) a.push_back(s.flip() ? "b:1" : "b:0");
      bool r = false, e = false; try { r = d == 2 ? h.m->get_value<bool>(k, a.back() == "b:1") : h.m->get_value<bool>(k); } catch (kv::config_block_exception const&) { e = true; }
      if (!e) want(a, T(r), "boolean"); else if (!h.m->has_value(k)) raises(a, "VitalConfigBlockNoSuchValueException", "boolean of a missing key"); else raises(a, "VitalBaseException", "boolean of another text");
      break;
    }
    case 6: { bool has = h.m->has_value(k); want({ "call", p, "get_description", S(k) }, has ? S(h.m->get_description(k)) : "None", "description"); break; }
    case 7: get({ "call", p, "unset_value", S(k) }); try { h.m->unset_value(k); } catch (kv::config_block_exception const&) {} break;
    case 8: get({ "call", p, "mark_read_only", S(k) }); h.m->mark_read_only(k); break;
    case 9: want({ "call", p, "is_read_only", S(k) }, T(h.m->is_read_only(k)), "read-only"); break;
    case 10: { size_t j = s.idx(live.size()); if (j == i) break; R r = py({ "call", p, "merge_config", O(live[j].id) }); REQUIRE(r.ok, "merging raises " << r); try { h.m->merge_config(live[j].m); } catch (kv::config_block_exception const&) {} s.nontrivial(); break; }
    default: { int id = next++; get({ "copy", p, "ConfigBlock" }, id); live.push_back(H{ id, h.m, true, h.c }); }
    }
    if (after && !live.empty()) s.nontrivial();
    for (auto const& l : live) if (s.chance(1, 3)) same(l.id, l.m);
  }
  for (auto const& l : live) same(l.id, l.m);
}

PBT_PROP(config_files, 1500, 60000, "a file with an error in it or a block written and read back")
{
  Clear guard; std::string dir = fresh_dir(), f = dir + "/c.conf"; static std::vector<std::string> const lines = { "a = 1", "b:c=two words", "block sub", "endblock", "x = yes", "relativepath p = d/e", "a[RO] = 3", "# remark", "", "nonsense", "include missing.conf", "include other.conf", "block", "= 3", "y = $ENV{HOME}" };
  dump(dir + "/other.conf", "other:k = v\n");
  int kind = int(s.range(0, 4)); std::string arg = f;
  if (kind == 0) arg = dir + "/none.conf"; else if (kind == 1 && s.chance(1, 3)) arg = dir;
  std::string text; size_t n = 0; while (s.more(n, 5, 20)) text += s.pick(lines) + "\n"; dump(f, text); s.note() << text << arg << "\n";
  kv::config_block_sptr m; char const* e = nullptr;
  try { m = kv::read_config_file(arg); }
  catch (kv::config_file_not_found_exception const&) { e = "VitalConfigBlockIoFileNotFoundException"; }
  catch (kv::config_file_not_read_exception const&) { e = "VitalConfigBlockIoFileNotReadException"; }
  catch (kv::config_file_not_parsed_exception const&) { e = "VitalConfigBlockIoFileNotParsed"; }
  catch (std::exception const&) { e = "VitalConfigBlockIoException"; }
  std::vector<std::string> a = { "class", "ConfigBlock", "from_file", S(arg) };
  get({ "new", "ConfigBlock" }, 2); kv::config_block_sptr other = kv::config_block::empty_config(); std::string k = gen_key(s); get({ "call", "2", "set_value", S(k), S("old"), S("text") }); other->set_value<std::string>(k, "old", "text");
  if (e) { raises(a, e, "reading", 1); raises({ "call", "2", "read", S(arg) }, e, "reading into a block"); same(2, other); s.nontrivial(); s.label(e); return; }
  get(a, 1); same(1, m);
  get({ "call", "2", "read", S(arg) }); other->merge_config(m); same(2, other);
  if (m->available_values().empty()) { raises({ "call", "1", "write", S(dir + "/o.conf") }, "VitalConfigBlockIoFileWriteException", "writing an empty block"); return; }
  std::string o = dir + (s.chance(1, 4) ? "/sub/o.conf" : "/o.conf"); std::string expect;
  try { kv::write_config_file(m, o); expect = slurp(o); unlink(o.c_str()); } catch (kv::config_file_write_exception const&) { e = "write"; }
  if (!e) { get({ "call", "1", "write", S(o) }); REQUIRE_EQ(pbt::show(slurp(o)), pbt::show(expect), "file written"); want({ "call", "1", "as_string" }, S(expect), "the block as a string"); get({ "class", "ConfigBlock", "from_file", S(o) }, 3); s.nontrivial(); }
  raises({ "call", "1", "write", S(dir) }, "VitalConfigBlockIoFileWriteException", "writing to a directory");
}

PBT_PROP(images, 2500, 100000, "pixels were read after the image they came from was deleted")
{
  Clear guard; struct H { int id; bool container; size_t w, h, d; std::vector<int> px; unsigned char* first; ptrdiff_t st[3]; void* c; };
  std::vector<H> live; int next = 1; size_t n = 0; bool deleted = false;
  auto N = [](std::string const& t) { REQUIRE(t.substr(0, 2) == "i:", "a number: " << pbt::show(t)); return (long long)std::stoull(t.substr(2)); };
  auto check = [&](H const& h) {
    std::string p = std::to_string(h.id);
    want({ "call", p, "width" }, I((long long)h.w), "width"); want({ "call", p, "height" }, I((long long)h.h), "height"); want({ "call", p, "depth" }, I((long long)h.d), "depth"); want({ "call", p, "size" }, I((long long)(h.w * h.h * h.d)), "bytes");
    if (h.container) return;
    want({ "call", p, "w_step" }, I(h.st[0]), "w_step"); want({ "call", p, "h_step" }, I(h.st[1]), "h_step"); want({ "call", p, "d_step" }, I(h.st[2]), "d_step");
    std::string a = get({ "call", p, "first_pixel_address" }); REQUIRE((a == "None" ? 0 : N(a)) == (long long)(size_t)h.first, "address of the first pixel " << a);
    for (size_t i = 0; i < h.w; ++i) for (size_t j = 0; j < h.h; ++j) for (size_t k = 0; k < h.d; ++k)
      if (h.px[(k * h.h + j) * h.w + i] >= 0) REQUIRE_EQ(int(h.first[ptrdiff_t(i) * h.st[0] + ptrdiff_t(j) * h.st[1] + ptrdiff_t(k) * h.st[2]]), h.px[(k * h.h + j) * h.w + i], "pixel " << i << " " << j << " " << k);
  };
  auto add = [&](H h, bool fill) {
    vital_image_t* im = nullptr; std::string a = get({ "address", std::to_string(h.id) }); im = (vital_image_t*)(size_t)N(a); REQUIRE(im, "an image"); h.c = im;
    kv::image& m = *reinterpret_cast<kv::image*>(im);
    h.first = m.first_pixel(); h.st[0] = m.w_step(); h.st[1] = m.h_step(); h.st[2] = m.d_step();
    REQUIRE(m.width() == h.w && m.height() == h.h && m.depth() == h.d, "dimensions");
    if (fill) { for (size_t i = 0; i < h.w; ++i) for (size_t j = 0; j < h.h; ++j) for (size_t k = 0; k < h.d; ++k) m(unsigned(i), unsigned(j), unsigned(k)) = (unsigned char)(h.px[(k * h.h + j) * h.w + i] = int(s.range(0, 255))); }
    live.push_back(h); check(live.back()); };
  while (s.more(n, 8, 30) || n == 0)
  {
    size_t op = live.empty() ? s.idx(2) : s.weighted({2, 2, 2, 2, 2, 2, 2}); int id = next; H h{ id, false, 0, 0, 0, {}, nullptr, { 0, 0, 0 }, nullptr };
    size_t i = live.empty() ? 0 : s.idx(live.size()); std::string p = live.empty() ? "" : std::to_string(live[i].id);
    s.note() << "op " << op << " on " << p << "\n";
    switch (op)
    {
    case 0:
    {
      ++next; if (s.chance(1, 8)) { std::vector<std::string> a = { "new", "Image" }; if (s.flip()) { a.push_back("i:3"); if (s.flip()) a.push_back("n:"); } get(a, id); add(h, false); break; }
      h.w = size_t(s.range(0, 5)); h.h = size_t(s.range(0, 5)); h.d = size_t(s.range(0, 4)); bool il = s.flip(), dflt = s.chance(1, 4); if (dflt) { h.d = 1; il = false; }
      std::vector<std::string> a = { "new", "Image", I((long long)h.w), I((long long)h.h) }; if (!dflt) { a.push_back(I((long long)h.d)); a.push_back(il ? "b:1" : "b:0"); } get(a, id);
      h.px.assign(h.w * h.h * h.d, -1); kv::image ref(h.w, h.h, h.d, il); add(h, true);
      if (h.w && h.h && h.d) REQUIRE(live.back().st[0] == ref.w_step() && live.back().st[1] == ref.h_step() && live.back().st[2] == ref.d_step(), "layout");
      break;
    }
    case 1:
    {
      ++next; bool rgb = s.flip(), bad = s.chance(1, 8); h.w = size_t(s.range(0, 5)); h.h = size_t(s.range(0, 5)); h.d = rgb ? 3 : 1; std::string data; h.px.resize(h.w * h.h * h.d);
      for (size_t j = 0; j < h.h; ++j) for (size_t x = 0; x < h.w; ++x) for (size_t k = 0; k < h.d; ++k) { int v = int(s.range(0, 255)); data += char(v); h.px[((h.d - 1 - k) * h.h + j) * h.w + x] = v; } // planes are blue, green, red
      std::vector<std::string> a = { "class", "Image", "from_pil", std::string("p:") + (bad ? s.pick(std::vector<std::string>{ "RGBA", "1", "I" }) : rgb ? "RGB" : "L") + " " + std::to_string(h.w) + " " + std::to_string(h.h) + " " + data };
      if (bad) { raises(a, "RuntimeError", "an unsupported image", id); break; }
      get(a, id); add(h, false); break;
    }
    case 2:
    {
      bool still = live.size() > 1; H h2 = live[i]; get({ "del", p }); live.erase(live.begin() + long(i)); if (still) deleted = true; bool last = true; for (auto const& l : live) last = last && l.c != h2.c;
      if (h2.container) REQUIRE_EQ(!vital_image_container_to_sptr((vital_image_container_t*)h2.c), last, "a container is released with its last object"); else REQUIRE_EQ(__asan_address_is_poisoned(h2.c) != 0, last, "an image is released with its last object");
      break;
    }
    case 3: { H c = live[i]; if (c.container) break; ++next; c.id = id; get({ "class", "Image", "from_image", O(live[i].id) }, id); unsigned char* f = c.first; add(c, false); REQUIRE(live.back().first == f, "shares the memory"); break; }
    case 4: { H c = live[i]; if (c.container) break; ++next; c.id = id; c.container = true; get({ "new", "ImageContainer", O(live[i].id) }, id); c.c = address(id); live.push_back(c); check(c); break; }
    case 5: { H c = live[i]; if (!c.container) break; ++next; c.id = id; c.container = false; get({ "call", p, "get_image" }, id); unsigned char* f = c.first; add(c, false); REQUIRE(live.back().first == f, "shares the memory"); break; }
    default: { H c = live[i]; ++next; c.id = id; get({ "copy", p, c.container ? "ImageContainer" : "Image" }, id); live.push_back(c); }
    }
    for (auto const& l : live) check(l);
    if (deleted && !live.empty()) s.nontrivial();
  }
}

PBT_PROP(tracks_and_cameras, 700, 30000, "a set or map of at least two elements, used after its elements were deleted")
{
  Clear guard; std::string dir = fresh_dir(); int next = 1; size_t n = 0; std::vector<int> tr;
  while (s.more(n, 3, 10)) { get({ "new", "Track" }, next); want({ "len", std::to_string(next) }, "i:0", "states of a new track"); want({ "get", std::to_string(next), "size" }, "i:0", "states of a new track"); want({ "get", std::to_string(next), "is_empty" }, "True", "a new track is empty"); tr.push_back(next++); }
  std::vector<int> in; n = 0; while (!tr.empty() && s.more(n, 4, 60)) in.push_back(s.pick(tr));
  int set = next++; get(in.empty() && s.flip() ? (s.flip() ? std::vector<std::string>{ "new", "TrackSet" } : std::vector<std::string>{ "new", "TrackSet", "n:" }) : std::vector<std::string>{ "new", "TrackSet", L(in) }, set);
  if (s.flip()) { for (int t : tr) { vital_track_t* c = (vital_track_t*)address(t); get({ "del", std::to_string(t) }); REQUIRE(refused([&](vital_error_handle_t* h) { vital_track_size(c, h); }), "a track is released"); } if (in.size() > 1) s.nontrivial(); }
  std::string p = std::to_string(set);
  want({ "len", p }, I((long long)in.size()), "tracks of the set"); want({ "call", p, "size" }, I((long long)in.size()), "tracks of the set");
  { // a file of tracks made by C++
    std::vector<kv::track_sptr> v; n = 0; unsigned long id = 0;
    while (s.more(n, 3, 8) || n == 0) { kv::track_sptr t = std::make_shared<kv::track>(); t->set_id(kv::track_id_t(id++)); unsigned fr = unsigned(s.range(0, 3)); do { t->append(kv::track::track_state(fr, std::make_shared<kv::feature_d>(kv::vector_2d(s.range(-50, 50), s.range(-50, 50))), kv::descriptor_sptr())); fr += 1 + unsigned(s.range(0, 2)); } while (s.flip()); v.push_back(t); }
    std::string f = dir + "/t", o = dir + "/o"; kv::write_track_file(std::make_shared<kv::simple_track_set>(v), f);
    get({ "class", "TrackSet", "from_file", S(f) }, next); std::string q = std::to_string(next++);
    want({ "len", q }, I((long long)v.size()), "tracks of the file"); get({ "call", q, "write_tracks_file", S(o) });
    kv::write_track_file(kv::read_track_file(f), f + "2"); REQUIRE_EQ(pbt::show(slurp(o)), pbt::show(slurp(f + "2")), "file of tracks");
    if (s.flip()) { get({ "copy", q, "TrackSet" }, next); get({ "del", q }); want({ "len", std::to_string(next) }, I((long long)v.size()), "copy of a set"); q = std::to_string(next++); }
    vital_trackset_t* c = (vital_trackset_t*)address(next - 1); get({ "del", q }); REQUIRE(refused([&](vital_error_handle_t* h) { vital_trackset_size(c, h); }), "a set is released"); 
    raises({ "class", "TrackSet", "from_file", S(dir + "/none") }, "VitalBaseException", "reading a missing file", 900); raises({ "call", p, "write_tracks_file", S(f + "/x") }, "VitalBaseException", "writing below a file");
  }
  std::vector<int> cams; n = 0;
  while (s.more(n, 2, 5))
  {
    kv::simple_camera c(kv::vector_3d(s.range(-9, 9), s.range(-9, 9), s.range(-9, 9)), kv::rotation_d(kv::vector_3d(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)))); std::string f = dir + "/k" + std::to_string(n), o = f + "o";
    kv::write_krtd_file(c, f); get({ "class", "Camera", "from_krtd_file", S(f) }, next); cams.push_back(next); get({ "call", std::to_string(next++), "write_krtd_file", S(o) });
    kv::write_krtd_file(*kv::read_krtd_file(f), f + "2"); REQUIRE_EQ(slurp(o), slurp(f + "2"), "file of a camera");
  }
  raises({ "class", "Camera", "from_krtd_file", S(dir + "/none") }, "VitalBaseException", "reading a missing camera", 900);
  std::map<unsigned, int> m; n = 0; std::string d = "d:"; while (!cams.empty() && s.more(n, 3, 8)) m[unsigned(s.chance(1, 8) ? 4294967295u : s.range(0, 6))] = s.pick(cams);
  for (auto const& e : m) d += std::to_string(e.first) + "=" + std::to_string(e.second) + ",";
  int cm = next++; get({ "new", "CameraMap", d }, cm); std::map<unsigned, std::string> addr; for (auto const& e : m) addr[e.first] = get({ "address", std::to_string(e.second) });
  if (s.flip()) { for (int c : cams) { vital_camera_t* a = (vital_camera_t*)address(c); get({ "del", std::to_string(c) }); REQUIRE(refused([&](vital_error_handle_t* h) { vital_camera_write_krtd_file(a, (dir + "/z").c_str(), h); }), "a camera is released"); } if (m.size() > 1) s.nontrivial(); }
  want({ "call", std::to_string(cm), "size" }, I((long long)m.size()), "cameras of the map");
  size_t len = 0; unsigned* fn = nullptr; vital_camera_t** cs = nullptr; vital_camera_map_get_map((vital_camera_map_t*)(size_t)std::stoull(get({ "address", std::to_string(cm) }).substr(2)), &len, &fn, &cs, nullptr);
  REQUIRE_EQ(len, m.size(), "cameras of the map");
  for (size_t i = 0; i < len; ++i) { REQUIRE(addr.count(fn[i]) && addr[fn[i]] == I((long long)(size_t)cs[i]), "camera of frame " << fn[i]); vital_camera_destroy(cs[i], nullptr); }
  vital_free_pointer(fn); vital_free_pointer(cs);
  vital_camera_map_t* mp = (vital_camera_map_t*)address(cm); get({ "del", std::to_string(cm) }); REQUIRE(refused([&](vital_error_handle_t* h) { vital_camera_map_size(mp, h); }), "a map is released");
}

// ---- algorithms
namespace {
struct Behaviour { int mode; std::vector<std::string> calls; } B;
template <typename P> P act(P fresh) { switch (B.mode) { case 0: return fresh; case 1: return P(); case 2: throw std::runtime_error("reason 3"); default: throw 5; } }
template <typename D, typename Self> struct base : kv::algorithm_impl<Self, D> {
  int k = 1; std::string opt = "o";
  kv::config_block_sptr get_configuration() const { kv::config_block_sptr c = D::get_configuration(); c->set_value("k", k, "number"); c->set_value("opt", opt); return c; }
  void set_configuration(kv::config_block_sptr c) { k = c->get_value<int>("k", k); opt = c->get_value<std::string>("opt", opt); }
  bool check_configuration(kv::config_block_sptr c) const { return c->get_value<int>("k", 0) > 0; }
};
template <int N> struct io : base<kv::algo::image_io, io<N>> {
  std::string impl_name() const { return N == 0 ? "io_a" : "io_ab"; }
  kv::image_container_sptr load_(std::string const& f) const { B.calls.push_back("load " + std::to_string(this->k) + " " + f); return act<kv::image_container_sptr>(std::make_shared<kv::simple_image_container>(kv::image(f.size() % 7 + 1, 3, 1))); }
  void save_(std::string const& f, kv::image_container_sptr d) const { B.calls.push_back("save " + std::to_string(this->k) + " " + f + " " + std::to_string(d ? d->width() : 0)); act<int>(0); }
};
struct cv : base<kv::algo::convert_image, cv> {
  std::string impl_name() const { return "cv"; }
  kv::image_container_sptr convert(kv::image_container_sptr i) const { B.calls.push_back("convert " + std::to_string(k) + " " + std::to_string(i ? i->width() : 0)); return act<kv::image_container_sptr>(std::make_shared<kv::simple_image_container>(kv::image(i ? i->width() + 1 : 5, 1, 1))); }
};
struct tf : base<kv::algo::track_features, tf> {
  std::string impl_name() const { return "tf"; }
  kv::track_set_sptr track(kv::track_set_sptr p, unsigned f, kv::image_container_sptr i, kv::image_container_sptr m) const
  { B.calls.push_back("track " + std::to_string(k) + " " + std::to_string(p ? p->size() : 0) + " " + std::to_string(f) + " " + std::to_string(i ? i->width() : 0) + " " + (m ? std::to_string(m->width()) : "-"));
    std::vector<kv::track_sptr> v; if (p) v = p->tracks(); kv::track_sptr t = std::make_shared<kv::track>(); t->set_id(kv::track_id_t(v.size())); t->append(kv::track::track_state(f, std::make_shared<kv::feature_d>(kv::vector_2d(k, i ? double(i->width()) : -1)), kv::descriptor_sptr())); v.push_back(t);
    return act<kv::track_set_sptr>(std::make_shared<kv::simple_track_set>(v));
  }
};
struct Api { char const* cls; char const* type; std::vector<std::string> impls; };
std::vector<Api> const apis = { { "ImageIo", "image_io", { "io_a", "io_ab" } }, { "ConvertImage", "convert_image", { "cv" } }, { "TrackFeatures", "track_features", { "tf" } } };
}
static void register_impls()
{
  static bool once = false; if (once) return; once = true; kv::registrar& r = kv::registrar::instance();
  kv::algorithm_def<kv::algo::image_io>::register_instance(r, std::make_shared<io<0>>()); kv::algorithm_def<kv::algo::image_io>::register_instance(r, std::make_shared<io<1>>());
  kv::algorithm_def<kv::algo::convert_image>::register_instance(r, std::make_shared<cv>()); kv::algorithm_def<kv::algo::track_features>::register_instance(r, std::make_shared<tf>());
}
PBT_PROP(algorithms, 1500, 60000, "an algorithm was replaced by its configuration, or a call of an implementation failed")
{
  register_impls();
  static std::string const file = [] { std::string f = pbt::scratch() + "/image"; dump(f, "x"); return f; }();
  Clear guard; B = Behaviour(); B.mode = 0; int next = 10; size_t n = 0;
  get({ "new", "Image", "i:4", "i:2" }, 1); get({ "new", "ImageContainer", "o:1" }, 2); get({ "new", "Image", "i:7", "i:2" }, 3); get({ "new", "ImageContainer", "o:3" }, 4); get({ "new", "Track" }, 5); get({ "new", "TrackSet", "l:5," }, 6);
  std::vector<std::pair<int, int>> ics = { { 2, 4 }, { 4, 7 } }, tss = { { 6, 1 } };
  struct H { int id; size_t api; std::string name, impl; int k; std::string opt; }; std::vector<H> live;
  auto block = [&](H const& h, int cb) {
    std::string p = std::to_string(cb); want({ "call", p, "get_value", S(h.name + ":type") }, S(h.impl), "type in the configuration");
    if (!h.impl.empty()) { want({ "call", p, "get_value", S(h.name + ":" + h.impl + ":k") }, S(std::to_string(h.k)), "configuration"); want({ "call", p, "get_value", S(h.name + ":" + h.impl + ":opt") }, S(h.opt), "configuration"); } };
  auto check = [&](H const& h) {
    std::string p = std::to_string(h.id); want({ "get", p, "name" }, S(h.name), "name of the algorithm"); want({ "call", p, "impl_name" }, h.impl.empty() ? "None" : S(h.impl), "implementation"); want({ "call", p, "type_name" }, S(apis[h.api].type), "type"); want({ "bool", p }, T(!h.impl.empty()), "is there an algorithm");
    int cb = next++; get({ "call", p, "get_config" }, cb); block(h, cb); get({ "del", std::to_string(cb) }); };
  while (s.more(n, 10, 40) || n == 0)
  {
    size_t op = live.empty() ? 0 : s.weighted({3, 2, 2, 4, 2, 6, 2, 1});
    std::string name = s.pick(std::vector<std::string>{ "alg", "x:y", "a", "" });
    if (op == 0)
    {
      size_t t = s.idx(3); Api const& a = apis[t]; int id = next++; std::string nm = s.pick(std::vector<std::string>{ a.impls[0], a.impls.back(), "io_a", "cv", "io", "", "none" });
      REQUIRE_EQ(join(items(get({ "class", a.cls, "registered_names" }))), join(a.impls), "registered names of " << a.type);
      s.note() << "new " << a.type << " " << name << " " << nm << "\n";
      if (s.chance(1, 3)) { if (name.empty()) raises({ "new", a.cls, S(name) }, "ValueError", "an algorithm needs a name", id); else { get({ "new", a.cls, S(name) }, id); live.push_back(H{ id, t, name, "", 1, "o" }); check(live.back()); } continue; }
      bool known = std::find(a.impls.begin(), a.impls.end(), nm) != a.impls.end();
      std::vector<std::string> c = { "class", a.cls, "create", S(name), S(nm) };
      if (!known) raises(c, "VitalNullPointerException", "an unknown implementation", id); else if (name.empty()) raises(c, "ValueError", "an algorithm needs a name", id);
      else { get(c, id); live.push_back(H{ id, t, name, nm, 1, "o" }); check(live.back()); }
      continue;
    }
    size_t i = s.idx(live.size()); H& h = live[i]; Api const& a = apis[h.api]; std::string p = std::to_string(h.id);
    s.note() << "op " << op << " on " << a.type << " " << h.impl << "\n";
    switch (op)
    {
    case 1: if (name.empty()) raises({ "call", p, "set_name", S(name) }, "ValueError", "an algorithm needs a name"); else { get({ "call", p, "set_name", S(name) }); h.name = name; } break;
    case 2: { int cb = next++; get({ "new", "ConfigBlock" }, cb); get({ "call", std::to_string(cb), "set_value", S("other"), S("v") }); std::string ad = get({ "address", std::to_string(cb) }); int r = next++; get({ "call", p, "get_config", O(cb) }, r); REQUIRE_EQ(get({ "address", std::to_string(r) }), ad, "the block given is returned"); block(h, cb); want({ "call", std::to_string(cb), "get_value", S("other") }, S("v"), "what was in the block stays"); break; }
    case 3:
    {
      int cb = next++; std::string c = std::to_string(cb); get({ "call", p, "get_config" }, cb);
      std::string to = s.pick(std::vector<std::string>{ a.impls[0], a.impls.back(), "none", "", h.impl }); bool unset = s.chance(1, 5), known = !unset && std::find(a.impls.begin(), a.impls.end(), to) != a.impls.end();
      if (unset) get({ "call", c, "unset_value", S(h.name + ":type") }); else get({ "call", c, "set_value", S(h.name + ":type"), S(to) });
      int k = int(s.range(-1, 9)); bool hk = s.flip(), any = hk; if (hk) get({ "call", c, "set_value", S(h.name + ":" + to + ":k"), I(k) });
      int ek = 1; std::string eo = "o"; if (known && to == h.impl) { ek = h.k; eo = h.opt; any = true; } if (hk) ek = k;
      std::string no = gen_key(s); bool ho = s.flip() && known; if (ho) { get({ "call", c, "set_value", S(h.name + ":" + to + ":opt"), S(no) }); eo = no; }
      want({ "call", p, "check_config", O(cb) }, T(known && any && ek > 0), "whether the block is accepted");
      vital_algorithm_t* was = (vital_algorithm_t*)address(h.id); get({ "call", p, "set_config", O(cb) });
      if (known && was) REQUIRE(was == (vital_algorithm_t*)address(h.id) || refused([&](vital_error_handle_t* e) { vital_string_t* t = vital_algorithm_impl_name(was, e); if (t) vital_string_free(t); }), "the algorithm replaced is released");
      if (known) { h.impl = to; h.k = ek; h.opt = eo; s.nontrivial(); }
      break;
    }
    case 4: { H c = h; c.id = next++; bool nn = s.flip() && !name.empty(); if (nn) { c.name = name; get({ "call", p, "clone", S(name) }, c.id); } else get({ "call", p, "clone" }, c.id); if (!h.impl.empty()) REQUIRE(get({ "address", p }) != get({ "address", std::to_string(c.id) }), "a clone"); live.push_back(c); break; }
    case 5:
    { // calls
      if (h.impl.empty()) { if (h.api == 0) raises({ "call", p, "load", S(file) }, "VitalBaseException", "loading without implementation"); else if (h.api == 1) raises({ "call", p, "convert", O(2) }, "VitalBaseException", "converting without implementation"); else raises({ "call", p, "track", O(6), "i:1", O(2) }, "VitalBaseException", "tracking without implementation"); break; }
      B.mode = int(s.weighted({4, 1, 1, 1})); B.calls.clear(); auto ic = s.pick(ics); int id = next++; std::vector<std::string> c; std::string call; bool save = false; int width = int(file.size() % 7 + 1), tracks = 0;
      if (h.api == 0 && s.flip()) { bool missing = s.chance(1, 5); if (missing) { raises({ "call", p, "load", S(file + ".no") }, "VitalBaseException", "loading a missing image", id); REQUIRE(B.calls.empty(), "a missing image is not loaded"); break; } c = { "call", p, "load", S(file) }; call = "load " + std::to_string(h.k) + " " + file; }
      else if (h.api == 0) { save = true; c = { "call", p, "save", O(ic.first), S(file + ".o") }; call = "save " + std::to_string(h.k) + " " + file + ".o " + std::to_string(ic.second); }
      else if (h.api == 1) { width = ic.second + 1; c = { "call", p, "convert", O(ic.first) }; call = "convert " + std::to_string(h.k) + " " + std::to_string(ic.second); }
      else
      {
        auto ts = s.pick(tss); auto mk = s.pick(ics); bool masked = s.flip(); tracks = ts.second + 1; unsigned fr = unsigned(s.integer(0, 4294967295ll)); c = { "call", p, "track", O(ts.first), I(fr), O(ic.first) }; if (masked) c.push_back(O(mk.first)); else if (s.flip()) c.push_back("n:");
        call = "track " + std::to_string(h.k) + " " + std::to_string(ts.second) + " " + std::to_string(fr) + " " + std::to_string(ic.second) + " " + (masked ? std::to_string(mk.second) : "-");
      }
      bool fail = B.mode >= 2 || (B.mode == 1 && !save); R r = py(c, id);
      REQUIRE(B.calls.size() == 1 && B.calls[0] == call, "calls of the implementation: " << join(B.calls) << ", expected " << call);
      if (fail) { REQUIRE(r.is("VitalBaseException"), "a failure is raised: " << r); if (B.mode == 2) REQUIRE(r.text.find("reason 3") != std::string::npos, "the reason is given: " << r); s.nontrivial(); }
      else { REQUIRE(r.ok, "called: " << r); if (save) REQUIRE_EQ(r.text, std::string("None"), "saving"); else if (h.api == 2) { want({ "len", std::to_string(id) }, I(tracks), "tracks"); tss.push_back({ id, tracks }); } else { want({ "call", std::to_string(id), "width" }, I(width), "image"); ics.push_back({ id, width }); } }
      break;
    }
    case 6:
    {
      vital_algorithm_t* c = (vital_algorithm_t*)address(h.id); get({ "del", p });
      if (c) REQUIRE(refused([&](vital_error_handle_t* e) { vital_string_t* t = vital_algorithm_impl_name(c, e); if (t) vital_string_free(t); }), "an algorithm is released");
      live.erase(live.begin() + long(i)); break;
    }
    default: { H c = h; c.id = next++; if (h.impl.empty()) break; get({ "copy", p, a.cls }, c.id); check(c); get({ "del", p }); h.id = c.id; break; }
    }
    for (auto const& l : live) if (s.chance(1, 3)) check(l);
  }
  for (auto const& l : live) check(l);
}

PBT_PROP(tool, 1200, 50000, "tracks over at least two frames")
{
  Clear guard; register_impls(); B = Behaviour(); B.mode = 0; std::string dir = fresh_dir(); size_t n = 0; std::vector<std::string> im, mk;
  auto file = [&](char const* b, size_t i) { std::string f = dir + "/" + b + std::to_string(i) + std::string(size_t(s.range(0, 5)), 'x'); dump(f, "x"); return f; };
  auto list = [&](std::string const& f, std::vector<std::string> const& v) { std::string t; bool crlf = s.chance(1, 6); for (size_t i = 0; i < v.size(); ++i) t += v[i] + (i + 1 == v.size() && s.chance(1, 4) ? "" : crlf ? "\r\n" : "\n"); dump(f, t); };
  while (s.more(n, 3, 8)) im.push_back(file("i", n));
  bool masks = s.flip(), parallel = true, missing = false; if (masks) { size_t c = im.size(); if (s.chance(1, 6)) { c = c + (c && s.flip() ? -1 : 1); parallel = false; } for (size_t i = 0; i < c; ++i) mk.push_back(file("m", i)); }
  if (!im.empty() && s.chance(1, 8)) { im[s.idx(im.size())] += ".no"; missing = true; }
  int kcv = int(s.range(1, 3)), kio = int(s.range(1, 3)), ktf = int(s.range(1, 3)); std::map<std::string, std::string> c;
  c["image_list_file"] = dir + "/images"; c["output_tracks_file"] = dir + (s.chance(1, 3) ? "/sub/tracks" : "/tracks"); if (masks || s.flip()) c["mask_list_file"] = masks ? dir + "/masks" : "";
  c["convert_image:type"] = "cv"; c["convert_image:cv:k"] = std::to_string(kcv); std::string io = s.flip() ? "io_a" : "io_ab"; c["image_reader:type"] = io; c["image_reader:" + io + ":k"] = std::to_string(kio); c["feature_tracker:type"] = "tf"; c["feature_tracker:tf:k"] = std::to_string(ktf);
  if (s.flip()) c["invert_masks"] = s.flip() ? "true" : "no"; if (s.flip()) c["expect_multichannel_masks"] = s.flip() ? "1" : "false";
  list(dir + "/images", im); if (masks) list(dir + "/masks", mk);
  bool valid = true;
  switch (s.range(0, 14))
  {
  case 1: c.erase("image_list_file"); valid = false; break;
  case 2: c["image_list_file"] += "-"; valid = false; break;
  case 3: c["output_tracks_file"] = ""; valid = false; break;
  case 4: c["mask_list_file"] = dir; valid = false; break;
  case 5: c["feature_tracker:tf:k"] = "0"; valid = false; break;
  case 6: c["image_reader:type"] = "none"; valid = false; break;
  case 7: c.erase("convert_image:type"); valid = false; break;
  case 8: c["image_reader:" + io + ":k"] = "-1"; valid = false; break;
  default:;
  }
  std::string text; for (auto const& e : c) text += e.first + " = " + e.second + "\n"; dump(dir + "/c", text); s.note() << text;
  if (s.chance(1, 3))
  { // the configuration is written
    std::string o = dir + "/out.conf"; want({ "tool", "-c", dir + "/c", "-o", o }, "i:0", "writing the configuration"); REQUIRE(B.calls.empty(), "nothing is done");
    kv::config_block_sptr m = kv::read_config_file(o), in = kv::read_config_file(dir + "/c");
    for (char const* k : { "image_list_file", "output_tracks_file", "mask_list_file" }) REQUIRE_EQ(m->get_value<std::string>(k, "none"), in->get_value<std::string>(k, ""), "value of " << k);
    for (char const* k : { "invert_masks", "expect_multichannel_masks" }) REQUIRE_EQ(m->get_value<bool>(k), in->get_value<bool>(k, false), "value of " << k);
    for (char const* a : { "convert_image", "image_reader", "feature_tracker" }) { std::string t = in->get_value<std::string>(std::string(a) + ":type", ""); if (t == "none") t = ""; REQUIRE_EQ(m->get_value<std::string>(std::string(a) + ":type", ""), t, "type of " << a); if (!t.empty()) REQUIRE_EQ(m->get_value<std::string>(std::string(a) + ":" + t + ":k"), in->get_value<std::string>(std::string(a) + ":" + t + ":k"), "parameter of " << a); }
    want({ "tool", "--config=" + o, "-o", o + "2" }, "i:0", "writing it again"); REQUIRE_EQ(slurp(o + "2"), slurp(o), "the configuration written is the same again");
    if (s.flip()) rename(o.c_str(), (dir + "/c").c_str());
  }
  R r = py({ "tool", "-c", dir + "/c" }); std::vector<std::string> calls;
  if (!valid) { REQUIRE(r.ok && r.text == "i:1", "an invalid configuration: " << r); REQUIRE(B.calls.empty(), "nothing is done"); return; }
  if (masks && !parallel) { REQUIRE(r.ok && r.text == "i:2", "lists of different length: " << r); REQUIRE(B.calls.empty(), "nothing is done"); return; }
  std::vector<kv::track_sptr> v; bool stop = false;
  auto load = [&](std::string const& f) { size_t w = 0; struct stat st; if (stat(f.c_str(), &st)) { stop = true; return w; } w = f.size() % 7 + 1; calls.push_back("load " + std::to_string(kio) + " " + f); calls.push_back("convert " + std::to_string(kcv) + " " + std::to_string(w)); return w + 1; };
  for (size_t i = 0; i < im.size() && !stop; ++i)
  {
    size_t w = load(im[i]), mw = masks && !stop ? load(mk[i]) : 0; if (stop) break;
    calls.push_back("track " + std::to_string(ktf) + " " + std::to_string(i) + " " + std::to_string(i) + " " + std::to_string(w) + " " + (masks ? std::to_string(mw) : "-"));
    kv::track_sptr t = std::make_shared<kv::track>(); t->set_id(kv::track_id_t(i)); t->append(kv::track::track_state(unsigned(i), std::make_shared<kv::feature_d>(kv::vector_2d(ktf, double(w))), kv::descriptor_sptr())); v.push_back(t);
  }
  std::string got, exp; for (auto const& x : B.calls) got += x + "\n"; for (auto const& x : calls) exp += x + "\n"; REQUIRE_EQ(got, exp, "calls of the algorithms");
  if (stop) { REQUIRE(missing && r.is("VitalBaseException"), "a missing image: " << r); return; }
  if (im.empty()) { REQUIRE(r.is("VitalBaseException"), "no tracks to write: " << r); return; }
  REQUIRE(r.ok && r.text == "i:0", "tracking succeeds: " << r); if (v.size() > 1) s.nontrivial();
  kv::write_track_file(std::make_shared<kv::simple_track_set>(v), dir + "/e"); REQUIRE_EQ(slurp(c["output_tracks_file"]), slurp(dir + "/e"), "tracks written");
}

PBT_PROP_ISOLATED(plugins, 60, 3000, "a plugin was loaded by name and others after it")
{
  std::string dir = fresh_dir(), plug = slurp(std::string(getenv("VERIF_HDIR")) + "/plug.so"); size_t n = 0; std::vector<std::string> dirs, mods; std::map<std::string, std::string> where;
  unsetenv("VITAL_PLUGIN_PATH"); kv::algorithm_plugin_manager& pm = kv::algorithm_plugin_manager::instance();
  REQUIRE(!py({ "new", "Apm" }).ok, "the manager is no object");
  auto known = [&]() { return join(items(get({ "class", "Apm", "registered_module_names" }))); }; bool one = false; std::string expect;
  while (s.more(n, 4, 9) || n == 0)
  {
    switch (dirs.empty() ? 0 : s.weighted({3, 2, 2}))
    {
    case 0:
    {
      std::string d = dir + "/d" + std::to_string(dirs.size()); mkdir(d.c_str(), 0755); size_t k = 0;
      while (s.more(k, 2, 4)) { std::string m = s.pick(std::vector<std::string>{ "ma", "mb", "mc", "vital_x" }); dump(d + "/" + m + ".so", plug); dump(d + "/" + m + ".so.reg", "impl " + m + " 1\n"); mods.push_back(m); if (!where.count(m)) where[m] = d; }
      get({ "class", "Apm", "add_search_path", S(d) }); dirs.push_back(d); break;
    }
    case 1: { std::string m = mods.empty() || s.chance(1, 4) ? "none" : s.pick(mods); get({ "class", "Apm", "register_plugins", S(m) }); if (where.count(m)) { REQUIRE(known().find(pbt::show(m)) != std::string::npos, "the plugin " << m << " is loaded: " << known()); one = true; } break; }
    default: get(s.flip() ? std::vector<std::string>{ "class", "Apm", "register_plugins" } : std::vector<std::string>{ "class", "Apm", "register_plugins", "n:" }); { std::string k2 = known(); for (auto const& m : where) REQUIRE(k2.find(pbt::show(m.first)) != std::string::npos, "the plugin " << m.first << " is loaded: " << k2); } if (one) s.nontrivial();
    }
    REQUIRE_EQ(known(), join(pm.registered_module_names()), "module names");
  }
}

PBT_PROP(library_search, 4000, 100000, "a library found above the directory it was searched from")
{
  std::string top = fresh_dir(); size_t n = 0; std::vector<std::string> dirs = { top }; std::map<std::string, std::vector<std::string>> files; // "<dir>/lib" -> names
  while (s.more(n, 4, 10)) { std::string d = s.pick(dirs) + "/" + s.pick(std::vector<std::string>{ "a", "b", "c" }); if (!mkdir(d.c_str(), 0755)) dirs.push_back(d); }
  for (auto const& d : dirs) for (char const* l : { "lib64", "lib" }) if (s.chance(1, 4))
  {
    std::string p = d + "/" + l; if (s.chance(1, 10)) { struct stat st; if (stat(p.c_str(), &st)) dump(p, "no directory"); continue; } mkdir(p.c_str(), 0755); auto& v = files[p]; size_t k = 0;
    while (s.more(k, 1, 3)) { v.push_back(s.pick(std::vector<std::string>{ "libfoo.so", "libfoo.so", "libbar.so", "libfoo.a", "xlibfoo.so", "foo.so", "libfoo2.so", "libfoo.dylib" })); dump(p + "/" + v.back(), ""); }
  }
  auto hits = [&](std::string const& d, bool& stop) { std::vector<std::string> r; stop = false; for (char const* l : { "lib64", "lib" }) { auto it = files.find(d + "/" + l); if (it == files.end()) continue; stop = true; for (auto const& f : it->second) if (f == "libfoo.so" || f == "foo.so" || f == "libfoo.dylib") r.push_back(it->first + "/" + f); if (!r.empty()) return r; } return r; };
  auto search = [&](std::string d, bool& up) { up = false; while (d.size() >= top.size()) { bool stop; std::vector<std::string> r = hits(d, stop); if (stop) return r; up = true; d = d.substr(0, d.rfind('/')); } return std::vector<std::string>(); };
  std::string build = s.flip() ? "" : s.pick(dirs), own = s.pick(dirs) + "/module.py", ld; std::vector<std::string> order; if (!build.empty()) order.push_back(build); order.push_back(own.substr(0, own.rfind('/')));
  // something has to end the search below the top
  { mkdir((top + "/lib").c_str(), 0755); if (!files.count(top + "/lib")) files[top + "/lib"]; }
  n = 0; do { std::string d = s.pick(dirs); ld += (ld.empty() ? "" : ":") + d; order.push_back(d); } while (s.more(n, 1, 3));
  std::vector<std::string> ok; bool up = false; for (auto const& d : order) { ok = search(d, up); if (!ok.empty()) break; }
  R r = py({ "find", "foo", ld, build, own }); s.note() << "build " << build << " own " << own << " LD_LIBRARY_PATH " << ld << "\n";
  if (ok.empty()) { REQUIRE(r.is("RuntimeError"), "nothing is found: " << r); return; }
  if (up) s.nontrivial();
  REQUIRE(r.ok && std::find(ok.begin(), ok.end(), r.text.substr(2)) != ok.end(), "found " << r << ", expected " << join(ok));
}
