// C23: the C interface, against the C++ interface and a model of its handles
#include "vital_common.hpp"
#include <vital/algo/algorithm.txx>
#include <vital/algo/convert_image.h>
#include <vital/algo/image_io.h>
#include <vital/algo/track_features.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_exception.h>
#include <vital/config/config_block_io.h>
#include <vital/exceptions.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>
#include <vital/registrar.h>
#include <vital/types/camera.h>
#include <vital/types/feature.h>
#include <vital/types/image_container.h>
#include <vital/types/track_set.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track_set.h>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
namespace kv = kwiver::vital;

namespace {
// an error handle, or none
struct EH {
  vital_error_handle_t* h = nullptr;
  EH(Src& s, bool always = false) { if (always || s.chance(3, 4)) { h = vital_eh_new(); REQUIRE(h && h->error_code == 0 && !h->message, "a new error handle is empty"); if (s.chance(1, 4)) reuse(s.flip()); } }
  int code0 = 0; std::string text0; // left by an earlier failure
  void reuse(bool file) { if (file) vital_config_block_file_read("/nonexistent/earlier.conf", h); else vital_trackset_destroy(nullptr, h); REQUIRE(h->error_code == (file ? 1 : -1) && h->message, "first failure of a handle"); code0 = h->error_code; text0 = h->message; }
  ~EH() { if (h) vital_eh_destroy(h); }
  EH(EH const&) = delete; EH& operator=(EH const&) = delete;
  operator vital_error_handle_t*() const { return h; }
  void ok(char const* what) const { if (h) REQUIRE(h->error_code == code0 && (code0 ? h->message && text0 == h->message : !h->message), what << " succeeds, not: " << h->error_code << " " << (h->message ? h->message : "")); }
  void code(int c, char const* what) const { if (h) { REQUIRE_EQ(h->error_code, c, "error code of " << what); REQUIRE(h->message && *h->message, "an error comes with a message: " << what); if (text0.find("earlier") != std::string::npos) REQUIRE(text0 != h->message, "the message is that of an earlier failure: " << what); } }
  void error(char const* what) const { code(-1, what); }
  void message(std::string const& m, char const* what) const { if (h) REQUIRE(h->message && std::string(h->message).find(m) != std::string::npos, what << ": message " << pbt::show(h->message ? h->message : "") << " gives the reason " << pbt::show(m)); }
};
std::string take(vital_string_t* s)
{
  REQUIRE(s, "a string is returned");
  REQUIRE_EQ(std::strlen(s->str), s->length, "length of a string");
  std::string r(s->str, s->length); vital_string_free(s); return r;
}
std::vector<std::string> take(unsigned n, char** p)
{
  std::vector<std::string> r; for (unsigned i = 0; i < n; ++i) r.push_back(p[i]);
  vital_common_free_string_list(n, p);
  return r;
}
std::string join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string r; for (auto const& x : v) r += pbt::show(x) + " "; return r; }

std::string gen_key(Src& s)
{
  static std::vector<std::string> const p = { "a", "b", "sub", "sub2", "k_1", "X" };
  std::string k = s.pick(p); size_t n = 0; while (s.more(n, 1, 3)) k += ":" + s.pick(p);
  return k;
}
std::string gen_text(Src& s)
{
  switch (s.weighted({4, 3, 2, 1}))
  {
  case 0: { static std::vector<std::string> const v = { "x", "", "true", "no", "12", "3.5", "off", "/a/b", "two words", "tRue" }; return s.pick(v); }
  case 1: { std::string r; size_t n = 0; while (s.more(n, 6, 50)) r += char(s.range(1, 255)); return r; }
  case 2: return std::string(size_t(s.integer(0, 5000)), 'v');
  default: return "line\nline\n";
  }
}
std::string all_of(kv::config_block_sptr c)
{
  std::vector<std::string> ks = c->available_values(); std::sort(ks.begin(), ks.end());
  std::string r; for (auto const& k : ks) r += pbt::show(k) + "=" + pbt::show(c->get_value<std::string>(k)) + "/" + pbt::show(c->get_description(k)) + "/" + (c->is_read_only(k) ? "ro" : "") + " ";
  return r;
}
std::string all_of(vital_config_block_t* c)
{
  unsigned n = 77; char** p = nullptr;
  vital_config_block_available_values(c, &n, &p);
  std::vector<std::string> ks = take(n, p); std::sort(ks.begin(), ks.end());
  std::string r; for (auto const& k : ks) r += pbt::show(k) + "=" + pbt::show(take(vital_config_block_get_value(c, k.c_str()))) + "/" + pbt::show(take(vital_config_block_get_description(c, k.c_str()))) + "/" + (vital_config_block_is_read_only(c, k.c_str()) ? "ro" : "") + " ";
  return r;
}
// what a C++ call gives: whether it threw, and what
template <typename F> bool threw(F f, std::string& why) { try { f(); return false; } catch (std::exception const& e) { why = e.what(); return true; } }
void dump(std::string const& f, std::string const& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
std::string slurp(std::string const& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
std::string fresh_dir()
{
  static unsigned n = 0; std::string d = pbt::scratch() + "/c" + std::to_string(n++); mkdir(d.c_str(), 0755); return d;
}
}
PBT_INIT() { quiet_all(); quiet_logger("vital.c_utils"); }

PBT_PROP(config_blocks, 30000, 1000000, "a view and its parent were both used, one of them after the other was destroyed, or values of two blocks were merged")
{
  struct H { vital_config_block_t* c; kv::config_block_sptr m; bool derived; };
  std::vector<H> live; std::vector<vital_config_block_t*> dead;
  bool merged = false, after = false;
  size_t n = 0;
  REQUIRE_EQ(std::string(vital_config_block_block_sep()->str), kv::config_block::block_sep, "separator");
  REQUIRE(vital_config_block_block_sep() == vital_config_block_block_sep(), "the separator is made once");
  REQUIRE_EQ(std::string(vital_config_block_global_value()->str), kv::config_block::global_value, "name of the global block");
  auto add = [&](vital_config_block_t* c, kv::config_block_sptr m, bool d)
  {
    REQUIRE(c, "a block is made");
    for (auto const& l : live) REQUIRE(l.c != c, "a new block is none of those in use");
    dead.erase(std::remove(dead.begin(), dead.end(), c), dead.end());
    live.push_back(H{c, m, d});
    REQUIRE_EQ(take(vital_config_block_get_name(c)), m->get_name(), "name");
  };
  auto destroy = [&](size_t i)
  {
    EH e(s); vital_config_block_destroy(live[i].c, e); e.ok("destroying a block");
    dead.push_back(live[i].c); if (live[i].derived || live.size() > 1) after = true; live.erase(live.begin() + long(i));
  };
  while (s.more(n, 14, 60) || n == 0)
  {
    size_t op = live.empty() ? 0 : s.weighted({3, 3, 4, 8, 3, 3, 2, 2, 2, 2, 2, 2});
    std::string k = gen_key(s);
    if (op == 0)
    {
      std::string nm = s.flip() ? "" : gen_text(s);
      if (nm.empty() && s.flip()) add(vital_config_block_new(), kv::config_block::empty_config(), false);
      else add(vital_config_block_new_named(nm.c_str()), kv::config_block::empty_config(nm), false);
      s.note() << "new " << pbt::show(nm) << " as " << live.size() - 1 << "\n";
      continue;
    }
    size_t i = s.idx(live.size()); H h = live[i];
    s.note() << "op " << op << " on " << i << " key " << k << "\n";
    switch (op)
    {
    case 1: add(vital_config_block_subblock(h.c, k.c_str()), h.m->subblock(k), false); break;
    case 2: add(vital_config_block_subblock_view(h.c, k.c_str()), h.m->subblock_view(k), true); break;
    case 3:
    {
      std::string v = gen_text(s), w;
      if (s.flip()) { threw([&] { h.m->set_value<std::string>(k, v); }, w); vital_config_block_set_value(h.c, k.c_str(), v.c_str()); }
      else { std::string d = gen_text(s); threw([&] { h.m->set_value<std::string>(k, v, d); }, w); vital_config_block_set_value_descr(h.c, k.c_str(), v.c_str(), d.c_str()); }
      break;
    }
    case 4:
    {
      std::string v, w; bool t = threw([&] { v = h.m->get_value<std::string>(k); }, w);
      vital_string_t* g = vital_config_block_get_value(h.c, k.c_str());
      if (t) REQUIRE(!g, "no value of " << k); else REQUIRE_EQ(pbt::show(take(g)), pbt::show(v), "value of " << k);
      std::string d = gen_text(s);
      REQUIRE_EQ(pbt::show(take(vital_config_block_get_value_default(h.c, k.c_str(), d.c_str()))), pbt::show(h.m->get_value<std::string>(k, d)), "value or default of " << k);
      REQUIRE_EQ(vital_config_block_has_value(h.c, k.c_str()), h.m->has_value(k), "has " << k);
      break;
    }
    case 5:
    {
      bool v = false; std::string w; bool t = threw([&] { v = h.m->get_value<bool>(k); }, w);
      { EH e(s); bool g = vital_config_block_get_value_bool(h.c, k.c_str(), e); if (t) { e.error("a value that is no boolean"); e.message(w, "get_value_bool"); REQUIRE(!g, "false"); } else { e.ok("get_value_bool"); REQUIRE_EQ(g, v, "boolean of " << k); } }
      bool d = s.flip();
      { EH e(s); bool g = vital_config_block_get_value_default_bool(h.c, k.c_str(), d, e); e.ok("get_value_default_bool"); REQUIRE_EQ(g, h.m->get_value<bool>(k, d), "boolean or default of " << k); }
      break;
    }
    case 6:
    {
      std::string v, w; bool t = threw([&] { v = h.m->get_description(k); }, w);
      vital_string_t* g = vital_config_block_get_description(h.c, k.c_str());
      if (t) REQUIRE(!g, "no description of " << k); else REQUIRE_EQ(pbt::show(take(g)), pbt::show(v), "description of " << k);
      break;
    }
    case 7: { std::string w; threw([&] { h.m->unset_value(k); }, w); vital_config_block_unset_value(h.c, k.c_str()); break; }
    case 8: h.m->mark_read_only(k); vital_config_block_mark_read_only(h.c, k.c_str()); REQUIRE(vital_config_block_is_read_only(h.c, k.c_str()), "read-only"); break;
    case 9:
    {
      H o = live[s.idx(live.size())]; std::string w;
      if (o.c == h.c) break;
      threw([&] { h.m->merge_config(o.m); }, w); vital_config_block_merge_config(h.c, o.c); merged = true; break;
    }
    case 10: destroy(i); break;
    default:
    { // a handle that is none
      vital_config_block_t* bad = dead.empty() || s.flip() ? nullptr : s.pick(dead);
      EH e(s);
      switch (s.range(0, 7))
      {
      case 0: REQUIRE(!vital_config_block_get_value(bad, k.c_str()), "no value"); break;
      case 1: REQUIRE(!vital_config_block_subblock_view(bad, k.c_str()), "no block"); REQUIRE(!vital_config_block_subblock(bad, k.c_str()), "no block"); break;
      case 2: vital_config_block_set_value(bad, k.c_str(), "x"); vital_config_block_unset_value(bad, k.c_str()); vital_config_block_mark_read_only(bad, k.c_str()); break;
      case 3: REQUIRE(!vital_config_block_get_value_bool(bad, k.c_str(), e), "false"); e.error("value of no block"); break;
      case 4: vital_config_block_merge_config(h.c, bad); vital_config_block_merge_config(bad, h.c); break;
      case 5: REQUIRE(!vital_config_block_has_value(bad, k.c_str()) && !vital_config_block_is_read_only(bad, k.c_str()), "false"); break;
      case 6: { vital_config_block_file_write(bad, (pbt::scratch() + "/nothing.conf").c_str(), e); e.error("writing no block"); REQUIRE(access((pbt::scratch() + "/nothing.conf").c_str(), F_OK) != 0, "nothing is written"); break; }
      default: REQUIRE(!vital_config_block_get_name(bad) && !vital_config_block_get_description(bad, k.c_str()) && !vital_config_block_get_value_default(bad, k.c_str(), "d"), "nothing of no block");
      }
    }
    }
    for (auto const& l : live) REQUIRE_EQ(all_of(l.c), all_of(l.m), "values of a block, through C and as in C++");
  }
  while (!live.empty()) { destroy(live.size() - 1); for (auto const& l : live) REQUIRE_EQ(all_of(l.c), all_of(l.m), "values of a block, through C and as in C++"); }
  if (merged || after) s.nontrivial();
}

PBT_PROP(config_files, 6000, 200000, "a file with an error in it or a block written and read back")
{
  std::string const d = fresh_dir();
  struct Clean { std::string d; ~Clean() { if (system(("rm -rf '" + d + "'").c_str())) {} } } clean{d};
  std::string file = d + "/f.conf", name = "f.conf";
  int kind = int(s.weighted({3, 4, 1, 1, 2}));
  std::string text; size_t n = 0;
  while (s.more(n, 4, 20))
    switch (s.weighted({6, 1, 1, 1, 1, 1}))
    {
    case 0: text += gen_key(s) + " = " + s.pick(std::vector<std::string>{ "1", "x y", "", "true", "a = b" }) + "\n"; break;
    case 1: text += "block " + gen_key(s) + "\n"; break;
    case 2: text += "endblock\n"; break;
    case 3: text += "include " + s.pick(std::vector<std::string>{ "missing.conf", "g.conf" }) + "\n"; break;
    case 4: text += "# nothing\n"; break;
    default: text += s.pick(std::vector<std::string>{ "garbage\n", "k[RO] = 1\n", "= 3\n", "key [RO = 4\n" });
    }
  dump(d + "/g.conf", "g = 1\n");
  if (kind == 0) file = d + "/missing/f.conf"; else if (kind == 2) file = d; else if (kind == 3) { mkdir((d + "/sub").c_str(), 0755); file = d + "/sub"; } else dump(file, text);
  s.note() << "kind " << kind << ": " << pbt::show(text) << "\n";
  int want = 0; std::string why; kv::config_block_sptr m;
  bool standard = kind == 4; bool merge = s.flip(), prefix = s.flip();
  if (standard) { mkdir((d + "/share").c_str(), 0755); mkdir((d + "/share/app").c_str(), 0755); mkdir((d + "/share/app/config").c_str(), 0755); dump(d + "/share/app/config/f.conf", text); name = s.chance(1, 4) ? "other.conf" : "f.conf"; }
  setenv("HOME", d.c_str(), 1);
  try
  {
    m = standard ? kv::read_config_file(name, "app", "", prefix ? d : "", merge) : kv::read_config_file(file);
  }
  catch (kv::config_file_not_found_exception const& e) { want = 1; why = e.what(); }
  catch (kv::config_file_not_read_exception const& e) { want = 2; why = e.what(); }
  catch (kv::config_file_not_parsed_exception const& e) { want = 3; why = e.what(); }
  catch (std::exception const& e) { want = -1; why = e.what(); }
  EH e(s);
  vital_config_block_t* c = standard ? vital_config_block_file_read_from_standard_location(name.c_str(), "app", s.flip() ? "" : nullptr, prefix ? d.c_str() : s.flip() ? nullptr : "", merge, e)
                                     : vital_config_block_file_read(file.c_str(), e);
  if (want || !m) // C++ gives no block at all when a standard location is missing in some cases
  {
    REQUIRE(!c, "no block when reading fails: " << why);
    if (want) { e.code(want, "reading"); e.message(why, "reading"); } else if (e.h) REQUIRE(e.h->error_code != 0 && e.h->message, "an error is reported");
    if (want) s.nontrivial();
    return;
  }
  e.ok("reading"); REQUIRE(c, "a block is read");
  REQUIRE_EQ(all_of(c), all_of(m), "values read");
  std::string out = d + "/" + (s.chance(1, 4) ? "new/deep/o.conf" : s.chance(1, 4) ? "g.conf" : "o.conf");
  if (s.chance(1, 6)) { out = d + "/g.conf/o.conf"; }
  else if (s.chance(1, 6)) { out = d; }
  std::string mout = d + "/m/o.conf", w; int wcode = 0;
  std::string target = out.find("g.conf/") != std::string::npos || out == d ? out : mout;
  try { kv::write_config_file(m, target); } catch (kv::config_file_write_exception const& x) { wcode = 1; w = x.what(); } catch (std::exception const& x) { wcode = -1; w = x.what(); }
  EH f(s);
  vital_config_block_file_write(c, out.c_str(), f);
  if (wcode) { f.code(wcode, "writing"); if (target == out) f.message(w, "writing"); }
  else
  {
    f.ok("writing"); REQUIRE_EQ(slurp(out), slurp(mout), "file written");
    EH g(s); vital_config_block_t* b = vital_config_block_file_read(out.c_str(), g); g.ok("reading what was written"); REQUIRE(b && b != c, "a new block"); REQUIRE_EQ(all_of(b), all_of(kv::read_config_file(out)), "what was written"); vital_config_block_destroy(b, nullptr);
    s.nontrivial();
  }
  REQUIRE_EQ(all_of(c), all_of(m), "values after writing");
  vital_config_block_destroy(c, nullptr);
}

PBT_PROP(strings, 30000, 500000, "a string of at least two characters")
{
  std::string t; size_t n = 0; while (s.more(n, 6, 200)) t += char(s.range(1, 255));
  if (t.size() > 1) s.nontrivial();
  vital_string_t* a = vital_string_new(t.size(), t.c_str()); REQUIRE(a->length == t.size() && t == a->str, "string made"); vital_string_free(a);
  size_t k = size_t(s.range(0, 20));
  vital_string_t* b = vital_string_new(k, nullptr); REQUIRE(b->length == k && b->str[k] == 0, "room for a string"); vital_string_free(b);
  size_t part = t.empty() ? 0 : s.idx(t.size() + 1);
  vital_string_t* c = vital_string_new(part, t.c_str()); REQUIRE(c->length == part && t.substr(0, part) == c->str, "first part of a string"); vital_string_free(c);
  vital_free_pointer(nullptr); vital_free_double_pointer(3, nullptr); vital_eh_destroy(nullptr);
  void** pp = (void**)malloc(3 * sizeof(void*)); pp[0] = malloc(4); pp[1] = nullptr; pp[2] = malloc(1); vital_free_double_pointer(3, pp); vital_free_pointer(malloc(7));
}

// ---- images
namespace {
kv::image const& img(vital_image_t* i) { return *reinterpret_cast<kv::image*>(i); }
}
PBT_PROP(images, 20000, 600000, "an image of at least two planes made from data with gaps, or a container obtained twice")
{
  size_t w = size_t(s.range(0, 6)), h = size_t(s.range(0, 6)), d = size_t(s.range(0, 4));
  bool il = s.flip();
  vital_image_t* e0 = vital_image_new();
  REQUIRE(vital_image_width(e0) == 0 && vital_image_height(e0) == 0 && vital_image_depth(e0) == 0, "an empty image"); vital_image_destroy(e0);
  vital_image_t* a = vital_image_new_with_dim(w, h, d, il);
  kv::image ref(w, h, d, il);
  REQUIRE(a && vital_image_width(a) == w && vital_image_height(a) == h && vital_image_depth(a) == d, "dimensions");
  REQUIRE(vital_image_size(a) == ref.size() && vital_image_w_step(a) == size_t(ref.w_step()) && vital_image_h_step(a) == size_t(ref.h_step()) && vital_image_d_step(a) == size_t(ref.d_step()), "layout");
  // from data with any layout: strides are a permutation with gaps
  size_t dim[3] = { w, h, d }; int perm[3] = { 0, 1, 2 }; std::swap(perm[0], perm[s.idx(3)]); std::swap(perm[1], perm[1 + s.idx(2)]);
  int32_t st[3]; int32_t step = int32_t(s.range(1, 3)); bool gaps = step > 1;
  for (int k = 0; k < 3; ++k) { st[perm[k]] = step; int32_t g = int32_t(s.range(0, 2)); gaps = gaps || g; step = step * int32_t(dim[perm[k]] ? dim[perm[k]] : 1) + g; }
  std::vector<unsigned char> buf(size_t(step) + 1); for (auto& x : buf) x = (unsigned char)s.range(0, 255);
  bool neg = s.chance(1, 4) && h > 0; // rows stored bottom up
  size_t off = neg ? size_t(st[1]) * (h - 1) : 0;
  bool back = s.chance(1, 4); // planes in reversed order behind the first pixel: BGR data
  if (d > 1 && gaps) s.nontrivial();
  vital_image_t* b = vital_image_new_from_data(buf.data() + off, w, h, d, st[0], neg ? -st[1] : st[1], back ? -st[2] : st[2]);
  s.note() << w << "x" << h << "x" << d << " steps " << st[0] << " " << (neg ? -st[1] : st[1]) << " " << (back ? -st[2] : st[2]) << "\n";
  REQUIRE(vital_image_width(b) == w && vital_image_height(b) == h && vital_image_depth(b) == d, "dimensions");
  auto at = [&](size_t i, size_t j, size_t k) { return int(buf[off + i * size_t(st[0]) + (neg ? size_t(0) : j * size_t(st[1])) + (back ? d - 1 - k : k) * size_t(st[2]) - (neg ? j * size_t(st[1]) : 0)]); };
  auto check = [&](vital_image_t* m) {
    for (size_t i = 0; i < w; ++i) for (size_t j = 0; j < h; ++j) for (size_t k = 0; k < d; ++k)
    {
      REQUIRE_EQ(vital_image_get_pixel3(m, unsigned(i), unsigned(j), unsigned(k)), at(i, j, k), "pixel " << i << " " << j << " " << k);
      if (k == 0) REQUIRE_EQ(vital_image_get_pixel2(m, unsigned(i), unsigned(j)), at(i, j, 0), "pixel " << i << " " << j);
      REQUIRE_EQ(int(vital_image_first_pixel(m)[ptrdiff_t(i) * img(m).w_step() + ptrdiff_t(j) * img(m).h_step() + ptrdiff_t(k) * img(m).d_step()]), at(i, j, k), "pixel through its address");
    } };
  std::vector<unsigned char> saved = buf;
  check(b);
  for (auto& x : buf) x ^= 0xff;   // the image does not use the caller's memory
  std::swap(saved, buf); check(b);
  vital_image_t* c = vital_image_new_from_image(b);
  REQUIRE(vital_image_first_pixel(c) == vital_image_first_pixel(b), "shares its memory");
  vital_image_destroy(b); check(c);
  // containers
  vital_image_container_t* ic = vital_image_container_new_simple(c); REQUIRE(ic, "container");
  REQUIRE(vital_image_container_width(ic) == w && vital_image_container_height(ic) == h && vital_image_container_depth(ic) == d && vital_image_container_size(ic) == vital_image_size(c), "container of an image");
  vital_image_destroy(c);
  vital_image_t* g = vital_image_container_get_image(ic); check(g);
  std::weak_ptr<kv::image_container> weak = vital_image_container_to_sptr(ic);
  int held = 1; size_t n = 0;
  while (s.more(n, 2, 8))
  {
    if (held && s.flip()) { vital_image_container_t* again = vital_image_container_from_sptr(weak.lock()); REQUIRE(again == ic, "the same handle for the same container"); ++held; s.nontrivial(); }
    else if (held) { EH e(s); vital_image_container_destroy(ic, e); e.ok("destroying a container"); --held; }
    else { EH e(s); vital_image_container_destroy(s.flip() ? nullptr : ic, e); REQUIRE(vital_image_container_width(ic) == 0 && vital_image_container_size(ic) == 0 && !vital_image_container_get_image(ic) && !vital_image_container_to_sptr(ic), "nothing of a destroyed container"); }
    REQUIRE_EQ(!weak.expired(), held > 0, "a container lives until it was destroyed as often as it was obtained: " << held);
    if (held) REQUIRE(vital_image_container_width(ic) == w, "container in use");
  }
  for (; held; --held) { REQUIRE(!weak.expired(), "container in use"); vital_image_container_destroy(ic, nullptr); }
  REQUIRE(weak.expired(), "the container is gone");
  check(g); vital_image_destroy(g); vital_image_destroy(a);
}

// ---- tracks, track sets, cameras, camera maps
PBT_PROP(tracks_and_cameras, 4000, 150000, "a track set or a camera map with at least two elements, used after its elements were destroyed")
{
  std::string const dir = fresh_dir();
  struct Clean { std::string d; ~Clean() { if (system(("rm -rf '" + d + "'").c_str())) {} } } clean{dir};
  // tracks
  std::vector<vital_track_t*> ts; size_t n = 0;
  while (s.more(n, 2, 6)) { vital_track_t* t = vital_track_new(); EH e(s); REQUIRE(t && vital_track_size(t, e) == 0 && vital_track_empty(t, e), "a new track is empty"); e.ok("track"); ts.push_back(t); }
  std::vector<vital_track_t*> some = ts; if (!some.empty() && s.chance(1, 3)) some.push_back(some[0]);
  vital_trackset_t* set = vital_trackset_new(some.size(), some.data()); REQUIRE(set, "a track set");
  if (s.flip()) for (auto t : ts) { EH e(s); vital_track_destroy(t, e); e.ok("destroying a track"); if (ts.size() > 1) s.nontrivial(); EH f(s); REQUIRE(vital_track_size(t, f) == 0, "no size"); f.error("size of a destroyed track"); vital_track_empty(t, nullptr); }
  else for (auto t : ts) vital_track_destroy(t, nullptr);
  { EH e(s); REQUIRE_EQ(vital_trackset_size(set, e), some.size(), "size of the set"); e.ok("size"); }
  if (!some.empty()) { EH e(s); ts[0] = nullptr; vital_track_t* bad[1] = { nullptr }; REQUIRE(!vital_trackset_new(1, bad), "no set of no track"); REQUIRE(vital_track_empty(nullptr, e), "no track is empty"); e.error("no track"); }
  // files of track sets
  {
    std::vector<kv::track_sptr> v; size_t k = 0;
    while (s.more(k, 2, 5))
    {
      kv::track_sptr t(new kv::track()); t->set_id(k * 3); size_t q = 0; unsigned fr = unsigned(s.range(0, 5));
      while (s.more(q, 2, 5)) { t->append(kv::track::track_state(fr, kv::feature_sptr(new kv::feature_d(kv::vector_2d(double(s.range(0, 100)), double(s.range(-9, 9)) / 2), 1.0, 2.0, 0.5)), kv::descriptor_sptr())); fr += unsigned(s.range(1, 3)); }
      if (!t->empty()) v.push_back(t);
    }
    kv::track_set_sptr cs(new kv::simple_track_set(v));
    std::weak_ptr<kv::track_set> weak = cs;
    vital_trackset_t* h = vital_trackset_from_sptr(&cs); REQUIRE(h, "a set made in C++");
    vital_trackset_t* h2 = s.flip() ? vital_trackset_from_sptr(&cs) : nullptr; if (h2) REQUIRE(h2 == h, "the same handle");
    std::string c1 = dir + "/c.txt", w1; bool t1 = threw([&] { kv::write_track_file(cs, c1); }, w1); std::string const written = t1 ? "" : slurp(c1); unlink(c1.c_str());
    EH e(s); vital_trackset_write_track_file(h, c1.c_str(), e);
    if (t1) { e.error("writing"); e.message(w1, "writing tracks"); }
    else
    {
      e.ok("writing"); REQUIRE_EQ(slurp(c1), written, "track file");
      if (s.chance(1, 3)) { std::string t = slurp(c1); dump(c1, t.substr(0, s.idx(t.size() + 1)) + s.pick(std::vector<std::string>{ "", "\n", "x y z\n" })); }
      kv::track_set_sptr back; std::string w2; bool t2 = threw([&] { back = kv::read_track_file(c1); }, w2);
      EH f(s); vital_trackset_t* r = vital_trackset_new_from_file(c1.c_str(), f);
      if (t2) { REQUIRE(!r, "no set"); f.error("reading"); f.message(w2, "reading tracks"); }
      else { f.ok("reading"); REQUIRE(r, "a set"); REQUIRE_EQ(vital_trackset_size(r, nullptr), back->size(), "tracks read"); vital_trackset_write_track_file(r, (dir + "/b.txt").c_str(), nullptr); std::string x; if (!threw([&] { kv::write_track_file(back, dir + "/b2.txt"); }, x)) REQUIRE_EQ(slurp(dir + "/b.txt"), slurp(dir + "/b2.txt"), "tracks read"); EH g(s); vital_trackset_destroy(r, g); g.ok("destroying"); EH i(s); REQUIRE(vital_trackset_size(r, i) == 0, "no size"); i.error("size of a destroyed set"); }
    }
    { EH f(s); std::string x; bool t = threw([&] { kv::write_track_file(cs, dir + "/no/such/f"); }, x); vital_trackset_write_track_file(h, (dir + "/no/such/f").c_str(), f); if (t) f.error("writing to nowhere"); }
    cs.reset();
    if (h2) { vital_trackset_destroy(h, nullptr); REQUIRE(!weak.expired(), "a set obtained twice and destroyed once"); }
    { EH f(s); REQUIRE_EQ(vital_trackset_size(h, f), v.size(), "size"); f.ok("size"); }
    vital_trackset_destroy(h, nullptr); REQUIRE(weak.expired(), "the set is gone");
  }
  { EH f(s); REQUIRE(!vital_trackset_new_from_file((dir + "/missing").c_str(), f), "no set"); f.error("reading a missing file"); }
  { EH e(s); REQUIRE_EQ(vital_trackset_size(set, e), some.size(), "size of the set"); e.ok("size"); vital_trackset_destroy(set, nullptr); }
  // cameras
  std::vector<vital_camera_t*> cams; n = 0;
  while (s.more(n, 2, 5))
  {
    std::string f = dir + "/k" + std::to_string(n) + ".krtd";
    kv::simple_camera cam(kv::vector_3d(double(n), s.range(-5, 5), 2), kv::rotation_d(double(s.range(0, 3)) / 2, kv::vector_3d(0, 0, 1)), kv::simple_camera_intrinsics(double(s.range(1, 2000)), kv::vector_2d(1, 2)));
    kv::write_krtd_file(cam, f);
    if (s.chance(1, 8)) { dump(f, "1 0 0\n0 1"); EH e(s); REQUIRE(!vital_camera_read_krtd_file(f.c_str(), e), "no camera"); e.error("reading a broken camera"); continue; }
    EH e(s); vital_camera_t* c = vital_camera_read_krtd_file(f.c_str(), e); e.ok("reading a camera"); REQUIRE(c, "camera");
    std::string o = dir + "/o.krtd"; { EH g(s); vital_camera_write_krtd_file(c, o.c_str(), g); g.ok("writing a camera"); }
    kv::camera_sptr m = kv::read_krtd_file(f); kv::write_krtd_file(*m, o + "2"); REQUIRE_EQ(slurp(o), slurp(o + "2"), "camera file");
    { EH g(s); vital_camera_write_krtd_file(c, (f + "/x").c_str(), g); g.error("writing a camera to nowhere"); }
    cams.push_back(c);
  }
  { EH e(s); REQUIRE(!vital_camera_read_krtd_file((dir + "/none.krtd").c_str(), e), "no camera"); e.error("reading a missing camera"); }
  std::vector<unsigned> frames; std::vector<vital_camera_t*> arg; std::map<unsigned, vital_camera_t*> model; n = 0;
  while (!cams.empty() && s.more(n, 3, 8)) { frames.push_back(unsigned(s.chance(1, 8) ? 4294967295u : s.range(0, 6))); arg.push_back(s.pick(cams)); model[frames.back()] = arg.back(); }
  vital_camera_map_t* cm = arg.empty() && s.flip() ? vital_camera_map_new(0, nullptr, nullptr) : vital_camera_map_new(arg.size(), frames.data(), arg.data()); REQUIRE(cm, "a camera map");
  { EH e(s); REQUIRE_EQ(vital_camera_map_size(cm, e), model.size(), "size of the map"); e.ok("size"); }
  bool early = s.flip();
  if (early) { for (auto c : cams) { EH e(s); vital_camera_destroy(c, e); e.ok("destroying a camera"); EH f(s); vital_camera_write_krtd_file(c, (dir + "/z").c_str(), f); f.error("writing a destroyed camera"); } if (model.size() > 1) s.nontrivial(); }
  size_t len = 99; unsigned* fn = nullptr; vital_camera_t** cs = nullptr;
  { EH e(s); vital_camera_map_get_map(cm, &len, &fn, &cs, e); e.ok("get_map"); }
  REQUIRE_EQ(len, model.size(), "size of the arrays");
  { std::map<unsigned, vital_camera_t*> got; for (size_t i = 0; i < len; ++i) got[fn[i]] = cs[i]; REQUIRE(got == model, "frames and cameras of the map"); }
  for (size_t i = 0; i < len; ++i) { EH e(s); vital_camera_write_krtd_file(cs[i], (dir + "/z").c_str(), e); e.ok("writing a camera of the map"); vital_camera_destroy(cs[i], nullptr); }
  vital_free_pointer(fn); vital_free_pointer(cs);
  if (!early) for (auto c : cams) { EH f(s); vital_camera_write_krtd_file(c, (dir + "/z").c_str(), f); f.ok("writing a camera still in use"); vital_camera_destroy(c, nullptr); }
  { EH e(s); vital_camera_map_destroy(cm, e); e.ok("destroying the map"); } { EH e(s); REQUIRE(vital_camera_map_size(cm, e) == 0, "no size"); e.error("size of a destroyed map"); }
  // a pointer that is no camera (any more) is reported
  { EH e(s); vital_camera_destroy(cams.empty() || s.flip() ? nullptr : cams[0], e); e.error("destroying what is no camera"); }
}

// ---- algorithms
namespace {
struct Behaviour { int mode; kv::image_container_sptr same; kv::track_set_sptr tracks; std::vector<std::string> calls; } B;
template <typename T> T act(T fresh, T same)
{
  switch (B.mode) { case 0: return fresh; case 1: return same; case 2: return T(); case 3: throw std::runtime_error("reason 3"); case 4: throw "reason 4"; default: throw 5; }
}
template <typename D, typename Self> struct base : kv::algorithm_impl<Self, D> {
  int k = 1; std::string opt = "o";
  kv::config_block_sptr get_configuration() const { kv::config_block_sptr c = D::get_configuration(); c->set_value("k", k, "number"); c->set_value("opt", opt); return c; }
  void set_configuration(kv::config_block_sptr c) { k = c->get_value<int>("k", k); opt = c->get_value<std::string>("opt", opt); }
  bool check_configuration(kv::config_block_sptr c) const { return c->get_value<int>("k", 0) > 0; }
};
template <int N> struct io : base<kv::algo::image_io, io<N>> {
  std::string impl_name() const { return N == 0 ? "io_a" : "io_ab"; }
  kv::image_container_sptr load_(std::string const& f) const { B.calls.push_back("load " + std::to_string(this->k) + " " + f); return act<kv::image_container_sptr>(std::make_shared<kv::simple_image_container>(kv::image(2, 3, 1)), B.same); }
  void save_(std::string const& f, kv::image_container_sptr d) const { B.calls.push_back("save " + std::to_string(this->k) + " " + f + " " + std::to_string(d ? d->width() : 0)); act<int>(0, 0); }
};
struct cv : base<kv::algo::convert_image, cv> {
  std::string impl_name() const { return "cv"; }
  // convert_image overrides these once more
  kv::image_container_sptr convert(kv::image_container_sptr i) const { B.calls.push_back("convert " + std::to_string(k) + " " + std::to_string(i ? i->width() : 0)); return act<kv::image_container_sptr>(std::make_shared<kv::simple_image_container>(kv::image(5, 1, 1)), i); }
};
struct tf : base<kv::algo::track_features, tf> {
  std::string impl_name() const { return "tf"; }
  kv::track_set_sptr track(kv::track_set_sptr p, unsigned f, kv::image_container_sptr i, kv::image_container_sptr m) const
  { B.calls.push_back("track " + std::to_string(k) + " " + std::to_string(p ? p->size() : 0) + " " + std::to_string(f) + " " + std::to_string(i ? i->width() : 0) + " " + (m ? std::to_string(m->width()) : "-")); return act<kv::track_set_sptr>(std::make_shared<kv::simple_track_set>(std::vector<kv::track_sptr>(4, std::make_shared<kv::track>())), p); }
};
struct Api {
  char const* type; std::vector<std::string> impls;
  vital_algorithm_t* (*create)(char const*); void (*destroy)(vital_algorithm_t*, vital_error_handle_t*); void (*names)(unsigned*, char***);
  void (*get)(char const*, vital_algorithm_t*, vital_config_block_t*, vital_error_handle_t*); void (*set)(char const*, vital_config_block_t*, vital_algorithm_t**, vital_error_handle_t*);
  bool (*check)(char const*, vital_config_block_t*, vital_error_handle_t*); vital_algorithm_t* (*clone)(vital_algorithm_t*, vital_error_handle_t*);
};
#define API(t, ...) Api{ #t, { __VA_ARGS__ }, vital_algorithm_##t##_create, vital_algorithm_##t##_destroy, vital_algorithm_##t##_registered_names, vital_algorithm_##t##_get_type_config, vital_algorithm_##t##_set_type_config, vital_algorithm_##t##_check_type_config, vital_algorithm_##t##_clone }
std::vector<Api> const& apis() { static std::vector<Api> const a = { API(image_io, "io_a", "io_ab"), API(convert_image, "cv"), API(track_features, "tf") }; return a; }
}
PBT_PROP(algorithms, 12000, 400000, "an algorithm was replaced by its configuration, or a call of an implementation failed")
{
  static bool once = false;
  if (!once)
  {
    once = true; kv::registrar& r = kv::registrar::instance();
    kv::algorithm_def<kv::algo::image_io>::register_instance(r, std::make_shared<io<0>>()); kv::algorithm_def<kv::algo::image_io>::register_instance(r, std::make_shared<io<1>>());
    kv::algorithm_def<kv::algo::convert_image>::register_instance(r, std::make_shared<cv>()); kv::algorithm_def<kv::algo::track_features>::register_instance(r, std::make_shared<tf>());
  }
  static std::string const file = [] { std::string f = pbt::scratch() + "/image"; dump(f, "x"); return f; }();
  struct H { vital_algorithm_t* a; size_t api; std::string impl; int k; std::string opt; };
  std::vector<H> live; std::vector<std::pair<vital_algorithm_t*, size_t>> dead;
  struct Ic { vital_image_container_t* c; int held; size_t width; }; std::vector<Ic> ics;
  struct Ts { vital_trackset_t* t; int held; size_t size; }; std::vector<Ts> tss;
  B = Behaviour(); B.mode = 0; B.same = std::make_shared<kv::simple_image_container>(kv::image(7, 2, 1));
  { vital_image_t* i = vital_image_new_with_dim(4, 2, 1, false); ics.push_back(Ic{ vital_image_container_new_simple(i), 1, 4 }); vital_image_destroy(i); vital_track_t* t = vital_track_new(); tss.push_back(Ts{ vital_trackset_new(1, &t), 1, 1 }); vital_track_destroy(t, nullptr); }
  auto got_ic = [&](vital_image_container_t* c, size_t w) { for (auto& i : ics) if (i.c == c) { ++i.held; REQUIRE_EQ(i.width, w, "container"); return; } ics.push_back(Ic{ c, 1, w }); };
  auto got_ts = [&](vital_trackset_t* t, size_t z) { for (auto& i : tss) if (i.t == t) { ++i.held; REQUIRE_EQ(i.size, z, "track set"); return; } tss.push_back(Ts{ t, 1, z }); };
  auto add = [&](H const& h) { for (auto const& l : live) REQUIRE(l.a != h.a, "a new algorithm"); for (size_t i = 0; i < dead.size(); ) if (dead[i].first == h.a) dead.erase(dead.begin() + long(i)); else ++i; live.push_back(h); };
  auto conf = [&](H const& h, vital_config_block_t* c, std::string const& pre) { REQUIRE_EQ(take(vital_config_block_get_value(c, (pre + "k").c_str())), std::to_string(h.k), "configuration"); REQUIRE_EQ(take(vital_config_block_get_value(c, (pre + "opt").c_str())), h.opt, "configuration"); };
  size_t n = 0;
  while (s.more(n, 12, 50) || n == 0)
  {
    size_t op = live.empty() ? 0 : s.weighted({3, 2, 2, 3, 4, 2, 6, 2, 2});
    if (op == 0)
    {
      size_t t = s.idx(3); Api const& a = apis()[t]; std::string nm = s.pick(std::vector<std::string>{ "io_a", "io_ab", "cv", "tf", "io", "", "none" });
      bool known = std::find(a.impls.begin(), a.impls.end(), nm) != a.impls.end();
      vital_algorithm_t* x = a.create(nm.c_str());
      s.note() << "create " << a.type << " " << nm << "\n";
      REQUIRE_EQ(x != nullptr, known, "an algorithm " << a.type << " of implementation " << nm);
      if (x) add(H{ x, t, nm, 1, "o" });
      unsigned len = 0; char** p = nullptr; a.names(&len, &p); REQUIRE_EQ(join(take(len, p)), join(a.impls), "registered names of " << a.type);
      continue;
    }
    size_t i = s.idx(live.size()); H& h = live[i]; Api const& a = apis()[h.api];
    s.note() << "op " << op << " on " << a.type << " " << h.impl << "\n";
    EH e(s);
    switch (op)
    {
    case 1: REQUIRE_EQ(take(vital_algorithm_type_name(h.a, e)), std::string(a.type), "type"); REQUIRE_EQ(take(vital_algorithm_impl_name(h.a, e)), h.impl, "implementation"); e.ok("names"); break;
    case 2: { vital_config_block_t* c = vital_algorithm_get_impl_configuration(h.a, e); e.ok("configuration"); REQUIRE(c, "configuration"); conf(h, c, ""); vital_config_block_destroy(c, nullptr); break; }
    case 3:
    {
      vital_config_block_t* c = vital_config_block_new(); int k = int(s.range(-1, 5)); std::string o = gen_text(s);
      bool hk = s.chance(3, 4), ho = s.flip(); if (hk) vital_config_block_set_value(c, "k", std::to_string(k).c_str()); if (ho) vital_config_block_set_value(c, "opt", o.c_str());
      bool good = h.api == 1 ? hk && k > 0 : hk && k > 0;
      REQUIRE_EQ(vital_algorithm_check_impl_configuration(h.a, c, e), good, "whether the configuration is accepted, k " << (hk ? std::to_string(k) : "missing")); e.ok("check");
      vital_algorithm_set_impl_configuration(h.a, c, e); e.ok("set");
      if (hk) h.k = k;
      if (ho) h.opt = take(vital_config_block_get_value(c, "opt"));
      vital_config_block_destroy(c, nullptr); break;
    }
    case 4:
    { // through the nested block of a type
      std::string name = s.pick(std::vector<std::string>{ "alg", "x:y", "a" });
      vital_config_block_t* c = vital_config_block_new();
      bool null = s.chance(1, 4);
      a.get(name.c_str(), null ? nullptr : h.a, c, e); e.ok("get_type_config");
      std::string ty = take(vital_config_block_get_value(c, (name + ":type").c_str()));
      REQUIRE_EQ(ty, null ? std::string() : h.impl, "type in the block");
      if (!null) conf(h, c, name + ":" + h.impl + ":");
      std::string to = s.pick(std::vector<std::string>{ a.impls[0], a.impls.back(), "none", "", h.impl });
      bool unset = s.chance(1, 5), known = !unset && std::find(a.impls.begin(), a.impls.end(), to) != a.impls.end();
      if (unset) vital_config_block_unset_value(c, (name + ":type").c_str()); else vital_config_block_set_value(c, (name + ":type").c_str(), to.c_str());
      int k = int(s.range(-1, 9)); bool hk = s.flip(); std::string kk = name + ":" + to + ":k";
      if (hk) vital_config_block_set_value(c, kk.c_str(), std::to_string(k).c_str());
      int ek = 1; std::string eo = "o"; bool any = hk;
      if (known && to == h.impl && !null) { ek = h.k; eo = h.opt; any = true; }
      if (hk) ek = k;
      REQUIRE_EQ(a.check(name.c_str(), c, e), known && any && ek > 0, "whether the block is accepted: " << (unset ? "no type" : to) << " " << (any ? std::to_string(ek) : "-")); e.ok("check_type_config");
      bool from_null = s.chance(1, 4); vital_algorithm_t* p = from_null ? nullptr : h.a, *old = p;
      a.set(name.c_str(), c, &p, e); e.ok("set_type_config");
      if (!known) REQUIRE(p == old, "the algorithm is unchanged");
      else
      {
        REQUIRE(p && p != old, "a new algorithm");
        H nh{ p, h.api, to, ek, eo };
        if (from_null) add(nh); else { vital_algorithm_t* was = h.a; size_t api = h.api; live.erase(live.begin() + long(i)); add(nh); if (was != p) dead.push_back({ was, api }); }
        s.nontrivial();
      }
      vital_config_block_destroy(c, nullptr); break;
    }
    case 5: { vital_algorithm_t* c = a.clone(h.a, e); e.ok("clone"); REQUIRE(c && c != h.a, "a clone"); H nh = h; nh.a = c; add(nh); EH f(s); REQUIRE(!a.clone(nullptr, f), "no clone of nothing"); f.ok("clone of nothing"); break; }
    case 6:
    { // calls
      B.mode = int(s.weighted({4, 2, 1, 1, 1, 1})); B.calls.clear();
      Ic ic = ics[s.idx(ics.size())]; bool fail = B.mode >= 2, nullres = B.mode == 2;
      if (fail) s.nontrivial();
      static char const* const why[] = { "", "", "NULL", "reason 3", "reason 4", "other exception" };
      if (h.api == 0 && s.flip())
      {
        bool missing = s.chance(1, 5); vital_image_container_t* r = vital_algorithm_image_io_load(h.a, missing ? (file + ".no").c_str() : file.c_str(), e);
        if (missing) { REQUIRE(!r && B.calls.empty(), "a missing image is not loaded"); e.error("loading a missing image"); break; }
        REQUIRE(B.calls.size() == 1 && B.calls[0] == "load " + std::to_string(h.k) + " " + file, "loaded: " << join(B.calls));
        if (fail) { REQUIRE(!r, "nothing loaded"); e.error("loading"); e.message(why[B.mode], "loading"); } else { e.ok("loading"); REQUIRE(r, "image"); got_ic(r, B.mode == 0 ? 2 : 7); }
      }
      else if (h.api == 0)
      {
        vital_algorithm_image_io_save(h.a, (file + ".o").c_str(), ic.c, e);
        REQUIRE(B.calls.size() == 1 && B.calls[0] == "save " + std::to_string(h.k) + " " + file + ".o " + std::to_string(ic.width), "saved: " << join(B.calls));
        if (fail && !nullres) { e.error("saving"); e.message(why[B.mode], "saving"); } else e.ok("saving");
      }
      else if (h.api == 1)
      {
        vital_image_container_t* r = vital_algorithm_convert_image_convert(h.a, ic.c, e);
        REQUIRE(B.calls.size() == 1 && B.calls[0] == "convert " + std::to_string(h.k) + " " + std::to_string(ic.width), "converted: " << join(B.calls));
        if (fail) { REQUIRE(!r, "nothing converted"); e.error("converting"); e.message(why[B.mode], "converting"); } else { e.ok("converting"); REQUIRE(r, "image"); if (B.mode == 1) REQUIRE(r == ic.c, "the same container"); got_ic(r, B.mode == 0 ? 5 : ic.width); }
      }
      else
      {
        Ts ts = tss[s.idx(tss.size())]; Ic mk = ics[s.idx(ics.size())]; bool masked = s.flip(); unsigned fr = unsigned(s.integer(0, 4294967295ll));
        vital_trackset_t* r = masked ? vital_algorithm_track_features_track_with_mask(h.a, ts.t, fr, ic.c, mk.c, e) : vital_algorithm_track_features_track(h.a, ts.t, fr, ic.c, e);
        REQUIRE(B.calls.size() == 1 && B.calls[0] == "track " + std::to_string(h.k) + " " + std::to_string(ts.size) + " " + std::to_string(fr) + " " + std::to_string(ic.width) + " " + (masked ? std::to_string(mk.width) : "-"), "tracked: " << join(B.calls));
        if (fail) { REQUIRE(!r, "nothing tracked"); e.error("tracking"); e.message(why[B.mode], "tracking"); } else { e.ok("tracking"); REQUIRE(r, "tracks"); if (B.mode == 1) REQUIRE(r == ts.t, "the same set"); got_ts(r, B.mode == 0 ? 4 : ts.size); }
      }
      break;
    }
    case 7: { vital_algorithm_t* x = h.a; size_t api = h.api; a.destroy(x, e); e.ok("destroying an algorithm"); live.erase(live.begin() + long(i)); dead.push_back({ x, api }); break; }
    default:
    {
      std::pair<vital_algorithm_t*, size_t> bad = dead.empty() || s.flip() ? std::make_pair((vital_algorithm_t*)nullptr, size_t(0)) : s.pick(dead);
      size_t calls = B.calls.size();
      switch (s.range(0, 4))
      {
      case 0: REQUIRE(!vital_algorithm_type_name(bad.first, e), "no name"); e.error("name of no algorithm"); break;
      case 1: REQUIRE(!vital_algorithm_get_impl_configuration(bad.first, e), "no configuration"); e.error("configuration of no algorithm"); break;
      case 2: { vital_config_block_t* c = vital_config_block_new(); REQUIRE(!vital_algorithm_check_impl_configuration(bad.first, c, e), "not accepted"); e.error("check of no algorithm"); EH f(s); REQUIRE(!vital_algorithm_check_impl_configuration(h.a, nullptr, f), "not accepted"); f.error("check of no block"); vital_config_block_destroy(c, nullptr); break; }
      case 3: REQUIRE(!vital_algorithm_convert_image_convert(bad.first, ics[0].c, e), "no image"); e.error("converting by no algorithm"); break;
      default: { H const* x = nullptr; for (auto const& l : live) if (l.api == 1) x = &l; if (!x) { REQUIRE(!vital_algorithm_image_io_load(bad.first, file.c_str(), e), "no image"); } else REQUIRE(!vital_algorithm_convert_image_convert(x->a, nullptr, e), "no image"); e.error("wrong use"); }
      }
      REQUIRE_EQ(B.calls.size(), calls, "no implementation is called");
    }
    }
    // containers and sets are released now and then
    if (s.chance(1, 8)) { size_t j = s.idx(ics.size()); if (ics[j].held > 1 || ics.size() > 1) { vital_image_container_destroy(ics[j].c, nullptr); if (!--ics[j].held) ics.erase(ics.begin() + long(j)); } }
    for (auto const& c : ics) REQUIRE_EQ(vital_image_container_width(c.c), c.width, "a container in use");
    for (auto const& t : tss) REQUIRE_EQ(vital_trackset_size(t.t, nullptr), t.size, "a track set in use");
    for (auto const& l : live) { REQUIRE_EQ(take(vital_algorithm_impl_name(l.a, nullptr)), l.impl, "implementation of an algorithm in use"); vital_config_block_t* c = vital_algorithm_get_impl_configuration(l.a, nullptr); conf(l, c, ""); vital_config_block_destroy(c, nullptr); }
  }
  for (auto const& l : live) apis()[l.api].destroy(l.a, nullptr);
  for (auto& c : ics) { std::weak_ptr<kv::image_container> w = vital_image_container_to_sptr(c.c); B.same.reset(); for (; c.held; --c.held) { REQUIRE(!w.expired(), "a container in use"); vital_image_container_destroy(c.c, nullptr); } REQUIRE(w.expired(), "a container destroyed as often as it was obtained is gone"); }
  for (auto& t : tss) for (; t.held; --t.held) { REQUIRE_EQ(vital_trackset_size(t.t, nullptr), t.size, "a track set in use"); vital_trackset_destroy(t.t, nullptr); }
}
