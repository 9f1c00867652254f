// What is reported when something fails: the key, value, file and line concerned, in the message and
// in the kind of the exception, whoever catches it and however late.
#include "geo.hpp"
#include <vital/algo/algorithm.h>
#include <vital/algo/image_io.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/exceptions.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/types/landmark_map.h>
#include <vital/types/timestamp.h>
#include <vital/types/timestamp_config.h>
#include <vital/types/track_set.h>
#include <exception>
#include <fstream>
#include <ftw.h>
#include <iostream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace kwiver::vital; using pbt::show;
typedef std::vector<std::string> Strs;
namespace {
void put(std::string const& p, std::string const& t) { std::ofstream f(p.c_str(), std::ios::binary); f << t; }
std::string text(Src& s, bool path = false)
{
  static Strs const parts = { "a", "key", "x1", " ", "-", ".", "_", "\xc3\xa9", "%s", "%n", "'", "(", "Z", "7", "\"", ":", "=", "\t", "\n", "$", "&", "<b>", "]", "*" };
  std::string r; size_t n = 0; while (s.more(n, 4, 9)) r += parts[s.idx(path ? 14 : parts.size())];
  if (s.chance(1, 40)) r += std::string(static_cast<size_t>(path ? s.range(50, 150) : s.range(300, 5000)), 'l');
  if (r.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_7 1-.") != std::string::npos || r.empty()) s.nontrivial();
  return r;
}
std::string name(Src& s) { std::string r = text(s, true); size_t a = r.find_first_not_of(' '); r = a == std::string::npos ? "" : r.substr(a); while (!r.empty() && r.back() == ' ') r.pop_back(); return "n" + r + "e"; }

// an exception kept after all that it was made from is gone, seen as its own class and as those it derives from
template <class E, class B> void check(std::exception_ptr p, Strs const& parts, std::string const& where)
{
  REQUIRE(p, where << ": nothing was thrown");
  std::string m, b, e; bool own = false;
  try { std::rethrow_exception(p); } catch (E const& x) { own = true; m = x.what(); E copy(x); std::exception_ptr q = std::make_exception_ptr(copy); try { std::rethrow_exception(q); } catch (std::exception const& y) { e = y.what(); } } catch (std::exception const& x) { m = x.what(); } catch (...) {}
  REQUIRE(own, where << ": another kind of exception: " << show(m.substr(0, 300)));
  try { std::rethrow_exception(p); } catch (B const& x) { b = x.what(); } catch (...) {}
  REQUIRE_EQ(show(b), show(m), where << ": message seen through the base class"); REQUIRE_EQ(show(e), show(m), where << ": message of a copy");
  REQUIRE(!m.empty() || !parts.empty(), where << ": no message");
  for (auto const& x : parts) REQUIRE(m.find(x) != std::string::npos, where << ": the message does not name " << show(x.substr(0, 200)) << ": " << show(m.substr(0, 600)));
}
template <class F> std::exception_ptr attempt(F f) { try { f(); } catch (...) { return std::current_exception(); } return std::exception_ptr(); }
template <class E, class F> void members(std::exception_ptr p, F f) { try { std::rethrow_exception(p); } catch (E const& x) { f(x); } }
// the constructors given parts that do not live on
template <class E, class B, class... A> void made(std::string const& where, Strs const& parts, A... a)
{
  std::exception_ptr p = attempt([&]() { throw E(a...); });
  check<E, B>(p, parts, where);
}
std::string trimmed(std::string x) { size_t b = x.find_first_not_of(" \t\n"), e = x.find_last_not_of(" \t\n"); return b == std::string::npos ? "" : x.substr(b, e - b + 1); }
struct Tree
{
  std::string d; static unsigned& no() { static unsigned n = 0; return n; }
  Tree() : d(pbt::scratch() + "/t" + std::to_string(no()++)) { mkdir(d.c_str(), 0700); }
  ~Tree() { nftw(d.c_str(), [](char const* f, struct stat const*, int, struct FTW*) { return remove(f); }, 16, FTW_DEPTH | FTW_PHYS); }
};
struct Listen { std::ostringstream o; std::streambuf* b; Listen() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Listen() { std::cerr.rdbuf(b); } };
class images : public kwiver::vital::algorithm_impl<images, kwiver::vital::algo::image_io>
{
public:
  mutable std::string loaded, saved;
  std::string impl_name() const override { return "images"; }
  void set_configuration(config_block_sptr) override {}
  bool check_configuration(config_block_sptr) const override { return true; }
private:
  image_container_sptr load_(std::string const& f) const override { loaded = f; return image_container_sptr(); }
  void save_(std::string const& f, image_container_sptr) const override { saved = f; }
};
std::string asked(Src& s, std::string const& d, std::string const& f) { std::string n = f.substr(d.size() + 1); REQUIRE_EQ(chdir(d.c_str()), 0, d); switch (s.idx(3)) { case 0: return n; case 1: return "./" + n; default: return f; } }
template <class T> std::string type_name() { return typeid(T).name(); }
} // namespace

PBT_PROP(values, 40000, 600000, "a name or value with other than plain characters, a view, or a conversion")
{
  config_block_sptr root = config_block::empty_config(), c = root; std::map<std::string, std::string> m; std::set<std::string> ro; std::string prefix;
  if (s.chance(1, 3)) { prefix = "pre"; c = root->subblock_view(prefix); s.nontrivial(); }
  size_t n = 0; Strs keys;
  while (s.more(n, 6, 12))
  {
    std::string k = !keys.empty() && s.chance(3, 4) ? s.pick(keys) : text(s); keys.push_back(k); std::string where = "key " + show(k.substr(0, 100)); bool have = m.count(k) > 0;
    s.note() << "on " << where << "\n";
    switch (s.idx(6))
    {
      case 0: case 1:
      {
        std::string v = s.chance(1, 2) ? s.pick(Strs{ "1", "x", "", "12 monkeys", "1.5", "maybe", "3 4", "nan?", "-", "99999999999999999999" }) : text(s); s.note() << "set " << show(v.substr(0, 100)) << "\n";
        std::exception_ptr p = attempt([&]() { config_block_key_t kk = k; config_block_value_t vv = v; c->set_value(kk, vv); });
        if (ro.count(k)) { check<set_on_read_only_value_exception, config_block_exception>(p, { k + "'", "'" + m[k] + "'" }, where + " set although read-only"); s.label("set read-only"); members<set_on_read_only_value_exception>(p, [&](set_on_read_only_value_exception const& e) { REQUIRE_EQ(show(e.m_value), show(c->get_value<std::string>(k)), where << ": current value"); std::string u = e.m_new_value; REQUIRE_EQ(show(trimmed(u)), show(trimmed(v)), where << ": the refused value"); }); break; }
        REQUIRE(!p, where << ": can not be set"); m[k] = c->get_value<std::string>(k); break;
      }
      case 2:
      {
        std::exception_ptr p = attempt([&]() { config_block_key_t kk = k; c->unset_value(kk); });
        if (ro.count(k)) { check<unset_on_read_only_value_exception, config_block_exception>(p, { k + "'", "'" + m[k] + "'" }, where + " unset although read-only"); s.label("unset read-only"); break; }
        if (!have) { check<no_such_configuration_value_exception, std::exception>(p, { k }, where + " unset although missing"); s.label("unset missing"); break; }
        REQUIRE(!p, where << ": can not be unset"); m.erase(k); break;
      }
      case 3: if (have) { c->mark_read_only(k); ro.insert(k); } break;
      default:
      {
        std::exception_ptr p; std::string type; bool ok = true; std::string v = have ? m[k] : "";
        switch (s.idx(5))
        {
          case 0: type = type_name<int>(); p = attempt([&]() { c->get_value<int>(k); }); { std::istringstream i(v); int x; ok = bool(i >> x); } break;
          case 1: type = type_name<double>(); p = attempt([&]() { c->get_value<double>(k); }); { std::istringstream i(v); double x; ok = bool(i >> x); } break;
          case 2: type = type_name<bool>(); p = attempt([&]() { c->get_value<bool>(k); }); { std::string l; for (char ch : v) l += static_cast<char>(tolower(ch)); ok = l == "1" || l == "0" || l == "true" || l == "false" || l == "yes" || l == "no"; } break;
          case 3: type = type_name<timestamp>(); p = attempt([&]() { c->get_value<timestamp>(k); }); { std::istringstream i(v); timestamp::time_t t; timestamp::frame_t f; ok = bool(i >> t >> f); } break;
          default: p = attempt([&]() { c->get_value<std::string>(k); });
        }
        if (!have) { check<no_such_configuration_value_exception, config_block_exception>(p, { k + "'" }, where + " read although missing"); s.label("read missing"); break; }
        if (ok) { REQUIRE(!p, where << ": a value that converts: " << show(v)); break; }
        s.label("does not convert"); s.nontrivial(); check<bad_config_block_cast_exception, config_block_exception>(p, { k + "'", "'" + v + "'", type }, where + " as " + type);
        // with a default, nothing is thrown
        REQUIRE_EQ(c->get_value<int>(k + "?", 42), 42, where << ": default");
      }
    }
  }
}

PBT_PROP(config_files, 6000, 100000, "a file that is not as it should be")
{
  Tree t; Listen log; std::string f = t.d + "/" + name(s) + ".conf"; size_t bad = 0; Strs logged, after, named; int depth = static_cast<int>(s.idx(3)); bool thrown = false; s.nontrivial();
  if (s.chance(1, 5))
  { // the file itself
    std::exception_ptr p;
    switch (s.idx(5))
    {
      case 0: p = attempt([&]() { read_config_file(f); }); check<config_file_not_found_exception, config_block_io_exception>(p, { "'" + f + "'" }, "a file that does not exist"); break;
      case 1: mkdir(f.c_str(), 0700); p = attempt([&]() { read_config_file(f); }); check<config_file_not_found_exception, config_block_exception>(p, { "'" + f + "'" }, "a directory read"); break;
      case 2: { mkdir(f.c_str(), 0700); config_block_sptr c = config_block::empty_config(); c->set_value("a", 1); p = attempt([&]() { write_config_file(c, f); }); check<config_file_write_exception, config_block_exception>(p, { "'" + f + "'" }, "a directory written"); break; }
      case 3: { put(f, "x"); config_block_sptr c = config_block::empty_config(); c->set_value("a", 1); p = attempt([&]() { write_config_file(c, f + "/sub/file"); }); check<config_file_write_exception, config_block_io_exception>(p, { f + "/sub" }, "below a file"); break; }
      default: { std::string n = name(s) + "\xc3\xa9-not-there"; p = attempt([&]() { read_config_file(n, "prog", "1.0", t.d); }); check<config_file_not_found_exception, config_block_exception>(p, { "'" + n + "'" }, "a name in no search path"); }
    }
    return;
  }
  // good lines around the one that is wrong, in a file included from others
  auto good = [&](std::string& o, int& l) { for (size_t i = s.idx(4); i > 0; --i) switch (s.idx(7)) { case 0: o += "\n"; ++l; break; case 1: o += "# comment = x\n"; ++l; break; case 2: o += "key" + std::to_string(l) + " = value # c\n"; ++l; break; case 3: o += "   \t\n"; ++l; break; case 4: o += "block b\nk = 1\n\nendblock\n"; l += 4; break; case 5: o += "k[RO] = 1\n"; o.replace(o.rfind("k[RO]"), 5, "ro" + std::to_string(s.raw(1u << 30)) + "_" + std::to_string(l) + "[RO]"); ++l; break; default: o += "loc := 3\n"; ++l; } };
  Strs files; for (int i = 0; i <= depth; ++i) files.push_back(i == 0 ? f : t.d + "/inc" + std::to_string(i) + ".conf");
  std::vector<std::string> body(files.size()); std::exception_ptr p;
  for (size_t i = 0; i < files.size(); ++i)
  {
    std::string& o = body[i]; int l = 1; std::string& g = files[i];
    good(o, l);
    bool last = i + 1 == files.size();
    auto at = [&](int line) { return g + ":" + std::to_string(line); };
    // errors that are listed and go on
    auto wrong = [&](bool list) {
    while (s.chance(1, 3))
    {
      ++bad;
      switch (s.idx(4))
      {
        case 0: o += s.pick(Strs{ "= value\n", ":= value\n", "[RO] x = 2\n", "relativepath = x\n", "*oops\n", "1abc = 2\n", "$x = 3\n" }); logged.push_back(at(l)); ++l; break;
        case 1: o += "flagged[XX] = 2\n"; logged.push_back(at(l)); ++l; break;
        case 2: o += s.pick(Strs{ "block 1\n", "block = 3\n", "block [RO]\n", "block := x\n" }); logged.push_back(at(l)); ++l; break;
        default: o += s.pick(Strs{ "name * 2\n", "name other = 3\n", "relativepath name other\n" }); logged.push_back(at(l)); ++l;
      }
      if (!list) { after.push_back(logged.back()); logged.pop_back(); }
      good(o, l);
    } };
    wrong(true);
    if (!last) { o += "include " + files[i + 1] + "\n"; ++l; good(o, l); wrong(false); continue; }
    switch (s.idx(6))
    {
      case 0: { std::string n = "missing" + name(s) + ".conf"; o += "include " + n + "\n"; named = { n, at(l) }; thrown = true; s.label("missing include"); break; }
      case 1: { mkdir((t.d + "/a dir").c_str(), 0700); o += "include " + t.d + "/a dir\n"; named = { t.d + "/a dir", at(l) }; thrown = true; s.label("a directory included"); break; }
      case 2: { o += "endblock\n"; named = { at(l) }; thrown = true; s.label("endblock"); break; }
      case 3: if (depth > 0) { o += "include " + f + "\n"; named = { f, at(l) }; thrown = true; s.label("includes itself"); } break;
      case 4: { std::string b = "open" + std::to_string(s.idx(100)); o += "block " + b + "\n"; logged.push_back("\"" + b + "\" - Started at " + at(l)); ++l; ++bad; good(o, l); s.label("open block"); break; }
      default: break;
    }
  }
  for (size_t i = 0; i < files.size(); ++i) { put(files[i], body[i]); s.note() << "--- " << files[i] << "\n" << body[i]; }
  if (s.chance(1, 3))
  { // looked for in directories, of which others may have a file of that name
    s.label("found in a search path"); std::string n = "found.conf", e = t.d + "/e"; mkdir(e.c_str(), 0700); bool first = s.flip(); put(e + "/" + n, "other = 1\n"); put(t.d + "/" + n, "include " + f + "\n");
    setenv("KWIVER_CONFIG_PATH", (first ? t.d + ":" + e : s.flip() ? e + "/none:" + t.d : t.d).c_str(), 1); p = attempt([&]() { read_config_file(n, "prog", "1.0", t.d, false); });
    unsetenv("KWIVER_CONFIG_PATH");
    if (!thrown && bad) f = t.d + "/" + n;
  }
  else p = attempt([&]() { read_config_file(f); });
  std::string l = log.o.str(); s.note() << "--- log\n" << l << "\n";
  if (bad) s.label("listed errors");
  if (thrown) { if (named[0].find("missing") == 0 || named[0].find("/a dir") != std::string::npos) check<config_file_not_found_exception, config_block_io_exception>(p, named, "an include"); else check<config_file_not_parsed_exception, config_block_io_exception>(p, named, "the structure of a file"); }
  else if (bad) check<config_file_not_parsed_exception, config_block_exception>(p, { "'" + f + "'" }, "lines that are wrong");
  else if (p) { std::string w; try { std::rethrow_exception(p); } catch (std::exception const& e) { w = e.what(); } REQUIRE(false, "a file without errors: " << w); }
  if (!thrown) logged.insert(logged.end(), after.begin(), after.end());
  for (auto const& x : logged)
  {
    if (thrown && x.find("Started") != std::string::npos) continue;
    size_t k = l.find(x); REQUIRE(k != std::string::npos && (k + x.size() == l.size() || !isdigit(static_cast<unsigned char>(l[k + x.size()]))), "an error at " << x << " was not listed:\n" << l);
  }
}

PBT_PROP(data_files, 6000, 100000, "a file or directory that is not as it should be")
{
  Tree t; s.nontrivial(); std::string f = t.d + "/" + name(s); std::exception_ptr p; int how = static_cast<int>(s.idx(3)); // what is in the way
  auto read = [&](std::function<void(std::string const&)> r, char const* what) {
    if (s.flip()) { mkdir(f.c_str(), 0700); p = attempt([&]() { r(f); }); check<file_not_found_exception, io_exception>(p, { "'" + f + "'" }, std::string(what) + ": a directory read"); }
    else { p = attempt([&]() { r(f); }); check<file_not_found_exception, vital_core_base_exception>(p, { "'" + f + "'" }, std::string(what) + ": a missing file read"); } };
  auto write = [&](std::function<void(std::string const&)> w, char const* what) {
    std::string d, e;
    switch (how) { case 0: mkdir(f.c_str(), 0700); d = e = f; break; case 1: put(f, "x"); d = f + "/sub/file"; e = f + "/sub"; break; default: put(f, "x"); d = f + "/file"; e = f; }
    p = attempt([&]() { w(d); }); check<file_write_exception, io_exception>(p, { e + "'" }, std::string(what) + ": written to " + d); };
  switch (s.idx(9))
  {
    case 0: read([](std::string const& x) { read_krtd_file(x); }, "camera"); break;
    case 1: read([](std::string const& x) { read_ply_file(x); }, "landmarks"); break;
    case 2: read([](std::string const& x) { read_track_file(x); }, "tracks"); break;
    case 3: { simple_camera c; write([&](std::string const& x) { write_krtd_file(c, x); }, "camera"); break; }
    case 4: { landmark_map::map_landmark_t m; m[1] = landmark_sptr(new landmark_d); landmark_map_sptr l(new simple_landmark_map(m)); write([&](std::string const& x) { write_ply_file(l, x); }, "landmarks"); break; }
    case 5: { std::vector<track_sptr> v; track_sptr tr(new track); tr->append(track::track_state(1, feature_sptr(new feature_d), descriptor_sptr())); tr->set_id(1); v.push_back(tr); track_set_sptr l(new simple_track_set(v)); write([&](std::string const& x) { write_track_file(l, x); }, "tracks"); break; }
    case 6:
    {
      if (s.flip()) { p = attempt([&]() { read_krtd_files({ "a.png" }, f); }); check<path_not_exists, io_exception>(p, { f }, "cameras of a directory that does not exist"); }
      else { mkdir(f.c_str(), 0700); p = attempt([&]() { read_krtd_files({ "a.png" }, f); }); check<invalid_data, vital_core_base_exception>(p, { "krtd" }, "a directory without cameras"); }
      break;
    }
    case 7:
    {
      images a;
      if (s.chance(1, 3)) { put(f, "x"); std::string n = asked(s, t.d, f); a.load(n); REQUIRE_EQ(show(a.loaded), show(n), "the file to load"); s.label("image loaded"); break; }
      if (s.flip()) { p = attempt([&]() { a.load(f); }); check<path_not_exists, io_exception>(p, { f }, "an image that does not exist"); }
      else { mkdir(f.c_str(), 0700); p = attempt([&]() { a.load(f); }); check<path_not_a_file, io_exception>(p, { f }, "a directory loaded"); }
      REQUIRE_EQ(a.loaded, std::string(), "an implementation was asked although the file is missing"); break;
    }
    default:
    {
      images a;
      if (s.chance(1, 3)) { std::string n = asked(s, t.d, f); a.save(n, image_container_sptr()); REQUIRE_EQ(show(a.saved), show(n), "the file to save"); s.label("image saved"); break; }
      if (s.flip()) { p = attempt([&]() { a.save(f + "/x.png", image_container_sptr()); }); check<path_not_exists, io_exception>(p, { f }, "saved to a directory that does not exist"); }
      else { put(f, "x"); p = attempt([&]() { a.save(f + "/x.png", image_container_sptr()); }); check<path_not_a_directory, io_exception>(p, { f }, "saved below a file"); }
      REQUIRE_EQ(a.saved, std::string(), "an implementation was asked although the directory is missing");
    }
  }
}

PBT_PROP(kinds, 40000, 600000, "a name or reason with other than plain characters")
{
  std::string a = text(s), b = text(s), c = text(s), d = text(s); uint64_t w = s.raw(~0ull), h = s.raw(1000), x = s.raw(5), y = s.raw(1u << 31);
  s.note() << show(a.substr(0, 200)) << " " << show(b.substr(0, 200)) << " " << show(c.substr(0, 200)) << "\n";
  typedef config_block_exception CB; typedef config_block_io_exception CI; typedef vital_core_base_exception B;
  switch (s.idx(26))
  {
    case 0: made<bad_config_block_cast, CB>("bad_config_block_cast", { a }, a); break;
    case 1: made<bad_config_block_cast_exception, CB>("bad_config_block_cast_exception", { "'" + a + "'", "'" + b + "'", "'" + c + "'", d }, a, b, c, d); members<bad_config_block_cast_exception>(attempt([&]() { throw bad_config_block_cast_exception(a, b, c, d); }), [&](bad_config_block_cast_exception const& e) { REQUIRE(e.m_key == a, "bad_config_block_cast_exception: member m_key"); REQUIRE(e.m_value == b, "bad_config_block_cast_exception: member m_value"); REQUIRE(e.m_type == c, "bad_config_block_cast_exception: member m_type"); REQUIRE(e.m_reason == d, "bad_config_block_cast_exception: member m_reason"); }); break;
    case 2: made<no_such_configuration_value_exception, CB>("no_such_configuration_value_exception", { a }, a); members<no_such_configuration_value_exception>(attempt([&]() { throw no_such_configuration_value_exception(a); }), [&](no_such_configuration_value_exception const& e) { REQUIRE(e.m_key == a, "no_such_configuration_value_exception: member m_key"); }); break;
    case 3: made<set_on_read_only_value_exception, CB>("set_on_read_only_value_exception", { "'" + a + "'", "'" + b + "'", "'" + c + "'" }, a, b, c); members<set_on_read_only_value_exception>(attempt([&]() { throw set_on_read_only_value_exception(a, b, c); }), [&](set_on_read_only_value_exception const& e) { REQUIRE(e.m_key == a, "set_on_read_only_value_exception: member m_key"); REQUIRE(e.m_value == b, "set_on_read_only_value_exception: member m_value"); REQUIRE(e.m_new_value == c, "set_on_read_only_value_exception: member m_new_value"); }); break;
    case 4: made<unset_on_read_only_value_exception, CB>("unset_on_read_only_value_exception", { "'" + a + "'", "'" + b + "'" }, a, b); members<unset_on_read_only_value_exception>(attempt([&]() { throw unset_on_read_only_value_exception(a, b); }), [&](unset_on_read_only_value_exception const& e) { REQUIRE(e.m_key == a, "unset_on_read_only_value_exception: member m_key"); REQUIRE(e.m_value == b, "unset_on_read_only_value_exception: member m_value"); }); break;
    case 5: made<config_file_not_found_exception, CI>("config_file_not_found_exception", { "'" + a + "'", b }, a, b); members<config_file_not_found_exception>(attempt([&]() { throw config_file_not_found_exception(a, b); }), [&](config_file_not_found_exception const& e) { REQUIRE(e.m_file_path == a, "config_file_not_found_exception: member m_file_path"); REQUIRE(e.m_reason == b, "config_file_not_found_exception: member m_reason"); }); break;
    case 6: made<config_file_not_read_exception, CI>("config_file_not_read_exception", { "'" + a + "'", b }, a, b); members<config_file_not_read_exception>(attempt([&]() { throw config_file_not_read_exception(a, b); }), [&](config_file_not_read_exception const& e) { REQUIRE(e.m_file_path == a, "config_file_not_read_exception: member m_file_path"); REQUIRE(e.m_reason == b, "config_file_not_read_exception: member m_reason"); }); break;
    case 7: made<config_file_not_parsed_exception, CI>("config_file_not_parsed_exception", { "'" + a + "'", b }, a, b); members<config_file_not_parsed_exception>(attempt([&]() { throw config_file_not_parsed_exception(a, b); }), [&](config_file_not_parsed_exception const& e) { REQUIRE(e.m_file_path == a, "config_file_not_parsed_exception: member m_file_path"); REQUIRE(e.m_reason == b, "config_file_not_parsed_exception: member m_reason"); }); break;
    case 8: made<config_file_write_exception, CI>("config_file_write_exception", { "'" + a + "'", b }, a, b); members<config_file_write_exception>(attempt([&]() { throw config_file_write_exception(a, b); }), [&](config_file_write_exception const& e) { REQUIRE(e.m_file_path == a, "config_file_write_exception: member m_file_path"); REQUIRE(e.m_reason == b, "config_file_write_exception: member m_reason"); }); break;
    case 9: made<algorithm_exception, B>("algorithm_exception", { a, b, c }, a, b, c); members<algorithm_exception>(attempt([&]() { throw algorithm_exception(a, b, c); }), [&](algorithm_exception const& e) { REQUIRE(e.m_algo_type == a, "algorithm_exception: member m_algo_type"); REQUIRE(e.m_algo_impl == b, "algorithm_exception: member m_algo_impl"); REQUIRE(e.m_reason == c, "algorithm_exception: member m_reason"); }); break;
    case 10: made<algorithm_configuration_exception, algorithm_exception>("algorithm_configuration_exception", { a + "::" + b, c }, a, b, c); members<algorithm_configuration_exception>(attempt([&]() { throw algorithm_configuration_exception(a, b, c); }), [&](algorithm_configuration_exception const& e) { REQUIRE(e.m_algo_type == a, "algorithm_configuration_exception: member m_algo_type"); REQUIRE(e.m_algo_impl == b, "algorithm_configuration_exception: member m_algo_impl"); REQUIRE(e.m_reason == c, "algorithm_configuration_exception: member m_reason"); }); break;
    case 11: made<invalid_name_exception, algorithm_exception>("invalid_name_exception", { "\"" + a + "\"", "\"" + b + "\"" }, a, b); members<invalid_name_exception>(attempt([&]() { throw invalid_name_exception(a, b); }), [&](invalid_name_exception const& e) { REQUIRE(e.m_algo_type == a, "invalid_name_exception: member m_algo_type"); REQUIRE(e.m_algo_impl == b, "invalid_name_exception: member m_algo_impl"); }); break;
    case 12: made<invalid_value, B>("invalid_value", { a }, a); break;
    case 13: made<image_size_mismatch_exception, image_exception>("image_size_mismatch_exception", { a, "[" + std::to_string(x) + ", " + std::to_string(y) + "]", "[" + std::to_string(w) + ", " + std::to_string(h) + "]" }, a, static_cast<size_t>(w), static_cast<size_t>(h), static_cast<size_t>(x), static_cast<size_t>(y)); members<image_size_mismatch_exception>(attempt([&]() { throw image_size_mismatch_exception(a, w, h, x, y); }), [&](image_size_mismatch_exception const& e) { REQUIRE(e.m_message == a, "image_size_mismatch_exception: member m_message"); REQUIRE(e.m_correct_w == w, "image_size_mismatch_exception: member m_correct_w"); REQUIRE(e.m_correct_h == h, "image_size_mismatch_exception: member m_correct_h"); REQUIRE(e.m_given_w == x, "image_size_mismatch_exception: member m_given_w"); REQUIRE(e.m_given_h == y, "image_size_mismatch_exception: member m_given_h"); }); break;
    case 14: made<path_not_exists, io_exception>("path_not_exists", { a }, a); break;
    case 15: made<path_not_a_file, io_exception>("path_not_a_file", { a }, a); break;
    case 16: made<path_not_a_directory, io_exception>("path_not_a_directory", { a }, a); break;
    case 17: made<invalid_file, io_exception>("invalid_file", { a, b }, a, b); break;
    case 18: made<invalid_data, io_exception>("invalid_data", { a }, a); break;
    case 19: made<file_not_found_exception, io_exception>("file_not_found_exception", { "'" + a + "'", b }, a, b); break;
    case 20: made<file_not_read_exception, io_exception>("file_not_read_exception", { "'" + a + "'", b }, a, b); break;
    case 21: made<file_write_exception, io_exception>("file_write_exception", { "'" + a + "'", b }, a, b); break;
    case 22: made<invalid_matrix_operation, math_exception>("invalid_matrix_operation", { a }, a); members<invalid_matrix_operation>(attempt([&]() { throw invalid_matrix_operation(a); }), [&](invalid_matrix_operation const& e) { REQUIRE(e.m_reason == a, "invalid_matrix_operation: member m_reason"); }); break;
    case 23: made<bad_configuration_cast, CB>("bad_configuration_cast", { a }, a); break;
    case 24: made<bad_configuration_cast_exception, CB>("bad_configuration_cast_exception", { "'" + a + "'", "'" + b + "'", "'" + c + "'", d }, a, b, c.c_str(), d.c_str()); break;
    default: made<non_invertible_matrix, math_exception>("non_invertible_matrix", {}); made<point_maps_to_infinity, math_exception>("point_maps_to_infinity", {}); made<math_exception, B>("math_exception", {}); made<io_exception, B>("io_exception", {}); made<image_exception, B>("image_exception", {});
  }
}
