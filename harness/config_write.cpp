// C04: writing a config block and reading it back
#include "vital_common.hpp"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <ftw.h>

using namespace kwiver::vital;
using pbt::Src;
using pbt::show;

PBT_INIT() { quiet_all(); }

namespace {

std::string trim(std::string s)
{
  char const* ws = " \t\n\v\f\r";
  size_t b = s.find_first_not_of(ws);
  if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(ws) - b + 1);
}

char key_char(Src& s) { static const char c[] = "abcxyzABZ019_-./:k"; return c[s.idx(sizeof c - 1)]; }

std::string gen_key(Src& s)
{
  std::string k; size_t n = 0;
  static const std::string first = "abcdefxyzABZ";
  k += first[s.idx(first.size())];
  while (s.more(n, 6, 24)) k += key_char(s);
  while (k[k.size() - 1] == ':') k.erase(k.size() - 1);
  if (k == "include" || k == "block" || k == "endblock" || k == "relativepath") k += "1";
  return k;
}

bool known_macro(std::string const& v)
{
  static char const* t[] = {"$LOCAL{", "$ENV{", "$CONFIG{", "$SYSENV{"};
  for (char const* x : t) if (v.find(x) != std::string::npos) return true;
  return false;
}

std::string gen_value(Src& s)
{
  std::string v; size_t n = 0;
  if (s.chance(1, 6)) { static const std::vector<std::string> sp = {"", "= x", "[RO] = 1", ":= local", "\"quoted  text\"", "$FOO{bar}", "$ENV", "include x", "endblock", "a = b = c", "${HOME}", "\\", "block b"}; return s.pick(sp); }
  while (s.more(n, 7, 60))
  {
    switch (s.range(0, 5))
    {
    case 0: v += static_cast<char>(s.range('a', 'z')); break;
    case 1: v += ' '; break;
    case 2: v += static_cast<char>(s.range(33, 126)); break;
    case 3: { static const std::string p = "=:[]${}\t;,'\""; v += p[s.idx(p.size())]; break; }
    case 4: v += static_cast<char>(s.range(128, 255)); break;
    default: v += static_cast<char>(s.range('0', '9')); break;
    }
  }
  for (char& c : v) if (c == '#' || c == '\n') c = 'h';
  if (known_macro(v)) for (char& c : v) if (c == '{') c = '(';
  return v;
}

std::string gen_descr(Src& s)
{
  std::string d; size_t n = 0;
  if (s.chance(2, 5)) return d;
  while (s.more(n, 18, 120))
  {
    switch (s.range(0, 9))
    {
    case 0: d += ' '; break;
    case 1: d += '\n'; break;
    case 2: d += "  - "; break;
    case 3: d += "# "; break;
    case 4: d += "key = value "; break;
    case 5: d += std::string(s.range(1, 120), 'w') + " "; break;
    case 6: d += "endblock\n"; break;
    case 7: d += std::string(s.range(2, 90), ' '); break;
    default: { size_t m = 0; while (s.more(m, 5, 14)) d += static_cast<char>(s.range('a', 'z')); d += ' '; }
    }
  }
  return d;
}

std::vector<std::string> split(std::string const& t, char sep)
{
  std::vector<std::string> r; std::string c;
  for (char x : t) { if (x == sep) { r.push_back(c); c.clear(); } else c += x; }
  r.push_back(c);
  return r;
}

std::vector<std::string> words(std::string const& t)
{
  std::vector<std::string> r; for (auto const& w : split(t, ' ')) if (!w.empty()) r.push_back(w);
  return r;
}

struct Item { std::string value, descr; bool loc; };

void check_text(std::string const& text, std::map<std::string, Item> const& items)
{
  REQUIRE(text.empty() || text[text.size() - 1] == '\n', "written text does not end with a line end");
  std::vector<std::string> lines = split(text, '\n'); lines.pop_back();
  std::vector<std::string> comment; auto it = items.begin();
  for (size_t i = 0; i < lines.size(); ++i)
  {
    std::string const& l = lines[i];
    if (l.empty()) continue;
    if (l[0] == '#')
    {
      if (l.compare(0, 12, "# defined - ") == 0 && comment.empty() && it != items.begin()) continue;
      comment.push_back(l);
      if (l.size() > 80) REQUIRE(words(l.substr(1)).size() == 1, "comment line of " << l.size() << " columns with several words: " << show(l));
      continue;
    }
    REQUIRE(it != items.end(), "extra line " << show(l));
    REQUIRE_EQ(l, it->first + " = " + it->second.value, "entry line");
    // the description precedes the entry, word for word, one description line per comment line
    std::vector<std::string> got, want;
    for (auto const& c : comment) { REQUIRE(c.size() == 1 || c[1] == ' ', "comment text not separated: " << show(c)); for (auto const& w : words(c.substr(1))) got.push_back(w); }
    for (auto const& dl : split(it->second.descr, '\n')) for (auto const& w : words(dl)) want.push_back(w);
    std::string g, w; for (auto const& x : got) g += x + " "; for (auto const& x : want) w += x + " ";
    REQUIRE_EQ(show(g), show(w), "description of " << it->first);
    if (!comment.empty())
    { // words of different description lines never share a comment line
      size_t ci = 0; std::vector<std::string> cw; 
      for (auto const& dl : split(it->second.descr, '\n'))
      {
        std::vector<std::string> dw = words(dl); size_t used = 0;
        while (used < dw.size())
        {
          REQUIRE(ci < comment.size(), "description text lost");
          cw = words(comment[ci].substr(1)); ++ci;
          REQUIRE(cw.size() <= dw.size() - used, "line structure of the description of " << it->first << " lost at " << show(comment[ci - 1]));
          used += cw.size();
        }
      }
    }
    comment.clear();
    ++it;
  }
  REQUIRE(it == items.end(), "entry " << show(it->first) << " is missing");
}

} // namespace

PBT_PROP(write_read_round_trip, 16000, 600000, "at least two entries, one with a description of more than one line or over 80 columns")
{
  std::map<std::string, Item> items;
  size_t n = 0; bool rich = false;
  config_block_sptr root = config_block::empty_config();
  bool use_view = s.chance(1, 4);
  config_block_sptr cb = use_view ? root->subblock_view("outer:blk") : root;
  do
  {
    std::string k = gen_key(s);
    Item it; it.value = trim(gen_value(s)); it.descr = gen_descr(s); it.loc = s.chance(1, 5);
    if (items.count(k)) continue;
    cb->set_value(k, it.value, it.descr);
    if (it.loc) cb->set_location(k, std::make_shared<std::string>("some file.conf"), 12);
    rich = rich || it.descr.size() > 80 || it.descr.find('\n') != std::string::npos;
    items[k] = it;
    s.note() << show(k) << " = " << show(it.value) << " descr " << show(it.descr) << "\n";
  } while (s.more(n, 5, 25));
  if (items.size() > 1 && rich) s.nontrivial();
  if (use_view) s.label("view");

  std::ostringstream o;
  write_config(cb, o);
  check_text(o.str(), items);

  std::string dir = pbt::scratch();
  std::string sub = dir;
  bool mk = s.chance(1, 5);
  if (mk) { sub += "/new" + std::to_string(s.index()); if (s.flip()) sub += "/deep er"; s.label("directory created"); }
  std::string f = sub + "/out.conf";
  if (!mk) { std::ofstream old(f.c_str()); old << "old_entry = left over\nbroken line\n"; for (int i = 0; i < 50; ++i) old << "more text to overwrite\n"; }
  if (s.chance(1, 5)) f = sub + "//./out.conf";
  write_config_file(cb, f);
  config_block_sptr r = read_config_file(f);
  std::vector<std::string> keys = r->available_values(); std::sort(keys.begin(), keys.end());
  std::string g, w; for (auto const& k : keys) g += show(k) + " "; for (auto const& e : items) w += show(e.first) + " ";
  REQUIRE_EQ(g, w, "keys read back");
  for (auto const& e : items)
  {
    REQUIRE_EQ(show(r->get_value<std::string>(e.first)), show(e.second.value), "value of " << show(e.first) << " read back");
    REQUIRE(!r->is_read_only(e.first), "read-only mark invented");
  }
  // writing what was read gives the same entries again
  std::ostringstream o2; write_config(r, o2);
  std::map<std::string, Item> plain = items; for (auto& e : plain) e.second.descr.clear();
  check_text(o2.str(), plain);
  // the original is unchanged by writing
  for (auto const& e : items) REQUIRE_EQ(show(cb->get_value<std::string>(e.first)), show(e.second.value), "original changed by writing");
  unlink(f.c_str());
  if (mk) { nftw(sub.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return remove(p); }, 8, FTW_DEPTH | FTW_PHYS); }
}

PBT_PROP(write_failures_reported, 1500, 20000, "every case")
{
  s.nontrivial();
  std::string dir = pbt::scratch();
  config_block_sptr cb = config_block::empty_config();
  int n = s.range(1, 5);
  for (int i = 0; i < n; ++i) cb->set_value("key" + std::to_string(i), std::string(s.range(1, 3000), 'v'), gen_descr(s));
  int kind = s.range(0, 4);
  std::string path;
  s.note() << "kind " << kind << "\n";
  switch (kind)
  {
  case 0: path = dir; s.label("directory"); break;
  case 1: path = dir + "/" + std::string(s.range(256, 400), 'n'); s.label("name too long"); break;
  case 2: { std::ofstream((dir + "/plain").c_str()) << "x"; path = dir + "/plain/out.conf"; s.label("parent is a file"); break; }
  case 3: path = "/dev/full"; s.label("device full"); break;
  default: path = dir + "/e.conf"; cb = config_block::empty_config("x"); s.label("empty block"); break;
  }
  bool threw = false;
  try { write_config_file(cb, path); } catch (config_file_write_exception const&) { threw = true; }
  REQUIRE(threw, "writing to " << show(path.substr(0, 80)) << " did not report a failure");
}
