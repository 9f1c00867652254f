// C05 (reference interpretation of valid config files) and C06 (malformed ones)
#include "config_doc.hpp"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>

using namespace kwiver::vital;
using namespace cdoc;

PBT_INIT()
{
  quiet_all();
  // a directory on PATH with files named like the includes must never be consulted
  std::string p = pbt::scratch() + "/bin";
  mkdir(p.c_str(), 0700); mkdir((p + "/sub").c_str(), 0700);
  for (char const* n : {"f1a", "f1b", "f2a", "f2b", "f3a", "f3b", "sub/f1a", "sub/f1b", "sub/f2a"}) std::ofstream((p + "/" + n + ".conf").c_str()) << "from_program_path = 1\n";
  setenv("PATH", (p + ":/usr/bin:/bin").c_str(), 1);
}

namespace {

void compare(config_block_sptr c, Result const& r)
{
  std::vector<std::string> keys = c->available_values(); std::sort(keys.begin(), keys.end());
  std::string g, w; for (auto const& k : keys) g += k + " "; for (auto const& e : r.kv) w += e.first + " ";
  REQUIRE_EQ(g, w, "keys of the parsed configuration");
  for (auto const& e : r.kv)
  {
    REQUIRE_EQ(show(c->get_value<std::string>(e.first)), show(e.second.value), "value of " << e.first);
    REQUIRE_EQ(c->is_read_only(e.first), e.second.ro, "read-only mark of " << e.first);
    std::string file; int line = -1;
    REQUIRE(c->get_location(e.first, file, line), "no location for " << e.first);
    REQUIRE_EQ(file + ":" + std::to_string(line), e.second.file + ":" + std::to_string(e.second.line), "location of " << e.first);
  }
}

#ifndef MALFORMED
} // namespace

PBT_PROP(parse_reference, 12000, 400000, "document with a block or include, and a macro substitution, read-only mark or relative path")
{
  Gen g(s, true);
  Doc d = g.make(pbt::scratch());
  bool conflict_ok = s.chance(1, 5);
  Result r = conflict_ok ? d.eval() : make_consistent(d);
  d.describe(s.note());
  if ((r.blocks || r.includes) && (r.macros || r.ros || r.rels)) s.nontrivial();
  if (r.includes) s.label("include"); if (r.macros) s.label("macro"); if (r.rels) s.label("relativepath"); if (r.ros) s.label("read-only"); if (r.blocks) s.label("block");
  d.write();
  apply_env(d);
  bool threw = false; config_block_sptr c;
  try { c = read_config_file(d.main, d.search); }
  catch (set_on_read_only_value_exception const&) { threw = true; }
  d.erase();
  REQUIRE_EQ(threw, r.ro_violation, "assignment to a read-only entry is refused, and only then");
  if (r.ro_violation) { s.label("read-only refusal"); return; }
  compare(c, r);
}

PBT_PROP(parse_format_invariance, 6000, 200000, "document with at least three statements, reformatted")
{
  // comments, blank lines, indentation and line ends carry no meaning; a block is a key prefix
  Gen g(s, false);
  Doc d = g.make(pbt::scratch());
  Result r = make_consistent(d);
  Doc e = d;
  size_t stm = 0;
  for (auto& f : e.files)
  {
    std::vector<Line> out;
    for (auto l : f.second.lines)
    {
      Line blank; blank.kind = Line::NOISE; blank.ro = blank.rel = false;
      if (s.chance(1, 3)) { blank.text = s.flip() ? "" : "  # inserted = comment"; out.push_back(blank); }
      if (l.kind != Line::NOISE) { ++stm; l.text = spaces(s, 0) + l.text + (s.flip() ? " \t" : "# x"); }
      out.push_back(l);
    }
    f.second.lines = out; f.second.crlf = s.flip(); f.second.final_newline = s.flip();
  }
  e.describe(s.note());
  if (stm >= 3) s.nontrivial();
  apply_env(d);
  d.write(); config_block_sptr a = read_config_file(d.main, d.search); d.erase();
  e.write(); config_block_sptr b = read_config_file(e.main, e.search); e.erase();
  std::vector<std::string> ka = a->available_values(), kb = b->available_values();
  REQUIRE(ka == kb, "keys differ after reformatting");
  for (auto const& k : ka)
  {
    REQUIRE_EQ(show(b->get_value<std::string>(k)), show(a->get_value<std::string>(k)), "value of " << k << " after reformatting");
    REQUIRE_EQ(b->is_read_only(k), a->is_read_only(k), "read-only mark of " << k << " after reformatting");
  }
}
#else
enum Out { OK, NOT_PARSED, NOT_FOUND, READ_ONLY };

Out attempt(std::string const& main, std::vector<std::string> const& search, config_block_sptr& c)
{
  try { c = read_config_file(main, search); return OK; }
  catch (config_file_not_parsed_exception const&) { return NOT_PARSED; }
  catch (config_file_not_found_exception const&) { return NOT_FOUND; }
  catch (set_on_read_only_value_exception const&) { return READ_ONLY; }
}
char const* const names[] = {"accepted", "not parsed", "not found", "read-only refusal"};
} // namespace

PBT_PROP(malformed_rejected, 10000, 400000, "every case: a valid document with one malformed statement put in a file that is read")
{
  Gen g(s, false);
  Doc d = g.make(pbt::scratch());
  int kind = s.range(0, 11);
  if (kind == 4 || kind == 5 || kind == 11) clear_ro(d); // these faults evaluate entries in another block or again, where marks could collide first
  Result r = make_consistent(d);
  std::vector<std::string> fs(r.files_read.begin(), r.files_read.end());
  File& f = d.files[fs[s.idx(fs.size())]];
  size_t at = s.idx(f.lines.size() + 1);
  Line l; l.kind = Line::NOISE; l.ro = l.rel = false;
  Doc good = d; // before the fault
  Out want = NOT_PARSED; bool insert = true;
  switch (kind)
  {
  case 0: { static const std::vector<std::string> t = {"= value", "[RO] x = 1", "1abc = 3", "*foo = 1", "_x = 1", ":a = 3", "\"k\" = v", "-k = v", "{", "$LOCAL{a} = 1", ".x = 1", "%", "\x80k = 1"}; l.text = s.pick(t); break; }
  case 1: l.text = gen_word(s) + " " + gen_word(s) + " = 1"; break;
  case 2: { static const std::vector<std::string> t = {"[XX]", "[R]", "[TR]", "[ROX]", "[RO,TR]", "[RO][ZZ]", "[]", "[1]"}; l.text = gen_word(s) + s.pick(t) + " = 1"; break; }
  case 3: { static const std::vector<std::string> t = {"block *", "block 1a", "block =", "block [RO]", "block :x"}; l.text = s.pick(t); break; }
  case 4: l.text = "endblock"; break;
  case 5: l.text = "block " + gen_word(s); break;
  case 6: l.text = "include no_such_file_anywhere.conf"; want = NOT_FOUND; break;
  case 7: l.text = "include " + pbt::scratch() + "/d1"; want = NOT_FOUND; break;
  case 8: l.text = gen_word(s) + " ! 1"; break;
  case 9: { static const std::vector<std::string> t = {"relativepath = x", "relativepath [RO] = x", "relativepath *"}; l.text = s.pick(t); break; }
  case 10: l.text = gen_word(s) + "$x = 1"; break;
  default: // includes itself
    l.text = "include " + f.path; break;
  }
  if (insert) f.lines.insert(f.lines.begin() + at, l);
  d.describe(s.note());
  s.note() << "fault: " << show(l.text) << " expected " << names[want] << "\n";
  s.nontrivial(); s.label("fault " + std::to_string(kind));
  apply_env(d);
  d.write();
  config_block_sptr c;
  Out got = attempt(d.main, d.search, c);
  d.erase();
  // the reader may go on after the fault; the entry it then evaluates can meet a read-only mark
  bool marks = l.text.find("[RO]") != std::string::npos;
  for (auto const& x : d.files) for (auto const& y : x.second.lines) marks = marks || y.ro;
  if (marks && got == READ_ONLY) want = READ_ONLY;
  REQUIRE_EQ(std::string(names[got]), std::string(names[want]), "malformed statement " << show(l.text));
  // a failed read leaves nothing behind: the valid document still reads the same
  good.write();
  config_block_sptr again;
  Out g2 = attempt(good.main, good.search, again);
  good.erase();
  REQUIRE_EQ(std::string(names[g2]), std::string("accepted"), "valid document after a failed read");
  compare(again, r);
}

PBT_PROP(arbitrary_bytes, 30000, 2000000, "input that is not empty and not accepted, or accepted with entries")
{
  std::string base = pbt::scratch();
  std::string text;
  int mode = s.range(0, 2);
  if (mode == 0)
  {
    static const std::vector<std::string> tok = {"block", "endblock", "include", "relativepath", "=", ":=", "[RO]", "[", "]", "\n", "\n", "\n", " ", "#", "aa", "b", "foo:bar", "$LOCAL{aa}", "$ENV{", "$CONFIG{foo:bar}", "${", "}", "\r", "\t", "::", "value text", "me.conf", "\"", "$SYSENV{cwd}", "$"};
    size_t n = 0; while (s.more(n, 20, 200)) { text += s.pick(tok); if (s.flip()) text += " "; }
  }
  else if (mode == 1)
  {
    Gen g(s, true); Doc d = g.make(base);
    for (auto const& l : d.files[d.absolute(d.main)].lines) text += l.text + "\n";
    size_t n = 0;
    while (s.more(n, 3, 12) && !text.empty())
    {
      size_t p = s.idx(text.size());
      switch (s.range(0, 4)) { case 0: text[p] = static_cast<char>(s.range(0, 255)); break; case 1: text.erase(p, s.range(1, 12)); break; case 2: text.insert(p, 1, static_cast<char>(s.range(0, 255))); break; case 3: text.insert(p, text.substr(s.idx(text.size()), 20)); break; default: text.insert(p, std::string(s.range(1, 3000), 'a')); }
    }
  }
  else { size_t n = 0; while (s.more(n, 40, 400)) text += static_cast<char>(s.range(0, 255)); }
  s.note() << show(text) << "\n";
  std::string f = base + "/me.conf";
  { std::ofstream o(f.c_str(), std::ios::binary); o << text; }
  std::vector<std::string> search; if (s.flip()) search.push_back(base);
  config_block_sptr c;
  Out got = attempt(f, search, c); // anything but these outcomes escapes as an unexpected exception or a crash
  s.label(names[got]);
  if (!text.empty() && (got != OK || !c->available_values().empty())) s.nontrivial();
  if (got == OK)
  { // reading is repeatable and the result is usable
    config_block_sptr c2; Out g2 = attempt(f, search, c2);
    REQUIRE(g2 == OK && c2->available_values() == c->available_values(), "second read differs");
    for (auto const& k : c->available_values())
    {
      REQUIRE(c->has_value(k) && c2->get_value<std::string>(k) == c->get_value<std::string>(k), "second read differs at " << k);
      std::string v = c->get_value<std::string>(k);
      REQUIRE(v == trim(v), "value of " << k << " has surrounding blanks");
      REQUIRE(!k.empty() && alpha(k[0]) && k[k.size() - 1] != ':' && k.find_first_of(" \t=#[]\"$") == std::string::npos, "accepted key " << show(k));
    }
  }
}
#endif

