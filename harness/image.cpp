// C08: images, views of images and image memory against a byte-map model
#include "vital_common.hpp"
#include <vital/types/image.h>
#include <vital/types/image_container.h>
#include <memory>
using namespace kwiver::vital;
using pbt::Src;
typedef image::byte byte;

PBT_INIT() { quiet_all(); }

namespace {
struct Buf { std::vector<byte> m; };
struct MImg {
  std::shared_ptr<Buf> b; ptrdiff_t off; size_t w, h, d; ptrdiff_t ws, hs, ds;
  byte& at(size_t i, size_t j, size_t k) const { return b->m[off + ws * ptrdiff_t(i) + hs * ptrdiff_t(j) + ds * ptrdiff_t(k)]; }
  size_t pixels() const { return w * h * d; }
};
struct Slot { image im; MImg m; };

void check(Slot const& s, char const* what)
{
  image const& im = s.im;
  REQUIRE_EQ(im.width(), s.m.w, what << ": width"); REQUIRE_EQ(im.height(), s.m.h, what << ": height"); REQUIRE_EQ(im.depth(), s.m.d, what << ": depth");
  for (size_t k = 0; k < s.m.d; ++k) for (size_t j = 0; j < s.m.h; ++j) for (size_t i = 0; i < s.m.w; ++i)
  {
    REQUIRE_EQ(int(im(i, j, k)), int(s.m.at(i, j, k)), what << ": pixel " << i << "," << j << "," << k);
    if (k == 0) REQUIRE_EQ(int(im(i, j)), int(s.m.at(i, j, 0)), what << ": pixel " << i << "," << j);
  }
  for (size_t j = 0; j < s.m.h && s.m.d > 0; ++j) for (size_t i = 0; i < s.m.w; ++i)
  {
    rgb_color c = im.at(i, j);
    byte r = s.m.at(i, j, 0), g = s.m.d < 3 ? r : s.m.at(i, j, 1), b = s.m.d < 3 ? r : s.m.at(i, j, 2);
    REQUIRE(c.r == r && c.g == g && c.b == b, what << ": colour at " << i << "," << j);
  }
}

bool throws_oor(image& im, unsigned i, unsigned j, int k)
{
  int n = 0;
  image const& c = im;
  try { if (k >= 0) { (void)im(i, j, k); } else { (void)im(i, j); } } catch (std::out_of_range const&) { ++n; }
  try { if (k >= 0) { (void)c(i, j, k); } else { (void)c(i, j); } } catch (std::out_of_range const&) { ++n; }
  if (k < 0) { try { (void)c.at(i, j); } catch (std::out_of_range const&) { ++n; } return n == 3; }
  return n == 2;
}

byte op_neg(byte const& b) { return 255 - b; }
byte op_rot(byte const& b) { return byte((b << 3) | (b >> 5)); }
byte op_add(byte const& b) { return byte(b + 41); }

void fill(Src& s, Slot& t)
{ // distinct-looking content from one draw
  unsigned x = s.range(1, 255), n = 0;
  for (size_t k = 0; k < t.m.d; ++k) for (size_t j = 0; j < t.m.h; ++j) for (size_t i = 0; i < t.m.w; ++i)
  { byte v = byte(x + 37 * n++); t.im(i, j, k) = v; t.m.at(i, j, k) = v; }
}

Slot fresh(size_t w, size_t h, size_t d, bool il)
{
  Slot t; t.im = image(w, h, d, il);
  t.m.b = std::make_shared<Buf>(); t.m.b->m.resize(w * h * d); t.m.off = 0; t.m.w = w; t.m.h = h; t.m.d = d; t.m.ws = 1; t.m.hs = w; t.m.ds = w * h;
  return t;
}

bool overlaps(MImg const& a, MImg const& b)
{
  if (a.b != b.b || !a.pixels() || !b.pixels()) return false;
  std::set<byte*> p;
  for (size_t k = 0; k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < a.w; ++i) p.insert(&a.at(i, j, k));
  for (size_t k = 0; k < b.d; ++k) for (size_t j = 0; j < b.h; ++j) for (size_t i = 0; i < b.w; ++i) if (p.count(&b.at(i, j, k))) return true;
  return false;
}
}

PBT_PROP(image_model, 300000, 20000000, "at least one view with strides or an offset of its own that shares memory, and a deep copy or transform")
{
  std::vector<Slot> v; bool view = false, deep = false; size_t n = 0;
  auto dim = [&](size_t m) { return size_t(s.range(0, 7) == 0 ? 0 : s.range(1, m)); };
  while (s.more(n, 9, 40))
  {
    size_t op = s.weighted({4, 5, 2, 2, 3, 4, 3, 3, 2, 2});
    if (v.empty()) op = 0;
    switch (op)
    {
    case 0:
    {
      size_t w = dim(7), h = dim(6), d = s.range(0, 9) == 0 ? 0 : s.range(1, 5); bool il = s.flip();
      Slot t = fresh(w, h, d, il);
      s.note() << "new " << v.size() << ": " << w << "x" << h << "x" << d << (il ? " interleaved" : "") << "\n";
      REQUIRE_EQ(t.im.size(), w * h * d, "allocated bytes");
      if (t.m.pixels()) { REQUIRE(t.im.d_step() == (il ? 1 : ptrdiff_t(w * h)) && t.im.w_step() == (il ? ptrdiff_t(d) : 1), "memory order of a new image"); }
      fill(s, t); v.push_back(t);
      break;
    }
    case 1:
    { // view: crop, subsample, flip, axis exchange, plane
      Slot const& a = v[s.idx(v.size())]; if (!a.m.pixels()) break;
      size_t x0 = s.idx(a.m.w), y0 = s.idx(a.m.h), z0 = s.idx(a.m.d);
      size_t sx = s.range(1, 3), sy = s.range(1, 3), sz = s.range(1, 2);
      size_t nx = 1 + s.idx((a.m.w - 1 - x0) / sx + 1), ny = 1 + s.idx((a.m.h - 1 - y0) / sy + 1), nz = 1 + s.idx((a.m.d - 1 - z0) / sz + 1);
      bool fx = s.flip(), fy = s.flip(), fz = s.chance(1, 4), tr = s.chance(1, 4), raw = s.chance(1, 3);
      Slot t; t.m = a.m; t.m.w = nx; t.m.h = ny; t.m.d = nz;
      ptrdiff_t io = 0, st[3] = {a.im.w_step() * ptrdiff_t(sx), a.im.h_step() * ptrdiff_t(sy), a.im.d_step() * ptrdiff_t(sz)};
      ptrdiff_t ms[3] = {a.m.ws * ptrdiff_t(sx), a.m.hs * ptrdiff_t(sy), a.m.ds * ptrdiff_t(sz)};
      io = a.im.w_step() * ptrdiff_t(x0) + a.im.h_step() * ptrdiff_t(y0) + a.im.d_step() * ptrdiff_t(z0);
      t.m.off += a.m.ws * ptrdiff_t(x0) + a.m.hs * ptrdiff_t(y0) + a.m.ds * ptrdiff_t(z0);
      size_t nn[3] = {nx, ny, nz}; bool ff[3] = {fx, fy, fz};
      for (int q = 0; q < 3; ++q) if (ff[q]) { io += st[q] * ptrdiff_t(nn[q] - 1); t.m.off += ms[q] * ptrdiff_t(nn[q] - 1); st[q] = -st[q]; ms[q] = -ms[q]; }
      if (tr) { std::swap(nn[0], nn[1]); std::swap(st[0], st[1]); std::swap(ms[0], ms[1]); }
      t.m.w = nn[0]; t.m.h = nn[1]; t.m.ws = ms[0]; t.m.hs = ms[1]; t.m.ds = ms[2];
      image_memory_sptr mem = a.im.memory();
      byte const* fp = a.im.first_pixel() + io;
      // a raw-memory view does not own: keep the memory alive through the pool (slots only grow)
      t.im = raw ? image(fp, nn[0], nn[1], nn[2], st[0], st[1], st[2]) : image(mem, fp, nn[0], nn[1], nn[2], st[0], st[1], st[2]);
      s.note() << "view " << v.size() << " of " << (&a - &v[0]) << ": " << nn[0] << "x" << nn[1] << "x" << nn[2] << " steps " << st[0] << "," << st[1] << "," << st[2] << (raw ? " raw" : "") << "\n";
      REQUIRE(t.im.w_step() == st[0] && t.im.h_step() == st[1] && t.im.d_step() == st[2] && t.im.first_pixel() == fp, "geometry of a view");
      REQUIRE_EQ(t.im.size(), (raw ? size_t(0) : mem ? mem->size() : 0), "bytes of a view");
      if (raw) t.im = image(mem, fp, nn[0], nn[1], nn[2], st[0], st[1], st[2]), check(Slot{image(fp, nn[0], nn[1], nn[2], st[0], st[1], st[2]), t.m}, "raw view");
      view = true; v.push_back(t);
      break;
    }
    case 2:
    { // shallow copy or assignment
      size_t i = s.idx(v.size()), j = s.idx(v.size());
      if (s.flip()) { Slot t = {image(v[i].im), v[i].m}; v.push_back(t); s.note() << "copy of " << i << " as " << v.size() - 1 << "\n"; }
      else { v[j].im = v[i].im; v[j].m = v[i].m; s.note() << "assign " << i << " to " << j << "\n"; }
      break;
    }
    case 3:
    {
      size_t i = s.idx(v.size()); Slot& t = v[i];
      size_t w = s.flip() ? t.m.w : dim(7), h = s.flip() ? t.m.h : dim(6), d = s.flip() ? t.m.d : s.range(1, 5);
      s.note() << "set_size " << i << " to " << w << "x" << h << "x" << d << "\n";
      bool same = w == t.m.w && h == t.m.h && d == t.m.d;
      byte* fp = t.im.first_pixel();
      t.im.set_size(w, h, d);
      if (same) REQUIRE(t.im.first_pixel() == fp, "set_size to the same size must do nothing");
      else { MImg m = fresh(w, h, d, false).m; t.m = m; REQUIRE(t.im.size() >= w * h * d, "memory after set_size"); if (m.pixels()) fill(s, t); }
      break;
    }
    case 4:
    { // deep copy
      size_t i = s.idx(v.size()), j = s.idx(v.size());
      Slot &t = v[j]; Slot const &o = v[i];
      bool same = o.m.w == t.m.w && o.m.h == t.m.h && o.m.d == t.m.d;
      if (same && i != j && overlaps(o.m, t.m)) break; // result depends on the order of copying
      s.note() << "copy_from " << i << " to " << j << "\n";
      MImg src = o.m; std::vector<byte> px;
      for (size_t k = 0; k < src.d; ++k) for (size_t y = 0; y < src.h; ++y) for (size_t x = 0; x < src.w; ++x) px.push_back(src.at(x, y, k));
      t.im.copy_from(o.im);
      if (!same) t.m = fresh(src.w, src.h, src.d, false).m;
      size_t c = 0;
      for (size_t k = 0; k < src.d; ++k) for (size_t y = 0; y < src.h; ++y) for (size_t x = 0; x < src.w; ++x) t.m.at(x, y, k) = px[c++];
      if (c) deep = true;
      break;
    }
    case 5:
    {
      size_t i = s.idx(v.size()); Slot& t = v[i]; if (!t.m.pixels()) break;
      size_t x = s.idx(t.m.w), y = s.idx(t.m.h), k = s.idx(t.m.d); byte b = s.range(0, 255);
      s.note() << "set " << i << " at " << x << "," << y << "," << k << " = " << int(b) << "\n";
      if (k == 0 && s.flip()) t.im(x, y) = b; else t.im(x, y, k) = b;
      t.m.at(x, y, k) = b;
      break;
    }
    case 6:
    {
      size_t i = s.idx(v.size()); Slot& t = v[i];
      byte (*ops[])(byte const&) = {op_neg, op_rot, op_add}; int o = s.idx(3);
      s.note() << "transform " << i << " with " << o << "\n";
      transform_image(t.im, ops[o]);
      for (size_t k = 0; k < t.m.d; ++k) for (size_t y = 0; y < t.m.h; ++y) for (size_t x = 0; x < t.m.w; ++x) { byte& b = t.m.at(x, y, k); b = ops[o](b); }
      if (t.m.pixels()) deep = true;
      break;
    }
    case 7:
    {
      size_t i = s.idx(v.size()), j = s.idx(v.size()); MImg const &a = v[i].m, &b = v[j].m;
      bool want = a.w == b.w && a.h == b.h && a.d == b.d;
      for (size_t k = 0; want && k < a.d; ++k) for (size_t y = 0; want && y < a.h; ++y) for (size_t x = 0; want && x < a.w; ++x) want = a.at(x, y, k) == b.at(x, y, k);
      REQUIRE_EQ(equal_content(v[i].im, v[j].im), want, "equal_content of " << i << " and " << j);
      break;
    }
    case 8:
    {
      size_t i = s.idx(v.size()); Slot& t = v[i];
      int ax = s.idx(3); unsigned far = s.flip() ? 0 : s.flip() ? 1u << 20 : 0xffffffffu;
      unsigned big = far == 0xffffffffu ? far : far + unsigned(ax == 0 ? t.m.w : ax == 1 ? t.m.h : t.m.d);
      if (ax == 2) REQUIRE(throws_oor(t.im, 0, 0, int(std::min(big, 0x7fffffffu))), "channel " << big << " of image " << i << " must be refused");
      else
      {
        REQUIRE(throws_oor(t.im, ax == 0 ? big : 0, ax == 1 ? big : 0, -1), "pixel out of range of image " << i << " must be refused");
        REQUIRE(throws_oor(t.im, ax == 0 ? big : 0, ax == 1 ? big : 0, 0), "pixel out of range of image " << i << " must be refused");
      }
      break;
    }
    default:
    {
      Slot const& t = v[s.idx(v.size())];
      simple_image_container c(t.im);
      REQUIRE(c.width() == t.m.w && c.height() == t.m.h && c.depth() == t.m.d && c.size() == t.im.size(), "image container");
      Slot u = {c.get_image(), t.m}; check(u, "image of a container");
      REQUIRE(u.im.first_pixel() == t.im.first_pixel() && u.im.memory() == t.im.memory(), "a container shares the memory of its image");
      break;
    }
    }
    for (size_t i = 0; i < v.size(); ++i) check(v[i], ("image " + std::to_string(i)).c_str());
  }
  if (view && deep) s.nontrivial();
  if (view) s.label("view"); if (deep) s.label("deep copy or transform");
}

PBT_PROP(image_memory, 60000, 2000000, "two blocks of different size, one copied or assigned")
{
  struct B { kwiver::vital::image_memory m; std::vector<byte> c; };
  std::vector<B> v; size_t n = 0; bool nt = false;
  while (s.more(n, 6, 20))
  {
    int op = v.empty() ? 0 : s.range(0, 3);
    if (op == 0) { size_t z = s.flip() ? s.range(0, 6) : s.range(0, 300); B b = {kwiver::vital::image_memory(z), std::vector<byte>(z)}; byte x = s.range(0, 255); for (size_t i = 0; i < z; ++i) b.c[i] = static_cast<byte*>(b.m.data())[i] = byte(x + i * 7); v.push_back(b); }
    else if (op == 1) { size_t i = s.idx(v.size()), j = s.idx(v.size()); v[j].m = v[i].m; std::vector<byte> c = v[i].c; nt = nt || c.size() != v[j].c.size(); v[j].c = c; }
    else if (op == 2) { B b = v[s.idx(v.size())]; v.push_back(b); nt = true; }
    else { size_t i = s.idx(v.size()); if (!v[i].c.empty()) { size_t p = s.idx(v[i].c.size()); byte x = s.range(0, 255); v[i].c[p] = x; static_cast<byte*>(v[i].m.data())[p] = x; } }
    for (auto& b : v) { REQUIRE_EQ(b.m.size(), b.c.size(), "size of a memory block"); REQUIRE(b.c.empty() || std::memcmp(b.m.data(), b.c.data(), b.c.size()) == 0, "content of a memory block"); }
  }
  if (nt) s.nontrivial();
}
