// The hash containers and the owning pointer of kwiversys against the containers of the
// standard library, with colliding hash functions and values whose copying fails.
#include "pbt.hpp"
#include <kwsys/auto_ptr.hxx>
#include <kwsys/hash_map.hxx>
#include <kwsys/hash_set.hxx>
#include <iterator>
#include <list>
#include <memory>
#include <type_traits>
using namespace pbt;

namespace {
long g_live = 0; int g_fail_in = -1;
struct Broken {};
// a number (what it is equal by) and a tag (which one it is)
struct V
{
  int n, tag; int* heap;
  V(int a = 0, int b = 0) : n(a), tag(b), heap(new int(a)) { ++g_live; }
  V(V const& o) : n(o.n), tag(o.tag), heap(nullptr) { if (g_fail_in >= 0 && g_fail_in-- == 0) throw Broken(); heap = new int(o.n); ++g_live; }
  V& operator=(V const& o) { n = o.n; tag = o.tag; *heap = o.n; return *this; }
  ~V() { --g_live; delete heap; }
};
bool operator==(V const& a, V const& b) { return *a.heap == *b.heap; }
// an allocator that counts what is allocated
long g_bytes = 0;
template <typename T> struct Counting : std::allocator<T>
{
  template <typename U> struct rebind { typedef Counting<U> other; };
  Counting() {} template <typename U> Counting(Counting<U> const&) {}
  T* allocate(size_t n, void const* = nullptr) { g_bytes += static_cast<long>(n * sizeof(T)); return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { g_bytes -= static_cast<long>(n * sizeof(T)); std::allocator<T>().deallocate(p, n); }
};
int g_hash_fail_in = -1;
struct H { size_t mod; explicit H(size_t m = 7) : mod(m) {} size_t operator()(V const& v) const { if (g_hash_fail_in >= 0 && g_hash_fail_in-- == 0) throw Broken(); if (mod == 0) return *v.heap % 2 ? size_t(53) * 97 * 193 * 389 * 769 - 1 /* the last bucket of each number of them */ : *v.heap % 3; return static_cast<size_t>(*v.heap) % mod; } };
struct Eq { bool operator()(V const& a, V const& b) const { return a == b; } };

template <typename T> struct Input // a range that can be read once
{
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
  T const* p; reference operator*() const { return *p; } Input& operator++() { ++p; return *this; } Input operator++(int) { Input r = *this; ++p; return r; }
  bool operator==(Input const& o) const { return p == o.p; } bool operator!=(Input const& o) const { return p != o.p; }
};

// what differs between the four containers
struct MapKind { typedef kwsys::hash_map<V, int, H, Eq, Counting<char>> C; enum { multi = 0, map = 1 }; };
struct MultiMapKind { typedef kwsys::hash_multimap<V, int, H, Eq, Counting<char>> C; enum { multi = 1, map = 1 }; };
struct SetKind { typedef kwsys::hash_set<V, H, Eq, Counting<char>> C; enum { multi = 0, map = 0 }; };
struct MultiSetKind { typedef kwsys::hash_multiset<V, H, Eq, Counting<char>> C; enum { multi = 1, map = 0 }; };

V const& key(V const& v) { return v; }
V const& key(std::pair<V const, int> const& v) { return v.first; }
int data(V const& v) { return v.tag; }
int data(std::pair<V const, int> const& v) { return v.second; }
void make(V const& k, int, std::vector<V>& out) { out.push_back(k); }
void make(V const& k, int d, std::vector<std::pair<V const, int>>& out) { out.emplace_back(k, d); }

typedef std::multimap<int, int> Model; // number -> tag or mapped value
typedef std::multiset<std::pair<int, int>> Bag;
Bag bag(Model const& m) { return Bag(m.begin(), m.end()); }

template <typename C> void same(C const& c, Model const& m, std::string const& where)
{
  REQUIRE_EQ(c.size(), m.size(), where << ": size"); REQUIRE_EQ(c.empty(), m.empty(), where << ": empty");
  Bag b; std::set<int> done; bool first = true; int last = 0; size_t n = 0;
  for (auto i = c.begin(); i != c.end(); ++i)
  {
    REQUIRE(++n <= m.size(), where << ": more elements than the size says");
    int k = key(*i).n; b.insert({ k, data(*i) });
    if (first || k != last) REQUIRE(done.insert(k).second, where << ": equal elements apart"); last = k; first = false;
  }
  REQUIRE(b == bag(m), where << ": other elements than were put in");
  size_t sum = 0; for (size_t i = 0; i < c.bucket_count(); ++i) sum += c.elems_in_bucket(i);
  REQUIRE_EQ(sum, m.size(), where << ": elements in the buckets");
  REQUIRE(c.bucket_count() > 0, where << ": no buckets");
}
bool insert_model(Model& m, int k, int d, bool multi) { if (!multi && m.count(k)) return false; m.insert({ k, d }); return true; }

template <typename I> auto where_is(std::pair<I, bool> const& p) -> I { return p.first; }
template <typename I> auto where_is(I const& p) -> I { return p; }
template <typename I> int new_one(std::pair<I, bool> const& p) { return p.second; }
template <typename I> int new_one(I const&) { return -1; }

template <typename C> int* subscript(C& c, V const& k, std::integral_constant<int, 1>) { return &c[k]; }
template <typename C> int* subscript(C&, V const&, std::integral_constant<int, 0>) { return nullptr; }

// containers that are equal have the same elements (the order may make others unequal)
template <typename K> bool alike(Model const& a, Model const& b)
{
  if (K::map) return bag(a) == bag(b);
  std::multiset<int> x, y; for (auto const& p : a) x.insert(p.first); for (auto const& p : b) y.insert(p.first); return x == y;
}

template <typename K> void history(Src& s)
{
  typedef typename K::C C; typedef typename C::value_type T; bool const multi = K::multi;
  struct Slot { std::unique_ptr<C> c; Model m; };
  std::vector<Slot> v(2); int range = s.pick(std::vector<int>{ 6, 3, 20, 400 }), tag = 0; long live0 = g_live, bytes0 = g_bytes;
  auto some = [&]() { return static_cast<int>(s.range(0, range)); };
  auto values = [&](size_t most) { std::vector<std::pair<int, int>> r; size_t n = 0; while (s.more(n, s.chance(1, 10) ? 40 : 4, most)) r.push_back({ some(), ++tag }); return r; };
  auto pack = [&](std::vector<std::pair<int, int>> const& x) { std::vector<T> r; r.reserve(x.size()); for (auto const& p : x) make(V(p.first, p.second), p.second, r); return r; };
  {
    for (auto& x : v)
    {
      size_t mod = s.pick(std::vector<size_t>{ 7, 1, 2, 53, 1000, 0 });
      auto vals = values(60); auto items = pack(vals); size_t hint = static_cast<size_t>(s.range(0, 200));
      switch (s.idx(4))
      {
        case 0: x.c.reset(new C()); vals.clear(); break;
        case 1: x.c.reset(new C(hint, H(mod))); vals.clear(); REQUIRE(x.c->bucket_count() >= hint, "buckets"); break;
        case 2: x.c.reset(s.flip() ? new C(items.data(), items.data() + items.size(), hint, H(mod), Eq()) : new C(items.data(), items.data() + items.size(), hint, H(mod))); break;
        default: { Input<T> a = { items.data() }, e = { items.data() + items.size() }; x.c.reset(s.flip() ? new C(a, e) : new C(a, e, hint)); }
      }
      for (auto const& p : vals) insert_model(x.m, p.first, p.second, multi);
      same(*x.c, x.m, "made");
    }
    size_t n = 0, erased = 0, grown = 0;
    while (s.more(n, 12, 60))
    {
      Slot& x = v[s.idx(2)]; C& c = *x.c; C const& cc = c; std::string where = "step " + std::to_string(n);
      switch (s.weighted({ 8, 4, 3, 5, 4, 3, 3, 2, 2, 2, 2, 3, 1 }))
      {
        case 0: // one element
        {
          int k = some(), d = ++tag; auto it = pack({ { k, d } }); size_t before = c.bucket_count(); where += " insert " + std::to_string(k); s.note() << where << "\n";
          auto r = s.chance(3, 4) ? c.insert(it[0]) : c.insert_noresize(it[0]);
          bool added = insert_model(x.m, k, d, multi); if (new_one(r) >= 0) REQUIRE_EQ(new_one(r) != 0, added, where << ": reported as new");
          REQUIRE(key(*where_is(r)).n == k && (!added || data(*where_is(r)) == d), where << ": iterator returned"); grown += c.bucket_count() > before; break;
        }
        case 1: // several
        {
          auto vals = values(200); auto items = pack(vals); std::list<T> l(items.begin(), items.end()); where += " insert " + std::to_string(vals.size()) + " elements"; s.note() << where << "\n"; size_t before = c.bucket_count();
          switch (s.idx(3)) { case 0: c.insert(items.begin(), items.end()); break; case 1: c.insert(l.begin(), l.end()); break; default: { Input<T> a = { items.data() }, e = { items.data() + items.size() }; c.insert(a, e); } }
          for (auto const& p : vals) insert_model(x.m, p.first, p.second, multi);
          if (!vals.empty()) REQUIRE(c.bucket_count() >= c.size(), where << ": fewer buckets than elements"); grown += c.bucket_count() > before; break;
        }
        case 2: // by subscript
        {
          if (!K::map || multi) break;
          int k = some(), d = ++tag; where += " [" + std::to_string(k) + "]"; s.note() << where << "\n"; int* p = subscript(c, V(k, d), std::integral_constant<int, K::map && !K::multi>());
          auto i = x.m.find(k); REQUIRE_EQ(*p, i == x.m.end() ? 0 : i->second, where << ": value"); *p = d; x.m.erase(k); x.m.insert({ k, d }); break;
        }
        case 3: // all of a key, which may be that of an element
        {
          int k = some(); size_t want = x.m.count(k), got; where += " erase " + std::to_string(k); auto i = c.find(V(k)); s.note() << where << "\n";
          if (i != c.end() && s.flip()) { auto r = c.equal_range(V(k)); auto j = r.first; for (size_t q = s.idx(want); q > 0; --q) ++j; got = c.erase(key(*j)); s.label("erase by an element's own key"); } else got = c.erase(V(k));
          REQUIRE_EQ(got, want, where << ": number of elements erased"); x.m.erase(k); erased += want; break;
        }
        case 4: // one
        {
          if (x.m.empty()) break;
          size_t at = s.idx(x.m.size()); auto i = c.begin(); while (at-- > 0) ++i;
          int k = key(*i).n, d = data(*i); where += " erase one " + std::to_string(k); s.note() << where << "\n"; c.erase(i); ++erased;
          for (auto j = x.m.find(k); ; ++j) { REQUIRE(j != x.m.end() && j->first == k, where); if (j->second == d) { x.m.erase(j); break; } }
          break;
        }
        case 5: // a range
        {
          size_t a = s.idx(x.m.size() + 1), b = s.idx(x.m.size() + 1); if (s.chance(1, 4)) b = x.m.size(); else if (b > 0 && s.chance(1, 4)) b = x.m.size() - (x.m.size() > 0); if (a > b) std::swap(a, b); where += " erase range"; s.note() << where << " " << a << " to " << b << " of " << x.m.size() << "\n";
          auto i = c.begin(); for (size_t q = 0; q < a; ++q) i++; auto j = i; for (size_t q = a; q < b; ++q) { int k = key(*j).n, d = data(*j); for (auto z = x.m.find(k); ; ++z) { REQUIRE(z != x.m.end() && z->first == k, where); if (z->second == d) { x.m.erase(z); break; } } ++j; }
          c.erase(i, j); erased += b - a; break;
        }
        case 6: // asking
        {
          int k = some(); where += " ask for " + std::to_string(k); size_t want = x.m.count(k); REQUIRE_EQ(cc.count(V(k)), want, where << ": count");
          auto f = cc.find(V(k)); REQUIRE_EQ(f != cc.end(), want > 0, where << ": find"); if (want) REQUIRE_EQ(key(*f).n, k, where << ": found element");
          auto g = c.find(V(k)); REQUIRE_EQ(g != c.end(), want > 0, where << ": find"); if (want) { REQUIRE(&*g == &*f, where << ": const find"); REQUIRE(&key(*g) == &key(*g.operator->()), where); }
          Bag b, e; auto r = c.equal_range(V(k)); size_t q = 0; for (auto i = r.first; i != r.second; ++i) { REQUIRE(++q <= want, where << ": equal range too long"); b.insert({ key(*i).n, data(*i) }); }
          auto mr = x.m.equal_range(k); for (auto i = mr.first; i != mr.second; ++i) e.insert(*i); REQUIRE(b == e, where << ": equal range");
          auto cr = cc.equal_range(V(k)); q = 0; for (auto i = cr.first; i != cr.second; ++i) ++q; REQUIRE_EQ(q, want, where << ": const equal range"); break;
        }
        case 7: { size_t h = static_cast<size_t>(s.range(0, 900)), before = c.bucket_count(); where += " resize " + std::to_string(h); s.note() << where << "\n"; c.resize(h); REQUIRE(c.bucket_count() >= h && c.bucket_count() >= before, where << ": " << c.bucket_count() << " buckets"); break; }
        case 8: where += " clear"; s.note() << where << "\n"; if (s.chance(1, 3)) { c.clear(); x.m.clear(); } break;
        case 9:
        {
          where += " copy"; C d(c); same(d, x.m, where); REQUIRE(d == c && c == d && !(c != d), where << ": copy not equal"); s.note() << where << "\n";
          auto it = pack({ { range + 1, ++tag } }); d.insert(it[0]); REQUIRE(!(d == c) && !(c == d), where << ": equal to one with another element");
          if (!x.m.empty())
          {
            C e(c); size_t at = s.idx(x.m.size()); auto i = e.begin(); while (at-- > 0) ++i; e.erase(i); REQUIRE(!(e == c) && !(c == e), where << ": equal to one with an element less");
            C f(c); f.resize(static_cast<size_t>(s.range(0, 900))); s.note() << "equal after resizing: " << (f == c) << (c == f) << "\n"; REQUIRE_EQ(f == c, c == f, where << ": equality of containers of different sizes");
            same(f, x.m, where + " resized");
          }
          break;
        }
        case 10: { Slot& y = v[s.idx(2)]; where += " assign"; s.note() << where << (&x == &y ? " itself" : "") << "\n"; c = *y.c; x.m = Model(y.m); REQUIRE(c == *y.c, where << ": not equal after assignment"); break; }
        case 11: { Slot& y = v[s.idx(2)]; where += " swap"; s.note() << where << "\n"; c.swap(*y.c); x.m.swap(y.m); same(*y.c, y.m, where); break; }
        default: // copying an element fails
        {
          where += " failing"; s.note() << where << "\n"; g_fail_in = static_cast<int>(s.idx(6)); bool failed = false; s.label("failing copy");
          std::vector<std::pair<int, int>> vals = values(6); g_fail_in = -1; auto items = pack(vals); g_fail_in = static_cast<int>(s.idx(6)); size_t size0 = c.size();
          switch (s.idx(3))
          {
            case 2: // the hash function fails while the elements move to other buckets: what is left is consistent
            {
              g_fail_in = -1; g_hash_fail_in = static_cast<int>(s.idx(30)); s.label("failing hash function");
              try { c.resize(c.bucket_count() + 1); } catch (Broken const&) { failed = true; } g_hash_fail_in = -1;
              if (failed) { Bag before = bag(x.m), after; x.m.clear(); for (auto i = c.begin(); i != c.end(); ++i) { x.m.insert({ key(*i).n, data(*i) }); REQUIRE(x.m.size() <= before.size(), where); } after = bag(x.m); REQUIRE(std::includes(before.begin(), before.end(), after.begin(), after.end()), where << ": elements that were not there"); }
              break;
            }
            case 0: try { for (size_t i = 0; i < items.size(); ++i) { size0 = c.size(); c.insert(items[i]); insert_model(x.m, vals[i].first, vals[i].second, multi); } } catch (Broken const&) { failed = true; } g_fail_in = -1; if (failed) REQUIRE_EQ(c.size(), size0, where << ": size after a failed insertion"); break;
            default: { long before = g_live, bytes = g_bytes; try { C d(c); g_fail_in = -1; same(d, x.m, where); } catch (Broken const&) { failed = true; } g_fail_in = -1; if (failed) { REQUIRE_EQ(g_live, before, where << ": elements of a failed copy left"); REQUIRE_EQ(g_bytes, bytes, where << ": memory of a failed copy left"); } }
          }
          break;
        }
      }
      g_fail_in = -1;
      same(c, x.m, where);
      if (*v[0].c == *v[1].c) REQUIRE(alike<K>(v[0].m, v[1].m), where << ": different containers are equal");
    }
    if (erased > 1 && (grown > 0 || n > 8)) s.nontrivial();
  }
  v.clear();
  REQUIRE_EQ(g_live, live0, "elements left after the containers are gone");
  REQUIRE_EQ(g_bytes, bytes0, "memory left after the containers are gone");
}

struct Base { static long live; int n; explicit Base(int a) : n(a) { ++live; } virtual ~Base() { --live; } };
long Base::live = 0;
struct Derived : Base { explicit Derived(int a) : Base(a) {} };
typedef kwsys::auto_ptr<Base> P; typedef kwsys::auto_ptr<Derived> D;
P give(int n) { return P(new Base(n)); }
D give_derived(int n) { return D(new Derived(n)); }
int take(P p) { return p.get() ? p->n : -1; }
} // namespace

PBT_PROP(maps, 30000, 600000, "several elements erased, after growing or many steps") { if (s.flip()) history<MapKind>(s); else history<MultiMapKind>(s); }
PBT_PROP(sets, 30000, 600000, "several elements erased, after growing or many steps") { if (s.flip()) history<SetKind>(s); else history<MultiSetKind>(s); }

// ---- the ready-made hash functions
PBT_PROP(standard_keys, 10000, 200000, "at least two different keys")
{
  kwsys::hash_map<std::string, int> a; std::map<std::string, int> b; kwsys::hash_set<int> c; std::set<int> d; kwsys::hash_map<long, std::string> e; std::map<long, std::string> f; kwsys::hash_map<unsigned char, short> g; std::map<unsigned char, short> h; kwsys::hash_set<long long> i; std::set<long long> j;
  size_t n = 0; std::vector<std::string> strs = { "", "a", "b", "ab", "ba", "\xff\x80", "a long one that goes on and on and on", std::string("nu\0l", 4), std::string("nu\0m", 4) };
  while (s.more(n, 15, 120))
  {
    std::string t = s.chance(1, 2) ? s.pick(strs) : std::to_string(s.range(0, 1000)); int v = static_cast<int>(s.range(-50, 50)); long l = static_cast<long>(s.integer(INT64_MIN, INT64_MAX));
    bool erase = s.chance(1, 4);
    if (erase) { REQUIRE_EQ(a.erase(t), b.erase(t), "erase " << show(t)); REQUIRE_EQ(c.erase(v), d.erase(v), "erase " << v); REQUIRE_EQ(e.erase(l), f.erase(l), "erase " << l); REQUIRE_EQ(i.erase(l), j.erase(l), "erase " << l); g.erase(static_cast<unsigned char>(v)); h.erase(static_cast<unsigned char>(v)); }
    else { a[t] = v; b[t] = v; REQUIRE_EQ(c.insert(v).second, d.insert(v).second, "insert " << v); e[l] += t; f[l] += t; g[static_cast<unsigned char>(v)] = 3; h[static_cast<unsigned char>(v)] = 3; i.insert(l); j.insert(l); }
    REQUIRE_EQ(a.count(t), b.count(t), "count of " << show(t)); REQUIRE_EQ(c.count(-v), d.count(-v), "count of " << -v);
  }
  if (b.size() > 1) s.nontrivial();
  REQUIRE_EQ(a.size(), b.size(), "size"); REQUIRE_EQ(c.size(), d.size(), "size"); REQUIRE_EQ(e.size(), f.size(), "size"); REQUIRE_EQ(g.size(), h.size(), "size"); REQUIRE_EQ(i.size(), j.size(), "size");
  for (auto const& x : b) { auto k = a.find(x.first); REQUIRE(k != a.end() && k->second == x.second, "value of " << show(x.first)); }
  for (auto const& x : f) { auto k = e.find(x.first); REQUIRE(k != e.end() && k->second == x.second, "value of " << x.first); }
  for (long long x : j) REQUIRE_EQ(i.count(x), 1u, "count of " << x);
}

// ---- ownership
PBT_PROP(owners, 20000, 400000, "an object changed hands at least twice")
{
  long live0 = Base::live; int moves = 0;
  {
    P p[3]; int want[3] = { -1, -1, -1 }; D d; int wd = -1; size_t n = 0; int next = 0;
    while (s.more(n, 10, 40))
    {
      size_t i = s.idx(3), j = s.idx(3);
      switch (s.idx(10))
      {
        case 0: p[i].reset(new Base(++next)); want[i] = next; break;
        case 1: p[i] = p[j]; if (i != j) { want[i] = want[j]; want[j] = -1; } ++moves; break;
        case 2: { P q(p[i]); REQUIRE(!p[i].get(), "the owner after handing over"); REQUIRE_EQ(q.get() ? q->n : -1, want[i], "object handed over"); p[j] = q; want[i] = -1; { want[j] = p[j].get() ? p[j]->n : -1; } REQUIRE(!q.get(), "the owner after handing over"); ++moves; break; }
        case 3: { Base* b = p[i].release(); REQUIRE_EQ(b ? b->n : -1, want[i], "released object"); delete b; want[i] = -1; break; }
        case 4: p[i].reset(p[i].get()); break;
        case 5: p[i] = give(++next); want[i] = next; ++moves; break;
        case 6: p[i] = d; want[i] = wd; wd = -1; ++moves; break;
        case 7: d = give_derived(++next); wd = next; break;
        case 8: { REQUIRE_EQ(take(p[i]), want[i], "object given to a function"); want[i] = -1; ++moves; break; }
        default: { P q(give(++next)); REQUIRE_EQ((*q).n, next, "object of a temporary"); p[i] = P(give_derived(++next)); want[i] = next; if (s.flip()) p[i].reset(), want[i] = -1; }
      }
      long alive = 0; for (size_t k = 0; k < 3; ++k) { REQUIRE_EQ(p[k].get() ? p[k]->n : -1, want[k], "object of owner " << k); alive += want[k] >= 0; }
      REQUIRE_EQ(d.get() ? d->n : -1, wd, "object of the derived owner"); alive += wd >= 0;
      REQUIRE_EQ(Base::live - live0, alive, "objects alive");
    }
  }
  REQUIRE_EQ(Base::live, live0, "objects alive at the end");
  if (moves > 1) s.nontrivial();
}
