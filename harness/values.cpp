// C15: small measurement types: covariances, features, landmarks, descriptors, colours, geographic positions
#include "geo.hpp"
#include <vital/types/covariance.h>
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/landmark.h>
#include <vital/types/landmark_map.h>
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/match_set.h>
#include <vital/types/geo_lat_lon.h>
#include <vital/exceptions/io.h>
#include <vital/io/eigen_io.h>
#include <memory>
using namespace kwiver::vital;
PBT_INIT() { quiet_all(); }
namespace {
template <class T> T num(Src& s) { double d = s.chance(1, 4) ? double(s.range(-4, 4)) : s.nice(1e6); return T(d); }
template <class T> struct Oth; template <> struct Oth<double> { typedef float type; }; template <> struct Oth<float> { typedef double type; };
template <class T> T pos(Src& s) { return std::fabs(num<T>(s)); }
rgb_color colour(Src& s) { return rgb_color(s.range(0, 255), s.range(0, 255), s.range(0, 255)); }

template <unsigned N, class T, class MM> void same(covariance_<N, T> const& c, MM const& m, char const* what)
{
  Eigen::Matrix<T, N, N> g = c; T const* p = c.data();
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j)
  {
    REQUIRE(g(i, j) == m(i, j), what << ": matrix element " << i << "," << j << " is " << g(i, j) << " expected " << m(i, j));
    REQUIRE(c(i, j) == m(i, j), what << ": element " << i << "," << j << " is " << c(i, j) << " expected " << m(i, j));
  }
  unsigned n = 0; for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i <= j; ++i) REQUIRE(p[n++] == m(i, j), what << ": packed element " << i << "," << j);
}
template <unsigned N, class T> Eigen::Matrix<T, N, N> gen_sym(Src& s) { Eigen::Matrix<T, N, N> m; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j <= i; ++j) m(i, j) = m(j, i) = num<T>(s); return m; }

template <unsigned N, class T> void cov_case(Src& s)
{
  typedef typename Oth<T>::type U; typedef Eigen::Matrix<T, N, N> M; typedef covariance_<N, T> C;
  M m; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) m(i, j) = num<T>(s);
  M sym; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) sym(i, j) = i == j ? m(i, j) : (i < j ? (m(i, j) + m(j, i)) / 2 : (m(j, i) + m(i, j)) / 2);
  s.note() << "matrix\n" << m << "\n"; s.nontrivial();
  REQUIRE_EQ(C::data_size, N * (N + 1) / 2, "number of values");
  C c(m); same(c, sym, "from a matrix");
  C d(c); same(d, sym, "copy"); C e(T(5)); same(e, M(M::Identity() * T(5)), "from a scalar"); e = c; same(e, sym, "assigned");
  size_t n = 0;
  while (s.more(n, 3, 9)) { unsigned i = s.idx(N), j = s.idx(N); T v = num<T>(s); e(i, j) = v; sym(i, j) = sym(j, i) = v; same(e, sym, "after setting an element"); }
  same(c, M(Eigen::Matrix<T, N, N>(C(m))), "original after its copy was changed"); same(d, M(Eigen::Matrix<T, N, N>(C(m))), "copy after another copy was changed");
  e = *&e; same(e, sym, "assigned to itself");
  covariance_<N, U> u(e); same(u, Eigen::Matrix<U, N, N>(sym.template cast<U>()), "of the other precision");
  covariance_<N, T> b(u); same(b, M(sym.template cast<U>().template cast<T>()), "of the other precision and back");
}

template <class T> struct MF { Eigen::Matrix<T, 2, 1> loc; T mag, sc, an; Eigen::Matrix<T, 2, 2> cov; rgb_color col; };
template <class T, class F> void same_f(F const& f, MF<T> const& m, char const* what, bool cov = true)
{
  feature const& b = f;
  REQUIRE(b.loc() == (m.loc.template cast<double>()) && b.magnitude() == double(m.mag) && b.scale() == double(m.sc) && b.angle() == double(m.an) && b.color() == m.col, what << ": values through the abstract type: " << b);
  REQUIRE(f.get_loc().template cast<double>() == m.loc.template cast<double>() && double(f.get_magnitude()) == double(m.mag) && double(f.get_scale()) == double(m.sc) && double(f.get_angle()) == double(m.an) && f.get_color() == m.col, what << ": values");
  if (cov) { same(b.covar(), Eigen::Matrix2d(m.cov.template cast<double>()), what); }
}
template <class T> void feature_case(Src& s)
{
  typedef typename Oth<T>::type U; s.label(Tol<T>::name());
  MF<T> m; m.loc << num<T>(s), num<T>(s); m.mag = num<T>(s); m.sc = pos<T>(s); m.an = T(gen_angle(s)); m.cov = gen_sym<2, T>(s); m.col = colour(s);
  s.note() << "feature at " << m.loc.transpose() << " mag " << m.mag << " scale " << m.sc << " angle " << m.an << " colour " << m.col << " cov " << m.cov << "\n"; s.nontrivial();
  feature_<T> f(m.loc, m.mag, m.sc, m.an, m.col); same_f(f, m, "constructed", false); f.set_covar(covariance_<2, T>(m.cov)); same_f(f, m, "with covariance");
  feature_<T> g; REQUIRE(g.get_loc().norm() == 0 && g.get_magnitude() == 0 && g.get_scale() == 1 && g.get_angle() == 0 && g.get_color() == rgb_color(255, 255, 255), "defaults");
  size_t n = 0; int order[6] = {0, 1, 2, 3, 4, 5}; for (size_t i = 0; i < 6; ++i) std::swap(order[i], order[i + s.idx(6 - i)]);
  for (int o : order) switch (o) { case 0: g.set_loc(m.loc); break; case 1: g.set_magnitude(m.mag); break; case 2: g.set_scale(m.sc); break; case 3: g.set_angle(m.an); break; case 4: g.set_covar(covariance_<2, T>(m.cov)); break; default: g.set_color(m.col); }
  same_f(g, m, "set one by one");
  REQUIRE(static_cast<feature const&>(g).data_type() == typeid(T) && feature_<T>::static_data_type() == typeid(T), "type of the values");
  MF<U> w; w.loc = m.loc.template cast<U>(); w.mag = U(m.mag); w.sc = U(m.sc); w.an = U(m.an); w.cov = m.cov.template cast<U>(); w.col = m.col;
  feature const& base = g; feature_<U> h(base); same_f(h, w, "copied to the other precision"); feature_<T> k(base); same_f(k, m, "copied from the abstract type");
  feature_<T> c(g); c.set_loc(-m.loc); c.set_covar(covariance_<2, T>(T(1))); c.set_color(rgb_color(1, 2, 3)); c.set_scale(m.sc + 1); same_f(g, m, "after changing a copy"); c = g; same_f(c, m, "assigned");
  std::ostringstream o, ob; o.precision(17); ob.precision(17); o << g; ob << base;
  std::istringstream i(o.str() + " " + ob.str()); feature_<T> r, r2; i >> r >> r2; REQUIRE(bool(i), "stream state"); same_f(r, m, "stream round trip", false); same_f(r2, m, "stream round trip through the abstract type", false);
  // a line that ends early
  std::vector<std::string> tok; { std::istringstream t(o.str()); std::string x; while (t >> x) tok.push_back(x); }
  REQUIRE_EQ(tok.size(), size_t(8), "number of values written: " << o.str());
  n = s.idx(8); std::string part; for (size_t j = 0; j < n; ++j) part += tok[j] + " ";
  std::istringstream pi(part); feature_<T> p; bool thrown = false; try { pi >> p; } catch (invalid_data const&) { thrown = true; }
  REQUIRE_EQ(thrown, n < 2, "reading '" << part << "'");
  if (!thrown) { MF<T> q = {m.loc, T(0), T(1), T(0), m.cov, rgb_color()}; if (n > 2) q.mag = m.mag; if (n > 3) q.sc = m.sc; if (n > 4) q.an = m.an; if (n > 5) q.col.r = m.col.r; if (n > 6) q.col.g = m.col.g; same_f(p, q, ("read from '" + part + "'").c_str(), false); }
}

template <class T> struct ML { Eigen::Matrix<T, 3, 1> loc, nor; T sc; Eigen::Matrix<T, 3, 3> cov; rgb_color col; unsigned obs; };
template <class T, class L> void same_l(L const& f, ML<T> const& m, char const* what, bool cov = true)
{
  landmark const& b = f;
  REQUIRE(b.loc() == (m.loc.template cast<double>()) && b.normal() == m.nor.template cast<double>() && b.scale() == double(m.sc) && b.color() == m.col && b.observations() == m.obs, what << ": values through the abstract type: " << b);
  REQUIRE(f.get_loc().template cast<double>() == m.loc.template cast<double>() && f.get_normal().template cast<double>() == m.nor.template cast<double>() && double(f.get_scale()) == double(m.sc) && f.get_color() == m.col && f.get_observations() == m.obs, what << ": values");
  if (cov) same(b.covar(), Eigen::Matrix3d(m.cov.template cast<double>()), what);
}
template <class T> void landmark_case(Src& s)
{
  typedef typename Oth<T>::type U; s.label(Tol<T>::name());
  ML<T> m; m.loc << num<T>(s), num<T>(s), num<T>(s); m.nor << num<T>(s), num<T>(s), num<T>(s); m.sc = pos<T>(s); m.cov = gen_sym<3, T>(s); m.col = colour(s); m.obs = s.integer(0, 0xffffffffll);
  s.note() << "landmark at " << m.loc.transpose() << " normal " << m.nor.transpose() << " scale " << m.sc << " colour " << m.col << " observations " << m.obs << "\n"; s.nontrivial();
  { ML<T> z; z.loc.setZero(); z.nor.setZero(); z.sc = 1; z.col = rgb_color(255, 255, 255); z.obs = 0; same_l(landmark_<T>(), z, "default", false); z.loc = m.loc; same_l(landmark_<T>(m.loc), z, "constructed", false); z.sc = m.sc; same_l(landmark_<T>(m.loc, m.sc), z, "constructed with scale", false); }
  landmark_<T> g; int order[6] = {0, 1, 2, 3, 4, 5}; for (size_t i = 0; i < 6; ++i) std::swap(order[i], order[i + s.idx(6 - i)]);
  for (int o : order) switch (o) { case 0: g.set_loc(m.loc); break; case 1: g.set_normal(m.nor); break; case 2: g.set_scale(m.sc); break; case 3: g.set_observations(m.obs); break; case 4: g.set_covar(covariance_<3, T>(m.cov)); break; default: g.set_color(m.col); }
  same_l(g, m, "set one by one");
  ML<U> w; w.loc = m.loc.template cast<U>(); w.nor = m.nor.template cast<U>(); w.sc = U(m.sc); w.cov = m.cov.template cast<U>(); w.col = m.col; w.obs = m.obs;
  landmark const& base = g; landmark_<U> h(base); same_l(h, w, "copied to the other precision"); landmark_<T> k(base); same_l(k, m, "copied from the abstract type");
  landmark_sptr cl = base.clone(); landmark_<T>* c = dynamic_cast<landmark_<T>*>(cl.get()); REQUIRE(c && c != &g, "clone"); same_l(*c, m, "clone");
  c->set_loc(-m.loc); c->set_covar(covariance_<3, T>(T(1))); c->set_color(rgb_color(1, 2, 3)); c->set_observations(m.obs + 1); c->set_normal(-m.nor); c->set_scale(m.sc + 1); same_l(g, m, "after changing a clone");
  std::ostringstream o, ob; o.precision(17); ob.precision(17); o << g; ob << base;
  std::istringstream i(o.str() + " " + ob.str()); landmark_<T> r, r2; i >> r >> r2; REQUIRE(bool(i), "stream state"); same_l(r, m, "stream round trip", false); same_l(r2, m, "stream round trip through the abstract type", false);
  std::vector<std::string> tok; { std::istringstream t(o.str()); std::string x; while (t >> x) tok.push_back(x); }
  REQUIRE_EQ(tok.size(), size_t(11), "number of values written");
  size_t n = s.idx(11); std::string part; for (size_t j = 0; j < n; ++j) part += tok[j] + " ";
  std::istringstream pi(part); landmark_<T> p; bool thrown = false; try { pi >> p; } catch (invalid_data const&) { thrown = true; }
  REQUIRE_EQ(thrown, n < 7, "reading '" << part << "'");
  if (!thrown) { ML<T> q = m; q.col = rgb_color(); q.obs = 0; if (n > 7) q.col.r = m.col.r; if (n > 8) q.col.g = m.col.g; if (n > 9) q.col.b = m.col.b; same_l(p, q, ("read from '" + part + "'").c_str(), false); }
}

template <class T> void same_d(descriptor const& d, std::vector<T> const& v, char const* what)
{
  REQUIRE_EQ(d.size(), v.size(), what << ": size"); REQUIRE_EQ(d.num_bytes(), v.size() * sizeof(T), what << ": bytes");
  std::vector<double> a = d.as_double(); std::vector<byte> b = d.as_bytes();
  REQUIRE_EQ(a.size(), v.size(), what << ": values"); REQUIRE_EQ(b.size(), v.size() * sizeof(T), what << ": bytes");
  for (size_t i = 0; i < v.size(); ++i) { REQUIRE(a[i] == double(v[i]), what << ": value " << i); REQUIRE(!memcmp(&b[i * sizeof(T)], &v[i], sizeof(T)), what << ": bytes of value " << i); }
}
template <class T> T elem(Src& s) { return std::is_floating_point<T>::value ? T(s.nice(1e6)) : T(s.integer(std::numeric_limits<T>::min(), std::numeric_limits<T>::max())); }
template <class T, unsigned N> void fixed_desc(Src& s)
{
  descriptor_fixed<T, N> d; std::vector<T> v; for (unsigned i = 0; i < N; ++i) { v.push_back(elem<T>(s)); d.raw_data()[i] = v.back(); }
  same_d<T>(d, v, "fixed descriptor"); descriptor_fixed<T, N> c(d), e; e = d; c.raw_data()[N - 1] = T(v[N - 1] + 1); same_d<T>(d, v, "descriptor after its copy was changed"); same_d<T>(e, v, "assigned descriptor");
}
template <class T> void dyn_desc(Src& s)
{
  size_t n = 0; std::vector<T> v; while (s.more(n, 6, 200)) v.push_back(elem<T>(s));
  std::shared_ptr<descriptor_dynamic<T>> d(new descriptor_dynamic<T>(v.size())); for (size_t i = 0; i < v.size(); ++i) d->raw_data()[i] = v[i];
  if (v.size() > 1) s.nontrivial(); s.note() << v.size() << " elements of " << sizeof(T) << " bytes\n"; same_d<T>(*d, v, "descriptor");
  std::vector<descriptor_sptr> all = {d, descriptor_sptr(new descriptor_dynamic<T>(2))}; simple_descriptor_set ds(all); std::vector<descriptor_sptr> was = all; all.clear();
  REQUIRE(ds.size() == 2 && ds.descriptors() == was, "descriptor set"); REQUIRE(simple_descriptor_set().size() == 0, "empty descriptor set");
}
}
PBT_PROP(covariance, 40000, 4000000, "every case") { switch (s.range(0, 5)) { case 0: cov_case<2, double>(s); break; case 1: cov_case<2, float>(s); break; case 2: cov_case<3, double>(s); break; case 3: cov_case<3, float>(s); break; case 4: cov_case<5, double>(s); break; default: cov_case<1, float>(s); } }
PBT_PROP(features, 40000, 4000000, "every case") { if (s.flip()) feature_case<double>(s); else feature_case<float>(s); }
PBT_PROP(landmarks, 40000, 4000000, "every case") { if (s.flip()) landmark_case<double>(s); else landmark_case<float>(s); }
PBT_PROP(descriptors, 20000, 2000000, "descriptor with at least two elements")
{
  switch (s.range(0, 3)) { case 0: dyn_desc<unsigned char>(s); fixed_desc<unsigned char, 32>(s); break; case 1: dyn_desc<float>(s); fixed_desc<float, 7>(s); break; case 2: dyn_desc<double>(s); fixed_desc<double, 1>(s); break; default: dyn_desc<short>(s); fixed_desc<short, 128>(s); }
}
PBT_PROP(positions_colours_sets, 40000, 3000000, "position on or next to a limit, or a set with elements")
{
  auto deg = [&](double lim) { static const std::vector<double> q = {0, 90, -90, 180, -180, 360, 444, -444, 270}; double d = s.chance(1, 2) ? s.pick(q) : s.real(-lim, lim); if (s.chance(1, 3)) d = std::nextafter(d, s.flip() ? 1e9 : -1e9); return d; };
  double la = deg(120), lo = deg(400); s.note() << la << " " << lo << "\n"; if (std::fabs(la) == 90 || std::fabs(std::fabs(la) - 90) < 1e-9 || lo == 360 || std::fabs(lo + 180) < 1e-9) s.nontrivial();
  geo_lat_lon p(la, lo), z, q; REQUIRE(z.is_empty() && !z.is_valid(), "default position is empty");
  q.set_latitude(la); REQUIRE(q.get_latitude() == la && q.get_longitude() == geo_lat_lon::INVALID, "latitude set"); REQUIRE_EQ(q.is_empty(), (la == geo_lat_lon::INVALID), "half set position");
  REQUIRE(&q.set_longitude(lo) == &q && q.get_longitude() == lo && q.get_latitude() == la, "longitude set");
  REQUIRE_EQ(p.is_valid(), (la >= -90 && la <= 90 && lo >= -180 && lo <= 360), "validity"); REQUIRE_EQ(p.is_empty(), (la == 444 && lo == 444), "empty");
  REQUIRE(p == q && !(p != q), "equal positions"); double l2 = s.flip() ? la : deg(120), o2 = s.flip() ? lo : deg(400); geo_lat_lon r(l2, o2); REQUIRE_EQ(p == r, (la == l2 && lo == o2), "equality"); REQUIRE_EQ(p != r, !(la == l2 && lo == o2), "inequality");
  std::ostringstream o; o.precision(3); o << p << " " << 1.23456; std::string t = o.str(); double a, b; REQUIRE(sscanf(t.c_str(), "[ %lf / %lf ]", &a, &b) == 2 && a == la && b == lo, "printed as " << t); REQUIRE(t.size() > 4 && t.substr(t.size() - 4) == "1.23", "printing leaves the stream's precision alone: " << t);
  rgb_color c = colour(s), d = s.flip() ? c : rgb_color(s.flip() ? c.r : s.range(0, 255), s.flip() ? c.g : s.range(0, 255), s.flip() ? c.b : s.range(0, 255)); bool eq = c.r == d.r && c.g == d.g && c.b == d.b;
  REQUIRE(rgb_color() == rgb_color(255, 255, 255), "default colour is white"); REQUIRE_EQ(c == d, eq, "colour equality"); REQUIRE_EQ(c != d, !eq, "colour inequality");
  std::stringstream io; io << c << " " << d; rgb_color e, f; io >> e >> f; REQUIRE(e == c && f == d && io, "colours through a stream");
  size_t n = 0; std::vector<match> m; while (s.more(n, 4, 30)) m.push_back(match(s.integer(0, 0xffffffffll), s.integer(0, 0xffffffffll))); if (n > 1) s.nontrivial();
  std::vector<match> keep = m; simple_match_set ms(m); if (!m.empty()) m.pop_back(); REQUIRE(ms.size() == keep.size() && ms.matches() == keep, "match set"); REQUIRE(simple_match_set().size() == 0 && simple_match_set().matches().empty(), "empty match set");
  std::vector<feature_sptr> fs; landmark_map::map_landmark_t lm; for (size_t i = 0; i < keep.size(); ++i) { if (s.flip()) fs.push_back(feature_sptr(new feature_d)); else fs.push_back(feature_sptr(new feature_f)); lm[s.integer(-1000000, 1000000)] = landmark_sptr(new landmark_d); }
  std::vector<feature_sptr> fk = fs; simple_feature_set fset(fs); fs.clear(); REQUIRE(fset.size() == fk.size() && fset.features() == fk, "feature set");
  landmark_map::map_landmark_t lk = lm; simple_landmark_map lmap(lm); lm.clear(); REQUIRE(lmap.size() == lk.size() && lmap.landmarks() == lk, "landmark map");
}
