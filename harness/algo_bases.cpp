// C21: what the algorithm base classes hand to implementations and give back.
#include "geo.hpp"
#include <vital/algo/convert_image.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/geo_map.h>
#include <vital/algo/image_io.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/exceptions.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace kv = kwiver::vital;
using namespace pbt;
typedef std::vector<kv::vector_2d> P2;
typedef std::vector<kv::vector_3d> P3;

#define ALGO_BOILERPLATE \
  std::string impl_name() const { return "probe"; } \
  void set_configuration(kv::config_block_sptr) {} \
  bool check_configuration(kv::config_block_sptr) const { return true; }

static std::vector<kv::feature_sptr> gen_features(Src& s, size_t n)
{
  std::vector<kv::feature_sptr> v;
  for (size_t i = 0; i < n; ++i)
  {
    double x = s.nice(1000), y = s.nice(1000);
    if (s.flip()) v.push_back(std::make_shared<kv::feature_d>(kv::vector_2d(x, y)));
    else v.push_back(std::make_shared<kv::feature_f>(kv::vector_2f(float(x), float(y))));
  }
  return v;
}
static std::vector<kv::match> gen_matches(Src& s, size_t n1, size_t n2)
{
  std::vector<kv::match> m; size_t n = 0;
  if (n1 && n2) while (s.more(n, 8, 30)) m.push_back(kv::match(s.idx(n1), s.idx(n2)));
  return m;
}

// --- estimators of matrices ---------------------------------------------
struct Call { P2 a, b; void const* c1 = nullptr; void const* c2 = nullptr; double scale = -1; size_t count = 0; std::vector<bool> in_given; };
static std::vector<bool> g_inliers;

struct hom : kv::algorithm_impl<hom, kv::algo::estimate_homography> {
  ALGO_BOILERPLATE
  using kv::algo::estimate_homography::estimate;
  mutable Call c; kv::homography_sptr res;
  kv::homography_sptr estimate(P2 const& a, P2 const& b, std::vector<bool>& in, double sc) const { c.a = a; c.b = b; c.scale = sc; ++c.count; in = g_inliers; return res; }
};
struct fun : kv::algorithm_impl<fun, kv::algo::estimate_fundamental_matrix> {
  ALGO_BOILERPLATE
  using kv::algo::estimate_fundamental_matrix::estimate;
  mutable Call c; kv::fundamental_matrix_sptr res;
  kv::fundamental_matrix_sptr estimate(P2 const& a, P2 const& b, std::vector<bool>& in, double sc) const { c.a = a; c.b = b; c.scale = sc; ++c.count; in = g_inliers; return res; }
};
struct ess : kv::algorithm_impl<ess, kv::algo::estimate_essential_matrix> {
  ALGO_BOILERPLATE
  using kv::algo::estimate_essential_matrix::estimate;
  mutable Call c; kv::essential_matrix_sptr res;
  kv::essential_matrix_sptr estimate(P2 const& a, P2 const& b, kv::camera_intrinsics_sptr c1, kv::camera_intrinsics_sptr c2, std::vector<bool>& in, double sc) const
  { c.a = a; c.b = b; c.c1 = c1.get(); c.c2 = c2.get(); c.scale = sc; ++c.count; in = g_inliers; return res; }
};

PBT_PROP(estimators, 25000, 300000, "at least three matches that are not the identity")
{
  size_t n1 = s.idx(15), n2 = s.idx(15);
  auto f1 = gen_features(s, n1), f2 = gen_features(s, n2);
  auto m = gen_matches(s, n1, n2);
  P2 e1, e2; bool identity = true;
  for (size_t i = 0; i < m.size(); ++i) { e1.push_back(f1[m[i].first]->loc()); e2.push_back(f2[m[i].second]->loc()); if (m[i].first != m[i].second) identity = false; }
  auto s1 = std::make_shared<kv::simple_feature_set>(f1); auto s2 = std::make_shared<kv::simple_feature_set>(f2);
  auto ms = std::make_shared<kv::simple_match_set>(m);
  g_inliers.clear(); for (size_t i = 0; i < m.size(); ++i) g_inliers.push_back(s.flip());
  bool dflt = s.chance(1, 4); double scale = dflt ? 1.0 : s.real(0, 20);
  std::vector<bool> in; size_t junk = s.idx(5); for (size_t i = 0; i < junk; ++i) in.push_back(s.flip());
  auto cmp = [&](Call const& c, double sc) {
    REQUIRE_EQ(c.count, size_t(1), "the point version is called once");
    REQUIRE_EQ(c.a.size(), e1.size(), "first points"); REQUIRE_EQ(c.b.size(), e2.size(), "second points");
    for (size_t i = 0; i < e1.size(); ++i) { REQUIRE(c.a[i] == e1[i], "first point " << i); REQUIRE(c.b[i] == e2[i], "second point " << i); }
    REQUIRE_EQ(c.scale, sc, "inlier scale");
    REQUIRE(in == g_inliers, "inliers");
  };
  bool fail = s.chance(1, 5);
  int which = s.idx(5);
  s.note() << "estimator " << which << " matches " << m.size() << " scale " << scale << "\n";
  if (which == 0)
  {
    hom h; if (!fail) h.res = std::make_shared<kv::homography_<double>>();
    auto r = dflt ? h.kv::algo::estimate_homography::estimate(s1, s2, ms, in) : h.estimate(s1, s2, ms, in, scale);
    cmp(h.c, scale); REQUIRE(r == h.res, "result");
  }
  else if (which == 1)
  {
    fun h; if (!fail) h.res = std::make_shared<kv::fundamental_matrix_<double>>(kv::matrix_3x3d(kv::matrix_3x3d::Identity()));
    auto r = dflt ? h.kv::algo::estimate_fundamental_matrix::estimate(s1, s2, ms, in) : h.estimate(s1, s2, ms, in, scale);
    cmp(h.c, scale); REQUIRE(r == h.res, "result");
  }
  else
  {
    ess h; if (!fail) h.res = std::make_shared<kv::essential_matrix_<double>>(kv::rotation_d(), kv::vector_3d(1, 0, 0));
    kv::camera_intrinsics_sptr c1 = std::make_shared<kv::simple_camera_intrinsics>(100.0, kv::vector_2d(1, 2)), c2 = std::make_shared<kv::simple_camera_intrinsics>(200.0, kv::vector_2d(3, 4));
    kv::essential_matrix_sptr r;
    if (which == 2) { r = h.estimate(s1, s2, ms, c1, c2, in, scale); REQUIRE(h.c.c1 == c1.get() && h.c.c2 == c2.get(), "calibrations"); }
    else if (which == 3) { r = h.estimate(s1, s2, ms, c1, in, scale); REQUIRE(h.c.c1 == c1.get() && h.c.c2 == c1.get(), "the one calibration"); }
    else { r = h.estimate(e1, e2, c2, in, scale); REQUIRE(h.c.c1 == c2.get() && h.c.c2 == c2.get(), "the one calibration"); }
    cmp(h.c, scale); REQUIRE(r == h.res, "result");
  }
  if (m.size() >= 3 && !identity) s.nontrivial();
}

// --- similarity from cameras and landmarks --------------------------------
struct sim : kv::algorithm_impl<sim, kv::algo::estimate_similarity_transform> {
  ALGO_BOILERPLATE
  using kv::algo::estimate_similarity_transform::estimate_transform;
  mutable P3 from, to; mutable size_t count = 0; kv::similarity_d res;
  kv::similarity_d estimate_transform(P3 const& f, P3 const& t) const { from = f; to = t; ++count; if (f.empty()) throw kv::algorithm_exception("estimate_similarity_transform", "probe", "nothing to pair"); return res; }
};

PBT_PROP(similarity_pairs, 25000, 300000, "two maps that share some ids and not others")
{
  sim a; a.res = kv::similarity_d(s.real(0.1, 10), kv::rotation_d(), gen_vec(s, 10));
  P3 ef, et; kv::similarity_d r; bool mixed = false; bool thrown = false;
  int which = s.idx(4);
  try
  {
    if (which < 2)
    {
      size_t n = s.idx(8), m = s.flip() ? n : s.idx(8); std::vector<kv::camera_sptr> cf, ct; std::vector<kv::landmark_sptr> lf, lt;
      for (size_t i = 0; i < n; ++i) { V3 v = gen_vec(s, 100); ef.push_back(v); auto c = std::make_shared<kv::simple_camera>(v, kv::rotation_d(gen_angle(s), gen_unit(s)), kv::simple_camera_intrinsics()); cf.push_back(c); lf.push_back(std::make_shared<kv::landmark_d>(v)); }
      for (size_t i = 0; i < m; ++i) { V3 v = gen_vec(s, 100); et.push_back(v); auto c = std::make_shared<kv::simple_camera>(v, kv::rotation_d(gen_angle(s), gen_unit(s)), kv::simple_camera_intrinsics()); ct.push_back(c); lt.push_back(std::make_shared<kv::landmark_d>(v)); }
      r = which == 0 ? a.estimate_transform(cf, ct) : a.estimate_transform(lf, lt);
    }
    else
    {
      kv::camera_map::map_camera_t cf, ct; kv::landmark_map::map_landmark_t lf, lt; std::map<int64_t, V3> mf, mt;
      for (int side = 0; side < 2; ++side)
      {
        size_t n = 0;
        while (s.more(n, 6, 15))
        {
          int64_t id = s.range(0, 12); V3 v = gen_vec(s, 100); (side ? mt : mf)[id] = v;
          (side ? ct : cf)[id] = std::make_shared<kv::simple_camera>(v, kv::rotation_d(gen_angle(s), gen_unit(s)), kv::simple_camera_intrinsics());
          (side ? lt : lf)[id] = std::make_shared<kv::landmark_d>(v);
        }
      }
      size_t only = 0;
      for (auto const& e : mf) if (mt.count(e.first)) { ef.push_back(e.second); et.push_back(mt[e.first]); } else ++only;
      mixed = !ef.empty() && only > 0 && ef.size() < mt.size();
      if (which == 2) r = a.estimate_transform(kv::camera_map_sptr(new kv::simple_camera_map(cf)), kv::camera_map_sptr(new kv::simple_camera_map(ct)));
      else r = a.estimate_transform(kv::landmark_map_sptr(new kv::simple_landmark_map(lf)), kv::landmark_map_sptr(new kv::simple_landmark_map(lt)));
    }
  }
  catch (kv::algorithm_exception const&) { thrown = true; }
  s.note() << "kind " << which << " pairs " << ef.size() << "/" << et.size() << "\n";
  REQUIRE_EQ(thrown, ef.empty(), "an error exactly if there is nothing to pair");
  if (a.count)
  {
    REQUIRE_EQ(a.count, size_t(1), "called once"); REQUIRE_EQ(a.from.size(), ef.size(), "from"); REQUIRE_EQ(a.to.size(), et.size(), "to");
    for (size_t i = 0; i < ef.size(); ++i) REQUIRE(a.from[i] == ef[i], "from point " << i);
    for (size_t i = 0; i < et.size(); ++i) REQUIRE(a.to[i] == et[i], "to point " << i);
  }
  if (!thrown) { REQUIRE_EQ(r.scale(), a.res.scale(), "result"); REQUIRE(r.translation() == a.res.translation(), "result"); }
  if (mixed) s.nontrivial();
}

// --- filters -----------------------------------------------------------------
struct fil : kv::algorithm_impl<fil, kv::algo::filter_features> {
  ALGO_BOILERPLATE
  using kv::algo::filter_features::filter;
  std::vector<unsigned> keep; mutable size_t dirty = 0;
protected:
  kv::feature_set_sptr filter(kv::feature_set_sptr in, std::vector<unsigned>& idx) const
  {
    dirty += idx.size(); idx = keep; auto all = in->features(); std::vector<kv::feature_sptr> o; for (unsigned i : keep) o.push_back(all[i]);
    return std::make_shared<kv::simple_feature_set>(o);
  }
};
PBT_PROP(filters, 25000, 200000, "some but not all features are kept")
{
  size_t n = s.idx(20); auto f = gen_features(s, n); std::vector<kv::descriptor_sptr> d;
  for (size_t i = 0; i < n; ++i) { auto p = std::make_shared<kv::descriptor_fixed<double, 4>>(); for (int k = 0; k < 4; ++k) p->raw_data()[k] = i * 4 + k; d.push_back(p); }
  fil a; std::vector<unsigned> all; for (unsigned i = 0; i < n; ++i) if (s.flip()) a.keep.push_back(i);
  if (s.chance(1, 3)) for (size_t i = a.keep.size(); i > 1; --i) std::swap(a.keep[i - 1], a.keep[s.idx(i)]);
  auto fs = std::make_shared<kv::simple_feature_set>(f); auto ds = std::make_shared<kv::simple_descriptor_set>(d);
  auto r1 = a.filter(fs); auto r2 = a.filter(fs, ds);
  REQUIRE_EQ(a.dirty, size_t(0), "the list of indices starts empty");
  REQUIRE(r1 && r2.first && r2.second, "results");
  REQUIRE_EQ(r1->size(), a.keep.size(), "features kept"); REQUIRE_EQ(r2.first->size(), a.keep.size(), "features kept"); REQUIRE_EQ(r2.second->size(), a.keep.size(), "descriptors kept");
  for (size_t i = 0; i < a.keep.size(); ++i)
  { REQUIRE(r1->features()[i] == f[a.keep[i]], "feature " << i); REQUIRE(r2.first->features()[i] == f[a.keep[i]], "feature " << i); REQUIRE(r2.second->descriptors()[i] == d[a.keep[i]], "descriptor " << i); }
  REQUIRE(fs->features() == f && ds->descriptors() == d, "the inputs are unchanged");
  if (!a.keep.empty() && a.keep.size() < n) s.nontrivial();
}

// --- cameras from landmarks and tracks ---------------------------------------
struct opt : kv::algorithm_impl<opt, kv::algo::optimize_cameras> {
  ALGO_BOILERPLATE
  using kv::algo::optimize_cameras::optimize;
  struct C { kv::camera_sptr in, out; std::vector<kv::feature_sptr> f; std::vector<kv::landmark_sptr> l; };
  mutable std::vector<C> calls; bool replace = true;
  void optimize(kv::camera_sptr& c, std::vector<kv::feature_sptr> const& f, std::vector<kv::landmark_sptr> const& l) const
  { C x; x.in = c; x.f = f; x.l = l; if (replace) c = c->clone(); x.out = c; calls.push_back(x); }
};
PBT_PROP(optimize, 25000, 300000, "a camera sees at least two landmarks and some states have no landmark or camera")
{
  kv::camera_map::map_camera_t cams; kv::landmark_map::map_landmark_t lms; std::vector<kv::track_sptr> trks;
  size_t n = 0; while (s.more(n, 5, 12)) { int64_t id = s.range(0, 9); cams[id] = std::make_shared<kv::simple_camera>(); }
  n = 0; while (s.more(n, 5, 12)) { int64_t id = s.range(0, 9); lms[id] = std::make_shared<kv::landmark_d>(gen_vec(s, 10)); }
  std::map<int64_t, std::map<kv::feature_sptr, kv::landmark_sptr>> want; bool dropped = false;
  std::set<int64_t> ids; n = 0;
  while (s.more(n, 5, 12))
  {
    int64_t id = s.range(0, 9); if (!ids.insert(id).second) continue;
    auto t = std::make_shared<kv::track>(); t->set_id(id); int64_t f = s.range(0, 4); size_t k = 0;
    while (s.more(k, 4, 8))
    {
      kv::feature_sptr ft; if (!s.chance(1, 5)) ft = std::make_shared<kv::feature_d>(kv::vector_2d(s.nice(10), s.nice(10)));
      t->append(kv::track::track_state(f, ft, kv::descriptor_sptr()));
      if (ft && cams.count(f) && lms.count(id)) want[f][ft] = lms[id]; else dropped = true;
      f += s.range(1, 3);
    }
    trks.push_back(t);
  }
  for (size_t i = trks.size(); i > 1; --i) std::swap(trks[i - 1], trks[s.idx(i)]);
  opt a; a.replace = !s.chance(1, 4);
  kv::camera_map_sptr given(new kv::simple_camera_map(cams)), cm = given; kv::track_set_sptr ts(new kv::simple_track_set(trks)); kv::landmark_map_sptr lm(new kv::simple_landmark_map(lms));
  int null = s.chance(1, 8) ? int(s.range(1, 7)) : 0;
  if (null)
  {
    if (null & 1) cm.reset(); if (null & 2) ts.reset(); if (null & 4) lm.reset();
    kv::camera_map_sptr before = cm; bool thrown = false;
    try { a.optimize(cm, ts, lm); } catch (kv::invalid_value const&) { thrown = true; }
    REQUIRE(thrown, "missing input is reported"); REQUIRE(cm == before, "nothing is changed"); REQUIRE(a.calls.empty(), "nothing is optimised"); s.label("null input");
    return;
  }
  a.optimize(cm, ts, lm);
  REQUIRE(cm, "a result");
  auto res = cm->cameras(); std::map<kv::camera_sptr, opt::C> by;
  for (auto const& c : a.calls) { REQUIRE(by.insert(std::make_pair(c.in, c)).second, "each camera is optimised once"); }
  REQUIRE_EQ(res.size(), cams.size(), "cameras in the result");
  bool two = false;
  for (auto const& c : cams)
  {
    auto const& w = want[c.first];
    REQUIRE(res.count(c.first), "camera " << c.first);
    auto i = by.find(c.second);
    if (i == by.end()) { REQUIRE(w.empty(), "camera " << c.first << " sees landmarks but was not optimised"); REQUIRE(res[c.first] == c.second, "camera " << c.first); continue; }
    REQUIRE_EQ(i->second.f.size(), w.size(), "features of camera " << c.first); REQUIRE_EQ(i->second.l.size(), w.size(), "landmarks of camera " << c.first);
    std::set<kv::feature_sptr> seen;
    for (size_t k = 0; k < w.size(); ++k)
    { auto x = w.find(i->second.f[k]); REQUIRE(x != w.end() && seen.insert(x->first).second, "feature " << k << " of camera " << c.first); REQUIRE(x->second == i->second.l[k], "landmark " << k << " of camera " << c.first); }
    REQUIRE(res[c.first] == i->second.out, "the optimised camera of frame " << c.first);
    if (w.size() >= 2) two = true;
  }
  REQUIRE(given->cameras() == cams, "the map given is unchanged"); REQUIRE(ts->tracks() == trks, "the tracks are unchanged"); REQUIRE(lm->landmarks() == lms, "the landmarks are unchanged");
  if (two && dropped) s.nontrivial();
}

// --- zones ----------------------------------------------------------------
struct geo : kv::algorithm_impl<geo, kv::algo::geo_map> {
  ALGO_BOILERPLATE
  void utm_to_latlon(double, double, int, bool, double&, double&) const {}
  void latlon_to_utm(double, double, double&, double&, int&, bool&, int) const {}
};
PBT_PROP(zones, 20000, 1000000, "the longitude is not a multiple of six degrees")
{
  double lat = s.real(-90, 90); int turns = int(s.range(0, 6)); turns = turns & 1 ? -(turns + 1) / 2 : turns / 2;
  double lon; int zone;
  if (s.chance(1, 4)) { int k = int(s.range(0, 59)); lon = -180 + 6 * k + 360 * turns; zone = k + 1; }
  else { int k = int(s.range(0, 59)); double off = s.real(0.000001, 5.999999); lon = -180 + 6.0 * k + off + 360.0 * turns; zone = k + 1; s.nontrivial(); }
  geo g; s.note() << "lon " << lon << "\n";
  REQUIRE_EQ(g.latlon_zone(lat, lon), zone, "zone of longitude " << lon);
}

// --- files of images ----------------------------------------------------
struct iio : kv::algorithm_impl<iio, kv::algo::image_io> {
  ALGO_BOILERPLATE
  mutable std::vector<std::string> loaded, saved; mutable kv::image_container_sptr data; kv::image_container_sptr res;
private:
  kv::image_container_sptr load_(std::string const& f) const { loaded.push_back(f); return res; }
  void save_(std::string const& f, kv::image_container_sptr d) const { saved.push_back(f); data = d; }
};
PBT_PROP(image_files, 8000, 60000, "the path has at least two parts")
{
  // the tree is made once per process; nothing writes to it
  static std::string base;
  if (base.empty())
  {
    base = scratch() + "/img"; mkdir(base.c_str(), 0700); mkdir((base + "/d").c_str(), 0700); mkdir((base + "/d/e").c_str(), 0700);
    for (char const* f : { "/f", "/d/f", "/d/e/f.png", "/d/ x" }) std::ofstream((base + f).c_str()) << "1";
    if (chdir(base.c_str())) {}
  }
  static const std::vector<std::string> parts = { "d", "e", "f", "f.png", "none", " x", ".", ".." };
  std::string p; size_t n = s.range(1, 4); std::vector<std::string> v;
  // parts after ".." of something that does not exist mean different things to different file systems
  for (size_t i = 0; i < n; ++i)
  {
    std::string x = s.pick(parts);
    struct stat st;
    if (x == ".." && (v.empty() || stat((base + "/" + p).c_str(), &st) || !S_ISDIR(st.st_mode))) x = "d";
    v.push_back(x); p += (p.empty() ? "" : "/") + x;
  }
  if (s.flip()) p = base + "/" + p;
  std::string full = p[0] == '/' ? p : base + "/" + p;
  struct stat st; bool ex = stat(full.c_str(), &st) == 0, dir = ex && S_ISDIR(st.st_mode);
  std::string par = full.substr(0, full.rfind('/')), last = full.substr(full.rfind('/') + 1);
  iio a; a.res = std::make_shared<kv::simple_image_container>(kv::image(1, 1)); std::string got = "ok";
  s.note() << p << (ex ? " exists" : "") << (dir ? " directory" : "") << "\n";
  try { auto r = a.load(p); REQUIRE(r == a.res, "loaded image"); }
  catch (kv::path_not_exists const&) { got = "path_not_exists"; } catch (kv::path_not_a_file const&) { got = "path_not_a_file"; }
  REQUIRE_EQ(got, std::string(!ex ? "path_not_exists" : dir ? "path_not_a_file" : "ok"), "load " << p);
  REQUIRE_EQ(a.loaded.size(), size_t(got == "ok"), "calls of the implementation"); if (got == "ok") REQUIRE_EQ(a.loaded[0], p, "name given to the implementation");
  if (last != "." && last != "..")
  {
    bool pe = stat(par.c_str(), &st) == 0, pd = pe && S_ISDIR(st.st_mode); auto img = std::make_shared<kv::simple_image_container>(kv::image(2, 2));
    got = "ok";
    try { a.save(p, img); } catch (kv::path_not_exists const&) { got = "path_not_exists"; } catch (kv::path_not_a_directory const&) { got = "path_not_a_directory"; }
    // "file/." is not a path to the system, but the directory's name once cleaned up
    bool odd = false; { std::string q; std::istringstream is(full.substr(1)); std::string x; while (std::getline(is, x, '/')) { q += "/" + x; struct stat t; if (q != full && stat(q.c_str(), &t) == 0 && !S_ISDIR(t.st_mode)) odd = true; } }
    if (odd) REQUIRE(got == "path_not_exists" || got == "path_not_a_directory", "save " << p << " gives " << got);
    else REQUIRE_EQ(got, std::string(!pe ? "path_not_exists" : pd ? "ok" : "path_not_a_directory"), "save " << p);
    if (!odd || got == "ok") { REQUIRE_EQ(a.saved.size(), size_t(got == "ok"), "calls of the implementation"); if (got == "ok") { REQUIRE_EQ(a.saved[0], p, "name given to the implementation"); REQUIRE(a.data == img, "image given to the implementation"); } }
    if (pe && !pd && v.size() >= 2 && v.size() == 2) REQUIRE_EQ(got, std::string("path_not_a_directory"), "save " << p);
  }
  if (n >= 2) s.nontrivial();
}

PBT_INIT() { quiet_all(); }
