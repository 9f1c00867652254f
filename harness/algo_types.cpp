// C19: every type of algorithm can be registered, listed, created and configured by its name.
#include "vital_common.hpp"
#include <vital/algo/analyze_tracks.h>
#include <vital/algo/bundle_adjust.h>
#include <vital/algo/close_loops.h>
#include <vital/algo/compute_ref_homography.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/detect_features.h>
#include <vital/algo/draw_tracks.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/extract_descriptors.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/geo_map.h>
#include <vital/algo/image_io.h>
#include <vital/algo/initialize_cameras_landmarks.h>
#include <vital/algo/match_features.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/algo/track_features.h>
#include <vital/algo/triangulate_landmarks.h>
#include <vital/registrar.h>
#include <algorithm>

namespace kv = kwiver::vital;
namespace ka = kwiver::vital::algo;
using namespace pbt;
using namespace kwiver::vital;

namespace {
std::string last_call;   // of which algorithm, with which name and value
template <typename Self, typename D> struct stub : kv::algorithm_impl<Self, D>
{
  std::string n = "?"; int v = 0; std::shared_ptr<D> inner;
  std::string impl_name() const { return n; }
  std::string description() const { return "description of " + n; }
  kv::config_block_sptr get_configuration() const { auto c = D::get_configuration(); c->set_value("v", v); D::get_nested_algo_configuration("inner", c, inner); return c; }
  void set_configuration(kv::config_block_sptr c) { v = c->get_value<int>("v", v); D::set_nested_algo_configuration("inner", c, inner); }
  bool check_configuration(kv::config_block_sptr c) const { return c->get_value<int>("v", 0) >= 0; }
  void said() const { last_call = D::static_type_name() + " " + n + " " + std::to_string(v); }
};
typedef std::vector<vector_2d> P2; typedef std::vector<vector_3d> P3; typedef image_container_sptr I;
#define STUB(T, ...) struct my_##T : stub<my_##T, ka::T> { __VA_ARGS__ };
STUB(analyze_tracks, void print_info(track_set_sptr, stream_t&) const { said(); } void call() const { print_info(track_set_sptr(), std::cout); })
STUB(bundle_adjust, void optimize(camera_map_sptr&, landmark_map_sptr&, track_set_sptr) const { said(); } void call() const { camera_map_sptr c; landmark_map_sptr l; optimize(c, l, track_set_sptr()); })
STUB(close_loops, track_set_sptr stitch(frame_id_t, track_set_sptr, I, I) const { said(); return track_set_sptr(); } void call() const { stitch(0, track_set_sptr(), I(), I()); })
STUB(compute_ref_homography, f2f_homography_sptr estimate(frame_id_t, track_set_sptr) const { said(); return f2f_homography_sptr(); } void call() const { estimate(0, track_set_sptr()); })
STUB(convert_image, I convert(I i) const { said(); return i; } void call() const { convert(I()); })
STUB(detect_features, feature_set_sptr detect(I, I) const { said(); return feature_set_sptr(); } void call() const { detect(I(), I()); })
STUB(draw_tracks, I draw(track_set_sptr, image_container_sptr_list, track_set_sptr) { said(); return I(); } void call() { draw(track_set_sptr(), image_container_sptr_list(), track_set_sptr()); })
STUB(estimate_essential_matrix, using ka::estimate_essential_matrix::estimate; essential_matrix_sptr estimate(P2 const&, P2 const&, camera_intrinsics_sptr const, camera_intrinsics_sptr const, std::vector<bool>&, double) const { said(); return essential_matrix_sptr(); } void call() const { std::vector<bool> b; estimate(P2(), P2(), camera_intrinsics_sptr(), camera_intrinsics_sptr(), b, 1.0); })
STUB(estimate_fundamental_matrix, using ka::estimate_fundamental_matrix::estimate; fundamental_matrix_sptr estimate(P2 const&, P2 const&, std::vector<bool>&, double) const { said(); return fundamental_matrix_sptr(); } void call() const { std::vector<bool> b; estimate(P2(), P2(), b, 1.0); })
STUB(estimate_homography, using ka::estimate_homography::estimate; homography_sptr estimate(P2 const&, P2 const&, std::vector<bool>&, double) const { said(); return homography_sptr(); } void call() const { std::vector<bool> b; estimate(P2(), P2(), b, 1.0); })
STUB(estimate_similarity_transform, using ka::estimate_similarity_transform::estimate_transform; similarity_d estimate_transform(P3 const&, P3 const&) const { said(); return similarity_d(); } void call() const { estimate_transform(P3(), P3()); })
STUB(extract_descriptors, descriptor_set_sptr extract(I, feature_set_sptr, I) const { said(); return descriptor_set_sptr(); } void call() const { extract(I(), feature_set_sptr(), I()); })
STUB(filter_features, using ka::filter_features::filter; feature_set_sptr filter(feature_set_sptr, std::vector<unsigned int>&) const { said(); return feature_set_sptr(); } void call() const { std::vector<unsigned int> i; filter(feature_set_sptr(), i); })
STUB(geo_map, void utm_to_latlon(double, double, int, bool, double&, double&) const { said(); } void latlon_to_utm(double, double, double&, double&, int&, bool&, int) const {} void call() const { double a, b; utm_to_latlon(0, 0, 0, true, a, b); })
STUB(image_io, I load_(std::string const&) const { said(); return I(); } void save_(std::string const&, I) const {} void call() const { load_(""); })
STUB(initialize_cameras_landmarks, void initialize(camera_map_sptr&, landmark_map_sptr&, track_set_sptr) const { said(); } void call() const { camera_map_sptr c; landmark_map_sptr l; initialize(c, l, track_set_sptr()); })
STUB(match_features, match_set_sptr match(feature_set_sptr, descriptor_set_sptr, feature_set_sptr, descriptor_set_sptr) const { said(); return match_set_sptr(); } void call() const { match(feature_set_sptr(), descriptor_set_sptr(), feature_set_sptr(), descriptor_set_sptr()); })
STUB(optimize_cameras, using ka::optimize_cameras::optimize; void optimize(camera_sptr&, std::vector<feature_sptr> const&, std::vector<landmark_sptr> const&) const { said(); } void call() const { camera_sptr c; optimize(c, std::vector<feature_sptr>(), std::vector<landmark_sptr>()); })
STUB(track_features, track_set_sptr track(track_set_sptr, unsigned int, I, I) const { said(); return track_set_sptr(); } void call() const { track(track_set_sptr(), 0, I(), I()); })
STUB(triangulate_landmarks, void triangulate(camera_map_sptr, track_set_sptr, landmark_map_sptr&) const { said(); } void call() const { landmark_map_sptr l; triangulate(camera_map_sptr(), track_set_sptr(), l); })

typedef std::vector<std::string> Strs;
struct Ops   // what is done with one type
{
  std::string type;
  void (*add)(std::string const&, int);
  void (*check)(std::string const&, int, std::string const&, int, Src&);
  Strs (*names)();
};
template <typename S, typename D> struct For
{
  static void add(std::string const& n, int v) { auto p = std::make_shared<S>(); p->n = n; p->v = v; REQUIRE(kv::algorithm_def<D>::register_instance(kv::registrar::instance(), p), "registered"); }
  static Strs names() { Strs r = D::registered_names(); std::sort(r.begin(), r.end()); return r; }
  static void check(std::string const& n, int v, std::string const& inner, int iv, Src& s)
  {
    std::string t = D::static_type_name(); std::shared_ptr<D> a = s.flip() ? D::create(n) : std::dynamic_pointer_cast<D>(kv::algorithm::create(t, n));
    REQUIRE(a, "created"); REQUIRE_EQ(a->impl_name(), n, "name of a new " << t); REQUIRE_EQ(a->type_name(), t, "type of a new " << t); REQUIRE_EQ(a->description(), "description of " + n, "description");
    auto p = std::dynamic_pointer_cast<S>(a); REQUIRE(p, "class of a new " << t); p->call(); REQUIRE_EQ(last_call, t + " " + n + " " + std::to_string(v), "a call"); last_call.clear();
    REQUIRE(kv::algorithm_def<D>::has_impl_name(n) && !kv::algorithm_def<D>::has_impl_name(n + "x") && kv::algorithm::has_impl_name(t, n) && !kv::algorithm::has_impl_name(t, n + "x"), "known names");
    // nested in another one of its kind
    auto c = a->get_configuration(); REQUIRE_EQ(c->template get_value<int>("v"), v, "value"); REQUIRE_EQ(c->template get_value<std::string>("inner:type"), "", "no inner algorithm");
    c->set_value("v", v + 1); c->set_value("inner:type", inner); c->set_value("inner:" + inner + ":v", iv + 5); 
    REQUIRE(D::check_nested_algo_configuration("inner", c), "nested configuration"); c->set_value("inner:" + inner + ":v", -1); REQUIRE(!D::check_nested_algo_configuration("inner", c), "refused nested configuration"); c->set_value("inner:" + inner + ":v", iv + 5);
    a->set_configuration(c); REQUIRE_EQ(p->v, v + 1, "configured"); auto q = std::dynamic_pointer_cast<S>(p->inner); REQUIRE(q, "inner algorithm"); REQUIRE_EQ(q->n, inner, "inner algorithm"); REQUIRE_EQ(q->v, iv + 5, "configured inner algorithm");
    auto f = a->get_configuration(); REQUIRE_EQ(f->template get_value<std::string>("inner:type"), inner, "type of the inner algorithm"); REQUIRE_EQ(f->template get_value<int>("inner:" + inner + ":v"), iv + 5, "value of the inner algorithm");
    auto l = std::dynamic_pointer_cast<S>(a->clone()); REQUIRE(l && l != p && l->v == v + 1 && l->n == n, "clone"); 
    auto again = std::dynamic_pointer_cast<S>(D::create(n)); REQUIRE(again && again != p && again->v == v && !again->inner, "a new one is as registered");
    REQUIRE(!D::create(n + "x"), "creating an unknown one");
  }
};
#define OPS(T) Ops{ #T, For<my_##T, ka::T>::add, For<my_##T, ka::T>::check, For<my_##T, ka::T>::names },
Ops const ops[] = { OPS(analyze_tracks) OPS(bundle_adjust) OPS(close_loops) OPS(compute_ref_homography) OPS(convert_image) OPS(detect_features) OPS(draw_tracks) OPS(estimate_essential_matrix) OPS(estimate_fundamental_matrix) OPS(estimate_homography)
  OPS(estimate_similarity_transform) OPS(extract_descriptors) OPS(filter_features) OPS(geo_map) OPS(image_io) OPS(initialize_cameras_landmarks) OPS(match_features) OPS(optimize_cameras) OPS(track_features) OPS(triangulate_landmarks) };
}

PBT_PROP_ISOLATED(every_type, 800, 8000, "at least two types and a name used for two types")
{
  std::map<size_t, std::map<std::string, int>> reg; std::map<std::string, std::set<size_t>> uses; std::map<size_t, Strs> before; size_t n = 0;
  while (s.more(n, 10, 40))
  {
    size_t t = s.idx(sizeof ops / sizeof *ops); std::string name = s.pick(Strs{ "one", "two", "one_more", "analyze_tracks", "a:b", "x" }); if (reg[t].count(name)) continue;
    if (!before.count(t)) before[t] = ops[t].names(); if (std::count(before[t].begin(), before[t].end(), name)) continue;
    int v = int(s.range(0, 99)); s.note() << ops[t].type << " " << name << " " << v << "\n"; ops[t].add(name, v); reg[t][name] = v; uses[name].insert(t);
  }
  for (auto const& u : uses) if (u.second.size() > 1) s.nontrivial();
  for (auto const& r : reg)
  {
    Strs want = before[r.first]; for (auto const& e : r.second) want.push_back(e.first); std::sort(want.begin(), want.end());
    Strs got = ops[r.first].names(); REQUIRE(got == want, "registered names of " << ops[r.first].type);
    Strs all = kv::algorithm::registered_names(ops[r.first].type); std::sort(all.begin(), all.end()); REQUIRE(all == want, "names by the name of the type " << ops[r.first].type);
    for (auto const& e : r.second) { if (e.first.find(':') != std::string::npos) continue; auto i = r.second.begin(); std::advance(i, long(s.idx(r.second.size()))); if (i->first.find(':') != std::string::npos) continue; ops[r.first].check(e.first, e.second, i->first, i->second, s); }
  }
}
