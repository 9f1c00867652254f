// C13: cameras and intrinsics
#include "geo.hpp"
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>
#include <vital/types/camera_map.h>
#include <memory>
using namespace kwiver::vital;
PBT_INIT() { quiet_all(); }
namespace {
typedef Eigen::Vector2d V2;

struct K { double f, ar, sk; V2 pp; std::vector<double> d; };
K gen_k(Src& s, double dscale)
{
  K k;
  k.f = s.chance(1, 4) ? 1000.0 : std::pow(10.0, s.real(-1, 4)); k.ar = s.chance(1, 3) ? 1.0 : s.real(0.3, 3); k.sk = s.chance(1, 2) ? 0.0 : s.real(-0.3, 0.3) * k.f;
  k.pp = V2(s.nice(1000), s.nice(1000)); for (int i = 0; i < 2; ++i) if (!(std::fabs(k.pp[i]) < 2000)) k.pp[i] = 17.5;
  static const std::vector<int> len = {0, 1, 2, 4, 5, 8, 3};
  int n = s.pick(len);
  for (int i = 0; i < n; ++i)
  {
    double m = (i == 2 || i == 3) ? 0.02 : (i == 0 || i == 5) ? 0.1 : (i == 1 || i == 6) ? 0.02 : 0.005;
    double c = s.chance(1, 6) ? 0.0 : s.real(-1, 1) * m * dscale;
    k.d.push_back(c);
  }
  return k;
}
Eigen::VectorXd vec(std::vector<double> const& d) { Eigen::VectorXd v(d.size()); for (size_t i = 0; i < d.size(); ++i) v[i] = d[i]; return v; }
simple_camera_intrinsics make(K const& k) { return simple_camera_intrinsics(k.f, k.pp, k.ar, k.sk, vec(k.d)); }

// the radial (k1,k2,k3 / rational k4,k5,k6) and tangential (p1,p2) model in the order k1 k2 p1 p2 k3 k4 k5 k6
V2 ref_distort(std::vector<double> d, V2 const& p)
{
  // of the rational terms only complete sets are used; p1 needs p2
  size_t n = d.size(); if (n < 4 && n > 2) n = 2; if (n < 8 && n > 5) n = 5;
  d.resize(n); d.resize(8, 0.0);
  double x = p.x(), y = p.y(), r2 = x * x + y * y;
  double rad = (1 + d[0] * r2 + d[1] * r2 * r2 + d[4] * r2 * r2 * r2) / (1 + d[5] * r2 + d[6] * r2 * r2 + d[7] * r2 * r2 * r2);
  return V2(x * rad + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x), y * rad + d[2] * (r2 + 2 * y * y) + 2 * d[3] * x * y);
}
V2 ref_map(K const& k, V2 const& p) { V2 q = ref_distort(k.d, p); return V2(k.f * q.x() + k.sk * q.y() + k.pp.x(), k.f / k.ar * q.y() + k.pp.y()); }
std::string desc(K const& k) { std::ostringstream o; o.precision(17); o << "f " << k.f << " ar " << k.ar << " skew " << k.sk << " pp " << k.pp.transpose() << " d"; for (double x : k.d) o << " " << x; return o.str(); }
bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
void same_k(camera_intrinsics const& a, K const& k, double tol, char const* what, bool stream = false)
{
  REQUIRE(close(a.focal_length(), k.f, tol) && close(a.aspect_ratio(), k.ar, 4 * tol) && close(a.skew(), k.sk, tol) && close(a.principal_point().x(), k.pp.x(), tol) && close(a.principal_point().y(), k.pp.y(), tol), what << ": calibration " << a.focal_length() << " " << a.aspect_ratio() << " " << a.skew() << " " << a.principal_point().transpose() << " expected " << desc(k));
  std::vector<double> d = a.dist_coeffs(), w = k.d; if (stream && w.size() == 1 && w[0] == 0) w.clear(); // a lone 0 is the placeholder for "none"
  REQUIRE_EQ(d.size(), w.size(), what << ": number of distortion coefficients");
  for (size_t i = 0; i < d.size(); ++i) REQUIRE(std::fabs(d[i] - w[i]) <= tol * std::fabs(w[i]), what << ": distortion coefficient " << i << " is " << d[i] << ", expected " << w[i]);
}

// a camera that only implements the abstract interface
class other_camera : public camera {
public:
  V3 c; rotation_d r; camera_intrinsics_sptr k; covariance_3d cov;
  camera_sptr clone() const { return camera_sptr(new other_camera(*this)); }
  vector_3d center() const { return c; }
  vector_3d translation() const { return -(r * c); }
  covariance_3d center_covar() const { return cov; }
  rotation_d rotation() const { return r; }
  camera_intrinsics_sptr intrinsics() const { return k; }
};
}

PBT_PROP(intrinsics, 60000, 6000000, "distortion coefficients that are not all zero")
{
  bool strong = s.chance(1, 3);
  K k = gen_k(s, strong ? 5 : 1); simple_camera_intrinsics c = make(k);
  s.note() << desc(k) << "\n";
  bool dist_on = false; for (double x : k.d) if (x != 0) dist_on = true;
  if (dist_on) s.nontrivial(); s.label("coefficients " + std::to_string(k.d.size()));
  same_k(c, k, 0, "constructed");
  M3 kk; kk << k.f, k.sk, k.pp.x(), 0, k.f / k.ar, k.pp.y(), 0, 0, 1;
  REQUIRE(dist(M3(c.as_matrix()), kk) <= 1e-12 * k.f, "calibration matrix");
  same_k(simple_camera_intrinsics(kk, vec(k.d)), k, 1e-13, "from the calibration matrix");
  { camera_intrinsics const& b = c; simple_camera_intrinsics e(b); same_k(e, k, 0, "copied from the abstract type"); camera_intrinsics_sptr p = c.clone(); simple_camera_intrinsics* q = dynamic_cast<simple_camera_intrinsics*>(p.get()); REQUIRE(q && q != &c, "clone"); q->set_focal_length(k.f * 2); q->set_skew(k.sk + 1); same_k(c, k, 0, "after changing the clone"); }
  { simple_camera_intrinsics e; e.set_focal_length(k.f); e.set_aspect_ratio(k.ar); e.set_skew(k.sk); e.set_principal_point(k.pp); e.set_dist_coeffs(vec(k.d)); same_k(e, k, 0, "set one by one"); }
  double lim = strong ? 3 : 0.8;
  V2 p(s.real(-lim, lim), s.real(-lim, lim)); if (s.chance(1, 20)) p.setZero();
  double den = 1; { double r2 = p.squaredNorm(); std::vector<double> d = k.d; if (d.size() == 8) den = 1 + d[5] * r2 + d[6] * r2 * r2 + d[7] * r2 * r2 * r2; }
  s.note() << "point " << p.transpose() << "\n";
  if (std::fabs(den) > 0.05)
  {
    V2 q = ref_distort(k.d, p); double m = 1 + q.norm();
    REQUIRE(dist(V2(c.distort(p)), q) < 1e-10 * m, "distorted point " << c.distort(p).transpose() << " expected " << q.transpose());
    V2 im = ref_map(k, p); double im_m = (1 + k.f + std::fabs(k.sk)) * (1 + 1 / k.ar) * m + k.pp.norm();
    REQUIRE(dist(V2(c.map(p)), im) < 1e-10 * im_m, "image point " << c.map(p).transpose() << " expected " << im.transpose());
    double z = s.chance(1, 4) ? 1.0 : s.real(0.01, 50) * (s.chance(1, 6) ? -1 : 1);
    REQUIRE(dist(V2(c.map(V3(p.x() * z, p.y() * z, z))), im) < 1e-9 * im_m, "image of a homogeneous point");
    if (!strong)
    { // moderate distortion: the inverse is found
      V2 u = c.undistort(q);
      REQUIRE(dist(u, p) < 1e-7, "undistorted " << u.transpose() << " expected " << p.transpose());
      V2 n = c.unmap(im);
      REQUIRE(dist(n, p) < 1e-7 + 1e-9 * im_m / k.f * (1 + k.ar), "unmapped " << n.transpose() << " expected " << p.transpose());
      if (!dist_on) REQUIRE(dist(n, p) < 1e-10 * im_m / k.f * (1 + k.ar), "unmapped without distortion");
    }
  }
  std::stringstream io; io << static_cast<camera_intrinsics const&>(c) << c; simple_camera_intrinsics e, e2; io >> e >> e2;
  same_k(e, k, 2e-11, "stream round trip", true); same_k(e2, k, 2e-11, "second stream round trip", true);
}

PBT_PROP(camera_geometry, 60000, 5000000, "rotated camera away from the origin, calibration that is not the default")
{
  K k = gen_k(s, 1); double ang = gen_angle(s); V3 ax = gen_unit(s); M3 r = ref_rot(ang, ax); V3 c = gen_vec(s, 1000);
  s.note() << desc(k) << "\nangle " << ang << " about " << ax.transpose() << " center " << c.transpose() << "\n";
  if (std::fabs(ang) > 1e-6 && c.norm() > 0 && k.f != 1) s.nontrivial();
  simple_camera_intrinsics ki = make(k); rotation_d ro(ang, ax); camera_intrinsics_sptr ks(new simple_camera_intrinsics(ki));
  simple_camera cam;
  switch (s.range(0, 3))
  {
  case 0: cam = simple_camera(c, ro, ks); break;
  case 1: cam = simple_camera(c, ro, ki); break;
  case 2: cam.set_rotation(ro); cam.set_intrinsics(ks); cam.set_translation(-(r * c)); break;
  default: { other_camera o; o.c = c; o.r = ro; o.k = ks; M3 m = M3::Identity() * 2; m(0, 1) = m(1, 0) = 0.5; m(0, 2) = m(2, 0) = 0.25; m(1, 2) = m(2, 1) = 0.125; o.cov = covariance_3d(m); cam = simple_camera(static_cast<camera const&>(o)); REQUIRE(M3(Eigen::Matrix3d(cam.center_covar())) == m, "covariance of a copied camera"); }
  }
  double cm = 1 + c.norm();
  REQUIRE(dist(V3(cam.center()), c) < 1e-11 * cm && dist(V3(cam.get_center()), c) < 1e-11 * cm, "center");
  REQUIRE(dist(V3(cam.translation()), V3(-(r * c))) < 1e-11 * cm, "translation");
  REQUIRE(dist(M3(matrix_3x3d(cam.rotation())), r) < 1e-11, "rotation");
  same_k(*cam.intrinsics(), k, 0, "intrinsics");
  { simple_camera d(c, ro); REQUIRE(d.intrinsics() && d.intrinsics()->focal_length() == 1 && d.intrinsics()->dist_coeffs().empty(), "default intrinsics"); d.set_intrinsics(ks); d.set_intrinsics(camera_intrinsics_sptr()); REQUIRE(d.intrinsics() && d.intrinsics()->focal_length() == 1, "null intrinsics mean default intrinsics"); }
  // projection of a point in front of the camera
  V2 n(s.real(-0.7, 0.7), s.real(-0.7, 0.7)); double z = s.real(0.5, 100) * (s.chance(1, 8) ? -1 : 1);
  V3 w = r.transpose() * V3(n.x() * z, n.y() * z, z) + c;
  V2 im = ref_map(k, n); double im_m = (1 + k.f + std::fabs(k.sk)) * (1 + 1 / k.ar) * 3 + k.pp.norm();
  REQUIRE(std::fabs(cam.depth(w) - z) < 1e-10 * (cm + 200), "depth " << cam.depth(w) << " expected " << z);
  REQUIRE(dist(V2(cam.project(w)), im) < 1e-9 * im_m * cm, "projection " << cam.project(w).transpose() << " expected " << im.transpose());
  Eigen::Matrix<double, 3, 4> P = cam.as_matrix(), ref; M3 kk; kk << k.f, k.sk, k.pp.x(), 0, k.f / k.ar, k.pp.y(), 0, 0, 1;
  ref.block<3, 3>(0, 0) = kk * r; ref.block<3, 1>(0, 3) = -(kk * (r * c));
  REQUIRE(dist(P, ref) < 1e-10 * im_m * cm, "projection matrix");
  // clones are independent
  camera_sptr cl = cam.clone(); simple_camera* cs = dynamic_cast<simple_camera*>(cl.get()); REQUIRE(cs && cs != &cam, "clone");
  REQUIRE(cl->center() == cam.center() && cl->rotation() == cam.rotation() && V2(cl->project(w)) == V2(cam.project(w)), "clone is equal");
  cs->set_center(c + V3(1, 2, 3)); cs->set_rotation(rotation_d()); cs->set_intrinsics(camera_intrinsics_sptr());
  REQUIRE(dist(V3(cam.center()), c) < 1e-11 * cm && dist(M3(matrix_3x3d(cam.rotation())), r) < 1e-11, "camera after its clone was changed"); same_k(*cam.intrinsics(), k, 0, "intrinsics after the clone was changed");
  // looking at a point
  V3 at = c + gen_unit(s) * std::pow(10.0, s.real(-1, 2)), up = s.chance(1, 3) ? V3(0, 0, 1) : V3(gen_unit(s) * s.real(0.1, 10)); V3 dir = (at - c).normalized();
  if (up.normalized().cross(dir).norm() > 0.01)
  {
    simple_camera l(cam); l.set_center(c); if (up == V3(0, 0, 1) && s.flip()) l.look_at(at); else l.look_at(at, up);
    M3 lr = matrix_3x3d(l.rotation());
    REQUIRE(dist(V3(l.center()), c) == 0, "look_at keeps the center");
    REQUIRE(dist(M3(lr * lr.transpose()), M3(M3::Identity())) < 1e-10 && lr.determinant() > 0, "look_at gives a rotation");
    V3 q = lr * (at - c);
    REQUIRE(std::fabs(q.x()) < 1e-9 * q.norm() * cm && std::fabs(q.y()) < 1e-9 * q.norm() * cm && q.z() > 0, "the point looked at is on the optical axis, in front");
    V3 u = lr * up.normalized();
    REQUIRE(std::fabs(u.x()) < 1e-9 * cm && u.y() < 0, "the up direction is up in the image: " << u.transpose());
  }
  std::stringstream io; io << static_cast<camera const&>(cam) << "\n" << cam; simple_camera e, e2; io >> e >> e2;
  for (simple_camera* x : {&e, &e2})
  {
    REQUIRE(dist(M3(matrix_3x3d(x->rotation())), r) < 1e-10, "rotation after a stream round trip"); REQUIRE(dist(V3(x->translation()), V3(-(r * c))) < 1e-10 * cm, "translation after a stream round trip");
    same_k(*x->intrinsics(), k, 2e-11, "stream round trip", true);
  }
  camera_map::map_camera_t m; m[3] = cl; m[s.range(4, 90)] = camera_sptr(new simple_camera(cam)); simple_camera_map cmap(m);
  REQUIRE(cmap.size() == m.size() && cmap.cameras() == m, "camera map");
}
