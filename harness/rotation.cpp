// C11: rotations; C12: similarities (-DSIMILARITY)
#include "geo.hpp"
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
using namespace kwiver::vital;
PBT_INIT() { quiet_all(); }
namespace {
template <class T> using Vec = Eigen::Matrix<T, 3, 1>;
template <class T> using Mat = Eigen::Matrix<T, 3, 3>;
template <class T> M3 mat(rotation_<T> const& r) { return Mat<T>(r).template cast<double>(); }
template <class T> bool unit(rotation_<T> const& r) { return std::fabs(r.quaternion().norm() - 1) < 4 * Tol<T>::eps; }

struct R { double angle; V3 axis; M3 m; };
R gen_rot(Src& s) { R r; r.angle = gen_angle(s); r.axis = gen_unit(s); r.m = ref_rot(r.angle, r.axis); return r; }

template <class T> rotation_<T> build(Src& s, R const& r)
{
  switch (s.range(0, 3))
  {
  case 0: return rotation_<T>(T(r.angle), Vec<T>(r.axis.cast<T>()));
  case 1: return rotation_<T>(Vec<T>((r.axis * r.angle).cast<T>()));
  case 2: return rotation_<T>(Eigen::Quaternion<T>(T(std::cos(r.angle / 2)), T(r.axis.x() * std::sin(r.angle / 2)), T(r.axis.y() * std::sin(r.angle / 2)), T(r.axis.z() * std::sin(r.angle / 2))));
  default: return rotation_<T>(Mat<T>(r.m.cast<T>()));
  }
}
double wrap(double a) { return std::remainder(a, 2 * M_PI); }

template <class T> void rotation_case(Src& s)
{
  double const e = Tol<T>::eps;
  s.label(Tol<T>::name());
  R ra = gen_rot(s), rb = gen_rot(s);
  rotation_<T> a = build<T>(s, ra), b = build<T>(s, rb);
  V3 vd = gen_vec(s, 1000); Vec<T> v = vd.cast<T>(); vd = v.template cast<double>(); double vn = 1 + vd.norm();
  s.note() << Tol<T>::name() << " a " << ra.angle << " about " << ra.axis.transpose() << ", b " << rb.angle << " about " << rb.axis.transpose() << ", v " << vd.transpose() << "\n";
  if (std::fabs(ra.angle) > 1e-9 && std::fabs(rb.angle) > 1e-9) s.nontrivial();
  REQUIRE(dist(mat(rotation_<T>()), M3(M3::Identity())) == 0, "default is the identity");
  REQUIRE(unit(a) && unit(b), "unit quaternion");
  REQUIRE(dist(mat(a), ra.m) < 10 * e, "matrix of a rotation\n" << mat(a) << "\nexpected\n" << ra.m);
  REQUIRE(dist(mat(rotation_<T>(Mat<T>(a))), ra.m) < 20 * e, "matrix round trip");
  REQUIRE(dist((a * v).template cast<double>(), V3(ra.m * vd)) < 20 * e * vn, "rotated vector");
  REQUIRE(std::fabs(double((a * v).norm()) - vd.norm()) < 20 * e * vn, "length of a rotated vector");
  REQUIRE(dist(mat(rotation_<T>(a * b)), M3(ra.m * rb.m)) < 20 * e, "composition");
  REQUIRE(dist(Vec<T>((a * b) * v), Vec<T>(a * (b * v))) < 40 * e * vn, "composition applied to a vector");
  REQUIRE(dist(mat(a.inverse()), M3(ra.m.transpose())) < 20 * e, "inverse");
  REQUIRE(dist(mat(rotation_<T>(a.inverse() * a)), M3(M3::Identity())) < 20 * e, "inverse composed");
  // axis and angle
  double an = a.angle(); V3 ax = a.axis().template cast<double>();
  REQUIRE(std::fabs(an) <= M_PI + 1e-6, "angle " << an << " not within half a turn");
  REQUIRE(std::fabs(ax.norm() - 1) < 20 * e, "axis of unit length");
  REQUIRE(dist(ref_rot(an, ax), ra.m) < 20 * e, "axis " << ax.transpose() << " and angle " << an);
  if (std::fabs(ra.angle) > 100 * e && std::fabs(ra.angle) < M_PI - 100 * e)
  {
    double sg = an * ra.angle > 0 ? 1 : -1;
    REQUIRE(std::fabs(sg * an - ra.angle) < 40 * e, "angle " << an << " of a rotation by " << ra.angle);
    REQUIRE(dist(V3(sg * ax), ra.axis) < 100 * e / std::min(1.0, std::fabs(ra.angle)), "axis");
  }
  else if (ra.angle == 0) { REQUIRE(std::fabs(an) < 20 * e, "angle of the identity"); }
  Vec<T> rv = a.rodrigues();
  REQUIRE(dist(V3(rv.template cast<double>()), V3(an * ax)) < 20 * e, "rodrigues vector is angle times axis");
  REQUIRE(dist(mat(rotation_<T>(rv)), ra.m) < 40 * e, "rodrigues round trip");
  { // small rotations keep their relative accuracy through vectors
    double mag = std::pow(10.0, -double(s.range(0, 6))); Vec<T> w = (ra.axis * mag).template cast<T>();
    REQUIRE(dist(rotation_<T>(w).rodrigues(), w) <= (sizeof(T) == 4 ? 2e-6 : 1e-14) * mag * 4, "rodrigues vector of length " << mag);
  }
  // yaw, pitch, roll
  double yaw = gen_angle(s), pitch = s.chance(1, 5) ? double(s.range(-3, 3)) * 0.5 : s.real(-1.55, 1.55), roll = gen_angle(s);
  rotation_<T> y((T(yaw)), T(pitch), T(roll));
  REQUIRE(unit(y), "unit quaternion of yaw, pitch, roll");
  { // yaw, pitch, roll turn about the down, right and front axes of a vehicle, reference is East-North-Up
    M3 n2e; n2e << 0, 1, 0, 1, 0, 0, 0, 0, -1;
    M3 ref = ref_rot(-roll, V3::UnitX()) * ref_rot(-pitch, V3::UnitY()) * ref_rot(-yaw, V3::UnitZ()) * n2e;
    REQUIRE(dist(mat(y), ref) < 20 * e, "yaw " << yaw << " pitch " << pitch << " roll " << roll);
  }
  T y2, p2, r2; y.get_yaw_pitch_roll(y2, p2, r2);
  double te = 100 * e / std::cos(pitch);
  REQUIRE(std::fabs(wrap(y2 - yaw)) < te && std::fabs(p2 - pitch) < te && std::fabs(wrap(r2 - roll)) < te, "yaw pitch roll round trip: " << yaw << " " << pitch << " " << roll << " became " << y2 << " " << p2 << " " << r2);
  // interpolation along the shortest rotation from a to b
  M3 c = ra.m.transpose() * rb.m; rotation_<T> rc = a.inverse() * b; double cang = rc.angle();
  (void)c;
  double f = s.chance(1, 4) ? 0.5 : s.real(0.001, 0.999);
  rotation_<T> in = interpolate_rotation(a, b, T(f));
  REQUIRE(unit(in), "unit quaternion of an interpolated rotation");
  if (std::fabs(std::fabs(cang) - M_PI) > 1e-3)
  {
    V3 cax = rc.axis().template cast<double>();
    REQUIRE(dist(mat(in), M3(ra.m * ref_rot(f * cang, cax))) < 60 * e, "interpolation at " << f);
    rotation_<T> back = interpolate_rotation(b, a, T(1 - f));
    REQUIRE(dist(mat(in), mat(back)) < 200 * e, "interpolation from the other end");
    std::vector<rotation_<T> > out; size_t pre = s.range(0, 2), n = s.range(1, 6);
    for (size_t i = 0; i < pre; ++i) out.push_back(b);
    interpolated_rotations(a, b, n, out);
    REQUIRE_EQ(out.size(), pre + n, "number of interpolated rotations");
    for (size_t i = 0; i < pre; ++i) REQUIRE(out[i] == b, "rotations already in the vector");
    for (size_t i = 0; i < n; ++i) REQUIRE(dist(mat(out[pre + i]), M3(ra.m * ref_rot(cang * double(i + 1) / double(n + 1), cax))) < 60 * e, "interpolated rotation " << i + 1 << " of " << n);
  }
  // copies, other precision, streams
  rotation_<T> cp(a); REQUIRE(cp == a && !(cp != a), "copy is equal");
  bool same = a.quaternion().coeffs() == b.quaternion().coeffs(); REQUIRE_EQ(a == b, same, "equality"); REQUIRE_EQ(a != b, !same, "inequality");
  REQUIRE(dist(mat(rotation_d(a)), ra.m) < 20 * e && dist(mat(rotation_f(a)), ra.m) < 2e-5, "conversion of precision");
  std::stringstream io; io.precision(17); io << a << " " << b; rotation_<T> x, z; io >> x >> z;
  REQUIRE(dist(x.quaternion().coeffs(), a.quaternion().coeffs()) <= 1e-16 && dist(z.quaternion().coeffs(), b.quaternion().coeffs()) <= 1e-16, "stream round trip");
}

template <class T> struct G {
  double sc; R r; V3 t; similarity_<T> v; Eigen::Matrix4d m;
  void fill(Src& s)
  {
    sc = s.chance(1, 4) ? 1.0 : std::pow(10.0, s.real(-2, 2)); r = gen_rot(s); t = gen_vec(s, 100);
    sc = T(sc); for (int i = 0; i < 3; ++i) t[i] = T(t[i]);
    v = similarity_<T>(T(sc), build<T>(s, r), tr());
    m.setIdentity(); m.block<3, 3>(0, 0) = sc * r.m; m.block<3, 1>(0, 3) = t;
  }
  Vec<T> tr() const { return Vec<T>(T(t[0]), T(t[1]), T(t[2])); }
};

template <class T> void similarity_case(Src& s)
{
  double const e = Tol<T>::eps;
  typedef Eigen::Matrix<T, 4, 4> M4;
  s.label(Tol<T>::name());
  G<T> g[3];
  for (auto& x : g)
  {
    x.fill(s);
    s.note() << Tol<T>::name() << " scale " << x.sc << " angle " << x.r.angle << " about " << x.r.axis.transpose() << " translation " << x.t.transpose() << "\n";
  }
  V3 pd = gen_vec(s, 100); Vec<T> p = pd.cast<T>(); pd = p.template cast<double>();
  auto ap = [](Eigen::Matrix4d const& m, V3 const& q) { return V3(m.block<3, 3>(0, 0) * q + m.block<3, 1>(0, 3)); };
  auto M = [](similarity_<T> const& v) { return Eigen::Matrix4d(M4(v).template cast<double>()); };
  if (g[0].sc != 1 && std::fabs(g[0].r.angle) > 1e-9 && g[0].t.norm() > 0) s.nontrivial();
  similarity_<T> id; REQUIRE(M(id) == Eigen::Matrix4d(Eigen::Matrix4d::Identity()), "default is the identity");
  for (auto const& x : g)
  {
    double mag = x.sc * (1 + pd.norm()) + x.t.norm() + 1;
    REQUIRE(x.v.scale() == T(x.sc) && dist(mat(x.v.rotation()), x.r.m) < 10 * e && x.v.translation() == x.tr(), "parts of a similarity");
    REQUIRE(dist(M(x.v), x.m) < 20 * e * mag, "matrix of a similarity");
    REQUIRE(dist((x.v * p).template cast<double>(), ap(x.m, pd)) < 40 * e * mag, "transformed point");
    similarity_<T> y(M4(x.v)); REQUIRE(dist(M(y), x.m) < 60 * e * mag, "similarity from its matrix:\n" << M(y) << "\nexpected\n" << x.m);
    REQUIRE(std::fabs(y.scale() / x.sc - 1) < 60 * e, "scale from a matrix");
    { // other matrices give no similarity: never an undetermined one
      M4 bad = M4(x.v); int k = int(s.range(0, 4)); if (k < 3) bad(3, k) = T(s.pick(std::vector<double>{ 1, -1, 0.5, 1e-6, 1e6 })); else if (k == 3) bad(3, 3) = T(s.pick(std::vector<double>{ 0, 2, -1, 1.001, 0.5 })); else bad.col(s.idx(3)) *= T(s.flip() ? -1 : 0);
      alignas(similarity_<T>) unsigned char mem[sizeof(similarity_<T>)]; memset(mem, int(s.pick(std::vector<int>{ 0x3f, 0x40, 0, 0xff })), sizeof mem);
      similarity_<T>* y = new (mem) similarity_<T>(bad); Eigen::Matrix4d got = M(*y); bool one = y->scale() == T(1); y->~similarity_<T>();
      REQUIRE(one && got == Eigen::Matrix4d(Eigen::Matrix4d::Identity()), "from a matrix that is no similarity (" << k << "):\n" << got);
    }
    similarity_<T> inv = x.v.inverse(); double im = (1 + pd.norm() + x.t.norm()) * (1 + 1 / x.sc);
    REQUIRE(dist((inv * (x.v * p)).template cast<double>(), pd) < 100 * e * im * (1 + x.sc), "inverse of a similarity on a point");
    REQUIRE(dist(M(inv), Eigen::Matrix4d(x.m.inverse())) < 100 * e * im, "matrix of the inverse");
    REQUIRE(dist(M(x.v * inv), Eigen::Matrix4d(Eigen::Matrix4d::Identity())) < 100 * e * im * (1 + x.sc), "similarity composed with its inverse");
    std::stringstream io; io.precision(17); io << x.v << " " << x.v; similarity_<T> z, z2; io >> z >> z2;
    REQUIRE(dist(M(z), M(x.v)) <= 1e-15 * mag && z.scale() == x.v.scale() && dist(M(z2), M(x.v)) <= 1e-15 * mag, "stream round trip");
    similarity_<T> c(x.v); REQUIRE(c == x.v && !(c != x.v), "copy is equal");
    similarity_<T> d(x.v.scale() * 2, x.v.rotation(), x.v.translation()), f(x.v.scale(), x.v.rotation(), Vec<T>(x.v.translation() + Vec<T>(0, 0, 1 + std::fabs(x.v.translation().z()))));
    REQUIRE(d != x.v && f != x.v && !(d == x.v) && !(f == x.v), "inequality");
    REQUIRE(dist(Eigen::Matrix4d(similarity_d(x.v)), x.m) < 20 * e * mag && dist(Eigen::Matrix4d(Eigen::Matrix4f(similarity_f(x.v)).cast<double>()), x.m) < 2e-5 * mag, "conversion of precision");
  }
  double big = (1 + g[0].sc) * (1 + g[1].sc) * (1 + g[2].sc) * (1 + pd.norm() + g[0].t.norm() + g[1].t.norm() + g[2].t.norm());
  similarity_<T> ab = g[0].v * g[1].v;
  REQUIRE(dist(M(ab), Eigen::Matrix4d(g[0].m * g[1].m)) < 100 * e * big, "composition");
  REQUIRE(dist((ab * p).template cast<double>(), ap(g[0].m, ap(g[1].m, pd))) < 100 * e * big, "composition on a point");
  REQUIRE(dist(M((g[0].v * g[1].v) * g[2].v), M(g[0].v * (g[1].v * g[2].v))) < 200 * e * big, "associativity");
}
}
#ifndef SIMILARITY
PBT_PROP(rotation_double, 60000, 5000000, "two rotations by more than 1e-9 rad") { rotation_case<double>(s); }
PBT_PROP(rotation_float, 40000, 3000000, "two rotations by more than 1e-9 rad") { rotation_case<float>(s); }
#else
PBT_PROP(similarity_double, 40000, 4000000, "scale, rotation and translation all not trivial") { similarity_case<double>(s); }
PBT_PROP(similarity_float, 20000, 2000000, "scale, rotation and translation all not trivial") { similarity_case<float>(s); }
#endif
