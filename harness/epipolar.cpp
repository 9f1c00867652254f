// C14: homographies, essential and fundamental matrices
#include "geo.hpp"
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>
#include <vital/exceptions.h>
#include <memory>
using namespace kwiver::vital;
PBT_INIT() { quiet_all(); }
namespace {
typedef Eigen::Vector2d V2;
M3 gen_m(Src& s) // well conditioned for the points used
{
  M3 m = M3::Identity() * s.real(0.5, 2);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) m(i, j) = s.real(-1, 1) * (i == 2 ? 0.01 : 0.2);
  m(0, 2) = s.real(-20, 20); m(1, 2) = s.real(-20, 20);
  return m * (s.chance(1, 3) ? -1 : 1) * std::pow(10.0, s.real(-1, 1));
}
template <class T> M3 rd(M3 const& m) { return m.cast<T>().template cast<double>(); }
double cosdist(M3 const& a, M3 const& b) { double x = dist(M3(a / a.norm()), M3(b / b.norm())), y = dist(M3(a / a.norm()), M3(-b / b.norm())); return std::min(x, y); }
template <class H> bool infinite(H const& h, V2 const& p) { try { h.map(p); return false; } catch (point_maps_to_infinity const&) { return true; } }

template <class T> void homography_case(Src& s)
{
  double const e = Tol<T>::eps; s.label(Tol<T>::name());
  M3 a = rd<T>(gen_m(s)), b = rd<T>(gen_m(s)); V2 p(s.real(-10, 10), s.real(-10, 10)); p = p.cast<T>().template cast<double>();
  typedef Eigen::Matrix<T, 3, 3> MT;
  homography_<T> ha(MT(a.cast<T>())), hb(MT(b.cast<T>()));
  s.note() << Tol<T>::name() << " a\n" << a << "\nb\n" << b << "\npoint " << p.transpose() << "\n"; s.nontrivial();
  REQUIRE(M3(homography_<T>().matrix()) == M3(M3::Identity()), "default is the identity");
  REQUIRE(M3(ha.matrix()) == a, "matrix");
  auto ap = [](M3 const& m, V2 const& q) { V3 h = m * V3(q.x(), q.y(), 1); return V2(h.x() / h.z(), h.y() / h.z()); };
  V2 q = ap(a, p); double m = 1 + q.norm();
  REQUIRE(dist(V2(ha.map(p)), q) < 100 * e * 100, "mapped point");
  REQUIRE(dist(V2(ha.map_point(Eigen::Matrix<T, 2, 1>(p.cast<T>())).template cast<double>()), q) < 1e4 * e, "mapped point of the own type");
  homography_sptr cl = ha.clone(), nm = ha.normalize(), in = ha.inverse();
  REQUIRE(M3(cl->matrix()) == a && V2(cl->map(p)) == V2(ha.map(p)), "clone");
  REQUIRE(std::fabs(nm->matrix()(2, 2) - 1) < 1e-6 && cosdist(nm->matrix(), a) < 10 * e, "normalized matrix");
  REQUIRE(dist(V2(nm->map(p)), q) < 1e4 * e, "normalized homography maps the same");
  REQUIRE(cosdist(in->matrix(), a.inverse()) < 1e4 * e, "inverse matrix");
  REQUIRE(dist(V2(in->map(ha.map(p))), p) < 1e6 * e * m, "inverse maps back");
  homography_<T> ab = ha * hb; REQUIRE(cosdist(ab.matrix(), a * b) < 100 * e && dist(M3(ab.matrix()), M3(a * b)) < 100 * e * (a * b).norm(), "composition");
  V2 qb = ap(b, p); if (std::fabs((a * V3(qb.x(), qb.y(), 1)).z()) > 0.05 * a(2, 2)) REQUIRE(dist(V2(ab.map(p)), ap(a, qb)) < 1e6 * e, "composition maps like one after the other");
  { homography const& base = ha; homography_<double> d(base); homography_<float> f(base); homography_<T> c(ha); REQUIRE(M3(d.matrix()) == a && dist(M3(f.matrix()), a) < 1e-6 * a.norm() && M3(c.matrix()) == a, "copies"); }
  ha.get_matrix()(0, 0) += 1; REQUIRE(M3(cl->matrix()) == a, "clone after the original was changed"); ha.get_matrix()(0, 0) = T(a(0, 0));
  { std::ostringstream o1, o2; o1 << ha; o2 << static_cast<homography const&>(ha); std::istringstream i1(o1.str()), i2(o2.str()); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x, y; i1 >> x; i2 >> y; REQUIRE(i1 && i2 && std::fabs(x - a(i, j)) < 1e-5 * (1 + std::fabs(a(i, j))) && std::fabs(y - a(i, j)) < 1e-5 * (1 + std::fabs(a(i, j))), "printed"); } }
  // points on the line at infinity, matrices without inverse
  MT z = MT::Identity(); z(2, 0) = 1; z(2, 2) = -T(int(p.x())); homography_<T> hz(z);
  REQUIRE(infinite(hz, V2(double(int(p.x())), p.y())), "a point mapping to infinity must be reported"); REQUIRE(!infinite(hz, V2(double(int(p.x())) + 1, p.y())), "a finite point");
  MT sg = MT(a.cast<T>()); sg.row(2) = sg.row(s.idx(2)) * T(s.range(0, 2)); bool thrown = false;
  sg = MT::Zero(); sg(0, 0) = T(s.range(0, 3)); sg(0, 1) = T(s.range(0, 3)); sg(1, 0) = 2 * sg(0, 0); sg(1, 1) = 2 * sg(0, 1); sg(2, 2) = 1;
  try { homography_<T>(sg).inverse(); } catch (non_invertible_matrix const&) { thrown = true; }
  REQUIRE(thrown, "a singular matrix has no inverse");
  // neither depends on the scale
  T c = T(std::pow(10.0, s.real(-6, 4))); thrown = false; s.note() << "scale " << double(c) << "\n";
  try { homography_<T>(MT(sg * c)).inverse(); } catch (non_invertible_matrix const&) { thrown = true; }
  REQUIRE(thrown, "a scaled singular matrix has no inverse");
  REQUIRE(cosdist(homography_<T>(MT(a.cast<T>() * c)).inverse()->matrix(), a.inverse()) < 1e4 * e, "inverse of a scaled matrix");
  // between frames
  frame_id_t f1 = s.range(0, 3), f2 = s.range(0, 3), g1 = s.range(0, 3), g2 = s.range(0, 3);
  homography_sptr sa(new homography_<T>(ha)), sb(new homography_<T>(hb));
  f2f_homography A(sa, f1, f2), B(sb, g1, g2), Bc(B); f2f_homography I(f1);
  REQUIRE(I.from_id() == f1 && I.to_id() == f1 && M3(I.homography()->matrix()) == M3(M3::Identity()), "identity of a frame");
  REQUIRE(Bc.from_id() == g1 && Bc.to_id() == g2 && M3(Bc.homography()->matrix()) == b, "copy");
  f2f_homography Ai = A.inverse(); REQUIRE(Ai.from_id() == f2 && Ai.to_id() == f1 && cosdist(Ai.homography()->matrix(), a.inverse()) < 1e4 * e, "inverse between frames");
  bool bad = false;
  try { f2f_homography C = A * B; REQUIRE(C.from_id() == g1 && C.to_id() == f2, "frames of a composition"); REQUIRE(cosdist(C.homography()->matrix(), a * b) < 1e-5, "composition between frames"); } catch (invalid_matrix_operation const&) { bad = true; }
  REQUIRE_EQ(bad, f1 != g2, "composition " << g1 << "->" << g2 << " then " << f1 << "->" << f2 << " refused");
  dynamic_cast<homography_<T>&>(*sa).get_matrix()(0, 0) += 1; REQUIRE(M3(A.homography()->matrix()) == a, "frame homography owns its matrix");
  { std::ostringstream o; o << B << " end"; std::istringstream i(o.str()); long fi, fj; std::string arrow, end; i >> fi >> arrow >> fj; REQUIRE(i && fi == long(g1) && fj == long(g2) && arrow == "->", "printed frames of " << o.str()); for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) { double x; i >> x; REQUIRE(i && std::fabs(x - b(k, l)) < 1e-5 * (1 + std::fabs(b(k, l))), "printed matrix " << o.str()); } i >> end; REQUIRE(end == "end", "printed"); }
  f2w_homography W(sb, f1), Wc(W), W0(f2); REQUIRE(Wc.frame_id() == f1 && M3(Wc.homography()->matrix()) == b && W0.frame_id() == f2 && M3(W0.homography()->matrix()) == M3(M3::Identity()), "frame to world");
}

template <class T> void essential_case(Src& s)
{
  double const e = Tol<T>::eps; s.label(Tol<T>::name());
  typedef Eigen::Matrix<T, 3, 3> MT; typedef Eigen::Matrix<T, 3, 1> VT;
  double an = gen_angle(s); V3 ax = gen_unit(s); M3 r = ref_rot(an, ax); V3 t = gen_unit(s); double len = std::pow(10.0, s.real(-2, 2));
  s.note() << Tol<T>::name() << " angle " << an << " about " << ax.transpose() << " translation " << (t * len).transpose() << "\n"; if (std::fabs(an) > 1e-6) s.nontrivial();
  M3 tx; tx << 0, -t.z(), t.y(), t.z(), 0, -t.x(), -t.y(), t.x(), 0; M3 E = tx * r;
  rotation_<T> ro((T(an)), VT(ax.cast<T>()));
  essential_matrix_<T> em(ro, VT((t * len).cast<T>()));
  auto R = [](rotation_d const& q) { return M3(matrix_3x3d(q)); };
  REQUIRE(dist(M3(em.matrix()), E) < 20 * e, "matrix from rotation and translation");
  REQUIRE(dist(R(em.rotation()), r) < 20 * e && dist(V3(em.translation()), t) < 20 * e, "rotation and unit translation");
  M3 tw = (2 * t * t.transpose() - M3::Identity()) * r; // half a turn about the translation
  REQUIRE(dist(R(em.twisted_rotation()), tw) < 40 * e, "twisted rotation");
  REQUIRE(dist(R(static_cast<essential_matrix const&>(em).twisted_rotation()), R(rotation_d(em.compute_twisted_rotation()))) < 20 * e, "twisted rotation through both interfaces");
  double sc = std::pow(10.0, s.real(-3, 3)) * (s.flip() ? -1 : 1);
  essential_matrix_<T> dm(MT((E * sc).cast<T>()));
  M3 d = dm.matrix();
  REQUIRE(std::fabs(d.norm() - std::sqrt(2.0)) < 100 * e, "scale of a decomposed matrix");
  REQUIRE(cosdist(d, E) < 200 * e, "decomposition does not give the matrix back");
  REQUIRE(std::fabs(dm.translation().norm() - 1) < 100 * e && std::min(dist(V3(dm.translation()), t), dist(V3(-dm.translation()), t)) < 200 * e, "translation of a decomposed matrix");
  REQUIRE(std::min(dist(R(dm.rotation()), r), dist(R(dm.twisted_rotation()), r)) < 300 * e, "rotation of a decomposed matrix is one of the two solutions");
  REQUIRE(std::min(dist(R(dm.rotation()), tw), dist(R(dm.twisted_rotation()), tw)) < 300 * e, "twisted rotation of a decomposed matrix is one of the two solutions");
  REQUIRE(R(dm.rotation()).determinant() > 0.9, "proper rotation");
  essential_matrix_sptr cl = em.clone(); essential_matrix const& base = em; essential_matrix_<double> cd(base); essential_matrix_<float> cf(base); essential_matrix_<T> cc(em);
  REQUIRE(M3(cl->matrix()) == M3(em.matrix()) && dist(M3(cd.matrix()), E) < 20 * e && dist(M3(cf.matrix()), E) < 2e-4 && M3(cc.matrix()) == M3(em.matrix()), "copies");
  { std::ostringstream o1, o2; o1.precision(9); o2.precision(9); o1 << em << " end"; o2 << base; std::istringstream i1(o1.str()), i2(o2.str()); std::string end; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double x, y; i1 >> x; i2 >> y; REQUIRE(i1 && i2 && std::fabs(x - em.matrix()(a, b)) < 1e-6 && std::fabs(y - em.matrix()(a, b)) < 1e-6, "printed"); } i1 >> end; REQUIRE(end == "end", "printed"); }
  // fundamental matrices have rank two and unit norm
  M3 f; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f(i, j) = s.real(-1, 1);
  Eigen::JacobiSVD<M3> sv(f, Eigen::ComputeFullU | Eigen::ComputeFullV); V3 sg = sv.singularValues();
  if (sg[1] - sg[2] > 0.05)
  {
    M3 w = sv.matrixU() * V3(sg[0], sg[1], 0).asDiagonal() * sv.matrixV().transpose(); w /= w.norm();
    fundamental_matrix_<T> fm(MT((f * std::fabs(sc)).cast<T>()));
    M3 g = fm.matrix();
    REQUIRE(dist(g, w) < 500 * e, "nearest matrix of rank two with unit norm\n" << g << "\nexpected\n" << w);
    fundamental_matrix_sptr fc = fm.clone(); fundamental_matrix const& fb = fm; fundamental_matrix_<double> fd(fb); fundamental_matrix_<float> ff(fb);
    REQUIRE(M3(fc->matrix()) == g && M3(fd.matrix()) == g && dist(M3(ff.matrix()), g) < 1e-6, "copies of a fundamental matrix");
    std::ostringstream o; o.precision(9); o << fb; std::istringstream i(o.str()); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double x; i >> x; REQUIRE(i && std::fabs(x - g(a, b)) < 1e-8, "printed"); }
  }
}
}
PBT_PROP(homography_double, 30000, 3000000, "every case") { homography_case<double>(s); }
PBT_PROP(homography_float, 15000, 1500000, "every case") { homography_case<float>(s); }
PBT_PROP(essential_double, 30000, 3000000, "rotation by more than 1e-6 rad") { essential_case<double>(s); }
PBT_PROP(essential_float, 15000, 1500000, "rotation by more than 1e-6 rad") { essential_case<float>(s); }
