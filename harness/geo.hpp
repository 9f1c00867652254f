#ifndef VERIF_GEO
#define VERIF_GEO
#include "vital_common.hpp"
#include <Eigen/Dense>
#include <cmath>
#include <limits>
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
using pbt::Src;

inline V3 gen_unit(Src& s)
{
  if (s.chance(1, 4)) { int a = s.idx(3); V3 v = V3::Zero(); v[a] = s.flip() ? -1 : 1; return v; }
  V3 v; do { v = V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); if (s.replay_ && v.norm() < 1e-2) v = V3(1, 0, 0); } while (v.norm() < 1e-2);
  return v / v.norm();
}
inline double gen_angle(Src& s) // (-pi, pi], with the ends, zero and tiny angles
{
  double const pi = M_PI;
  switch (s.weighted({4, 2, 2, 1, 1, 1}))
  {
  case 0: return s.real(-pi, pi);
  case 1: { static const std::vector<double> q = {0, 0.5, 1, -0.5, -1, 1.0 / 3, 0.25, -0.75}; return pi * s.pick(q); }
  case 2: return s.real(-1, 1) * std::pow(10.0, -double(s.range(1, 12)));
  case 3: return pi - std::pow(10.0, -double(s.range(1, 12)));
  case 4: return -pi + std::pow(10.0, -double(s.range(1, 12)));
  default: return 0;
  }
}
// the rotation by `angle` about unit `axis`, from the Rodrigues formula
inline M3 ref_rot(double angle, V3 const& axis)
{
  M3 k; k << 0, -axis.z(), axis.y(), axis.z(), 0, -axis.x(), -axis.y(), axis.x(), 0;
  return M3::Identity() + std::sin(angle) * k + (2 * std::sin(angle / 2) * std::sin(angle / 2)) * (k * k);
}
inline V3 gen_vec(Src& s, double mag) { V3 v; for (int i = 0; i < 3; ++i) v[i] = s.chance(1, 5) ? double(s.range(-3, 3)) : s.nice(mag); for (int i = 0; i < 3; ++i) if (!(std::fabs(v[i]) < mag)) v[i] = std::fmod(v[i], mag); return v; }
template <class A, class B> double dist(A const& a, B const& b) { return (a - b).cwiseAbs().maxCoeff(); }
template <class T> struct Tol;
template <> struct Tol<double> { static constexpr double eps = 1e-12; static char const* name() { return "double"; } };
template <> struct Tol<float> { static constexpr double eps = 1e-5; static char const* name() { return "float"; } };
#endif
