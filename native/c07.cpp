#include "h.hpp"
#include <opengv/math/cayley.hpp>
#include <opengv/math/quaternion.hpp>
using namespace opengv; using namespace opengv::math;
static void quat(const Eigen::Vector4d &q0) {
  M3 R = quatR(q0); std::string c = "R=" + str(R); at(c);
  quaternion_t q = rot2quaternion(R);
  check(std::fabs(q.norm() - 1) < 1e-9, "rot2quaternion not unit", c);
  M3 B = quaternion2rot(q);
  check((B - R).norm() < 1e-7, "quaternion2rot(rot2quaternion(R)) != R", c);
  quaternion_t qq; qq << q0; M3 C = quaternion2rot(qq);
  check(isrot(C, 1e-9), "quaternion2rot(q) not a rotation", "q=" + str(q0));
  quaternion_t q3 = rot2quaternion(C);
  check(std::min((q3 - q0).norm(), (q3 + q0).norm()) < 1e-6, "rot2quaternion(quaternion2rot(q)) != +-q", "q=" + str(q0));
  if (std::fabs(q0[0]) > 1e-3) {
    cayley_t y = rot2cayley(R); M3 D = cayley2rot(y);
    check((D - R).norm() < 1e-7 / std::pow(q0[0], 2), "cayley2rot(rot2cayley(R)) != R", c);
  }
  DIST++;
}
static void cay(const V3 &v) {
  std::string c = "c=" + str(v); at(c);
  M3 R = cayley2rot(v), S = cayley2rot_reduced(v);
  check(isrot(R, 1e-9), "cayley2rot not a rotation", c);
  check((S - (1 + v.squaredNorm()) * R).norm() < 1e-9 * (1 + v.squaredNorm()), "cayley2rot_reduced != (1+c.c) cayley2rot", c);
  check((rot2cayley(R) - v).norm() < 1e-8 * std::pow(1 + v.squaredNorm(), 2), "rot2cayley(cayley2rot(c)) != c", c);
  DIST++;
}
int main(int argc, char **argv) {
  start(argc, argv);
  double vals[5] = {0, 1, -1, 0.5, -0.3};
  for (double a : vals) for (double b : vals) for (double c : vals) {
    cay(V3(a, b, c) * 1.0);
    for (double d : vals) { Eigen::Vector4d q(a, b, c, d); if (q.norm() > 0.1) quat(q.normalized()); }
  }
  int n = n_cases(20000, 400000);
  for (int i = 0; i < n; i++) { quat(rquat()); cay(gvec() * std::pow(10, uni(-3, 1))); }
  sample("quaternion grid over {0,+-1,.5,-.3}^4 and random unit quaternions"); sample("cayley vectors up to norm 30");
  return finish();
}
