#include "h.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
using namespace opengv;
static void absolute(const M3 &R, const V3 &C, const std::vector<V3> &P, int i, int j) {
  bearingVectors_t f; points_t p; for (auto &x : P) { p.push_back(x); f.push_back(R.transpose() * (x - C).normalized()); }
  if (f[i].cross(f[j]).norm() < 0.02) return;
  std::string c = "R=" + str(R) + " C=" + str(C) + " P0=" + str(P[i]) + " P1=" + str(P[j]); at(c);
  absolute_pose::CentralAbsoluteAdapter ad(f, p, R);
  V3 t = absolute_pose::p2p(ad, i, j), t2 = absolute_pose::p2p(ad, std::vector<int>{i, j});
  check((t - C).norm() < 1e-6 * (1 + C.norm() + P[i].norm()), "p2p: camera position not recovered", c);
  check((t2 - C).norm() < 1e-6 * (1 + C.norm() + P[i].norm()), "p2p(indices): camera position not recovered", c);
  DIST++;
}
static void relative(const M3 &R, const V3 &t, const std::vector<V3> &X, int i, int j) {
  bearingVectors_t f1, f2, f3; for (auto &x : X) { f1.push_back(x.normalized()); f2.push_back((R.transpose() * (x - t)).normalized()); f3.push_back((x - t).normalized()); }
  if (f1[i].cross(f3[i]).normalized().cross(f1[j].cross(f3[j]).normalized()).norm() < 0.05 || f1[i].cross(f3[i]).norm() < 0.02 || f1[j].cross(f3[j]).norm() < 0.02) return;
  std::string c = "R=" + str(R) + " t=" + str(t) + " X0=" + str(X[i]) + " X1=" + str(X[j]); at(c);
  relative_pose::CentralRelativeAdapter ad(f1, f2, R), pre(f1, f3);
  V3 d = t.normalized();
  V3 a = relative_pose::twopt(ad, true, i, j), b = relative_pose::twopt(ad, true, std::vector<int>{i, j}), e = relative_pose::twopt(pre, false, i, j);
  check(std::fabs(a.norm() - 1) < 1e-9, "twopt: translation not of unit length", c);
  check((a - d).norm() < 1e-6, "twopt: true direction not recovered", c);
  check((b - d).norm() < 1e-6, "twopt(indices): true direction not recovered", c);
  check((e - d).norm() < 1e-6, "twopt: pre-rotated input gives a different result", c);
  // without un-rotation the adapter's rotation must not matter
  relative_pose::CentralRelativeAdapter pre2(f1, f3, R); V3 g = relative_pose::twopt(pre2, false, i, j);
  check((g - d).norm() < 1e-6, "twopt: unrotate=false still uses the rotation", c);
  DIST++;
}
int main(int argc, char **argv) {
  start(argc, argv);
  std::vector<V3> dirs; for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) dirs.push_back(V3(x, y, z));
  for (auto &d : dirs) for (int k = 0; k < 6; k++) {
    M3 R = k ? rrot() : M3(M3::Identity()); V3 P0 = V3(irand(-4, 4), irand(-4, 4), irand(-4, 4)), C = gvec() * 2;
    absolute(R, C, {P0, P0 + 2.0 * d}, 0, 1);
    relative(R, d * 1.0, {gvec() * 4, gvec() * 4}, 0, 1);
  }
  int n = n_cases(6000, 150000);
  for (int s = 0; s < n; s++) {
    M3 R = s % 8 == 0 ? M3(M3::Identity()) : s % 8 == 1 ? axisR(dir(), M_PI) : rrot(); int N = irand(2, 5); int i = irand(0, N - 1), j = irand(0, N - 1); if (i == j) continue;
    std::vector<V3> P; for (int k = 0; k < N; k++) P.push_back(gvec() * 4);
    absolute(R, gvec() * 2, P, i, j); relative(R, dir() * uni(0.2, 3), P, i, j);
  }
  sample("camera/point pairs on the direction grid {-1,0,1}^3 and random configurations");
  return finish();
}
