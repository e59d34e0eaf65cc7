#include "h.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/triangulation/methods.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
using namespace opengv;
typedef sac_problems::relative_pose::CentralRelativePoseSacProblem CR; typedef transformation_t TF;
static M3 skew(const V3 &v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }

// total reprojection error of the sample (rays in general position)
static double cost(const M3 &R, const V3 &t, const bearingVectors_t &f1, const bearingVectors_t &f2, const std::vector<int> &ix) {
  double q = 0;
  for (int i : ix) {
    // midpoint of the shortest segment between the rays x f1 and t + y R f2
    Eigen::Matrix<double, 3, 2> A; A << f1[i], -R * f2[i]; Eigen::Vector2d l = A.colPivHouseholderQr().solve(t);
    V3 X = (l[0] * f1[i] + t + l[1] * (R * f2[i])) / 2, Y = R.transpose() * (X - t);
    q += 2 - f1[i].dot(X.normalized()) - f2[i].dot(Y.normalized());
  }
  return q;
}
int main(int argc, char **argv) {
  start(argc, argv);
  struct { CR::algorithm_t a; int size, use; const char *name; } ALG[] = {{CR::NISTER, 8, 5, "NISTER"}, {CR::STEWENIUS, 8, 5, "STEWENIUS"}, {CR::SEVENPT, 9, 7, "SEVENPT"}, {CR::EIGHTPT, 9, 8, "EIGHTPT"}};
  int n = n_cases(900, 20000), exact[4] = {0, 0, 0, 0}, right[4] = {0, 0, 0, 0};
  for (int s = 0; s < n; s++) {
    int N = irand(10, 16), mode = irand(0, 5); M3 R = mode == 0 ? M3(M3::Identity()) : mode == 1 ? rrot() : mode == 2 ? axisR(V3(irand(0, 1), irand(0, 1), 1), 3.14159265358979) : smallrot(0.8);
    V3 t = dir() * uni(0.3, 3); if (s % 7 == 0) { t.setZero(); t[irand(0, 2)] = irand(0, 1) ? 1 : -1; }
    bool noisy = s % 3 == 2, front = s % 2; double noise = s % 4 == 0 ? 0.2 : 0.01;
    bearingVectors_t f1, f2;
    for (int i = 0; i < N; i++) {
      V3 P, Q; do { P = dir() * uni(2, 9); if (front) P[2] = std::fabs(P[2]) + 2; Q = R.transpose() * (P - t); } while (Q.norm() < 0.3 || P.normalized().cross(t.normalized()).norm() < 0.1);
      f1.push_back(P.normalized()); f2.push_back((Q.normalized() + (noisy ? V3(gvec() * noise) : V3(0, 0, 0))).normalized()); }
    std::vector<int> all; for (int i = 0; i < N; i++) all.push_back(i); for (int i = N - 1; i > 0; i--) std::swap(all[i], all[irand(0, i)]);
    relative_pose::CentralRelativeAdapter ad(f1, f2);
    for (int a = 0; a < 4; a++) {
      std::vector<int> sm(all.begin(), all.begin() + ALG[a].size), use(sm.begin(), sm.begin() + ALG[a].use);
      std::string d = std::string(ALG[a].name) + " R=" + str(R) + " t=" + str(t) + " sample=" + strv(sm) + (noisy ? " noisy" : " exact") + " f1=" + str(f1[sm[0]]) + " f2=" + str(f2[sm[0]]); at(d);
      CR p(ad, ALG[a].a, false); check(p.getSampleSize() == ALG[a].size, std::string(ALG[a].name) + ": sample size", d);
      TF m; m.setConstant(77); ad.setR12(rrot()); ad.sett12(gvec()); bool ok = p.computeModelCoefficients(sm, m);
      std::vector<M3> Es;
      if (a == 0) for (auto &x : relative_pose::fivept_nister(ad, use)) Es.push_back(x);
      if (a == 1) for (auto &x : relative_pose::fivept_stewenius(ad, use)) Es.push_back(x.real());
      if (a == 2) for (auto &x : relative_pose::sevenpt(ad, use)) Es.push_back(x);
      if (a == 3) Es.push_back(relative_pose::eightpt(ad, use));
      bool fin = true; for (auto &E : Es) fin = fin && E.allFinite(); if (!fin) continue;
      check(ok == !Es.empty(), std::string(ALG[a].name) + ": success is not reported exactly when there is an essential matrix", d); if (!ok) continue;
      check(isrot(m.leftCols<3>(), 1e-8), std::string(ALG[a].name) + ": the rotation of the model is not proper", d);
      double best = 1e9, mine = cost(m.leftCols<3>(), m.col(3), f1, f2, sm); bool among = false, haveTrue = false;
      for (auto &E : Es) {
        Eigen::JacobiSVD<M3> sv(E, Eigen::ComputeFullU | Eigen::ComputeFullV); M3 W; W << 0, -1, 0, 1, 0, 0, 0, 0, 1;
        for (int c = 0; c < 4; c++) { M3 X = sv.matrixU() * (c & 1 ? M3(W.transpose()) : W) * sv.matrixV().transpose(); if (X.determinant() < 0) X = -X; V3 u = sv.matrixU().col(2) * sv.singularValues()[0]; if (c & 2) u = -u;
          double q = cost(X, u, f1, f2, sm); if (q < best) best = q;
          if ((X - M3(m.leftCols<3>())).norm() + (u.normalized() - m.col(3).normalized()).norm() < 1e-6) among = true;
          if ((X - R).norm() + (u.normalized() - t.normalized()).norm() < 1e-7) haveTrue = true; } }
      check(among, std::string(ALG[a].name) + ": the model is no candidate of the essential matrices", d);
      check(mine <= best + 1e-6 * (1 + best), std::string(ALG[a].name) + ": the model is not the candidate of smallest total reprojection error", d + " error=" + str(mine) + " best=" + str(best));
      if (!noisy && haveTrue) { exact[a]++; bool r = (M3(m.leftCols<3>()) - R).norm() < 1e-5 && (m.col(3).normalized() - t.normalized()).norm() < 1e-5; right[a] += r; check(r, std::string(ALG[a].name) + ": exact data do not give the true pose", d + " model=" + str(m)); }
    }
    DIST++;
  }
  for (int a = 0; a < 4; a++) check(exact[a] > n / 3, std::string(ALG[a].name) + ": the true pose is hardly ever among the candidates", std::to_string(exact[a]) + " of " + std::to_string(n));
  sample("exact and noisy samples, identity, half-turn and random rotations, axis-aligned translations, points around or in front of the cameras");
  return finish();
}
