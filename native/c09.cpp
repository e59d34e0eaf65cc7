#include "h.hpp"
#include <opengv/triangulation/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
using namespace opengv;
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(4000, 100000);
  for (int s = 0; s < n; s++) {
    M3 R = s % 9 == 0 ? M3(M3::Identity()) : s % 9 == 1 ? axisR(dir(), M_PI) : rrot(); V3 t = dir() * uni(0.3, 4);
    int N = irand(1, 6); bearingVectors_t f1, f2; std::vector<V3> X; bool noisy = s % 3 == 2;
    for (int i = 0; i < N; i++) {
      V3 x; do x = gvec() * 5; while (x.cross(x - t).norm() < 0.3 * x.norm() * (x - t).norm() || std::fabs(x.normalized()[2]) < 0.05 || std::fabs((R.transpose() * (x - t)).normalized()[2]) < 0.05);
      V3 a = x.normalized(), b = (R.transpose() * (x - t)).normalized();
      if (noisy) { a = (a + 0.05 * gvec()).normalized(); b = (b + 0.05 * gvec()).normalized(); }
      double sa = s % 5 == 4 ? uni(0.5, 3) : 1; // scaled rays denote the same line
      X.push_back(x); f1.push_back(a * sa); f2.push_back(b);
    }
    std::string c = "R=" + str(R) + " t=" + str(t); at(c);
    relative_pose::CentralRelativeAdapter ad(f1, f2, t, R);
    for (int i = 0; i < N; i++) {
      std::string ci = c + " f1=" + str(f1[i]) + " f2=" + str(f2[i]) + " index=" + std::to_string(i);
      V3 p = triangulation::triangulate(ad, i), q = triangulation::triangulate2(ad, i);
      V3 a = f1[i], g = R * f2[i];
      // midpoint by an independent least squares: minimise |l a - (t + m g)|
      Eigen::Matrix<double,3,2> M; M.col(0) = a; M.col(1) = -g; Eigen::Vector2d lm = M.colPivHouseholderQr().solve(t);
      V3 mid = 0.5 * (lm[0] * a + t + lm[1] * g); double sn = a.normalized().cross(g).norm();
      if (sn > 0.02) check((q - mid).norm() < 1e-7 * (1 + mid.norm()) / (sn * sn), "triangulate2: not the midpoint of the rays", ci);
      if (!noisy) {
        check((q - X[i]).norm() < 1e-6 * (1 + X[i].norm()), "triangulate2: exact point not returned", ci);
        check((p - X[i]).norm() < 1e-6 * (1 + X[i].norm()), "triangulate: exact point not returned", ci);
      } else {
        // minimiser of the stacked constraints, by the normal equations' eigenvector
        Eigen::Matrix<double,4,4> A; Eigen::Matrix<double,3,4> P2; P2.block<3,3>(0,0) = R.transpose(); P2.col(3) = -R.transpose() * t; Eigen::Matrix<double,3,4> P1 = Eigen::Matrix<double,3,4>::Zero(); P1.block<3,3>(0,0).setIdentity();
        A.row(0) = f1[i][0] * P1.row(2) - f1[i][2] * P1.row(0); A.row(1) = f1[i][1] * P1.row(2) - f1[i][2] * P1.row(1);
        A.row(2) = f2[i][0] * P2.row(2) - f2[i][2] * P2.row(0); A.row(3) = f2[i][1] * P2.row(2) - f2[i][2] * P2.row(1);
        Eigen::Vector4d v; v << p, 1; v.normalize(); Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(A.transpose() * A);
        check((A * v).squaredNorm() <= es.eigenvalues()[0] + 1e-9, "triangulate: not the minimiser of the stacked constraints", ci);
      }
      DIST++; if (DIST < 3) sample(ci);
    }
  }
  return finish();
}
