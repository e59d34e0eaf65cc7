#include "h.hpp"
#include <opengv/math/gauss_jordan.hpp>
typedef Eigen::MatrixXd MX;
static MX eliminate(const MX &A, int ex) {
  std::vector<std::vector<double>> d(A.rows(), std::vector<double>(A.cols())); std::vector<std::vector<double> *> m;
  for (int i = 0; i < A.rows(); i++) { for (int j = 0; j < A.cols(); j++) d[i][j] = A(i, j); m.push_back(&d[i]); }
  opengv::math::gauss_jordan(m, ex);
  MX B(A.rows(), A.cols()); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) B(i, j) = (*m[i])[j];
  return B;
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(3000, 60000);
  for (int s = 0; s < n; s++) {
    int r = irand(1, s % 50 == 0 ? 40 : 9), c = r + irand(0, 6), ex = irand(0, r - 1); if (s % 3 == 0) ex = 0;
    MX A(r, c);
    // small integers, sparse patterns and leading zeros need row exchanges; the rest is dense and real
    for (int tries = 0;; tries++) {
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) A(i, j) = s % 4 == 0 ? (uni(0, 1) < 0.5 + 0.01 * tries ? irand(-3, 3) : 0) : s % 4 == 1 ? irand(-5, 5) : s % 4 == 2 ? uni(-1, 1) : uni(-1, 1) * std::pow(10., irand(-2, 2));
      if (s % 5 == 0 && r > 1) A(0, 0) = 0;
      Eigen::JacobiSVD<MX> sv(A.leftCols(r)); double cond = sv.singularValues()(0) / sv.singularValues()(r - 1);
      if (cond < 1e4) break;
      if (tries > 60) { A.leftCols(r) += 20 * MX::Identity(r, r); break; }
    }
    std::string cs = "rows=" + std::to_string(r) + " cols=" + std::to_string(c) + " exit=" + std::to_string(ex) + " A=" + str(A); at(cs); sample(cs);
    MX B = eliminate(A, ex);
    bool shape = true; double sc = 1;
    for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) {
      if (!std::isfinite(B(i, j))) { shape = false; continue; }
      double want = i == j ? 1 : 0; if (j > i && i < ex) continue; if (std::fabs(B(i, j) - want) > 1e-9) shape = false;
    }
    check(shape, "leading part not in the reduced form", cs + " result=" + str(B));
    // same solutions: every solution of A x = 0 solves B x = 0 and conversely (equal rank by the shape)
    MX T = B.leftCols(r) * A.leftCols(r).inverse(); sc = (1 + B.norm()) * (1 + T.norm()) * (1 + A.norm());
    check(B.allFinite() && (T * A - B).norm() < 1e-9 * sc, "rows are not combinations of the original rows", cs + " result=" + str(B));
    if (ex == 0) { MX X = A.leftCols(r).colPivHouseholderQr().solve(A.rightCols(c - r)); check(c == r || (B.rightCols(c - r) - X).norm() < 1e-7 * (1 + X.norm()) * (1 + A.norm()), "eliminated right part differs from the solution", cs); }
  }
  return finish();
}
