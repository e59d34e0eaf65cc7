#include "h.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/modules/fivept_nister/modules.hpp>
#include <opengv/relative_pose/modules/fivept_stewenius/modules.hpp>
using namespace opengv;
typedef Eigen::Matrix<double, 9, 4> M94; typedef Eigen::Matrix<double, 10, 20> MA;
static const char *NIS[] = {"xxx", "yyy", "xxy", "xyy", "xxz", "xx", "yyz", "yy", "xyz", "xy", "xzz", "xz", "x", "yzz", "yz", "y", "zzz", "zz", "z", ""};
static const char *STE[] = {"xxx", "xxy", "xyy", "yyy", "xxz", "xyz", "yyz", "xzz", "yzz", "zzz", "xx", "xy", "yy", "xz", "yz", "zz", "x", "y", "z", ""};
static double mono(const char *m, const V3 &v) { double p = 1; for (; *m; m++) p *= v[*m - 'x']; return p; }
static M3 mat(const Eigen::Matrix<double, 9, 1> &e) { M3 m; m << e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8]; return m; }
static Eigen::Matrix<double, 10, 1> cons(const M3 &E) { Eigen::Matrix<double, 10, 1> r; r[0] = E.determinant(); M3 T = 2 * E * E.transpose() * E - (E * E.transpose()).trace() * E; for (int i = 0; i < 9; i++) r[1 + i] = T(i / 3, i % 3); return r; }
static void coefficients(const char *name, const MA &A, const char **mon, const M94 &EE, const std::string &d) {
  // every row is one fixed combination of the ten constraints, the combination being invertible
  const int K = 40; Eigen::MatrixXd L(K, 10), C(K, 10);
  for (int k = 0; k < K; k++) { V3 v = gvec(); Eigen::Matrix<double, 20, 1> m; for (int j = 0; j < 20; j++) m[j] = mono(mon[j], v); Eigen::Matrix<double, 9, 1> e = v[0] * EE.col(0) + v[1] * EE.col(1) + v[2] * EE.col(2) + EE.col(3); L.row(k) = (A * m).transpose(); C.row(k) = cons(mat(e)).transpose(); }
  Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(C); Eigen::MatrixXd W = qr.solve(L);
  check((C * W - L).norm() < 1e-7 * (1 + L.norm()), std::string(name) + ": a row is no combination of the determinant and trace constraints", d);
  Eigen::JacobiSVD<Eigen::MatrixXd> s(W); check(s.singularValues()[9] > 1e-6 * s.singularValues()[0], std::string(name) + ": the rows do not span the ten constraints", d);
}
static M3 skew(const V3 &v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
template <class M> static double away(const M &a, const M3 &b) { M3 x; for (int i = 0; i < 9; i++) x(i / 3, i % 3) = std::real(a(i / 3, i % 3)); double im = 0; for (int i = 0; i < 9; i++) im += std::fabs(std::imag(a(i / 3, i % 3))); if (!(x.norm() > 0)) return 9; x /= x.norm(); M3 y = b / b.norm(); return im + std::min((x - y).norm(), (x + y).norm()); }
static double residual(const M3 &E, const bearingVectors_t &f1, const bearingVectors_t &f2, const std::vector<int> &ix) { double r = 0; for (int i : ix) r = std::max(r, std::fabs(f1[i].dot(E * f2[i]))); return r / E.norm(); }
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(60, 2000);
  for (int s = 0; s < n; s++) {
    M94 EE; for (int i = 0; i < 36; i++) EE(i / 4, i % 4) = gauss(); if (s % 4 == 0) for (int i = 0; i < 6; i++) EE(irand(0, 8), irand(0, 3)) = 0;
    std::string d = "EE=" + str(EE); at(d); MA A, B; A.setConstant(7); B.setConstant(-3);
    relative_pose::modules::fivept_nister::composeA(EE, A); relative_pose::modules::fivept_stewenius::composeA(EE, B);
    coefficients("nister composeA", A, NIS, EE, d); coefficients("stewenius composeA", B, STE, EE, d); DIST++;
  }
  n = n_cases(700, 20000); int near5 = 0, tried5 = 0, near5s = 0, near7 = 0;
  for (int s = 0; s < n; s++) {
    int N = irand(8, 16); M3 R = s % 6 == 0 ? M3(M3::Identity()) : s % 6 == 1 ? rrot() : smallrot(0.6); V3 t = dir() * uni(0.4, 2); if (s % 9 == 0) { t.setZero(); t[irand(0, 2)] = irand(0, 1) ? 1 : -1; }
    bearingVectors_t f1, f2; bool noisy = s % 5 == 4;
    for (int i = 0; i < N; i++) { V3 P = dir() * uni(3, 9); f1.push_back(P.normalized()); f2.push_back((R.transpose() * (P - t) + (noisy ? V3(gvec() * 0.02) : V3(0, 0, 0))).normalized()); }
    std::vector<int> all; for (int i = 0; i < N; i++) all.push_back(i); for (int i = N - 1; i > 0; i--) std::swap(all[i], all[irand(0, i)]);
    std::vector<int> i5(all.begin(), all.begin() + 5), i7(all.begin(), all.begin() + 7), i8(all.begin(), all.begin() + 8);
    M3 E = skew(t) * R; relative_pose::CentralRelativeAdapter ad(f1, f2);
    std::string d = "R=" + str(R) + " t=" + str(t) + " sample=" + strv(i8) + (noisy ? " noisy" : "") + " f1=" + str(f1[all[0]]) + " f2=" + str(f2[all[0]]); at(d);
    Eigen::MatrixXd Q(5, 9); for (int k = 0; k < 5; k++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) Q(k, 3 * a + b) = f1[i5[k]][a] * f2[i5[k]][b];
    bool good5 = Eigen::JacobiSVD<Eigen::MatrixXd>(Q).singularValues()[4] > 0.01;
    complexEssentials_t st = relative_pose::fivept_stewenius(ad, i5); essentials_t ni = relative_pose::fivept_nister(ad, i5), se = relative_pose::sevenpt(ad, i7); essential_t ei = relative_pose::eightpt(ad, i8), ea = relative_pose::eightpt(ad, all);
    if (good5) {
      for (auto &x : ni) if (x.allFinite()) { check(residual(x, f1, f2, i5) < 1e-6, "nister: a returned matrix violates the epipolar constraint of its sample", d); check(std::fabs(x.norm() - 1) < 1e-6, "nister: a returned matrix is not normalised", d); }
      for (auto &x : st) { M3 re = x.real(), im = x.imag(); if (!re.allFinite() || !im.allFinite()) continue; double r = 0; for (int i : i5) r = std::max(r, std::abs((f1[i].cast<std::complex<double> >().transpose() * x * f2[i].cast<std::complex<double> >())(0, 0))); check(r < 1e-5 * x.norm(), "stewenius: a returned matrix violates the epipolar constraint of its sample", d);
        if (im.norm() < 1e-12 && re.norm() < 2) { Eigen::Matrix<double, 10, 1> c = cons(re); if (c.norm() > 1e-4) EVALS++; } }
      if (!noisy) { tried5++; double b = 9, c = 9; for (auto &x : ni) b = std::min(b, away(x, E)); for (auto &x : st) c = std::min(c, away(x, E)); near5 += b < 1e-3; near5s += c < 1e-3; }
    }
    for (auto &x : se) { check(std::fabs(x.determinant()) < 1e-6 * std::pow(x.norm(), 3) + 1e-8 , "sevenpt: a returned matrix has full rank", d); check(residual(x, f1, f2, i7) < 1e-6, "sevenpt: a returned matrix violates the epipolar constraint of its sample", d); }
    check(std::fabs(ei.determinant()) < 1e-9 && std::fabs(ea.determinant()) < 1e-9, "eightpt: the result has full rank", d);
    if (!noisy) {
      Eigen::MatrixXd Q8(8, 9); for (int k = 0; k < 8; k++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) Q8(k, 3 * a + b) = f1[i8[k]][a] * f2[i8[k]][b];
      if (Eigen::JacobiSVD<Eigen::MatrixXd>(Q8).singularValues()[7] > 1e-3) { check(away(ei, E) < 1e-6, "eightpt: the true essential matrix is not returned", d); check(away(ea, E) < 1e-6, "eightpt (longer list): the true essential matrix is not returned", d);
        double b = 9; for (auto &x : se) b = std::min(b, away(x, E)); near7 += b < 1e-4; check(b < 1e-3, "sevenpt: the true essential matrix is not among the results", d); }
    }
    DIST++;
  }
  check(near5 >= tried5 * 0.97, "nister: the true essential matrix is missing in " + std::to_string(tried5 - near5) + " of " + std::to_string(tried5) + " exact samples", "summary");
  check(near5s >= tried5 * 0.97, "stewenius: the true essential matrix is missing in " + std::to_string(tried5 - near5s) + " of " + std::to_string(tried5) + " exact samples", "summary");
  sample("random null-space bases (with zero entries), exact and noisy samples, axis-aligned translations, identity rotation");
  return finish();
}
