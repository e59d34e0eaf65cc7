#include "h.hpp"
#include <opengv/math/cayley.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/modules/eigensolver/modules.hpp>
#include <opengv/relative_pose/modules/ge/modules.hpp>
using namespace opengv; using namespace opengv::relative_pose;
typedef Eigen::Matrix<double, 3, 9> M39; typedef Eigen::Matrix<double, 9, 9> M99; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix<double, 9, 1> V9;
struct Corr { V3 f1, f2, t1, t2; double w; };
struct Sums { M3 F[6]; M39 P[6]; M99 m11, m12, m22;
  Sums(const std::vector<Corr> &cs) {
    for (int i = 0; i < 6; i++) { F[i].setZero(); P[i].setZero(); } m11.setZero(); m12.setZero(); m22.setZero();
    int ab[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}};
    for (auto &c : cs) {
      M3 ff = c.w * c.f2 * c.f2.transpose(); for (int i = 0; i < 6; i++) F[i] += c.f1[ab[i][0]] * c.f1[ab[i][1]] * ff;
      V3 a = c.f2.cross(c.t2), b = c.f1.cross(c.t1); V9 u, v; for (int i = 0; i < 3; i++) { u.segment<3>(3 * i) = a[i] * c.f1; v.segment<3>(3 * i) = b[i] * c.f2; }
      for (int i = 0; i < 3; i++) { P[i] += c.w * c.f1[i] * c.f2 * u.transpose(); P[3 + i] += c.w * c.f1[i] * c.f2 * v.transpose(); }
      m11 -= c.w * u * u.transpose(); m12 -= c.w * v * u.transpose(); m22 -= c.w * v * v.transpose();
    }
  } };
static M3 skew(const V3 &v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static M3 scaled(const V3 &c) { return (1 - c.dot(c)) * M3::Identity() + 2 * skew(c) + 2 * c * c.transpose(); }
static M4 direct(const std::vector<Corr> &cs, const V3 &c) {
  M4 G = M4::Zero(); M3 R = scaled(c);
  for (auto &k : cs) { V3 n = k.f1.cross(R * k.f2); Eigen::Vector4d g; g << n, k.f1.dot((skew(k.t1) * R - R * skew(k.t2)) * k.f2); G += k.w * g * g.transpose(); }
  return G;
}
struct Weighted : NoncentralRelativeAdapter { const std::vector<double> &w;
  Weighted(const bearingVectors_t &a, const bearingVectors_t &b, const std::vector<int> &c, const std::vector<int> &d, const translations_t &o, const rotations_t &r, const std::vector<double> &w_) : NoncentralRelativeAdapter(a, b, c, d, o, r), w(w_) {}
  virtual double getWeight(size_t i) const { return w[i]; } };
#define FS S.F[0], S.F[1], S.F[2], S.F[3], S.F[4], S.F[5]
#define GS FS, S.P[0], S.P[1], S.P[2], S.P[3], S.P[4], S.P[5], S.m11, S.m12, S.m22
template <class M> static bool near(const M &a, const M &b, double tol) { return (a - b).norm() <= tol * (1 + a.norm() + b.norm()); }
static std::string desc(const std::vector<Corr> &cs, const V3 &c) { std::ostringstream o; o << "cayley=" << str(c); for (size_t i = 0; i < cs.size() && i < 8; i++) o << " {f1=" << str(cs[i].f1) << " f2=" << str(cs[i].f2) << " t1=" << str(cs[i].t1) << " t2=" << str(cs[i].t2) << " w=" << str(cs[i].w) << "}"; return o.str(); }
static void matrices(const std::vector<Corr> &cs, const V3 &c) {
  Sums S(cs); std::string d = desc(cs, c); at(d); M4 G = direct(cs, c); M3 M0 = G.block<3, 3>(0, 0);
  namespace E = modules::eigensolver; namespace Q = modules::ge;
  M3 J[3], N[3]; M4 K[3];
  check(near(E::composeM(FS, c), M0, 1e-9), "composeM differs from the sum of the outer products of the plane normals", d);
  check(near(E::composeMwithJacobians(FS, c, J[0], J[1], J[2]), M0, 1e-9), "composeMwithJacobians differs from the sum of the outer products of the plane normals", d);
  check(near(Q::composeG(GS, c), G, 1e-9), "composeG differs from the sum of the outer products of the constraint vectors", d);
  check(near(Q::composeGwithJacobians(GS, c, K[0], K[1], K[2]), G, 1e-9), "composeGwithJacobians differs from the sum of the outer products of the constraint vectors", d);
  double h = 1e-3;
  for (int i = 0; i < 3; i++) {   // the entries are polynomials of degree four: the five-point rule is exact
    V3 e = V3::Zero(); e[i] = h; M4 D = (8 * (direct(cs, c + e) - direct(cs, c - e)) - (direct(cs, c + 2 * e) - direct(cs, c - 2 * e))) / (12 * h);
    check(near(K[i], D, 1e-7), "derivative of the generalised cost matrix is wrong", d);
    check(near(J[i], M3(D.block<3, 3>(0, 0)), 1e-7), "derivative of the cost matrix is wrong", d);
  }
  M3 Mo; Eigen::Matrix<double, 1, 3> g; double ev = E::getSmallestEV(FS, c, Mo), ev2 = E::getSmallestEVwithJacobian(FS, c, g);
  Eigen::SelfAdjointEigenSolver<M3> es(M0); V3 l = es.eigenvalues(); double sc = M0.norm();
  if (l[1] - l[0] > 0.02 * sc) {
    check(near(Mo, M0, 1e-9), "getSmallestEV hands out another matrix", d);
    check(std::fabs(ev - l[0]) < 1e-6 * sc && std::fabs(ev2 - l[0]) < 1e-6 * sc, "getSmallestEV is not the smallest eigenvalue", d);
    V3 v = es.eigenvectors().col(0);
    for (int i = 0; i < 3; i++) check(std::fabs(g[i] - v.dot(J[i] * v)) < 1e-4 * (sc + J[i].norm()), "derivative of the smallest eigenvalue is wrong", d);
  }
  Eigen::SelfAdjointEigenSolver<M4> e4(G); Eigen::Vector4d l4 = e4.eigenvalues(), roots; double s4 = G.norm();
  if (l4[1] - l4[0] > 0.02 * s4 && l4[2] - l4[1] > 0.02 * s4 && l4[3] - l4[2] > 0.02 * s4) {
    Q::getEV(GS, c, roots);
    check(std::fabs(roots[3] - l4[0]) < 1e-4 * s4 && std::fabs(roots[2] - l4[1]) < 1e-4 * s4, "getEV does not return the two smallest eigenvalues", d);
    for (int step = 0; step < 2; step++) {
      double v0 = Q::getCost(GS, c, step); Eigen::Matrix<double, 1, 3> q, q2; Q::getQuickJacobian(GS, c, v0, q, step); double vj = Q::getCostWithJacobian(GS, c, q2, step);
      check(std::fabs(v0 - vj) <= 1e-9 * (1 + std::fabs(v0)), "getCostWithJacobian returns another cost", d);
      double want = step ? roots[3] : roots[2];
      check(std::fabs(v0 - want) <= 1e-6 * s4, "getCost is not the eigenvalue of its step", d);
    }
  }
  DIST++;
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(1500, 40000);
  for (int s = 0; s < n; s++) {
    std::vector<Corr> cs; int N = irand(1, 12); for (int i = 0; i < N; i++) { Corr c; c.f1 = dir(); c.f2 = dir(); c.t1 = gvec(); c.t2 = gvec(); c.w = s % 3 ? 1.0 : uni(0.2, 3); if (s % 7 == 0) { c.t1[irand(0, 2)] = 0; c.f2[irand(0, 2)] = 0; } cs.push_back(c); }
    V3 c = gvec() * (s % 5 == 0 ? 3.0 : 0.7); if (s % 11 == 0) c[irand(0, 2)] = 0; if (s % 13 == 0) c.setZero();
    matrices(cs, c);
  }
  n = n_cases(120, 3000);
  for (int s = 0; s < n; s++) {   // the solvers: eigenvalues handed out belong to the direct matrix at the rotation handed out
    bool gen = s % 2, wts = (s / 2) % 2; int N = irand(14, 20), cams = gen ? irand(2, 4) : 1;
    translations_t off; rotations_t rots; if (gen) rig(off, rots, cams); M3 R = smallrot(0.4); V3 t = dir() * uni(0.3, 1.5);
    bearingVectors_t f1, f2; std::vector<int> c1, c2; std::vector<double> w;
    for (int i = 0; i < N; i++) {
      int a = irand(0, cams - 1), b = irand(0, cams - 1); c1.push_back(a); c2.push_back(b); w.push_back(uni(0.3, 3)); V3 P = V3(gauss() * 3, gauss() * 3, uni(3, 9)) * (irand(0, 1) ? 1.0 : -1.0);
      V3 p2 = R.transpose() * (P - t); f1.push_back((gen ? V3(rots[a].transpose() * (P - off[a])) : P).normalized()); f2.push_back(((gen ? V3(rots[b].transpose() * (p2 - off[b])) : p2) + gvec() * 0.01).normalized());
    }
    std::vector<int> ix; if (s % 3) { for (int i = 0; i < N; i++) if (irand(0, 4)) ix.push_back(i); std::reverse(ix.begin(), ix.end()); } else for (int i = 0; i < N; i++) ix.push_back(i);
    if (ix.size() < 10) continue;
    std::ostringstream o; o << (gen ? "ge" : "eigensolver") << " weights=" << wts << " R=" << str(R) << " t=" << str(t) << " indices=" << strv(ix) << " f1[0]=" << str(f1[0]); std::string d = o.str(); at(d);
    double nr = 0; for (int i : ix) nr += w[i] * w[i]; nr = std::sqrt(nr); std::vector<Corr> cs;
    for (int i : ix) { Corr c; c.f1 = gen ? V3(rots[c1[i]] * f1[i]) : f1[i]; c.f2 = gen ? V3(rots[c2[i]] * f2[i]) : f2[i]; c.t1 = gen ? off[c1[i]] : V3(0, 0, 0); c.t2 = gen ? off[c2[i]] : V3(0, 0, 0); c.w = wts ? w[i] / nr : 1; cs.push_back(c); }
    M3 R0 = R * smallrot(0.02);
    if (gen) {
      Weighted ad(f1, f2, c1, c2, off, rots, w); geOutput_t out; out.rotation = R0; ad.setR12(R0); if (s % 3) ge(ad, ix, out, wts); else ge(ad, out, wts);
      V3 c = math::rot2cayley(out.rotation); if (!(c.norm() < 10)) continue; Eigen::SelfAdjointEigenSolver<M4> es(direct(cs, c)); Eigen::Vector4d l = out.eigenvalues; std::sort(l.data(), l.data() + 4);
      check((l - es.eigenvalues()).norm() < 1e-6 * (1 + es.eigenvalues().norm()), "ge: the matrix decomposed is not the cost matrix of the listed correspondences", d);
    } else {
      CentralRelativeWeightingAdapter ad(f1, f2, w, R0); eigensolverOutput_t out; out.rotation = R0; if (s % 3) eigensolver(ad, ix, out, wts); else eigensolver(ad, out, wts);
      V3 c = math::rot2cayley(out.rotation); if (!(c.norm() < 10)) continue; Eigen::SelfAdjointEigenSolver<M3> es(M3(direct(cs, c).block<3, 3>(0, 0))); V3 l = out.eigenvalues; std::sort(l.data(), l.data() + 3);
      check((l - es.eigenvalues()).norm() < 1e-6 * (1 + es.eigenvalues().norm()), "eigensolver: the matrix decomposed is not the cost matrix of the listed correspondences", d);
      Eigen::Vector3d v = es.eigenvectors().col(0); check(out.translation.cross(v).norm() < 1e-4 * (1e-9 + out.translation.norm()) || es.eigenvalues()[1] - es.eigenvalues()[0] < 1e-4, "eigensolver: translation is not along the eigenvector of the smallest eigenvalue", d);
    }
    DIST++;
  }
  sample("random correspondences with zero entries, Cayley vectors of size 0 to 6, noisy scenes through both solvers with and without weights");
  return finish();
}
