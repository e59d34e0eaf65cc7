#include "h.hpp"
#include <functional>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
using namespace opengv;
namespace sp = opengv::sac_problems::relative_pose;
// the two closest points of the rays, their midpoint, and its two reprojection errors
static double want(const M3 &R, const V3 &t, const V3 &f1, const V3 &f2) {
  V3 g = R * f2; Eigen::Matrix2d A; A << f1.dot(f1), -f1.dot(g), f1.dot(g), -g.dot(g);
  Eigen::Vector2d l = A.fullPivLu().solve(Eigen::Vector2d(t.dot(f1), t.dot(g)));
  V3 X = (l[0] * f1 + t + l[1] * g) / 2, Y = R.transpose() * (X - t);
  return (1 - f1.dot(X) / X.norm()) + (1 - f2.dot(Y) / Y.norm());
}
static bool wellposed(const M3 &R, const V3 &t, const V3 &f1, const V3 &f2) {   // rays clearly not parallel, point away from the centres
  V3 g = R * f2; if (f1.cross(g).norm() < 0.05) return false;
  Eigen::Matrix2d A; A << f1.dot(f1), -f1.dot(g), f1.dot(g), -g.dot(g); Eigen::Vector2d l = A.fullPivLu().solve(Eigen::Vector2d(t.dot(f1), t.dot(g)));
  V3 X = (l[0] * f1 + t + l[1] * g) / 2; return X.norm() > 0.05 && (X - t).norm() > 0.05;
}
static transformation_t T(const M3 &R, const V3 &t) { transformation_t m; m.block<3,3>(0,0) = R; m.col(3) = t; return m; }
template <class P, class W, class M> static void go(const char *what, P &pr, const M &m, const std::vector<int> &ix, W w, const std::string &c, bool exact) {
  std::vector<double> d; pr.getSelectedDistancesToModel(m, ix, d);
  bool ok = d.size() == ix.size(), z = true;
  for (size_t k = 0; ok && k < ix.size(); k++) { double e = w(ix[k]); if (!(e == e)) continue; ok = std::fabs(d[k] - e) < 1e-7; if (exact && !(std::fabs(d[k]) < 1e-7)) z = false; }
  check(ok, std::string(what) + ": distance is not the two-view reprojection error", c);
  check(z, std::string(what) + ": distance of an exact correspondence is not zero", c);
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(2500, 50000);
  const double NaN = std::nan("");
  for (int s = 0; s < n; s++) {
    int N = irand(1, 12), cams = irand(1, 4);
    bool exact = s % 3 == 0;
    M3 R = rrot(), Rs = exact ? R : rrot(); V3 t = gvec(), ts = exact ? t : V3(gvec());
    translations_t off; rotations_t rots; rig(off, rots, cams, 0.5);
    bearingVectors_t f1, f2, g1, g2; std::vector<int> c1, c2;
    for (int i = 0; i < N; i++) {
      V3 p = gvec() * 4; int a = irand(0, cams - 1), b = irand(0, cams - 1); c1.push_back(a); c2.push_back(b);
      f1.push_back(p.normalized()); f2.push_back((R.transpose() * (p - t)).normalized());
      g1.push_back((rots[a].transpose() * (p - off[a])).normalized()); g2.push_back((rots[b].transpose() * (R.transpose() * (p - t) - off[b])).normalized());
      if (s % 3 == 2) { f2.back() = dir(); g2.back() = dir(); f1.back() = dir(); g1.back() = dir(); }
    }
    std::vector<int> ix = indices(N);
    std::string c = "R=" + str(Rs) + " t=" + str(ts) + " indices=" + strv(ix); at(c);
    auto cen = [&](int i) { return wellposed(Rs, ts, f1[i], f2[i]) ? want(Rs, ts, f1[i], f2[i]) : NaN; };
    auto clean = [&](std::vector<int> v, std::function<double(int)> w) { std::vector<int> o; for (int i : v) if (w(i) == w(i)) o.push_back(i); return o; };
    std::vector<int> ixc = clean(ix, cen);
    { relative_pose::CentralRelativeAdapter ad(f1, f2, t, R); sp::CentralRelativePoseSacProblem pr(ad, sp::CentralRelativePoseSacProblem::NISTER, false); go("central", pr, T(Rs, ts), ixc, cen, c, exact); }
    { relative_pose::CentralRelativeAdapter ad(f1, f2, t, R); sp::TranslationOnlySacProblem pr(ad, false); go("translation only", pr, T(Rs, ts), ixc, cen, c, exact); }
    { M3 Rp = rrot(); V3 tp = gvec(); relative_pose::CentralRelativeAdapter ad(f1, f2, tp, Rp); sp::EigensolverSacProblem pr(ad, 10, false);
      eigensolverOutput_t o; o.translation = ts; o.rotation = Rs; o.eigenvalues = gvec(); o.eigenvectors = rrot(); go("eigensolver", pr, o, ixc, cen, c, exact);
      check((ad.getR12() - Rp).norm() == 0 && (ad.gett12() - tp).norm() == 0, "eigensolver: scoring changed the prior pose", c); }
    { bearingVectors_t h2; for (int i = 0; i < N; i++) h2.push_back(exact ? V3(R.transpose() * f1[i]) : f2[i]);
      relative_pose::CentralRelativeAdapter ad(f1, h2); sp::RotationOnlySacProblem pr(ad, false); go("rotation only", pr, rotation_t(Rs), ix, [&](int i) { return 1 - f1[i].dot(Rs * h2[i]); }, c, exact); }
    auto rigd = [&](int i) { int a = c1[i], b = c2[i]; M3 D = rots[a].transpose() * Rs * rots[b]; V3 d = rots[a].transpose() * (ts - off[a] + Rs * off[b]); return wellposed(D, d, g1[i], g2[i]) ? want(D, d, g1[i], g2[i]) : NaN; };
    { relative_pose::NoncentralRelativeAdapter ad(g1, g2, c1, c2, off, rots); sp::NoncentralRelativePoseSacProblem pr(ad, sp::NoncentralRelativePoseSacProblem::SEVENTEENPT, false); go("camera rig", pr, T(Rs, ts), clean(ix, rigd), rigd, c, exact); }
    { std::vector<std::shared_ptr<bearingVectors_t>> m1, m2; std::vector<std::vector<int>> src(cams);
      for (int k = 0; k < cams; k++) { m1.push_back(std::make_shared<bearingVectors_t>()); m2.push_back(std::make_shared<bearingVectors_t>()); }
      for (int i = 0; i < N; i++) { int a = c1[i]; m1[a]->push_back(g1[i]); V3 p = gvec() * 4; m1[a]->back() = (rots[a].transpose() * (p - off[a])).normalized(); m2[a]->push_back((rots[a].transpose() * (R.transpose() * (p - t) - off[a])).normalized()); if (s % 3 == 2) m2[a]->back() = dir(); src[a].push_back(i); }
      auto mn = [&](int a, int k) { M3 D = rots[a].transpose() * Rs * rots[a]; V3 d = rots[a].transpose() * (ts - off[a] + Rs * off[a]); return wellposed(D, d, (*m1[a])[k], (*m2[a])[k]) ? want(D, d, (*m1[a])[k], (*m2[a])[k]) : NaN; };
      std::vector<std::vector<int>> mi(cams); for (int k = 0; k < cams; k++) if (src[k].size()) for (int q = irand(0, 4); q > 0; q--) { int z = irand(0, src[k].size() - 1); double e = mn(k, z); if (e == e) mi[k].push_back(z); }
      std::string cc = c; for (auto &v : mi) cc += " " + strv(v);
      relative_pose::NoncentralRelativeMultiAdapter ad(m1, m2, off, rots); sp::MultiNoncentralRelativePoseSacProblem pr(ad, sp::MultiNoncentralRelativePoseSacProblem::SEVENTEENPT, false);
      std::vector<std::vector<double>> d(cams); pr.getSelectedDistancesToModel(T(Rs, ts), mi, d); bool ok = true;
      for (int k = 0; k < cams; k++) { ok = ok && d[k].size() == mi[k].size(); for (size_t q = 0; ok && q < mi[k].size(); q++) ok = std::fabs(d[k][q] - mn(k, mi[k][q])) < 1e-7 && (!exact || std::fabs(d[k][q]) < 1e-7); }
      check(ok, "multi-camera rig: distance is not the two-view reprojection error", cc);
      transformations_t model; std::vector<M3> Rk; std::vector<V3> tk; for (int k = 0; k < cams; k++) { Rk.push_back(exact ? rots[k].transpose() * R * rots[k] : rrot()); tk.push_back(exact ? V3(rots[k].transpose() * (t - off[k] + R * off[k])) : gvec()); model.push_back(T(Rk[k], tk[k])); }
      auto mc = [&](int a, int k) { return wellposed(Rk[a], tk[a], (*m1[a])[k], (*m2[a])[k]) ? want(Rk[a], tk[a], (*m1[a])[k], (*m2[a])[k]) : NaN; };
      for (int k = 0; k < cams; k++) { std::vector<int> v; for (int q : mi[k]) { double e = mc(k, q); if (e == e) v.push_back(q); } mi[k] = v; }
      relative_pose::CentralRelativeMultiAdapter ad2(m1, m2); sp::MultiCentralRelativePoseSacProblem p2(ad2, 5, false);
      std::vector<std::vector<double>> e(cams); p2.getSelectedDistancesToModel(model, mi, e); ok = true;
      for (int k = 0; k < cams; k++) { ok = ok && e[k].size() == mi[k].size(); for (size_t q = 0; ok && q < mi[k].size(); q++) ok = std::fabs(e[k][q] - mc(k, mi[k][q])) < 1e-7; }
      check(ok, "multi-pair: distance is not the two-view reprojection error", cc); }
    DIST++;
  }
  sample("random relative poses, rigs of 1-4 cameras, index lists with repetitions and subsets");
  return finish();
}
