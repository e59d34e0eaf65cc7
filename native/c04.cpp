#include "h.hpp"
#include <climits>
#include <limits>
#include <algorithm>
#include <functional>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
using namespace opengv;
namespace sa = opengv::sac_problems::absolute_pose; namespace sr = opengv::sac_problems::relative_pose; namespace sc = opengv::sac_problems::point_cloud;
static transformation_t T(const M3 &R, const V3 &t) { transformation_t m; m.block<3,3>(0,0) = R; m.col(3) = t; return m; }
// counts, selections and distances of problem P (over the given index list) against the distances of the single indices
template <class P, class M> static void one(const char *what, P &p, const M &m, const std::vector<int> &idx, const std::string &c) {
  p.setIndices(idx);
  std::vector<double> d; p.getDistancesToModel(m, d);
  std::vector<double> w; for (int i : idx) { std::vector<int> s1(1, i); std::vector<double> e; p.getSelectedDistancesToModel(m, s1, e); w.push_back(e.size() == 1 ? e[0] : -77); }
  bool ok = d.size() == idx.size(); for (size_t k = 0; ok && k < d.size(); k++) ok = d[k] == w[k] || std::fabs(d[k] - w[k]) < 1e-12;
  check(ok, std::string(what) + ": distances are not one per index for the named correspondence", c);
  if (!ok) return;
  std::vector<double> th = { -1, 0, 1e-6, 0.01, 0.5, 1, 2, 5, d.empty() ? 0.3 : d[irand(0, d.size() - 1)] };
  for (double t : th) {
    std::vector<int> s1(irand(0, 3), 99), want; p.selectWithinDistance(m, t, s1);
    for (size_t k = 0; k < d.size(); k++) if (d[k] < t) want.push_back(idx[k]);
    check(s1 == want, std::string(what) + ": selected inliers are not the indices below the threshold in order", c + " threshold=" + str(t) + " selected=" + strv(s1) + " expected=" + strv(want));
    check(p.countWithinDistance(m, t) == (int)want.size(), std::string(what) + ": inlier count differs from the number of indices below the threshold", c + " threshold=" + str(t));
  }
}
template <class P, class M> static void many(const char *what, P &p, const M &m, const std::vector<std::vector<int>> &idx, const std::string &c) {
  p.setIndices(idx); size_t F = idx.size();
  std::vector<std::vector<double>> d(F), w(F); p.getDistancesToModel(m, d);
  bool ok = d.size() == F;
  for (size_t f = 0; ok && f < F; f++) {
    for (int i : idx[f]) { std::vector<std::vector<int>> s1(F); s1[f].push_back(i); std::vector<std::vector<double>> e(F); p.getSelectedDistancesToModel(m, s1, e); w[f].push_back(e[f].size() == 1 ? e[f][0] : -77); }
    ok = d[f].size() == idx[f].size(); for (size_t k = 0; ok && k < d[f].size(); k++) ok = std::fabs(d[f][k] - w[f][k]) < 1e-12;
  }
  check(ok, std::string(what) + ": distances are not one per index for the named correspondence", c);
  if (!ok) return;
  std::vector<double> th = { -1.0, 0.0, 1e-6, 0.01, 0.5, 1.0, 2.0, 5.0 }; for (auto &v : d) if (v.size()) th.push_back(v[irand(0, v.size() - 1)]);
  for (double t : th) {
    std::vector<std::vector<int>> s1(irand(0, 2), std::vector<int>(2, 99)), want(F); p.selectWithinDistance(m, t, s1); int n = 0;
    for (size_t f = 0; f < F; f++) for (size_t k = 0; k < d[f].size(); k++) if (d[f][k] < t) { want[f].push_back(idx[f][k]); n++; }
    check(s1 == want, std::string(what) + ": selected inliers are not the indices below the threshold in order", c + " threshold=" + str(t));
    check(p.countWithinDistance(m, t) == n, std::string(what) + ": inlier count differs from the number of indices below the threshold", c + " threshold=" + str(t));
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(400, 8000);
  for (int s = 0; s < n; s++) {
    int N = irand(3, 14), cams = irand(1, 4);
    M3 R = rrot(); V3 t = gvec(), g = t + 0.2 * gvec(); M3 Rg = R * smallrot(0.3);
    translations_t off; rotations_t rots; rig(off, rots, cams, 0.5);
    bearingVectors_t f1, f2; points_t P, Q; std::vector<int> cc;
    std::vector<std::shared_ptr<bearingVectors_t>> m1, m2; std::vector<std::shared_ptr<points_t>> mp;
    for (int k = 0; k < cams; k++) { m1.push_back(std::make_shared<bearingVectors_t>()); m2.push_back(std::make_shared<bearingVectors_t>()); mp.push_back(std::make_shared<points_t>()); }
    for (int i = 0; i < N; i++) {
      V3 p = gvec() * 4; P.push_back(p); Q.push_back(R.transpose() * (p - t) + gvec() * (s % 2 ? 0.3 : 0.0)); f1.push_back((p + gvec() * 0.2).normalized()); f2.push_back((R.transpose() * (p - t)).normalized());
      int a = irand(0, cams - 1); cc.push_back(a); m1[a]->push_back((rots[a].transpose() * (p - off[a])).normalized()); m2[a]->push_back((rots[a].transpose() * (R.transpose() * (p - t) - off[a])).normalized()); mp[a]->push_back(p + gvec() * 0.1);
    }
    // index set: everything, a subset, a permutation, or with repetitions
    std::vector<int> idx; for (int i = 0; i < N; i++) idx.push_back(i);
    for (int i = 0; i < N; i++) std::swap(idx[i], idx[irand(0, N - 1)]);
    if (s % 3) idx.resize(irand(0, N)); if (s % 4 == 3) for (auto &i : idx) i = irand(0, N - 1);
    std::string c = "indices=" + strv(idx); at(c);
    { absolute_pose::CentralAbsoluteAdapter ad(f2, P); sa::AbsolutePoseSacProblem p(ad, sa::AbsolutePoseSacProblem::KNEIP, false); one("absolute pose", p, T(Rg, g), idx, c); }
    { point_cloud::PointCloudAdapter ad(P, Q); sc::PointCloudSacProblem p(ad, false); one("point cloud", p, T(Rg, g), idx, c); }
    { relative_pose::CentralRelativeAdapter ad(f1, f2, t, R); sr::CentralRelativePoseSacProblem p(ad, sr::CentralRelativePoseSacProblem::NISTER, false); one("central relative pose", p, T(Rg, g), idx, c);
      sr::TranslationOnlySacProblem q(ad, false); one("translation only", q, T(Rg, g), idx, c); sr::RotationOnlySacProblem r(ad, false); one("rotation only", r, rotation_t(Rg), idx, c); }
    { relative_pose::NoncentralRelativeAdapter ad(f1, f2, cc, cc, off, rots); sr::NoncentralRelativePoseSacProblem p(ad, sr::NoncentralRelativePoseSacProblem::SEVENTEENPT, false); one("noncentral relative pose", p, T(Rg, g), idx, c); }
    std::vector<std::vector<int>> mi(cams); for (int k = 0; k < cams; k++) { int z = m1[k]->size(); for (int i = 0; i < z; i++) mi[k].push_back(i); for (int i = 0; i < z; i++) std::swap(mi[k][i], mi[k][irand(0, z - 1)]); if (s % 3) mi[k].resize(irand(0, z)); c += " " + strv(mi[k]); }
    at(c);
    { absolute_pose::NoncentralAbsoluteMultiAdapter ad(m1, mp, off, rots); sa::MultiNoncentralAbsolutePoseSacProblem p(ad, false); many("multi-camera absolute pose", p, T(M3(smallrot(0.2)), V3(0.1 * gvec())), mi, c); }
    { relative_pose::NoncentralRelativeMultiAdapter ad(m1, m2, off, rots); sr::MultiNoncentralRelativePoseSacProblem p(ad, sr::MultiNoncentralRelativePoseSacProblem::SEVENTEENPT, false); many("multi-camera relative pose", p, T(Rg, g), mi, c); }
    { relative_pose::CentralRelativeMultiAdapter ad(m1, m2); sr::MultiCentralRelativePoseSacProblem p(ad, 5, false); transformations_t M; for (int k = 0; k < cams; k++) M.push_back(T(rrot(), gvec())); many("multi-pair relative pose", p, M, mi, c); }
    DIST++;
  }
  sample("index sets: full, permuted, subsets, with repetitions; nine thresholds each");
  return finish();
}
