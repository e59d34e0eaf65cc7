#include "h.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
using namespace opengv;
namespace sp = opengv::sac_problems;
static double want(const M3 &R, const V3 &t, const V3 &p, const V3 &o, const M3 &C, const V3 &f) {
  V3 d = C.transpose() * (R.transpose() * (p - t) - o); return 1 - f.dot(d) / d.norm();
}
static transformation_t T(const M3 &R, const V3 &t) { transformation_t m; m.block<3,3>(0,0) = R; m.col(3) = t; return m; }
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(3000, 60000);
  for (int s = 0; s < n; s++) {
    int N = irand(1, 12), cams = irand(1, 4);
    M3 R = rrot(), Rs = s % 3 ? rrot() : R; V3 t = gvec() * 2, ts = s % 3 ? V3(gvec() * 2) : t;
    translations_t off; rotations_t rots; rig(off, rots, cams);
    points_t P; bearingVectors_t f, fc; std::vector<int> cc;
    for (int i = 0; i < N; i++) {
      V3 p = gvec() * 5; int c = irand(0, cams - 1); P.push_back(p); cc.push_back(c);
      V3 d = (rots[c].transpose() * (R.transpose() * (p - t) - off[c])).normalized(); if (s % 5 == 1) d = -d; if (s % 5 == 2) d = dir();
      f.push_back(d); V3 e = (R.transpose() * (p - t)).normalized(); if (s % 5 == 2) e = dir(); fc.push_back(e);
    }
    std::vector<int> ix = indices(N);
    std::string c = "R=" + str(Rs) + " t=" + str(ts) + " indices=" + strv(ix); at(c);
    { absolute_pose::CentralAbsoluteAdapter ad(fc, P); sp::absolute_pose::AbsolutePoseSacProblem pr(ad, sp::absolute_pose::AbsolutePoseSacProblem::KNEIP, false);
      std::vector<double> d; pr.getSelectedDistancesToModel(T(Rs, ts), ix, d);
      bool ok = d.size() == ix.size(); for (size_t k = 0; ok && k < ix.size(); k++) ok = std::fabs(d[k] - want(Rs, ts, P[ix[k]], V3::Zero(), M3::Identity(), fc[ix[k]])) < 1e-9;
      check(ok, "central: distance is not the reprojection error", c); }
    { absolute_pose::NoncentralAbsoluteAdapter ad(f, cc, P, off, rots); sp::absolute_pose::AbsolutePoseSacProblem pr(ad, sp::absolute_pose::AbsolutePoseSacProblem::GP3P, false);
      std::vector<double> d; pr.getSelectedDistancesToModel(T(Rs, ts), ix, d);
      bool ok = d.size() == ix.size(); for (size_t k = 0; ok && k < ix.size(); k++) { int i = ix[k]; ok = std::fabs(d[k] - want(Rs, ts, P[i], off[cc[i]], rots[cc[i]], f[i])) < 1e-9; }
      check(ok, "camera rig: distance is not the reprojection error", c); }
    { std::vector<std::shared_ptr<bearingVectors_t>> mf; std::vector<std::shared_ptr<points_t>> mp; std::vector<std::vector<int>> mi(cams), src(cams);
      for (int k = 0; k < cams; k++) { mf.push_back(std::make_shared<bearingVectors_t>()); mp.push_back(std::make_shared<points_t>()); }
      for (int i = 0; i < N; i++) { mf[cc[i]]->push_back(f[i]); mp[cc[i]]->push_back(P[i]); src[cc[i]].push_back(i); }
      for (int k = 0; k < cams; k++) if (src[k].size()) for (int q = irand(0, 3); q > 0; q--) mi[k].push_back(irand(0, src[k].size() - 1));
      absolute_pose::NoncentralAbsoluteMultiAdapter ad(mf, mp, off, rots); sp::absolute_pose::MultiNoncentralAbsolutePoseSacProblem pr(ad);
      std::vector<std::vector<double>> d(cams); pr.getSelectedDistancesToModel(T(Rs, ts), mi, d);
      bool ok = true; for (int k = 0; k < cams; k++) { ok = ok && d[k].size() == mi[k].size(); for (size_t q = 0; ok && q < mi[k].size(); q++) { int i = src[k][mi[k][q]]; ok = std::fabs(d[k][q] - want(Rs, ts, P[i], off[k], rots[k], f[i])) < 1e-9; } }
      check(ok, "multi-camera: distance is not the reprojection error", c); }
    { points_t Q; for (auto &p : P) Q.push_back(R.transpose() * (p - t) + (s % 2 ? V3(V3::Zero()) : gvec()));
      point_cloud::PointCloudAdapter ad(P, Q); sp::point_cloud::PointCloudSacProblem pr(ad, false);
      std::vector<double> d; pr.getSelectedDistancesToModel(T(Rs, ts), ix, d);
      bool ok = d.size() == ix.size(); for (size_t k = 0; ok && k < ix.size(); k++) ok = std::fabs(d[k] - (P[ix[k]] - Rs * Q[ix[k]] - ts).norm()) < 1e-9;
      check(ok, "point cloud: distance is not the transfer error", c); }
    DIST++;
  }
  sample("random poses, rigs of 1-4 cameras, index lists with repetitions");
  return finish();
}
