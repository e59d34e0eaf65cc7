#include "h.hpp"
#include <opengv/math/arun.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
using namespace opengv;
// independent optimum of tr(R H), H = sum b a^T (a ~ R b): Horn's quaternion eigenvalue
static double horn(const M3 &S) { // S = sum b a^T
  Eigen::Matrix4d N; double xx = S(0,0), xy = S(0,1), xz = S(0,2), yx = S(1,0), yy = S(1,1), yz = S(1,2), zx = S(2,0), zy = S(2,1), zz = S(2,2);
  N << xx+yy+zz, yz-zy, zx-xz, xy-yx, yz-zy, xx-yy-zz, xy+yx, zx+xz, zx-xz, xy+yx, -xx+yy-zz, yz+zy, xy-yx, zx+xz, yz+zy, -xx-yy+zz;
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(N); return es.eigenvalues()[3];
}
static void corr(const std::vector<V3> &a, const std::vector<V3> &b, V3 &ca, V3 &cb, M3 &S) {
  ca.setZero(); cb.setZero(); for (auto &x : a) ca += x; for (auto &x : b) cb += x; ca /= a.size(); cb /= b.size(); S.setZero();
  for (size_t i = 0; i < a.size(); i++) S += (b[i] - cb) * (a[i] - ca).transpose();
}
static void judge(const std::string &who, const M3 &R, const M3 &S, const std::string &c) {
  check(isrot(R, 1e-8), who + ": not a proper rotation", c);
  double best = horn(S), got = (R * S).trace();
  check(got > best - 1e-7 * (1 + std::fabs(best)), who + ": correlation not maximal", c);
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(1500, 30000);
  for (int t = 0; t < n; t++) {
    int N = t % 7 == 0 ? 3 : irand(3, 20); int kind = t % 5; // 0 exact, 1 noisy, 2 reflected, 3 planar exact, 4 exact small perturbations
    M3 R0 = t % 11 == 0 ? axisR(dir(), M_PI) : rrot(); V3 t0 = gvec() * 5;
    std::vector<V3> a, b; points_t p1, p2; bearingVectors_t f1, f2;
    for (int i = 0; i < N; i++) {
      V3 y = gvec() * 3; if (kind == 3) y[2] = 1; V3 x = R0 * y + t0;
      if (kind == 1) x += gvec() * 0.3; if (kind == 2) x[0] = -x[0];
      a.push_back(x); b.push_back(y); p1.push_back(x); p2.push_back(y);
    }
    std::string c = "kind=" + std::to_string(kind) + " N=" + std::to_string(N) + " R=" + str(R0) + " t=" + str(t0); at(c);
    V3 ca, cb; M3 S; corr(a, b, ca, cb, S);
    transformation_t T = math::arun_complete(p1, p2);
    judge("arun_complete", T.block<3,3>(0,0), S, c);
    check((ca - (T.block<3,3>(0,0) * cb + T.col(3))).norm() < 1e-8 * (1 + ca.norm() + cb.norm()), "arun_complete: centroid not mapped", c);
    point_cloud::PointCloudAdapter ad(p1, p2);
    transformation_t T2 = point_cloud::threept_arun(ad);
    judge("threept_arun", T2.block<3,3>(0,0), S, c);
    check((ca - (T2.block<3,3>(0,0) * cb + T2.col(3))).norm() < 1e-8 * (1 + ca.norm() + cb.norm()), "threept_arun: centroid not mapped", c);
    if (kind == 0 || kind == 3 || kind == 4) {
      double tol = 1e-5;
      check((T.block<3,3>(0,0) - R0).norm() < tol && (T.col(3) - t0).norm() < tol * 20, "arun_complete: exact transformation not recovered", c);
      check((T2.block<3,3>(0,0) - R0).norm() < tol && (T2.col(3) - t0).norm() < tol * 20, "threept_arun: exact transformation not recovered", c);
    }
    // index list: arbitrary order, with at least three distinct entries
    std::vector<int> idx; int m = irand(3, N); std::vector<int> all; for (int i = 0; i < N; i++) all.push_back(i);
    for (int i = 0; i < m; i++) { int j = irand(i, N - 1); std::swap(all[i], all[j]); idx.push_back(all[i]); }
    std::vector<V3> sa, sb; for (int i : idx) { sa.push_back(a[i]); sb.push_back(b[i]); }
    corr(sa, sb, ca, cb, S); transformation_t T3 = point_cloud::threept_arun(ad, idx);
    judge("threept_arun(indices)", T3.block<3,3>(0,0), S, c + " idx=" + strv(idx));
    check((ca - (T3.block<3,3>(0,0) * cb + T3.col(3))).norm() < 1e-8 * (1 + ca.norm() + cb.norm()), "threept_arun(indices): centroid not mapped", c + " idx=" + strv(idx));
    // bearing vectors
    a.clear(); b.clear();
    for (int i = 0; i < N; i++) { V3 y = dir(); V3 x = R0 * y; if (kind == 1) x = (x + gvec() * 0.1).normalized(); if (kind == 2) x[0] = -x[0]; a.push_back(x); b.push_back(y); f1.push_back(x); f2.push_back(y); }
    relative_pose::CentralRelativeAdapter ra(f1, f2);
    corr(a, b, ca, cb, S);
    rotation_t Q = relative_pose::rotationOnly(ra);
    judge("rotationOnly", Q, S, c);
    if (N > 3 && kind != 1 && kind != 2) check((Q - R0).norm() < 1e-5, "rotationOnly: exact rotation not recovered", c);
    sa.clear(); sb.clear(); for (int i : idx) { sa.push_back(a[i]); sb.push_back(b[i]); }
    corr(sa, sb, ca, cb, S); judge("rotationOnly(indices)", relative_pose::rotationOnly(ra, idx), S, c + " idx=" + strv(idx));
    // two points
    rotation_t Q2 = relative_pose::twopt_rotationOnly(ra, 0, 1);
    check(isrot(Q2, 1e-8), "twopt_rotationOnly: not a rotation", c);
    if (kind != 1 && kind != 2 && f1[0].cross(f1[1]).norm() > 0.05) {
      check((Q2 - R0).norm() < 1e-5, "twopt_rotationOnly: exact rotation not recovered", c);
      rotation_t Q3 = relative_pose::twopt_rotationOnly(ra, std::vector<int>{N - 1, 0});
      if (f1[0].cross(f1[N-1]).norm() > 0.05) check((Q3 - R0).norm() < 1e-5, "twopt_rotationOnly(indices): exact rotation not recovered", c);
    }
    DIST++; if (t < 3) sample(c);
  }
  return finish();
}
