#include "h.hpp"
#include <functional>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
using namespace opengv; namespace sp = opengv::sac_problems;
typedef std::vector<int> L; typedef std::function<double(const M3 &, const V3 &, int)> Dist; typedef std::function<transformation_t(const M3 &, const V3 &, const L &)> Opt;
static double cosd(const V3 &f, const V3 &d) { return 1 - f.dot(d) / d.norm(); }
static double two(const V3 &f1, const V3 &f2, const M3 &R, const V3 &t) {      // midpoint triangulation
  V3 g = R * f2; double a = f1.dot(f1), b = f1.dot(g), c = g.dot(g), d = t.dot(f1), e = t.dot(g), D = a * c - b * b;
  V3 X = 0.5 * ((c * d - b * e) / D * f1 + t + (b * d - a * e) / D * g); return cosd(f1, X) + cosd(f2, R.transpose() * (X - t));
}
static double cost(const Dist &d, const M3 &R, const V3 &t, const L &ix) { double s = 0; for (int i : ix) { double x = d(R, t, i); s += x * x; } return s; }
#include <map>
static std::map<std::string, int> TRIED, REACHED; static std::map<std::string, std::string> AWAY;
// exact: the data are exact for (R,t); otherwise noisy
static void refinement(const std::string &nm, const std::string &c0, const M3 &R, const V3 &t, bool exact, const L &ix, const Dist &d, const Opt &opt) {
  std::string c = nm + " " + c0; at(c);
  if (exact) { auto T = opt(R, t, ix); M3 A = T.block<3,3>(0,0); check((A - R).norm() + (T.col(3) - t).norm() < 1e-4 * (1 + t.norm()), nm + ": refinement started at the exact solution leaves it", c + " result=" + str(T)); }
  M3 Rp = R * smallrot(0.05); V3 tp = t + 0.03 * gvec();
  auto T = opt(Rp, tp, ix); M3 A = T.block<3,3>(0,0); V3 b = T.col(3);
  check(isrot(A, 1e-9), nm + ": the refined rotation is not proper", c + " result=" + str(T));
  double c1 = cost(d, Rp, tp, ix), c2 = cost(d, A, b, ix);
  check(c2 <= c1 * (1 + 1e-9) + 1e-20, nm + ": refinement increases the scoring distances", c + " start=" + str(Rp) + str(tp) + " result=" + str(T) + " cost=" + str(c1) + "->" + str(c2));
  if (exact) { TRIED[nm]++; if (c2 <= 1e-2 * c1 + 1e-18) REACHED[nm]++; else AWAY[nm] = c + " start=" + str(Rp) + str(tp) + " result=" + str(T) + " cost=" + str(c1) + "->" + str(c2); }
}
static transformation_t TT(const M3 &R, const V3 &t) { transformation_t m; m.block<3,3>(0,0) = R; m.col(3) = t; return m; }
template <class P, class IX> static Opt viaproblem(std::function<std::shared_ptr<P>()> mk, std::function<IX(const L &)> conv) {
  return [=](const M3 &R, const V3 &t, const L &ix) { auto p = mk(); transformation_t T; p->optimizeModelCoefficients(conv(ix), TT(R, t), T); return T; };
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(60, 2000);
  for (int s = 0; s < n; s++) {
    int N = irand(14, 22), cams = irand(1, 4); bool exact = s % 3 != 2; double noise = exact ? 0 : 2e-3;
    M3 R = s % 7 == 3 ? M3(M3::Identity()) : smallrot(1.0); V3 t = gvec() * 0.5; if (t.norm() < 0.2) t = V3(0.3, -0.2, 0.4); translations_t off; rotations_t rots; rig(off, rots, cams, 0.7);
    auto bend = [&](V3 v) { return V3((v.normalized() + noise * gvec()).normalized()); };
    points_t P, Q; bearingVectors_t f, g, f1, f2, g1, g2; L c1, c2;
    std::vector<std::shared_ptr<bearingVectors_t>> mf, m1, m2; std::vector<std::shared_ptr<points_t>> mp; std::vector<std::shared_ptr<bearingVectors_t>> h1, h2;
    for (int k = 0; k < cams; k++) { mf.push_back(std::make_shared<bearingVectors_t>()); mp.push_back(std::make_shared<points_t>()); h1.push_back(std::make_shared<bearingVectors_t>()); h2.push_back(std::make_shared<bearingVectors_t>()); }
    std::vector<L> pos(cams); L where(N);
    for (int i = 0; i < N; i++) {
      V3 p = V3(uni(-3, 3), uni(-3, 3), uni(4, 9)); int a = irand(0, cams - 1), b = irand(0, cams - 1); c1.push_back(a); c2.push_back(b); P.push_back(p); V3 q = R.transpose() * (p - t); Q.push_back(q + noise * gvec());
      f.push_back(bend(q)); g.push_back(bend(rots[a].transpose() * (q - off[a])));
      f1.push_back(bend(p)); f2.push_back(bend(q)); g1.push_back(bend(rots[a].transpose() * (p - off[a]))); g2.push_back(bend(rots[b].transpose() * (q - off[b])));
      where[i] = mf[a]->size(); pos[a].push_back(i); mf[a]->push_back(g[i]); mp[a]->push_back(p); h1[a]->push_back(g1[i]); h2[a]->push_back(bend(rots[a].transpose() * (q - off[a])));
    }
    L ix; for (int i = 0; i < N; i++) ix.push_back(i); for (int i = N - 1; i > 0; i--) std::swap(ix[i], ix[irand(0, i)]); ix.resize(irand(12, N - 1));
    // the correspondences that are not listed are wrong
    for (int i = 0; i < N; i++) { bool in = false; for (int k : ix) in = in || k == i; if (!in) { f[i] = dir(); g[i] = dir(); f1[i] = dir(); g1[i] = dir(); Q[i] = gvec(); (*mf[c1[i]])[where[i]] = dir(); (*h1[c1[i]])[where[i]] = dir(); } }
    std::vector<L> mi(cams); for (int i : ix) mi[c1[i]].push_back(where[i]);
    std::function<std::vector<L>(const L &)> multi = [&](const L &l) { std::vector<L> r(cams); for (int i : l) r[c1[i]].push_back(where[i]); return r; };
    std::function<L(const L &)> plain = [](const L &l) { return l; };
    std::string c = "correspondences=" + std::to_string(N) + " cameras=" + std::to_string(cams) + (exact ? " exact" : " noisy") + " indices=" + strv(ix) + " R=" + str(R) + " t=" + str(t);
    Dist da = [&](const M3 &A, const V3 &b, int i) { return cosd(f[i], A.transpose() * (P[i] - b)); };
    Dist dn = [&](const M3 &A, const V3 &b, int i) { return cosd(g[i], rots[c1[i]].transpose() * (A.transpose() * (P[i] - b) - off[c1[i]])); };
    Dist dr = [&](const M3 &A, const V3 &b, int i) { return two(f1[i], f2[i], A, b); };
    auto rigd = [&](const M3 &A, const V3 &b, int i, int u, int v, const V3 &x, const V3 &y) { return two(x, y, rots[u].transpose() * A * rots[v], rots[u].transpose() * (b - off[u] + A * off[v])); };
    Dist dg = [&](const M3 &A, const V3 &b, int i) { return rigd(A, b, i, c1[i], c2[i], g1[i], g2[i]); };
    Dist dm = [&](const M3 &A, const V3 &b, int i) { return rigd(A, b, i, c1[i], c1[i], (*h1[c1[i]])[where[i]], (*h2[c1[i]])[where[i]]); };
    Dist dp = [&](const M3 &A, const V3 &b, int i) { return (P[i] - A * Q[i] - b).norm(); };
    typedef sp::absolute_pose::AbsolutePoseSacProblem AS; typedef sp::absolute_pose::MultiNoncentralAbsolutePoseSacProblem MA; typedef sp::relative_pose::CentralRelativePoseSacProblem CR;
    typedef sp::relative_pose::NoncentralRelativePoseSacProblem NR; typedef sp::relative_pose::MultiNoncentralRelativePoseSacProblem MR;
    { absolute_pose::CentralAbsoluteAdapter ad(f, P);
      refinement("absolute", c, R, t, exact, ix, da, [&](const M3 &A, const V3 &b, const L &l) { ad.setR(A); ad.sett(b); return absolute_pose::optimize_nonlinear(ad, l); });
      refinement("AbsolutePoseSacProblem", c, R, t, exact, ix, da, viaproblem<AS, L>([&] { return std::make_shared<AS>(ad, AS::KNEIP, false); }, plain)); }
    { absolute_pose::NoncentralAbsoluteAdapter ad(g, c1, P, off, rots);
      refinement("absolute rig", c, R, t, exact, ix, dn, [&](const M3 &A, const V3 &b, const L &l) { ad.setR(A); ad.sett(b); return absolute_pose::optimize_nonlinear(ad, l); }); }
    { absolute_pose::NoncentralAbsoluteMultiAdapter ad(mf, mp, off, rots);
      refinement("MultiNoncentralAbsolutePoseSacProblem", c, R, t, exact, ix, dn, viaproblem<MA, std::vector<L>>([&] { return std::make_shared<MA>(ad); }, multi)); }
    if (s % 2) { relative_pose::CentralRelativeAdapter ad(f1, f2);
      refinement("relative", c, R, t, exact, ix, dr, [&](const M3 &A, const V3 &b, const L &l) { ad.setR12(A); ad.sett12(b); return relative_pose::optimize_nonlinear(ad, l); });
      refinement("CentralRelativePoseSacProblem", c, R, t, exact, ix, dr, viaproblem<CR, L>([&] { return std::make_shared<CR>(ad, CR::NISTER, false); }, plain)); }
    else { relative_pose::NoncentralRelativeAdapter ad(g1, g2, c1, c2, off, rots);
      refinement("relative rig", c, R, t, exact, ix, dg, [&](const M3 &A, const V3 &b, const L &l) { ad.setR12(A); ad.sett12(b); return relative_pose::optimize_nonlinear(ad, l); });
      refinement("NoncentralRelativePoseSacProblem", c, R, t, exact, ix, dg, viaproblem<NR, L>([&] { return std::make_shared<NR>(ad, NR::SEVENTEENPT, false, false); }, plain)); 
      relative_pose::NoncentralRelativeMultiAdapter am(h1, h2, off, rots);
      refinement("MultiNoncentralRelativePoseSacProblem", c, R, t, exact, ix, dm, viaproblem<MR, std::vector<L>>([&] { return std::make_shared<MR>(am, MR::SEVENTEENPT, false); }, multi)); }
    { point_cloud::PointCloudAdapter ad(P, Q);
      refinement("point cloud", c, R, t, exact, ix, dp, [&](const M3 &A, const V3 &b, const L &l) { ad.setR12(A); ad.sett12(b); return point_cloud::optimize_nonlinear(ad, l); }); }
    DIST++;
  }
  // a minimiser may get stuck now and then, not regularly
  for (auto &k : TRIED) check(4 * REACHED[k.first] >= 3 * k.second, k.first + ": refinement does not approach the zero of the scoring distances", AWAY[k.first]);
  sample("12 to 21 listed correspondences out of up to 22 (unlisted ones wrong), rigs of 1-4 cameras, exact and noisy data, starts at and near the solution");
  return finish();
}
