#include "h.hpp"
#include <functional>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/math/cayley.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
using namespace opengv; namespace sp = opengv::sac_problems;
typedef std::vector<int> L; typedef transformation_t TF; typedef sp::relative_pose::CentralRelativePoseSacProblem CR;
static TF TT(const M3 &R, const V3 &t) { TF m; m.block<3,3>(0,0) = R; m.col(3) = t; return m; }
static TF body(const TF &M, const V3 &o, const M3 &C) { M3 B = M.block<3,3>(0,0) * C.transpose(); return TT(B, M.col(3) - B * o); }
static double cosd(const V3 &f, const V3 &d) { return 1 - f.dot(d) / d.norm(); }
static double two(const V3 &f1, const V3 &f2, const M3 &R, const V3 &t) {
  V3 g = R * f2; double a = f1.dot(f1), b = f1.dot(g), c = g.dot(g), d = t.dot(f1), e = t.dot(g), D = a * c - b * b;
  V3 X = 0.5 * ((c * d - b * e) / D * f1 + t + (b * d - a * e) / D * g); return cosd(f1, X) + cosd(f2, R.transpose() * (X - t));
}
static bool finite(const TF &m) { for (int i = 0; i < 12; i++) if (!std::isfinite(m.data()[i])) return false; return true; }
static bool same(const TF &a, const TF &b) { return (a - b).norm() <= 1e-9 * (1 + a.norm()); }
// the model is a candidate of smallest distance (d: distance of a candidate; one: a single candidate is taken as it is)
static void select(const std::string &nm, bool ok, const TF &out, const std::vector<TF> &cand, std::function<double(const TF &)> d, const std::string &c, bool one = true) {
  std::vector<TF> cs; for (auto &x : cand) { if (!finite(x)) return; cs.push_back(x); }
  if (cs.empty()) { check(!ok, nm + ": success without a candidate", c); return; }
  if (!check(ok, nm + ": failure although there are candidates", c + " candidates=" + std::to_string(cs.size()))) return;
  double best = 1e9; for (auto &x : cs) best = std::min(best, d(x));
  bool is = false; for (auto &x : cs) is = is || same(out, x);
  if (!check(is, nm + ": the model is none of the solver's poses (in the scoring frame)", c + " model=" + str(out) + " first candidate=" + str(cs[0]))) return;
  if (cs.size() > 1) check(d(out) <= best + 1e-9, nm + ": a candidate with a larger distance was chosen", c + " model=" + str(out) + " distance=" + str(d(out)) + " best=" + str(best));
}
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(150, 5000); long six_ok = 0, six_n = 0; std::string six_bad;
  for (int s = 0; s < n; s++) {
    int N = irand(24, 30), cams = s % 2 ? 1 : irand(2, 4); bool exact = s % 3 == 0; double noise = exact ? 0 : 3e-2;
    M3 R = smallrot(0.8); V3 t = gvec() * 0.5; if (t.norm() < 0.2) t = V3(0.3, -0.2, 0.4); translations_t off; rotations_t rots; rig(off, rots, cams, 0.7);
    auto bend = [&](V3 v) { return V3((v.normalized() + noise * gvec()).normalized()); };
    points_t P, Q; bearingVectors_t f, f1, f2, g1, g2; L c1, c2; std::vector<L> mem(cams); L where(N);
    std::vector<std::shared_ptr<bearingVectors_t>> mf, h1, h2; std::vector<std::shared_ptr<points_t>> mp;
    for (int k = 0; k < cams; k++) { mf.push_back(std::make_shared<bearingVectors_t>()); h1.push_back(std::make_shared<bearingVectors_t>()); h2.push_back(std::make_shared<bearingVectors_t>()); mp.push_back(std::make_shared<points_t>()); }
    for (int i = 0; i < N; i++) {
      V3 p(uni(-3, 3), uni(-3, 3), uni(4, 9)); if (s % 10 == 7) p = V3(0, 0, 5) + uni(-3, 3) * V3(1, .3, .2);       // now and then all on a line: no solutions
      int a = irand(0, cams - 1), b = irand(0, cams - 1); c1.push_back(a); c2.push_back(b); P.push_back(p); V3 q = R.transpose() * (p - t); Q.push_back(q + noise * gvec());
      f.push_back(bend(rots[a].transpose() * (q - off[a]))); f1.push_back(bend(p)); f2.push_back(bend(q)); g1.push_back(bend(rots[a].transpose() * (p - off[a]))); g2.push_back(bend(rots[b].transpose() * (q - off[b])));
      where[i] = mf[a]->size(); mem[a].push_back(i); mf[a]->push_back(f[i]); mp[a]->push_back(p); h1[a]->push_back(g1[i]); h2[a]->push_back(bend(rots[a].transpose() * (q - off[a])));
    }
    L all; for (int i = 0; i < N; i++) all.push_back(i); for (int i = N - 1; i > 0; i--) std::swap(all[i], all[irand(0, i)]);
    auto take = [&](int m) { return L(all.begin(), all.begin() + m); };
    auto multi = [&](const L &l) { std::vector<L> r(cams); for (int i : l) r[c1[i]].push_back(where[i]); return r; };
    std::string c0 = "correspondences=" + std::to_string(N) + " cameras=" + std::to_string(cams) + (exact ? " exact" : " noisy") + " R=" + str(R) + " t=" + str(t); at(c0); TF m;
    V3 o = off[0]; M3 C = rots[0];
    { // absolute
      typedef sp::absolute_pose::AbsolutePoseSacProblem AS; typedef sp::absolute_pose::MultiNoncentralAbsolutePoseSacProblem MA; typedef std::vector<TF> VT;
      absolute_pose::NoncentralAbsoluteAdapter ad(f, c1, P, off, rots); M3 Rp = R * smallrot(0.3); ad.setR(Rp); L l = take(4); std::string c = c0 + " sample=" + strv(l);
      auto dist = [&](int i) { return [&, i](const TF &M) { M3 A = M.block<3,3>(0,0); return cosd(f[i], rots[c1[i]].transpose() * (A.transpose() * (P[i] - M.col(3)) - off[c1[i]])); }; };
      auto bodies = [&](const transformations_t &x) { VT r; for (auto &y : x) r.push_back(body(y, o, C)); return r; };
      if (cams == 1) {
        at(c + " KNEIP"); { AS p(ad, AS::KNEIP, false); bool ok = p.computeModelCoefficients(l, m); select("AbsolutePoseSacProblem KNEIP", ok, m, bodies(absolute_pose::p3p_kneip(ad, l)), dist(l[3]), c); }
        at(c + " GAO"); { AS p(ad, AS::GAO, false); bool ok = p.computeModelCoefficients(l, m); select("AbsolutePoseSacProblem GAO", ok, m, bodies(absolute_pose::p3p_gao(ad, l)), dist(l[3]), c); }
        at(c + " EPNP"); if (s % 10 != 7) { AS p(ad, AS::EPNP, false); L l6 = take(6); bool ok = p.computeModelCoefficients(l6, m); select("AbsolutePoseSacProblem EPNP", ok, m, {body(absolute_pose::epnp(ad, l6), o, C)}, dist(l[3]), c0 + " sample=" + strv(l6)); }
        at(c + " TWOPT"); { AS p(ad, AS::TWOPT, false); L l2 = take(2); bool ok = p.computeModelCoefficients(l2, m); select("AbsolutePoseSacProblem TWOPT", ok, m, {body(TT(Rp, absolute_pose::p2p(ad, l2)), o, C)}, dist(l[3]), c0 + " sample=" + strv(l2)); }
      }
      if (s % 10 != 7) { at(c + " GP3P"); AS p(ad, AS::GP3P, false); auto x = absolute_pose::gp3p(ad, l); bool ok = p.computeModelCoefficients(l, m); select("AbsolutePoseSacProblem GP3P", ok, m, VT(x.begin(), x.end()), dist(l[3]), c); }
      absolute_pose::NoncentralAbsoluteMultiAdapter am(mf, mp, off, rots); auto ml = multi(l); L ser = am.convertMultiIndices(ml); int last = -1; { int k = 0; for (int a = 0; a < cams; a++) for (int w : ml[a]) if (k++ == 3) last = mem[a][w]; }
      if (s % 10 != 7) { at(c + " multi GP3P"); MA p(am, false); auto x = absolute_pose::gp3p(am, ser); bool ok = p.computeModelCoefficients(ml, m); select("MultiNoncentralAbsolutePoseSacProblem", ok, m, VT(x.begin(), x.end()), dist(last), c); }
      if (cams == 1) { at(c + " multi central"); MA p(am, true); auto x = absolute_pose::p3p_kneip(am, ser); bool ok = p.computeModelCoefficients(ml, m); select("MultiNoncentralAbsolutePoseSacProblem as central", ok, m, bodies(x), dist(last), c); }
    }
    if (s % 10 == 7) continue;
    { // one camera per viewpoint
      relative_pose::CentralRelativeAdapter ad(f1, f2, M3(R * smallrot(0.2))); M3 R0 = ad.getR12(); auto none = [](const TF &) { return 0.0; };
      L l2 = take(2), l5 = take(irand(5, 12)); std::string c = c0 + " sample=" + strv(l5);
      { at(c + " TranslationOnly"); sp::relative_pose::TranslationOnlySacProblem p(ad, false); TF x = TT(R0, relative_pose::twopt(ad, true, l2)); bool ok = p.computeModelCoefficients(l2, m); select("TranslationOnlySacProblem", ok, m, {x}, none, c0 + " sample=" + strv(l2)); }
      { at(c + " RotationOnly"); sp::relative_pose::RotationOnlySacProblem p(ad, false); M3 x = relative_pose::twopt_rotationOnly(ad, l2), y; bool ok = p.computeModelCoefficients(l2, y); select("RotationOnlySacProblem", ok, TT(y, V3::Zero()), {TT(x, V3::Zero())}, none, c0 + " sample=" + strv(l2)); }
      { at(c + " Eigensolver"); typedef sp::relative_pose::EigensolverSacProblem EP; ad.setR12(R0); EP p(ad, l5.size(), false); EigensolverOutput out, ref; unsigned sd = irand(1, 1000000);
        srand(sd); bool ok = p.computeModelCoefficients(l5, out);
        srand(sd); V3 cay = math::rot2cayley(R0); V3 dv; for (int i = 0; i < 3; i++) dv[i] = ((double)rand() / RAND_MAX - 0.5) * 0.2;
        ref.rotation = math::cayley2rot(cay + dv); relative_pose::eigensolver(ad, l5, ref);
        // any start within 0.1 of the prior is acceptable: compared only where the minimum found is the same
        check(ok, "EigensolverSacProblem: failure", c);
        if (exact) check((out.rotation - ref.rotation).norm() > 1e-3 || (out.eigenvalues - ref.eigenvalues).norm() < 1e-6, "EigensolverSacProblem: the model is not the solver's output for the sample", c);
        if (exact && (ref.rotation - R).norm() < 1e-4) check((out.rotation - R).norm() < 1e-3 || (R0 - R).norm() > 0.15, "EigensolverSacProblem: the model is not the solver's rotation for the sample", c + " got=" + str(out.rotation)); }
      point_cloud::PointCloudAdapter pa(P, Q); L l3 = take(3); { at(c + " PointCloud"); sp::point_cloud::PointCloudSacProblem p(pa, false); TF x = point_cloud::threept_arun(pa, l3); bool ok = p.computeModelCoefficients(l3, m); select("PointCloudSacProblem", ok, m, {x}, none, c0 + " sample=" + strv(l3)); }
    }
    { // rigs
      typedef sp::relative_pose::NoncentralRelativePoseSacProblem NR; typedef sp::relative_pose::MultiNoncentralRelativePoseSacProblem MR; auto none = [](const TF &) { return 0.0; };
      relative_pose::NoncentralRelativeAdapter ad(g1, g2, c1, c2, off, rots); relative_pose::NoncentralRelativeMultiAdapter am(h1, h2, off, rots);
      L l = take(irand(17, 20)), l9 = take(9); auto ml = multi(l), ml9 = multi(l9); L ser = am.convertMultiIndices(ml); std::string c = c0 + " sample=" + strv(l);
      auto rd = [&](const TF &M, const V3 &x, const V3 &y, int u, int v) { M3 A = M.block<3,3>(0,0); return two(x, y, rots[u].transpose() * A * rots[v], rots[u].transpose() * (V3(M.col(3)) - off[u] + A * off[v])); };
      if (cams > 1 && s % 4 == 0) {
        { at(c + " SEVENTEENPT"); NR p(ad, NR::SEVENTEENPT, false, false); TF x = relative_pose::seventeenpt(ad, l); bool ok = p.computeModelCoefficients(l, m); select("NoncentralRelativePoseSacProblem SEVENTEENPT", ok, m, {x}, none, c); }
        { at(c + " multi SEVENTEENPT"); MR p(am, MR::SEVENTEENPT, false, false); TF x = relative_pose::seventeenpt(am, ser); bool ok = p.computeModelCoefficients(ml, m); select("MultiNoncentralRelativePoseSacProblem SEVENTEENPT", ok, m, {x}, none, c); }
        { at(c + " GE"); NR p(ad, NR::GE, false, false); M3 Rp = R * smallrot(0.05); ad.setR12(Rp); srand(s); geOutput_t x; x.rotation = Rp; relative_pose::ge(ad, l, x); ad.setR12(Rp); srand(s); bool ok = p.computeModelCoefficients(l, m); select("NoncentralRelativePoseSacProblem GE", ok, m, {TT(x.rotation, x.translation.block<3,1>(0,0))}, none, c); }
        { at(c + " multi GE"); MR p(am, MR::GE, false, false); M3 Rp = R * smallrot(0.05); am.setR12(Rp); srand(s); geOutput_t x; x.rotation = Rp; relative_pose::ge(am, ser, x); am.setR12(Rp); srand(s); bool ok = p.computeModelCoefficients(ml, m); select("MultiNoncentralRelativePoseSacProblem GE", ok, m, {TT(x.rotation, x.translation.block<3,1>(0,0))}, none, c); }
        // six points: rotations by the solver for the first six, translation from their generalised epipolar constraints, choice by the other three
        auto six = [&](relative_pose::RelativeAdapterBase &A, const L &use, const L &rest) {
          std::vector<TF> cand; rotations_t rs = relative_pose::sixpt(A, use);
          for (auto &X : rs) {
            Eigen::Matrix4d G = Eigen::Matrix4d::Zero();
            for (int i : use) { V3 a = A.getCamRotation1(i) * A.getBearingVector1(i), b = A.getCamRotation2(i) * A.getBearingVector2(i), v1 = A.getCamOffset1(i), v2 = A.getCamOffset2(i); Eigen::Vector4d g; g << a.cross(X * b), a.dot(v1.cross(X * b) - X * v2.cross(b)); G += g * g.transpose(); }
            Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> E(G); Eigen::Vector4d v = E.eigenvectors().col(0); if (std::fabs(v[3]) > 1e-6 && E.eigenvalues()[1] > 1.01 * E.eigenvalues()[0]) cand.push_back(TT(X, v.head<3>() / v[3])); else cand.push_back(TT(X, V3::Constant(NAN)));
          }
          return cand; };
        { at(c + " SIXPT"); NR p(ad, NR::SIXPT, false, false); L u(l9.begin(), l9.begin() + 6); auto cand = six(ad, u, L()); bool ok = p.computeModelCoefficients(l9, m);
          auto d = [&](const TF &M) { double r = 0; for (int q = 6; q < 9; q++) { int i = l9[q]; r += rd(M, g1[i], g2[i], c1[i], c2[i]); } return r; };
          std::vector<TF> good; bool bad = false; for (auto &x : cand) if (finite(x)) good.push_back(x); else bad = true;
          if (!bad) { double best = 1e9; for (auto &x : good) best = std::min(best, d(x)); six_n++; bool hit = false; for (auto &x : good) hit = hit || (ok && (m - x).norm() < 1e-3 * (1 + x.norm()) && d(x) <= best + 1e-6);
            if (hit == !good.empty()) six_ok++; else six_bad = c0 + " sample=" + strv(l9) + " model=" + str(m); } }
        { at(c + " multi SIXPT"); MR p(am, MR::SIXPT, false, false); for (int rep = 0; rep < 2; rep++) { srand(s + rep); bool ok = p.computeModelCoefficients(ml9, m); if (ok && finite(m)) { check(isrot(m.block<3,3>(0,0), 1e-4), "MultiNoncentralRelativePoseSacProblem SIXPT: not a rotation", c); } } }
      }
      if (cams == 1) { // the central solvers, for the one camera
        relative_pose::CentralRelativeAdapter cad(g1, g2); L l8 = take(irand(8, 12)); TF w; CR q(cad, CR::STEWENIUS, false);
        auto tobody = [&](const TF &M) { M3 A = M.block<3,3>(0,0); M3 B = C * A * C.transpose(); return TT(B, o + C * M.col(3) - B * o); };
        { at(c0 + " as central"); NR p(ad, NR::SIXPT, true, false); bool ok0 = q.computeModelCoefficients(l8, w), ok = p.computeModelCoefficients(l8, m); check(ok == ok0, "NoncentralRelativePoseSacProblem as central: success differs from the central problem", c0); if (ok0 && ok && finite(w)) select("NoncentralRelativePoseSacProblem as central", ok, m, {tobody(w)}, none, c0 + " sample=" + strv(l8)); }
        relative_pose::CentralRelativeAdapter cam(*h1[0], *h2[0]); CR q2(cam, CR::STEWENIUS, false); auto ml8 = multi(l8); L s8 = am.convertMultiIndices(ml8);
        { at(c0 + " multi as central"); MR p(am, MR::SIXPT, true, false); bool ok0 = q2.computeModelCoefficients(s8, w), ok = p.computeModelCoefficients(ml8, m); check(ok == ok0, "MultiNoncentralRelativePoseSacProblem as central: success differs from the central problem", c0); if (ok0 && ok && finite(w)) select("MultiNoncentralRelativePoseSacProblem as central", ok, m, {tobody(w)}, none, c0 + " sample=" + strv(l8)); }
      }
    }
    if (s % 5 == 0) { // one essential matrix per pair
      std::vector<L> ms(cams); std::vector<std::shared_ptr<bearingVectors_t>> a1, a2; for (int k = 0; k < cams; k++) { a1.push_back(std::make_shared<bearingVectors_t>()); a2.push_back(std::make_shared<bearingVectors_t>()); for (int i = 0; i < 9; i++) { a1[k]->push_back(f1[(9 * k + i) % N]); a2[k]->push_back(f2[(9 * k + i) % N]); if (i < 8) ms[k].push_back(i); } }
      relative_pose::CentralRelativeMultiAdapter ad(a1, a2); sp::relative_pose::MultiCentralRelativePoseSacProblem p(ad, false); transformations_t mm; at(c0 + " MultiCentral");
      bool ok = p.computeModelCoefficients(ms, mm); check(!ok || (int)mm.size() == cams, "MultiCentralRelativePoseSacProblem::computeModelCoefficients reports success without computing a model", c0 + " pairs=" + std::to_string(cams) + " model size=" + std::to_string(mm.size()));
    }
    DIST++;
  }
  check(2 * six_ok >= six_n, "NoncentralRelativePoseSacProblem SIXPT: the model is regularly not the best of the solver's rotations with its translation", std::to_string(six_ok) + " of " + std::to_string(six_n) + " agree; " + six_bad);
  sample("random samples of 24-30 correspondences, one camera anywhere on the body or rigs of 2-4, exact and noisy data, points on a line (no solutions)");
  return finish();
}
