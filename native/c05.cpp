// Bounded run: every getter of every adapter against the data it was given.
#include "h.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
#include <functional>
using namespace opengv;
static bearingVectors_t dirs(int n) { bearingVectors_t v; for (int i = 0; i < n; i++) v.push_back(dir()); return v; }
static points_t pts(int n) { points_t v; for (int i = 0; i < n; i++) v.push_back(gvec()); return v; }
static translations_t offs(int n) { translations_t v; for (int i = 0; i < n; i++) v.push_back(gvec()); return v; }
static rotations_t rots(int n) { rotations_t v; for (int i = 0; i < n; i++) v.push_back(rrot()); return v; }
static std::vector<int> cams(int n, int m) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(irand(0, m - 1)); return v; }
template <class A, class B> static bool eqm(const A &a, const B &b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(); }
static const V3 O = V3::Zero(); static const M3 E = M3::Identity();
static std::string W(const char *c, int i) { return std::string(c) + " index " + std::to_string(i); }
template <class A> static void priorA(const char *c, A &a, const V3 &t, const M3 &R) {
  check(eqm(a.gett(), t) && eqm(a.getR(), R), "prior pose not kept", c); V3 n = gvec(); M3 N = rrot(); a.sett(n);
  check(eqm(a.gett(), n) && eqm(a.getR(), R), "setting the translation", c); a.setR(N); check(eqm(a.gett(), n) && eqm(a.getR(), N), "setting the rotation", c);
}
template <class A> static void priorR(const char *c, A &a, const V3 &t, const M3 &R) {
  check(eqm(a.gett12(), t) && eqm(a.getR12(), R), "prior pose not kept", c); V3 n = gvec(); M3 N = rrot(); a.sett12(n);
  check(eqm(a.gett12(), n) && eqm(a.getR12(), R), "setting the translation", c); a.setR12(N); check(eqm(a.gett12(), n) && eqm(a.getR12(), N), "setting the rotation", c);
}
template <class A> static void absA(const char *c, A &a, size_t n, const bearingVectors_t &b, const points_t &p, const std::vector<int> *cc, const translations_t *o, const rotations_t *r) {
  check(a.getNumberCorrespondences() == n, "number of correspondences", c);
  for (size_t i = 0; i < n; i++) { std::string w = W(c, i);
    check(eqm(a.getBearingVector(i), b[i]), "bearing vector", w); check(eqm(a.getPoint(i), p[i]), "point", w); check(a.getWeight(i) == 1.0, "weight", w);
    check(eqm(a.getCamOffset(i), o ? (*o)[cc ? (*cc)[i] : i] : O), "camera offset", w); check(eqm(a.getCamRotation(i), r ? (*r)[(*cc)[i]] : E), "camera rotation", w); }
}
template <class A> static void relA(const char *c, A &a, size_t n, const bearingVectors_t &b1, const bearingVectors_t &b2, const std::vector<double> *wt, const std::vector<int> *c1, const std::vector<int> *c2, const translations_t *o, const translations_t *o2, const rotations_t *r) {
  check(a.getNumberCorrespondences() == n, "number of correspondences", c);
  for (size_t i = 0; i < n; i++) { std::string w = W(c, i);
    check(eqm(a.getBearingVector1(i), b1[i]), "bearing vector 1", w); check(eqm(a.getBearingVector2(i), b2[i]), "bearing vector 2", w); check(a.getWeight(i) == (wt ? (*wt)[i] : 1.0), "weight", w);
    check(eqm(a.getCamOffset1(i), o ? (*o)[c1 ? (*c1)[i] : i] : O), "camera offset 1", w); check(eqm(a.getCamOffset2(i), o2 ? (*o2)[c2 ? (*c2)[i] : i] : O), "camera offset 2", w);
    check(eqm(a.getCamRotation1(i), r ? (*r)[(*c1)[i]] : E), "camera rotation 1", w); check(eqm(a.getCamRotation2(i), r ? (*r)[(*c2)[i]] : E), "camera rotation 2", w); }
}
static std::vector<double> flat(const std::vector<V3, Eigen::aligned_allocator<V3> > &v) { std::vector<double> o; for (auto &x : v) for (int j = 0; j < 3; j++) o.push_back(x[j]); return o; }
static std::vector<double> flat6(const bearingVectors_t &v, const translations_t &t) { std::vector<double> o; for (size_t i = 0; i < v.size(); i++) { for (int j = 0; j < 3; j++) o.push_back(v[i][j]); for (int j = 0; j < 3; j++) o.push_back(t[i][j]); } return o; }
// conversion between (camera, index) and serialized index, both directions, and lists
template <class A, class B> static void serial(const char *c, A &a, B &flat, const std::vector<int> &n, std::function<int(int)> cam, const std::string &d) {
  int tot = 0; std::vector<std::vector<int> > lst; std::vector<int> want;
  for (size_t f = 0; f < n.size(); f++) { lst.push_back(std::vector<int>());
    check((int)a.getNumberCorrespondences(f) == n[f], std::string(c) + ": number of correspondences of a camera", d);
    for (int k = 0; k < n[f]; k++) { int s = a.convertMultiIndex(f, k);
      check(s == tot, std::string(c) + ": serialized index", d); check(cam(s) == (int)f && a.multiCorrespondenceIndex(s) == k, std::string(c) + ": serialized index is not converted back", d); tot++; }
    for (int k = 0; n[f] && k < irand(0, 4); k++) { int q = irand(0, n[f] - 1); lst[f].push_back(q); want.push_back(a.convertMultiIndex(f, q)); } }
  check((int)flat.getNumberCorrespondences() == tot, std::string(c) + ": total number of correspondences", d);
  check(a.convertMultiIndices(lst) == want, std::string(c) + ": list of serialized indices", d);
}
int main(int argc, char **argv) {
  start(argc, argv);
  for (int cs = 0; cs < n_cases(60, 2000); cs++) {
    int n = irand(1, 9), m = irand(1, 4); DIST++;
    bearingVectors_t b1 = dirs(n), b2 = dirs(n); points_t p = pts(n), q = pts(n); translations_t o = offs(m); rotations_t r = rots(m); std::vector<int> c1 = cams(n, m), c2 = cams(n, m);
    V3 t = gvec(); M3 R = rrot(); std::vector<double> w; for (int i = 0; i < n; i++) w.push_back(uni(0, 1));
    at("n=" + std::to_string(n));
    { absolute_pose::CentralAbsoluteAdapter a(b1, p), b(b1, p, R), c(b1, p, t, R); absA("CentralAbsolute", a, n, b1, p, 0, 0, 0); absA("CentralAbsolute", c, n, b1, p, 0, 0, 0); priorA("CentralAbsolute", a, O, E); priorA("CentralAbsolute(R)", b, O, R); priorA("CentralAbsolute(t,R)", c, t, R); }
    { absolute_pose::NoncentralAbsoluteAdapter a(b1, c1, p, o, r), b(b1, c1, p, o, r, R), c(b1, c1, p, o, r, t, R); absA("NoncentralAbsolute", a, n, b1, p, &c1, &o, &r); absA("NoncentralAbsolute", b, n, b1, p, &c1, &o, &r); absA("NoncentralAbsolute", c, n, b1, p, &c1, &o, &r); priorA("NoncentralAbsolute", a, O, E); priorA("NoncentralAbsolute(R)", b, O, R); priorA("NoncentralAbsolute(t,R)", c, t, R); }
    { relative_pose::CentralRelativeAdapter a(b1, b2), b(b1, b2, R), c(b1, b2, t, R); relA("CentralRelative", a, n, b1, b2, 0, 0, 0, 0, 0, 0); relA("CentralRelative", c, n, b1, b2, 0, 0, 0, 0, 0, 0); priorR("CentralRelative", a, O, E); priorR("CentralRelative(R)", b, O, R); priorR("CentralRelative(t,R)", c, t, R); }
    { relative_pose::CentralRelativeWeightingAdapter a(b1, b2, w), b(b1, b2, w, R), c(b1, b2, w, t, R); relA("CentralRelativeWeighting", a, n, b1, b2, &w, 0, 0, 0, 0, 0); relA("CentralRelativeWeighting", c, n, b1, b2, &w, 0, 0, 0, 0, 0); priorR("CentralRelativeWeighting", a, O, E); priorR("CentralRelativeWeighting(R)", b, O, R); priorR("CentralRelativeWeighting(t,R)", c, t, R); }
    { relative_pose::NoncentralRelativeAdapter a(b1, b2, c1, c2, o, r), b(b1, b2, c1, c2, o, r, R), c(b1, b2, c1, c2, o, r, t, R); relA("NoncentralRelative", a, n, b1, b2, 0, &c1, &c2, &o, &o, &r); relA("NoncentralRelative", b, n, b1, b2, 0, &c1, &c2, &o, &o, &r); relA("NoncentralRelative", c, n, b1, b2, 0, &c1, &c2, &o, &o, &r); priorR("NoncentralRelative", a, O, E); priorR("NoncentralRelative(R)", b, O, R); priorR("NoncentralRelative(t,R)", c, t, R); }
    { point_cloud::PointCloudAdapter a(p, q), b(p, q, R), c(p, q, t, R); for (auto x : {&a, &b, &c}) { check(x->getNumberCorrespondences() == (size_t)n, "number of correspondences", "PointCloud"); for (int i = 0; i < n; i++) check(eqm(x->getPoint1(i), p[i]) && eqm(x->getPoint2(i), q[i]) && x->getWeight(i) == 1.0, "point cloud data", W("PointCloud", i)); } priorR("PointCloud", a, O, E); priorR("PointCloud(R)", b, O, R); priorR("PointCloud(t,R)", c, t, R); }
    { std::vector<double> f1 = flat(b1), f2 = flat(b2), g1 = flat(p), g2 = flat(q); translations_t o1 = offs(n), o2 = offs(n); std::vector<double> s1 = flat6(b1, o1), s2 = flat6(b2, o2);
      absolute_pose::MACentralAbsolute a(g1.data(), f1.data(), n, n); absA("MACentralAbsolute", a, n, b1, p, 0, 0, 0); priorA("MACentralAbsolute", a, O, E);
      absolute_pose::MANoncentralAbsolute b(g1.data(), s1.data(), n, n); absA("MANoncentralAbsolute", b, n, b1, p, 0, &o1, 0); priorA("MANoncentralAbsolute", b, O, E);
      relative_pose::MACentralRelative c(f1.data(), f2.data(), n, n); relA("MACentralRelative", c, n, b1, b2, 0, 0, 0, 0, 0, 0); priorR("MACentralRelative", c, O, E);
      relative_pose::MANoncentralRelative d(s1.data(), s2.data(), n, n); relA("MANoncentralRelative", d, n, b1, b2, 0, 0, 0, &o1, &o2, 0); priorR("MANoncentralRelative", d, O, E);
      point_cloud::MAPointCloud e(g1.data(), g2.data(), n, n); check(e.getNumberCorrespondences() == (size_t)n, "number of correspondences", "MAPointCloud"); for (int i = 0; i < n; i++) check(eqm(e.getPoint1(i), p[i]) && eqm(e.getPoint2(i), q[i]) && e.getWeight(i) == 1.0, "point cloud data", W("MAPointCloud", i)); priorR("MAPointCloud", e, O, E); }
    // cameras with different numbers of correspondences, also none
    std::vector<int> k; for (int f = 0; f < m; f++) k.push_back(irand(0, 5)); std::string d = "counts=" + strv(k); at(d); sample(d);
    std::vector<std::shared_ptr<bearingVectors_t> > B1, B2; std::vector<std::shared_ptr<points_t> > P;
    for (int f = 0; f < m; f++) { B1.push_back(std::make_shared<bearingVectors_t>(dirs(k[f]))); B2.push_back(std::make_shared<bearingVectors_t>(dirs(k[f]))); P.push_back(std::make_shared<points_t>(pts(k[f]))); }
    { absolute_pose::NoncentralAbsoluteMultiAdapter a(B1, P, o, r); serial("NoncentralAbsoluteMulti", a, (absolute_pose::AbsoluteAdapterBase &)a, k, [&](int s) { return a.multiFrameIndex(s); }, d); check((int)a.getNumberFrames() == m, "number of cameras", d); absolute_pose::AbsoluteAdapterBase &g = a; int s = 0;
      for (int f = 0; f < m; f++) { check(eqm(a.getMultiCamOffset(f), o[f]) && eqm(a.getMultiCamRotation(f), r[f]), "camera of the rig", d); for (int i = 0; i < k[f]; i++, s++)
        check(eqm(a.getBearingVector(f, i), (*B1[f])[i]) && eqm(a.getPoint(f, i), (*P[f])[i]) && a.getWeight(f, i) == 1.0 && eqm(g.getBearingVector(s), (*B1[f])[i]) && eqm(g.getPoint(s), (*P[f])[i]) && g.getWeight(s) == 1.0 && eqm(g.getCamOffset(s), o[f]) && eqm(g.getCamRotation(s), r[f]), "multi-camera absolute data", d); }
      priorA("NoncentralAbsoluteMulti", a, O, E); }
    auto rel = [&](const char *c, relative_pose::RelativeMultiAdapterBase &a, bool rig) { serial(c, a, (relative_pose::RelativeAdapterBase &)a, k, [&](int s) { return a.multiPairIndex(s); }, d); check((int)a.getNumberPairs() == m, "number of camera pairs", d); relative_pose::RelativeAdapterBase &g = a; int s = 0;
      for (int f = 0; f < m; f++) { V3 of = rig ? o[f] : O; M3 rf = rig ? r[f] : E; if (std::string(c) == "MANoncentralRelativeMulti") of = o[f]; check(eqm(a.getCamOffset(f), of) && eqm(a.getCamRotation(f), rf), std::string(c) + ": camera of the rig", d); for (int i = 0; i < k[f]; i++, s++)
        check(eqm(a.getBearingVector1(f, i), (*B1[f])[i]) && eqm(a.getBearingVector2(f, i), (*B2[f])[i]) && a.getWeight(f, i) == 1.0 && eqm(g.getBearingVector1(s), (*B1[f])[i]) && eqm(g.getBearingVector2(s), (*B2[f])[i]) && g.getWeight(s) == 1.0 && eqm(g.getCamOffset1(s), of) && eqm(g.getCamOffset2(s), of) && eqm(g.getCamRotation1(s), rf) && eqm(g.getCamRotation2(s), rf), std::string(c) + ": data", d); }
      priorR(c, g, O, E); };
    { relative_pose::NoncentralRelativeMultiAdapter a(B1, B2, o, r); rel("NoncentralRelativeMulti", a, true); }
    { relative_pose::CentralRelativeMultiAdapter a(B1, B2); rel("CentralRelativeMulti", a, false); }
    { std::vector<std::vector<double> > x, y; for (int f = 0; f < m; f++) { x.push_back(flat(*B1[f])); y.push_back(flat(*B2[f])); x.back().push_back(0); y.back().push_back(0); } std::vector<double *> xp, yp; for (int f = 0; f < m; f++) { xp.push_back(x[f].data()); yp.push_back(y[f].data()); }
      std::vector<double> of = flat(o); relative_pose::MANoncentralRelativeMulti a(xp, yp, of.data(), k); rel("MANoncentralRelativeMulti", a, false); }
  }
  return finish();
}
