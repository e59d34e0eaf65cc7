#include "h.hpp"
#include <functional>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
using namespace opengv;
typedef std::vector<double> D; typedef std::vector<int> L;
template <typename M> static void put(D &d, const Eigen::MatrixBase<M> &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) { d.push_back(std::real(m(i, j))); d.push_back(std::imag(m(i, j))); } }
template <typename M, typename A> static void put(D &d, const std::vector<M, A> &v) { d.push_back(v.size()); for (auto &m : v) put(d, m); }
template <typename M> static D flat(const M &m) { D d; put(d, m); return d; }
// the same calls on the listed data, with and without a list; any disagreement is reported
static void same(const std::string &what, const std::string &c, std::function<D()> a, std::function<D()> b) {
  std::string cc = what + " " + c; at(cc); srand(7); D x = a(); srand(7); D y = b(); bool ok = x.size() == y.size();
  for (size_t i = 0; ok && i < x.size(); i++) ok = (x[i] != x[i] && y[i] != y[i]) || x[i] == y[i] || std::fabs(x[i] - y[i]) <= 1e-9 * (1 + std::fabs(x[i]));
  check(ok, what + ": differs from the call on the listed data alone", cc + " list=" + strv(x).substr(0, 300) + " alone=" + strv(y).substr(0, 300));
}
template <typename B> struct Weighted : B { D w; template <typename... X> Weighted(const D &w_, X &&...x) : B(std::forward<X>(x)...), w(w_) {} double getWeight(size_t i) const { return w[i]; } };
int main(int argc, char **argv) {
  start(argc, argv);
  int n = n_cases(160, 4000);
  for (int s = 0; s < n; s++) {
    // the exact sizes some solvers need, larger ones, and the edge of every minimum
    int k = s % 7 == 0 ? 5 : s % 7 == 1 ? 6 : s % 7 == 2 ? 7 : s % 7 == 3 ? 8 : s % 7 == 4 ? 17 : irand(6, 24), N = k + irand(0, 12), cams = irand(1, 4);
    double noise = s % 2 ? 1e-3 : 0;
    M3 R = smallrot(0.5); V3 t = gvec() * 0.5; translations_t off; rotations_t rots; rig(off, rots, cams, 0.5);
    auto bend = [&](V3 v) { return V3((v.normalized() + noise * gvec()).normalized()); };
    points_t P, Q; bearingVectors_t f, g, f1, f2, g1, g2; L c1, c2;
    for (int i = 0; i < N; i++) {
      V3 p = gvec() * 2 + V3(0, 0, 6); int a = irand(0, cams - 1), b = irand(0, cams - 1); c1.push_back(a); c2.push_back(b); P.push_back(p);
      V3 q = R.transpose() * (p - t); Q.push_back(q + noise * gvec());
      f.push_back(bend(q)); g.push_back(bend(rots[a].transpose() * (q - off[a])));
      f1.push_back(bend(p)); f2.push_back(bend(q)); g1.push_back(bend(rots[a].transpose() * (p - off[a]))); g2.push_back(bend(rots[b].transpose() * (q - off[b])));
    }
    L ix; for (int i = 0; i < N; i++) ix.push_back(i); for (int i = N - 1; i > 0; i--) std::swap(ix[i], ix[irand(0, i)]); ix.resize(k);
    if (s % 11 == 5) for (int i = 0; i < k; i++) ix[i] = i;                      // a prefix
    if (s % 11 == 7) for (int i = 0; i < k; i++) ix[i] = N - 1 - i;              // from the end
    if (s % 11 == 9 && k > 9) ix[k - 1] = ix[0];                                 // one twice
    D w, wk; for (int i = 0; i < N; i++) w.push_back(uni(0.2, 3)); for (int i : ix) wk.push_back(w[i]);
    points_t Pk, Qk; bearingVectors_t fk, gk, f1k, f2k, g1k, g2k; L c1k, c2k;
    for (int i : ix) { Pk.push_back(P[i]); Qk.push_back(Q[i]); fk.push_back(f[i]); gk.push_back(g[i]); f1k.push_back(f1[i]); f2k.push_back(f2[i]); g1k.push_back(g1[i]); g2k.push_back(g2[i]); c1k.push_back(c1[i]); c2k.push_back(c2[i]); }
    std::string c = "correspondences=" + std::to_string(N) + " indices=" + strv(ix) + " R=" + str(R) + " t=" + str(t);
    M3 Rp = R * smallrot(0.1); V3 tp = t + 0.1 * gvec();
    { absolute_pose::CentralAbsoluteAdapter A(f, P, tp, Rp), B(fk, Pk, tp, Rp);
#define M2(x) same(#x, c, [&] { return flat(absolute_pose::x(A, ix)); }, [&] { return flat(absolute_pose::x(B)); });
      M2(p2p) M2(p3p_kneip) M2(p3p_gao) if (k > 5) { M2(epnp) M2(optimize_nonlinear) }
#undef M2
    }
    { absolute_pose::NoncentralAbsoluteAdapter A(g, c1, P, off, rots, tp, Rp), B(gk, c1k, Pk, off, rots, tp, Rp);
#define M2(x) same("rig " #x, c, [&] { return flat(absolute_pose::x(A, ix)); }, [&] { return flat(absolute_pose::x(B)); });
      M2(gp3p) if (k > 5) { M2(gpnp) M2(optimize_nonlinear) } if (s % 4 == 0) { M2(upnp) }
#undef M2
    }
    { Weighted<relative_pose::CentralRelativeAdapter> A(w, f1, f2, tp, Rp), B(wk, f1k, f2k, tp, Rp);
#define M2(x) same(#x, c, [&] { return flat(relative_pose::x(A, ix)); }, [&] { return flat(relative_pose::x(B)); });
      for (int u = 0; u < 2; u++) same("twopt", c, [&] { return flat(relative_pose::twopt(A, u != 0, ix)); }, [&] { return flat(relative_pose::twopt(B, u != 0)); });
      M2(twopt_rotationOnly) M2(rotationOnly) if (k < 9) { M2(fivept_stewenius) M2(fivept_nister) } if (k == 7) { M2(sevenpt) } if (k > 7) { M2(eightpt) }
      if (k == 5) { L id; for (int i = 0; i < k; i++) id.push_back(i); same("fivept_kneip", c, [&] { return flat(relative_pose::fivept_kneip(A, ix)); }, [&] { return flat(relative_pose::fivept_kneip(B, id)); }); }
      if (k > 5) for (int w = 0; w < 2; w++) {
        same("eigensolver", c, [&] { return flat(relative_pose::eigensolver(A, ix, w != 0)); }, [&] { return flat(relative_pose::eigensolver(B, w != 0)); });
        eigensolverOutput_t o1, o2; o1.rotation = o2.rotation = Rp;
        same("eigensolver with output", c, [&] { D d = flat(relative_pose::eigensolver(A, ix, o1, w != 0)); put(d, o1.translation); put(d, o1.rotation); put(d, o1.eigenvalues); return d; }, [&] { D d = flat(relative_pose::eigensolver(B, o2, w != 0)); put(d, o2.translation); put(d, o2.rotation); put(d, o2.eigenvalues); return d; });
      }
      if (k > 5) { M2(optimize_nonlinear) check((A.getR12() - B.getR12()).norm() <= 1e-9 && (A.gett12() - B.gett12()).norm() <= 1e-9, "optimize_nonlinear: leaves another prior in the adapter", c); }
#undef M2
    }
    { Weighted<relative_pose::NoncentralRelativeAdapter> A(w, g1, g2, c1, c2, off, rots, tp, Rp), B(wk, g1k, g2k, c1k, c2k, off, rots, tp, Rp);
#define M2(x) same("rig " #x, c, [&] { return flat(relative_pose::x(A, ix)); }, [&] { return flat(relative_pose::x(B)); });
      if (k == 6 && s % 2 == 0) { M2(sixpt) } if (k > 16) { M2(seventeenpt) }
      if (k > 5) for (int w = 0; w < 2; w++) same("rig ge", c, [&] { return flat(relative_pose::ge(A, ix, w != 0)); }, [&] { return flat(relative_pose::ge(B, w != 0)); });
      if (k > 5) { M2(optimize_nonlinear) }
#undef M2
    }
    { point_cloud::PointCloudAdapter A(P, Q, tp, Rp), B(Pk, Qk, tp, Rp);
#define M2(x) same("point cloud " #x, c, [&] { return flat(point_cloud::x(A, ix)); }, [&] { return flat(point_cloud::x(B)); });
      M2(threept_arun) M2(optimize_nonlinear)
#undef M2
    }
    DIST++;
  }
  sample("5 to 36 correspondences, random rigs, index lists: permutations, prefixes, reversed, with a repetition");
  return finish();
}
