#include "h.hpp"
#include <climits>
#include <limits>
#include <algorithm>
#include <functional>
#include <map>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
// Scripted problems: what every draw yields is prescribed, what happened is logged.
struct VModel { int id; };
struct Draw { int kind; int id; std::vector<int> s; };            // kind 0: model, 1: no model, 2: no sample
struct Script { std::vector<int> kinds; int pool, base, n, sz; std::vector<Draw> log; std::map<int, std::vector<double>> dist; unsigned long long salt; bool noDistances;
  double d(int id, int i) { unsigned long long h = salt ^ (id * 2654435761ull) ^ (i * 40503ull + 77); h ^= h >> 13; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; return (double)(h % pool) / 4.0; } };
static Script S;
struct P1 : opengv::sac::SampleConsensusProblem<VModel> {
  P1() : opengv::sac::SampleConsensusProblem<VModel>(false) {}
  void getSamples(int &it, std::vector<int> &s) { int k = S.log.size(); int kind = k < (int)S.kinds.size() ? S.kinds[k] : S.kinds.back(); Draw d; d.kind = kind; d.id = S.base + k;
    if (kind == 2) { s.clear(); it = INT_MAX; } else { s.clear(); for (int j = 0; j < S.sz; j++) s.push_back(1000 * (k + 1) + j); } d.s = s; S.log.push_back(d);
    if (S.log.size() > 4000000) { fail("the run does not terminate", LAST); std::cout.flush(); _exit(1); } }
  bool isSampleGood(const std::vector<int> &) const { return true; }
  int getSampleSize() const { return S.sz; }
  bool computeModelCoefficients(const std::vector<int> &ix, VModel &m) const { int k = ix[0] / 1000 - 1; if (S.log[k].kind != 0) { m.id = -5; return false; } m.id = S.log[k].id; return true; }
  void optimizeModelCoefficients(const std::vector<int> &, const VModel &m, VModel &o) { o = m; }
  void getSelectedDistancesToModel(const VModel &m, const std::vector<int> &ix, std::vector<double> &sc) const { if (S.noDistances) return; for (int i : ix) sc.push_back(S.d(m.id, i)); }
};
struct P2 : opengv::sac::MultiSampleConsensusProblem<VModel> {
  P2() : opengv::sac::MultiSampleConsensusProblem<VModel>(false) {}
  void getSamples(int &it, std::vector<std::vector<int>> &s) { int k = S.log.size(); int kind = k < (int)S.kinds.size() ? S.kinds[k] : S.kinds.back(); Draw d; d.kind = kind; d.id = S.base + k;
    s.clear(); if (kind == 2) it = INT_MAX; else { s.resize(2); for (int j = 0; j < S.sz; j++) { s[j % 2].push_back(1000 * (k + 1) + j); d.s.push_back(1000 * (k + 1) + j); } } S.log.push_back(d);
    if (S.log.size() > 4000000) { fail("the run does not terminate", LAST); std::cout.flush(); _exit(1); } }
  bool isSampleGood(const std::vector<std::vector<int>> &) const { return true; }
  std::vector<int> getSampleSizes() const { std::vector<int> v(2); v[0] = (S.sz + 1) / 2; v[1] = S.sz / 2; return v; }
  bool computeModelCoefficients(const std::vector<std::vector<int>> &ix, VModel &m) const { int k = ix[0][0] / 1000 - 1; if (S.log[k].kind != 0) { m.id = -5; return false; } m.id = S.log[k].id; return true; }
  void optimizeModelCoefficients(const std::vector<std::vector<int>> &, const VModel &m, VModel &o) { o = m; }
  void getSelectedDistancesToModel(const VModel &m, const std::vector<std::vector<int>> &ix, std::vector<std::vector<double>> &sc) const { for (size_t j = 0; j < ix.size(); j++) for (int i : ix[j]) sc[j].push_back(S.d(m.id, i)); }
};
static int MODE = 0;      // 1: C01, 2: C02
static void c01(bool ok, const std::string &w, const std::string &c) { if (MODE == 1) check(ok, w, c); }
static void c02(bool ok, const std::string &w, const std::string &c) { if (MODE == 2) check(ok, w, c); }
static void judge(const std::string &what, bool ret, const std::vector<int> &model, int id, const std::vector<int> &inl, const std::vector<int> &ix, double thr, int maxit, double prob, bool lmeds, const std::string &c) {
  std::vector<const Draw *> hyp; int fails = 0; bool none = false;
  for (auto &d : S.log) { if (d.kind == 0) hyp.push_back(&d); else if (d.kind == 1) fails++; else none = true; }
  bool scored = !lmeds || (!ix.empty() && !S.noDistances);
  if (lmeds && !scored) { fails += hyp.size(); hyp.clear(); }
  c01(ret == !hyp.empty(), what + ": success does not mean that this run found a model", c);
  if (!ret) { c01(inl.empty(), what + ": failure leaves inliers of an earlier run", c); }
  const Draw *b = 0; for (auto *h : hyp) if (h->s == model) b = h;
  if (ret && !hyp.empty()) {
    c01(b != 0, what + ": the stored sample was not drawn in this run", c + " stored=" + strv(model));
    c01(b && b->id == id, what + ": the stored model was not computed from the stored sample", c);
    std::vector<int> want; for (int i : ix) { double d = S.d(id, i); if (lmeds ? d <= thr : d < thr) want.push_back(i); }
    c01(inl == want, what + ": the inliers are not the correspondences within the threshold of the stored model", c + " inliers=" + strv(inl) + " expected=" + strv(want));
  }
  c02((int)hyp.size() <= maxit + 1, what + ": more hypotheses than the maximum number of iterations plus one", c);
  c02(fails <= 10 * maxit, what + ": more failed samples than ten times the maximum number of iterations", c);
  if (hyp.empty()) return;
  auto score = [&](int m) { if (!lmeds) { int n = 0; for (int i : ix) n += S.d(m, i) < thr; return -(double)n; }
    std::vector<double> v; for (int i : ix) { double d = S.d(m, i); v.push_back(d * d); } std::sort(v.begin(), v.end()); size_t mid = v.size() / 2; return v.size() % 2 ? v[mid] : (v[mid - 1] + v[mid]) / 2; };
  const Draw *best = hyp[0]; for (auto *h : hyp) if (score(h->id) < score(best->id)) best = h;
  c02(b && score(b->id) <= score(best->id), what + ": a better hypothesis was discarded", c);
  c02(b && (b == best), what + ": not the first of the best hypotheses", c);
  if (!lmeds && !none && (int)hyp.size() <= maxit && fails < 10 * maxit) {
    double w = -score(best->id) / (double)ix.size(), q = 1.0 - std::pow(w, (double)S.sz), e = std::numeric_limits<double>::epsilon(); q = std::min(1.0 - e, std::max(e, q));
    double k = std::log(1.0 - prob) / std::log(q);
    c02(hyp.size() >= k * (1 - 1e-9), what + ": stopped before the requested confidence was reached", c + " needed=" + str(k));
  }
}
int main(int argc, char **argv) {
  start(argc, argv); MODE = argc > 3 ? atoi(argv[3]) : 1;
  freopen("/dev/null", "w", stderr);
  int n = n_cases(4000, 60000);
  for (int s = 0; s < n; s++) {
    int kind = s % 3; int maxit = irand(0, s % 5 ? 12 : 60); double prob = s % 7 ? uni(0.05, 0.999) : 0.99; double thr = irand(0, 9) / 4.0 + (s % 4 ? 0.1 : 0);
    opengv::sac::Ransac<P1> r(maxit, thr, prob); opengv::sac::Lmeds<P1> l(maxit, thr, prob); opengv::sac::MultiRansac<P2> m(maxit, thr, prob);
    auto p = std::make_shared<P1>(); auto p2 = std::make_shared<P2>();
    int runs = irand(1, 3);
    for (int q = 0; q < runs; q++) {
      S.log.clear(); S.noDistances = kind == 1 && irand(0, 19) == 0; S.kinds.clear(); S.base = 10000 * (q + 1); S.salt = RNG(); S.pool = irand(1, 12); S.sz = irand(1, 5); int N = irand(kind == 1 ? 0 : 1, 11);
      int style = irand(0, 5), L = irand(1, 40); for (int k = 0; k < L; k++) S.kinds.push_back(style == 0 ? 0 : style == 1 ? 1 : style == 2 ? (irand(0, 9) < 8 ? 1 : 0) : style == 3 ? (irand(0, 9) < 3) : style == 4 ? (k < L - 1 ? irand(0, 1) : 2) : (k == 0 && irand(0, 1) ? 2 : irand(0, 1)));
      std::vector<int> ix; for (int i = 0; i < N; i++) ix.push_back(3 * i + irand(0, 2)); for (int i = 0; i < N; i++) std::swap(ix[i], ix[irand(0, N - 1)]);
      std::string c = "run " + std::to_string(q + 1) + " on the same object, max_iterations=" + std::to_string(maxit) + " threshold=" + str(thr) + " probability=" + str(prob) + " sample size=" + std::to_string(S.sz) + " draws=" + strv(S.kinds) + " indices=" + strv(ix); at(c);
      if (kind == 0) { p->setIndices(ix); r.sac_model_ = p; bool ok = r.computeModel(irand(0, 40) == 0 ? 0 : 0); judge("RANSAC", ok, r.model_, r.model_coefficients_.id, r.inliers_, ix, thr, maxit, prob, false, c); }
      else if (kind == 1) { if (irand(0, 9) == 0 && q) { double keep = l.threshold_; l.threshold_ = std::numeric_limits<double>::max(); p->setIndices(ix); l.sac_model_ = p; bool ok = l.computeModel(0); c01(!ok && l.inliers_.empty(), "LMedS: a run without threshold leaves inliers of an earlier run", c); l.threshold_ = keep; }
        S.log.clear(); p->setIndices(ix); l.sac_model_ = p; bool ok = l.computeModel(0); judge("LMedS", ok, l.model_, l.model_coefficients_.id, l.inliers_, ix, thr, maxit, prob, true, c); }
      else { std::vector<std::vector<int>> mi(2); std::vector<int> flat, fi; for (int i : ix) mi[i % 2].push_back(i); for (auto &v : mi) for (int i : v) flat.push_back(i); p2->setIndices(mi); m.sac_model_ = p2; bool ok = m.computeModel(0);
        std::vector<int> mf; size_t z = 0; for (auto &v : m.model_) z = std::max(z, v.size()); for (size_t j = 0; j < z; j++) for (auto &v : m.model_) if (j < v.size()) mf.push_back(v[j]);
        for (auto &v : m.inliers_) for (int i : v) fi.push_back(i);
        bool shape = m.inliers_.empty() || m.inliers_.size() == 2; if (ok) for (size_t j = 0; shape && j < m.inliers_.size(); j++) for (int i : m.inliers_[j]) shape = shape && (i % 2) == (int)j; c01(shape, "multi-camera RANSAC: an inlier is listed under the wrong camera", c);
        judge("multi-camera RANSAC", ok, mf, m.model_coefficients_.id, fi, flat, thr, maxit, prob, false, c); }
      DIST++;
    }
  }
  sample("scripted draws (models, failed samples, impossible samples) and distance tables; up to three runs per object");
  return finish();
}
