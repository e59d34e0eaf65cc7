#include "h.hpp"
#include <climits>
#include <algorithm>
#include <map>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
using namespace opengv;
static int FIXED = -1; static unsigned long long RS = 88172645463325252ull;
extern "C" int rand() noexcept { if (FIXED >= 0) return FIXED; RS ^= RS << 13; RS ^= RS >> 7; RS ^= RS << 17; return (int)(RS >> 33); }
struct VM { int id; };
template <typename IX> struct Verdict { static bool good(const IX &) { return true; } };
static int BADUNTIL = 0, CALLS = 0;
struct P1 : sac::SampleConsensusProblem<VM> {
  int sz; P1(int z) : sac::SampleConsensusProblem<VM>(false), sz(z) {}
  bool isSampleGood(const std::vector<int> &) const { return CALLS++ >= BADUNTIL; }
  int getSampleSize() const { return sz; }
  bool computeModelCoefficients(const std::vector<int> &, VM &) const { return false; }
  void optimizeModelCoefficients(const std::vector<int> &, const VM &, VM &) {}
  void getSelectedDistancesToModel(const VM &, const std::vector<int> &, std::vector<double> &) const {}
};
struct P2 : sac::MultiSampleConsensusProblem<VM> {
  std::vector<int> sz; P2(std::vector<int> z) : sac::MultiSampleConsensusProblem<VM>(false), sz(z) {}
  bool isSampleGood(const std::vector<std::vector<int>> &) const { return CALLS++ >= BADUNTIL; }
  std::vector<int> getSampleSizes() const { return sz; }
  bool computeModelCoefficients(const std::vector<std::vector<int>> &, VM &) const { return false; }
  void optimizeModelCoefficients(const std::vector<std::vector<int>> &, const VM &, VM &) {}
  void getSelectedDistancesToModel(const VM &, const std::vector<std::vector<int>> &, std::vector<std::vector<double>> &) const {}
};
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
static bool subset(const std::vector<int> &s, const std::vector<int> &ix) { std::map<int, int> m; for (int i : ix) m[i]++; for (int i : s) if (--m[i] < 0) return false; return true; }
static void single() {
  int n = n_cases(400, 8000);
  for (int q = 0; q < n; q++) {
    int N = irand(0, 9), z = irand(0, 10); std::vector<int> ix; bool uniform = q % 4 == 0;
    for (int i = 0; i < N; i++) ix.push_back(uniform ? i : irand(-3, 40));
    if (q % 5) { std::sort(ix.begin(), ix.end()); ix.erase(std::unique(ix.begin(), ix.end()), ix.end()); std::shuffle(ix.begin(), ix.end(), RNG); }
    if (uniform) { ix.clear(); for (int i = 0; i < N; i++) ix.push_back(i); }
    P1 p(z); if (uniform) p.setUniformIndices(N); else p.setIndices(ix);
    std::string c = "indices=" + strv(ix) + " sample size=" + str((double)z);
    std::vector<int> s(irand(0, 3), 7);
    for (int d = 0; d < 12; d++) {
      BADUNTIL = d % 4 == 3 ? irand(0, 12) : 0; CALLS = 0; int it = d; std::string cc = c + " rejected=" + str((double)BADUNTIL); at(cc);
      p.getSamples(it, s);
      if ((int)ix.size() < z) check(s.empty() && it == INT_MAX, "a set that is too small does not stop the draw", cc);
      else if (BADUNTIL >= p.max_sample_checks_) check(s.empty() && it == d, "a sample that is not acceptable is handed out", cc);
      else { check((int)s.size() == z && it == d, "the sample does not have the required size", cc + " sample=" + strv(s)); check(subset(s, ix), "the sample is not made of distinct positions of the index set", cc + " sample=" + strv(s)); }
      check(sorted(p.shuffled_indices_) == sorted(ix), "drawing changed the contents of the pool", cc + " pool=" + strv(p.shuffled_indices_));
      check(*p.indices_ == ix, "drawing changed the index set", cc);
      check(p.rnd() >= 0, "negative random number", cc);
    }
    DIST++;
  }
  for (int N = 1; N <= 5; N++) for (int z = 1; z <= std::min(N, 3); z++) {
    P1 p(z); p.setUniformIndices(N); std::set<std::vector<int>> seen; int it = 0; std::vector<int> s; BADUNTIL = 0;
    for (int d = 0; d < 4000; d++) { p.getSamples(it, s); seen.insert(s); }
    int want = 1; for (int k = 0; k < z; k++) want *= N - k;
    check((int)seen.size() == want, "some ordered sample is never drawn", "N=" + str((double)N) + " size=" + str((double)z) + " different samples in 4000 draws: " + str((double)seen.size()));
  }
}
static void multi() {
  int n = n_cases(300, 6000);
  for (int q = 0; q < n; q++) {
    int cams = irand(1, 4); std::vector<std::vector<int>> ix(cams); std::vector<int> z; bool uniform = q % 4 == 0;
    for (int k = 0; k < cams; k++) { int N = irand(0, 6); for (int i = 0; i < N; i++) ix[k].push_back(i * 2 + 10 * k); std::shuffle(ix[k].begin(), ix[k].end(), RNG); if (uniform) for (int i = 0; i < N; i++) ix[k][i] = i; z.push_back(q % 3 ? irand(0, N) : irand(0, 6)); }
    P2 p(z); std::vector<int> Ns; for (auto &v : ix) Ns.push_back(v.size());
    if (uniform) p.setUniformIndices(Ns); else p.setIndices(ix);
    std::string c = "sizes=" + strv(z); for (auto &v : ix) c += " " + strv(v);
    bool fits = true; for (int k = 0; k < cams; k++) fits = fits && z[k] <= (int)ix[k].size();
    std::vector<std::vector<int>> s;
    for (int d = 0; d < 8; d++) {
      BADUNTIL = d % 4 == 3 ? irand(0, 12) : 0; CALLS = 0; int it = d; at(c);
      p.getSamples(it, s);
      if (!fits) check(s.empty() && it == INT_MAX, "multi: a set that is too small does not stop the draw", c);
      else if (BADUNTIL >= p.max_sample_checks_) check(s.empty() && it == d, "multi: a sample that is not acceptable is handed out", c);
      else { bool a = (int)s.size() == cams && it == d, b = a; for (int k = 0; a && k < cams; k++) { a = (int)s[k].size() == z[k]; b = b && subset(s[k], ix[k]); }
        check(a, "multi: a sample does not have the required size", c); check(b, "multi: a sample is not made of distinct positions of its camera's index set", c); }
      bool pool = (int)p.shuffled_indices_.size() == cams; for (int k = 0; pool && k < cams; k++) pool = sorted(p.shuffled_indices_[k]) == sorted(ix[k]);
      check(pool, "multi: drawing changed the contents of a pool", c);
      check(*p.indices_ == ix, "multi: drawing changed the index set", c);
      check(p.rnd() >= 0, "negative random number", c);
    }
    DIST++;
  }
  for (int N = 1; N <= 4; N++) for (int z = 1; z <= std::min(N, 2); z++) {
    std::vector<int> zz(2, z); P2 p(zz); p.setUniformIndices(std::vector<int>(2, N)); std::set<std::vector<int>> seen[2]; int it = 0; std::vector<std::vector<int>> s; BADUNTIL = 0;
    for (int d = 0; d < 2000; d++) { p.getSamples(it, s); if (s.size() == 2) for (int k = 0; k < 2; k++) seen[k].insert(s[k]); }
    int want = 1; for (int k = 0; k < z; k++) want *= N - k;
    for (int k = 0; k < 2; k++) check((int)seen[k].size() == want, "multi: some ordered sample is never drawn", "N=" + str((double)N) + " size=" + str((double)z));
  }
}
template <typename P> static void sizes(const char *w, P &p, size_t cams, int total) {
  static const int R[] = {0, 1, INT_MAX, INT_MAX - 1, INT_MAX / 2, INT_MAX / 3, INT_MAX / 3 * 2, -1};
  for (int k = 0; k < 40; k++) {
    FIXED = k < 8 ? R[k] : -1; std::string c = std::string(w) + " cameras=" + str((double)cams) + " rand()=" + (FIXED < 0 ? std::string("any") : str((double)FIXED)); at(c);
    std::vector<int> z = p.getSampleSizes(); int sum = 0; bool neg = false; for (int x : z) { sum += x; neg = neg || x < 0; }
    check(z.size() == cams, "not one sample size per camera", c); check(!neg, "negative sample size", c);
    check(sum == total, "the sample sizes do not add up to what the solver needs", c + " sizes=" + strv(z));
  }
  FIXED = -1;
}
static void concrete() {
  bearingVectors_t f(20, V3(0, 0, 1)); points_t P(20, V3(0, 0, 1)); std::vector<int> c0(20, 0); translations_t o1(1, V3(0, 0, 0)); rotations_t r1(1, M3::Identity());
  typedef sac_problems::absolute_pose::AbsolutePoseSacProblem A; typedef sac_problems::relative_pose::CentralRelativePoseSacProblem C; typedef sac_problems::relative_pose::NoncentralRelativePoseSacProblem NR;
  typedef sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem MR;
  absolute_pose::CentralAbsoluteAdapter aa(f, P); relative_pose::CentralRelativeAdapter ra(f, f); relative_pose::NoncentralRelativeAdapter na(f, f, c0, c0, o1, r1); point_cloud::PointCloudAdapter pa(P, P);
  auto one = [&](const char *w, const int got, int want) { check(got == want, "wrong sample size", std::string(w) + ": " + str((double)got) + " instead of " + str((double)want)); };
  one("TWOPT", A(aa, A::TWOPT, false).getSampleSize(), 2); one("KNEIP", A(aa, A::KNEIP, false).getSampleSize(), 4); one("GAO", A(aa, A::GAO, false).getSampleSize(), 4); one("EPNP", A(aa, A::EPNP, false).getSampleSize(), 6); one("GP3P", A(aa, A::GP3P, false).getSampleSize(), 4);
  one("STEWENIUS", C(ra, C::STEWENIUS, false).getSampleSize(), 8); one("NISTER", C(ra, C::NISTER, false).getSampleSize(), 8); one("SEVENPT", C(ra, C::SEVENPT, false).getSampleSize(), 9); one("EIGHTPT", C(ra, C::EIGHTPT, false).getSampleSize(), 9);
  one("SIXPT", NR(na, NR::SIXPT, false, false).getSampleSize(), 9); one("GE", NR(na, NR::GE, false, false).getSampleSize(), 8); one("SEVENTEENPT", NR(na, NR::SEVENTEENPT, false, false).getSampleSize(), 17); one("as central", NR(na, NR::SEVENTEENPT, true, false).getSampleSize(), 8);
  one("rotation only", sac_problems::relative_pose::RotationOnlySacProblem(ra, false).getSampleSize(), 2); one("translation only", sac_problems::relative_pose::TranslationOnlySacProblem(ra, false).getSampleSize(), 2);
  one("point cloud", sac_problems::point_cloud::PointCloudSacProblem(pa, false).getSampleSize(), 3); one("eigensolver", sac_problems::relative_pose::EigensolverSacProblem(ra, 11, false).getSampleSize(), 11);
  for (size_t cams = 1; cams <= 25; cams++) {
    std::vector<std::shared_ptr<bearingVectors_t>> m; std::vector<std::shared_ptr<points_t>> q; translations_t o; rotations_t r; std::vector<std::vector<int>> ix(cams);
    for (size_t k = 0; k < cams; k++) { m.push_back(std::make_shared<bearingVectors_t>(f)); q.push_back(std::make_shared<points_t>(P)); o.push_back(V3(0, 0, 0)); r.push_back(M3::Identity()); }
    absolute_pose::NoncentralAbsoluteMultiAdapter ma(m, q, o, r); relative_pose::NoncentralRelativeMultiAdapter mr(m, m, o, r); relative_pose::CentralRelativeMultiAdapter mc(m, m);
    { sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem p(ma); sizes("multi absolute", p, cams, 4); }
    { sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem p(ma, true); sizes("multi absolute as central", p, cams, 4); }
    { MR p(mr, MR::SIXPT, false, false); sizes("multi SIXPT", p, cams, 9); } { MR p(mr, MR::GE, false, false); sizes("multi GE", p, cams, 8); } { MR p(mr, MR::SEVENTEENPT, false, false); sizes("multi SEVENTEENPT", p, cams, 17); } { MR p(mr, MR::GE, true, false); sizes("multi as central", p, cams, 8); }
    { sac_problems::relative_pose::MultiCentralRelativePoseSacProblem p(mc, 6, false); std::vector<int> z = p.getSampleSizes(); check(z == std::vector<int>(cams, 6), "multi central: wrong sample sizes", strv(z)); }
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  single(); multi(); concrete();
  sample("index sets of 0..9 entries, sample sizes 0..10, rejected samples; rigs of 1..25 cameras with rand() at both ends of its range");
  return finish();
}
