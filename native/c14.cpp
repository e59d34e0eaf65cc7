// Bounded runs for C14: closed-form cubic and quartic roots, Sturm-based roots.
#include "h.hpp"
#include <opengv/math/roots.hpp>
#include <opengv/math/Sturm.hpp>
#include <algorithm>
#include <complex>
using namespace opengv;
typedef std::vector<double> VD;
typedef long double LD;
static VD mul(const VD &a, const VD &b) { VD r(a.size() + b.size() - 1, 0.0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static VD fromRoots(const VD &rs, double lead) { VD p(1, lead); for (double r : rs) { VD f; f.push_back(1); f.push_back(-r); p = mul(p, f); } return p; }
static double maxabs(const VD &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
// every true real root is among the returned values, to an accuracy that depends on its multiplicity
static void covers(const VD &got, const VD &roots, size_t n, double scale, const std::string &what, const std::string &c) {
  check(got.size() == n, what + ": number of values", c);
  for (double r : roots) {
    int m = 0; double gap = 1e300;
    for (double q : roots) { if (std::fabs(q - r) < 1e-12 * scale) m++; else gap = std::min(gap, std::fabs(q - r) / scale); }
    double tol = m >= 4 ? 2e-2 : m == 3 ? 2e-3 : m == 2 ? 1e-4 : 1e-6;
    double best = 1e300; for (double g : got) if (std::fabs(g - r) < best) best = std::fabs(g - r);
    if (gap < 0.02) tol = std::max(tol, 1e-3);
    if (!check(best <= tol * scale, what + ": a real root is missing", c + " root " + str(r) + " returned " + strv(got))) return;
  }
}
static VD some(int n) {   // n real roots of various patterns
  VD r; int mode = irand(0, 6);
  for (int i = 0; i < n; i++) {
    if (mode == 0) r.push_back(uni(-3, 3));
    else if (mode == 1) r.push_back(irand(-3, 3));
    else if (mode == 2) r.push_back(i && irand(0, 1) ? r[irand(0, i - 1)] : irand(-4, 4) * 0.5);
    else if (mode == 3) r.push_back(i % 2 ? -r[i - 1] : uni(0.2, 3));
    else if (mode == 4) r.push_back(i % 2 ? -r[i - 1] : irand(1, 3));
    else if (mode == 5) r.push_back(uni(-0.05, 0.05) + (irand(0, 1) ? 0 : 2));
    else r.push_back(irand(0, 1) ? 0 : uni(-2, 2));
  }
  return r;
}
static Eigen::MatrixXd col(const VD &p) { Eigen::MatrixXd m(p.size(), 1); for (size_t i = 0; i < p.size(); i++) m(i, 0) = p[i]; return m; }
static Eigen::MatrixXd row(const VD &p) { Eigen::MatrixXd m(1, p.size()); for (size_t i = 0; i < p.size(); i++) m(0, i) = p[i]; return m; }
static void both4(const VD &p, const VD &roots, double scale, const std::string &c) {
  VD a = math::o4_roots(p), b = math::o4_roots(col(p));
  covers(a, roots, 4, scale, "o4_roots (vector)", c); covers(b, roots, 4, scale, "o4_roots (matrix)", c);
}
static int distinct(VD &r, double gap) { std::sort(r.begin(), r.end()); for (size_t i = 1; i < r.size(); i++) if (r[i] - r[i - 1] < gap) return 0; return 1; }
static void oneEach(const VD &got0, VD roots, const std::vector<double> &tol, const std::string &what, const std::string &c) {
  VD got = got0; std::sort(got.begin(), got.end()); std::sort(roots.begin(), roots.end());
  if (!check(got.size() == roots.size(), what + ": number of roots", c + " returned " + strv(got))) return;
  for (size_t i = 0; i < got.size(); i++) if (!check(std::fabs(got[i] - roots[i]) <= tol[i], what + ": roots", c + " returned " + strv(got))) return;
}
int main(int argc, char **argv) {
  start(argc, argv);
  alarm(THOROUGH ? 600 : 100); signal(SIGALRM, on_signal);
  int N = n_cases(3000, 60000);
  for (int k = 0; k < N; k++) {
    double lead = irand(0, 3) ? (irand(0, 1) ? 1 : -1) * uni(0.2, 4) : 1;
    { VD roots, p;
      if (irand(0, 2)) { roots = some(3); p = fromRoots(roots, lead); }
      else { roots = some(1); double re = irand(0, 1) ? uni(-2, 2) : irand(-1, 1) * roots[0] * 0.5, im = uni(0.3, 2); if (irand(0, 3) == 0) { re = -roots[0] / 2; im = std::fabs(roots[0]) * std::sqrt(0.75); if (im < 0.1) { re = 0; im = 1; } } VD q; q.push_back(1); q.push_back(-2 * re); q.push_back(re * re + im * im); p = mul(fromRoots(roots, lead), q); if (irand(0, 1) && std::fabs(p[2]) < 1e-14) p[2] = 0; }
      std::string c = "cubic " + strv(p) + " roots " + strv(roots); at(c); sample(c); DIST++;
      covers(math::o3_roots(p), roots, 3, std::max(1.0, maxabs(roots)), "o3_roots", c); }
    { VD roots, p;
      int kind = irand(0, 4);
      if (kind < 2) { roots = some(4); p = fromRoots(roots, lead); }
      else if (kind < 4) { roots = some(2); double re = kind == 2 ? uni(-2, 2) : -(roots[0] + roots[1]) / 2, im = uni(0.3, 2); VD q; q.push_back(1); q.push_back(-2 * re); q.push_back(re * re + im * im); p = mul(fromRoots(roots, lead), q); }
      else { double a = uni(0.1, 3); if (irand(0, 1)) a = irand(1, 3); p = VD(5, 0.0); p[0] = 1; int t = irand(0, 2); if (t == 0) { p[4] = -a * a * a * a; roots.push_back(a); roots.push_back(-a); } else if (t == 1) { p[3] = -a * a * a; roots.push_back(0); roots.push_back(a); } else { p[2] = -a * a; roots.push_back(0); roots.push_back(0); roots.push_back(a); roots.push_back(-a); } }
      std::string c = "quartic " + strv(p) + " roots " + strv(roots); at(c); DIST++;
      both4(p, roots, std::max(1.0, maxabs(roots)), c); }
  }
  // Sturm: distinct real roots, possibly with complex pairs
  int M = n_cases(1500, 30000);
  for (int k = 0; k < M; k++) {
    int n = irand(1, 6), pairs = irand(0, 2); VD roots;
    do { roots.clear(); int mode = irand(0, 3); for (int i = 0; i < n; i++) roots.push_back(mode == 0 ? irand(-4, 4) : mode == 1 ? uni(-3, 3) : mode == 2 ? irand(-8, 8) * 0.25 : (i % 2 ? -roots[i - 1] : uni(0.2, 3))); } while (!distinct(roots, 0.1));
    if (irand(0, 9) == 0) { roots.clear(); pairs = std::max(pairs, 1); }
    double lead = irand(0, 1) ? 1 : (irand(0, 1) ? 1 : -1) * uni(0.3, 3); VD p = fromRoots(roots, lead);
    for (int i = 0; i < pairs; i++) { double re = irand(0, 2) ? uni(-2, 2) : 0, im = uni(0.4, 2); VD q; q.push_back(1); q.push_back(-2 * re); q.push_back(re * re + im * im); p = mul(p, q); }
    if (irand(0, 7) == 0) { int d = irand(2, 6), t = irand(0, 2); double a = irand(0, 1) ? irand(1, 3) : uni(0.3, 2.5); p = VD(d + 1, 0.0); p[0] = lead; roots.clear();
      if (t < 2) { p[d] = -lead * std::pow(a, d); roots.push_back(a); if (d % 2 == 0) roots.push_back(-a); }
      else { if (d == 2) d = 3, p.push_back(0); p[d - 1] = -lead * std::pow(a, d - 1); roots.push_back(a); roots.push_back(0); if (d % 2) roots.push_back(-a); } }
    else if (irand(0, 7) == 0) { // x^n + c x + d with leading terms of the remainders vanishing
      int d = irand(4, 5); double c1 = -uni(3, 6), c0 = uni(0.3, 1); p = VD(d + 1, 0.0); p[0] = 1; p[d - 1] = c1; p[d] = c0; roots.clear();
      double lo = -3; LD prev = 0; for (int i = 0; i <= 60000; i++) { LD x = lo + i * 1e-4L, v = 0; for (double q : p) v = v * x + q; if (i && ((v > 0) != (prev > 0))) roots.push_back((double)x - 5e-5); prev = v; } }
    double sc = std::max(1.0, maxabs(roots)); (void)sc;
    double big = irand(0, 15) == 0 ? 1e14 : 1; for (double &x : p) x *= big;
    std::string c = "polynomial " + strv(p) + " real roots " + strv(roots); at(c); sample(c); DIST++;
    std::sort(roots.begin(), roots.end());
    std::vector<double> t1, t2;
    for (double r : roots) { LD dv = 0; size_t n1 = p.size() - 1; for (size_t i = 0; i < n1; i++) dv = dv * (LD)r + (LD)p[i] * (LD)(n1 - i); double de = std::fabs((double)dv);
      t1.push_back(1e-3); t2.push_back(1e-3 + 2e-3 / std::max(de, 1e-3)); }
    int ctor = irand(0, 1);
    std::shared_ptr<math::Sturm> s(ctor ? new math::Sturm(p) : new math::Sturm(row(p)));
    for (int q = 0; q < 2; q++) { double x = q ? uni(-4, 4) : irand(-6, 6) * 0.5 + 0.013; check(s->evaluateChain(x) == s->evaluateChain2(x), "evaluateChain and evaluateChain2 differ", c + " at " + str(x)); 
      double y = x + uni(0.1, 3); int cnt = 0; bool near = false; for (double r : roots) { if (r > x && r <= y) cnt++; if (std::fabs(r - x) < 1e-3 || std::fabs(r - y) < 1e-3) near = true; }
      if (!near) check((long)s->evaluateChain2(x) - (long)s->evaluateChain2(y) == cnt, "number of roots in an interval", c + " in (" + str(x) + "," + str(y) + ")"); }
    { double b = s->computeLagrangianBound(); for (double r : roots) check(std::fabs(r) <= b + 1e-4 && b == b, "bound of the roots", c + " bound " + str(b)); }
    VD r2; s->findRoots2(r2); oneEach(r2, roots, t2, "findRoots2", c);
    VD r3; s->findRoots2(r3, 1e-7, 1e-9); std::vector<double> t3; for (double t : t2) t3.push_back(2e-4 + t * 1e-3); oneEach(r3, roots, t3, "findRoots2 with tight tolerances", c);
    oneEach(s->findRoots(), roots, t1, "findRoots", c);
    VD r4; s->bracketRoots(r4, 1e-5); std::vector<double> t4(roots.size(), 1.2e-4); oneEach(r4, roots, t4, "bracketRoots", c);
  }
  return finish();
}
