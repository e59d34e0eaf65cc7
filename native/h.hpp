// Shared helpers of the bounded native runs.
#pragma once
#include <Eigen/Eigen>
#include <random>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cmath>
#include <vector>
#include <string>
#include <set>
#include <memory>
#include <csignal>
#include <unistd.h>
#include <opengv/types.hpp>
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
static std::mt19937_64 RNG(1);
static bool THOROUGH = false;
static long EVALS = 0, DIST = 0, FAILS = 0;
static std::vector<std::string> SAMPLES;
static std::string LAST;
static std::set<std::string> FAILKIND;
inline std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += ' '; else o += c; } return o; }
template <typename M> inline std::string str(const M &m) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o << (i + j ? "," : "") << m(i, j); o << "]"; return o.str(); }
inline std::string str(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
template <typename T> inline std::string strv(const std::vector<T> &v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
static void on_signal(int sig) {
  static char buf[4096]; int n = snprintf(buf, sizeof buf, "\nFAIL {\"what\":\"crash (signal %d)\",\"case\":\"%.3000s\"}\n", sig, LAST.c_str());
  if (write(1, buf, n)) {} _exit(1);
}
inline void start(int argc, char **argv) {
  unsigned long long seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; RNG.seed(seed * 7919 + 13); srand((unsigned)seed);
  THOROUGH = argc > 2 && std::string(argv[2]) == "thorough";
  signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal);
}
inline void at(const std::string &c) { LAST = esc(c); }
inline void sample(const std::string &c) { if (SAMPLES.size() < 3) SAMPLES.push_back(esc(c)); }
inline void fail(const std::string &what, const std::string &c) {
  FAILS++; if (!FAILKIND.insert(what).second && FAILS > 200) return;
  if (FAILS <= 20 || FAILKIND.size() <= 40) std::cout << "FAIL {\"what\":\"" << esc(what) << "\",\"case\":\"" << esc(c.substr(0, 3000)) << "\"}" << std::endl;
}
inline bool check(bool ok, const std::string &what, const std::string &c) { EVALS++; if (!ok) fail(what, c); return ok; }
inline int finish() {
  std::cout << "STAT {\"evaluations\":" << EVALS << ",\"distinct_nontrivial\":" << DIST << ",\"failures\":" << FAILS << ",\"samples\":[";
  for (size_t i = 0; i < SAMPLES.size(); i++) std::cout << (i ? "," : "") << "\"" << SAMPLES[i] << "\"";
  std::cout << "]}" << std::endl; return FAILS ? 1 : 0;
}
inline double uni(double a, double b) { return a + (b - a) * (double)(RNG() >> 11) / 9007199254740992.0; }
inline double gauss() { double u = uni(1e-12, 1), v = uni(0, 1); return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
inline int irand(int a, int b) { return a + (int)(RNG() % (unsigned long long)(b - a + 1)); }
inline V3 gvec() { return V3(gauss(), gauss(), gauss()); }
inline V3 dir() { V3 v; do v = gvec(); while (v.norm() < 1e-3); return v.normalized(); }
inline M3 quatR(const Eigen::Vector4d &q) {
  double a = q[0], b = q[1], c = q[2], d = q[3]; M3 R;
  R << 1 - 2 * (c * c + d * d), 2 * (b * c - a * d), 2 * (b * d + a * c), 2 * (b * c + a * d), 1 - 2 * (b * b + d * d), 2 * (c * d - a * b), 2 * (b * d - a * c), 2 * (c * d + a * b), 1 - 2 * (b * b + c * c);
  return R;
}
inline Eigen::Vector4d rquat() { Eigen::Vector4d q(gauss(), gauss(), gauss(), gauss()); return q.normalized(); }
inline M3 rrot() { return quatR(rquat()); }
inline M3 axisR(V3 ax, double ang) { ax.normalize(); Eigen::Vector4d q; q << std::cos(ang / 2), std::sin(ang / 2) * ax; return quatR(q); }
inline M3 smallrot(double ang) { return axisR(dir(), uni(0, ang)); }
inline bool isrot(const M3 &R, double tol = 1e-7) { return (R * R.transpose() - M3::Identity()).norm() < tol && std::fabs(R.determinant() - 1) < tol; }
inline int n_cases(int quick, int thorough) { return THOROUGH ? thorough : quick; }
// cameras of a rig: also stacked ones (same place, other orientation), parallel ones, one in the body origin
template <class A, class B> inline void rig(A &off, B &rots, int cams, double scale = 1) {
  int mode = irand(0, 5);
  for (int c = 0; c < cams; c++) {
    off.push_back(gvec() * scale); rots.push_back(rrot());
    if (c && (mode == 1 || (mode == 4 && irand(0, 1)))) off[c] = off[irand(0, c - 1)];
    if (c && (mode == 2 || (mode == 4 && irand(0, 1)))) rots[c] = rots[irand(0, c - 1)];
    if (mode == 3 && irand(0, 1)) off[c] = V3::Zero();
    if (mode == 3 && irand(0, 1)) rots[c] = M3::Identity();
    if (mode == 5) off[c][irand(0, 2)] = 0;
  }
}
// positions below N: subsets, repetitions, lists longer than the data
inline std::vector<int> indices(int N) {
  std::vector<int> ix; int mode = irand(0, 3);
  if (mode == 0) { for (int i = 0; i < N; i++) ix.push_back(i); for (int i = N - 1; i > 0; i--) std::swap(ix[i], ix[irand(0, i)]); ix.resize(irand(1, N)); return ix; }
  for (int k = irand(1, mode == 1 ? 2 * N + 2 : N); k > 0; k--) ix.push_back(irand(0, N - 1));
  return ix;
}
