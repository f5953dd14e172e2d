// Reference model of the Kalman filter and its measurements.
#ifndef VERIF_KALMANMODEL_HPP
#define VERIF_KALMANMODEL_HPP
#include "common.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <cstdio>
#include <vector>
#include "gauss_newton.hpp"
namespace kal {
typedef long double ld;
struct Epoch { std::vector<double> obs; std::vector<std::array<double, 4>> sv; std::vector<double> w; int n; double dt; bool weighted; std::string name; };

// Reference: extended Kalman filter, x = (X, Y, Z, c*dT, c*dT')
struct Ref {
  ld x[5], P[5][5]; bool started = false;
  explicit Ref(const double *s) { for (int i = 0; i < 5; i++) x[i] = s[i]; }
  static void inverse(std::vector<std::vector<ld>> &a) {
    int n = a.size(); std::vector<std::vector<ld>> b(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; i++) b[i][i] = 1;
    for (int c = 0; c < n; c++) {
      int p = c; for (int r = c + 1; r < n; r++) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
      std::swap(a[p], a[c]); std::swap(b[p], b[c]); ld d = a[c][c];
      for (int k = 0; k < n; k++) { a[c][k] /= d; b[c][k] /= d; }
      for (int r = 0; r < n; r++) if (r != c) { ld f = a[r][c]; for (int k = 0; k < n; k++) { a[r][k] -= f * a[c][k]; b[r][k] -= f * b[c][k]; } }
    }
    a = b;
  }
  void update(const Epoch &e) {
    if (!started) { for (auto &r : P) for (auto &v : r) v = 0; for (int i = 0; i < 5; i++) P[i][i] = i < 4 ? 2500 : 30; started = true; }
    // prediction
    x[3] += e.dt * x[4];
    ld A[5][5]; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) A[i][j] = P[i][j] + (i == 3 ? e.dt * P[4][j] : 0);
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) P[i][j] = A[i][j] + (j == 3 ? e.dt * A[i][4] : 0);
    P[3][3] += 0.0114L; P[3][4] += 0.0019L; P[4][3] += 0.0019L; P[4][4] += 0.0039L;
    int n = e.n; std::vector<std::array<ld, 5>> H(n), PH(n); std::vector<ld> v(n);
    for (int k = 0; k < n; k++) {
      ld d[3], r = 0; for (int i = 0; i < 3; i++) { d[i] = e.sv[k][i] - x[i]; r += d[i] * d[i]; } r = sqrtl(r);
      for (int i = 0; i < 3; i++) H[k][i] = -d[i] / r;
      H[k][3] = 1; H[k][4] = 0; v[k] = e.obs[k] + 299792458.0L * e.sv[k][3] - (r + x[3]);
    }
    for (int k = 0; k < n; k++) for (int i = 0; i < 5; i++) { PH[k][i] = 0; for (int j = 0; j < 5; j++) PH[k][i] += P[i][j] * H[k][j]; }
    std::vector<std::vector<ld>> S(n, std::vector<ld>(n));
    for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) { S[k][l] = 0; for (int i = 0; i < 5; i++) S[k][l] += H[k][i] * PH[l][i]; if (k == l) S[k][l] += 100 + (e.weighted ? (ld)e.w[k] : 0); }
    auto I = S; inverse(I);
    std::vector<std::array<ld, 5>> W(n); // W = P H' S^-1
    for (int k = 0; k < n; k++) for (int i = 0; i < 5; i++) { W[k][i] = 0; for (int l = 0; l < n; l++) W[k][i] += PH[l][i] * I[l][k]; }
    for (int i = 0; i < 5; i++) for (int k = 0; k < n; k++) x[i] += W[k][i] * v[k];
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int k = 0; k < n; k++) P[i][j] -= W[k][i] * PH[k][j];
  }
};
static const double RX[3] = {4595220.1, 2039436.2, 3912626.0};
// eight satellites around the receiver
static const double DIR[8][3] = {{.9, .3, .3}, {.5, .85, .2}, {.3, -.5, .8}, {.95, -.2, -.2}, {.1, .6, .79}, {.6, .3, .74}, {.8, -.55, .25}, {.4, .9, -.1}};
static Epoch make(int n, int first, double dt, int weights, double satclk, int t, int extra, double vel = 150.0) {
  Epoch e; e.n = n; e.dt = dt; e.weighted = weights != 0; 
  for (int k = 0; k < n + extra; k++) {
    const double *d = DIR[(first + k) % 8]; double r = 0; std::array<double, 4> s;
    for (int i = 0; i < 3; i++) { s[i] = 26.56e6 * d[i] + vel * t * (i - 1); r += (s[i] - RX[i]) * (s[i] - RX[i]); }
    s[3] = satclk * (k % 2 ? -1 : .5); double rcv = 60 + 4.0 * t;
    e.obs.push_back(std::sqrt(r) + rcv - 299792458.0 * s[3] + (k * 7 % 5 - 2) * 1.7); e.sv.push_back(s); e.w.push_back(weights == 1 ? 0 : weights == 2 ? 25.0 * k : 900.0 / (k + 1));
  }
  if (extra) for (int k = n; k < n + extra; k++) { e.obs[k] = 1e9; e.w[k] = 1e6; }
  e.name = mc::fmt("%d satellites from %d, dt %g, weights %d, satellite clock %g, %d spare entries", n, first, dt, weights, satclk, extra);
  return e;
}
typedef ngpt::Kalman<5> F;
static void compare(mc::Ctx &ctx, F &f, const Ref &r, const char *who) {
  mc::CaptureStdout cap; f.print_state(); std::string s = cap.stop(); std::vector<double> g; const char *p = s.c_str();
  while (*p && g.size() < 20) { char *e; double v = strtod(p, &e); if (e == p) { ++p; continue; } // skips " +/-"
    g.push_back(v); p = e; }
  if (g.size() != 10) ctx.fail("printed", std::string(who) + ": state printed as [" + s + "]");
  for (int i = 0; i < 5; i++) {
    ld sd = sqrtl(r.P[i][i]);
    if (!(fabsl(g[2 * i] - r.x[i]) < 0.0016L)) ctx.fail("state", std::string(who) + mc::fmt(": component %d is %.3f, expected %.4Lf", i, g[2 * i], r.x[i]));
    if (!(fabsl(g[2 * i + 1] - sd) < 0.0016L)) ctx.fail("deviation", std::string(who) + mc::fmt(": standard deviation %d is %.3f, expected %.4Lf", i, g[2 * i + 1], sd));
  }
  ctx.state(s); 
}
static const double X0[5] = {RX[0] + 30, RX[1] - 20, RX[2] + 25, 0, 0}, X1[5] = {RX[0] - 200, RX[1] + 100, RX[2] - 50, 30, 3.5};
static void upd(mc::Ctx &ctx, F &f, Ref &r, const Epoch &e) {
  ctx.note("update: ", e.name); std::vector<double> o = e.obs, w = e.w; auto sv = e.sv; F *p = &f;
  p->update(e.n, &o, &sv, e.dt, e.weighted ? &w : nullptr); r.update(e);
  if (o != e.obs || w != e.w || sv != e.sv) ctx.fail("input-changed", e.name);
  ctx.step();
}
} // namespace kal
#endif
