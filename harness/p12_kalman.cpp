// MC-PROPERTIES: P12
// MC-SOURCES: none
#include "kalmanmodel.hpp"
using namespace kal;
static F *create(const double *x, int fill) { (void)fill; return new F{{x[0], x[1], x[2], x[3], x[4]}}; }

MC_SCENARIO(P12, histories, "all sequences of 2 (thorough 3) updates out of 108: {4,5,8} satellites x 2 geometries x time step {0.5,1,30} x weights {none,zero,varied} x satellite clocks {0, 1e-4}; state and deviations compared after each update") {
  const double *x = ctx.choose(2) ? X1 : X0; std::unique_ptr<F> f(create(x, 0)); Ref r(x);
  static const int N[] = {4, 5, 8}; static const double DT[] = {1, .5, 30}; static const double C[] = {0, 1e-4};
  int depth = ctx.thorough() ? 3 : 2;
  for (int t = 0; t < depth; t++) {
    int n = N[ctx.choose(3)], g = ctx.choose(2) * 3; double dt = DT[ctx.choose(3)]; int w = ctx.choose(3); double c = C[ctx.choose(2)];
    upd(ctx, *f, r, make(n, g, dt, w, c, t, 0)); compare(ctx, *f, r, "filter");
  }
  ctx.outcome(mc::fmt("%.0Lf %.0Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, long_histories, "all sequences of 5 (thorough 7) updates out of 4 kinds (satellites appear, disappear and change order; gaps; spare entries in the vectors)") {
  std::unique_ptr<F> f(create(X0, 0)); Ref r(X0); int depth = ctx.thorough() ? 7 : 5;
  for (int t = 0; t < depth; t++) {
    Epoch e; switch (ctx.choose(4)) { case 0: e = make(8, 0, 1, 2, 1e-4, t, 0); break; case 1: e = make(4, 1, 1, 3, -3e-5, t, 3); break; case 2: e = make(6, 5, 30, 1, 2e-4, t, 1); break; default: e = make(7, 2, 0.5, 2, 0, t, 0); }
    upd(ctx, *f, r, e); compare(ctx, *f, r, "filter");
  }
  ctx.outcome(mc::fmt("%.0Lf %.0Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, two_filters, "all interleavings of two filters' 3-update (thorough 4) histories over 3 kinds of update, with creation of a third in between") {
  std::unique_ptr<F> f(create(X0, 0)), g(create(X1, 0)); Ref r(X0), s(X1); int left[2] = {ctx.thorough() ? 4 : 3, 3}; int t = 0;
  while (left[0] || left[1]) {
    int who = left[0] && left[1] ? ctx.choose(2) : left[0] ? 0 : 1; left[who]--;
    Epoch e; switch (ctx.choose(3)) { case 0: e = make(8, 0, 1, 2, 1e-4, t, 0); break; case 1: e = make(4, 1, 30, 3, 0, t, 2); break; default: e = make(5, 5, .5, 1, 2e-4, t, 0); }
    if (who) upd(ctx, *g, s, e); else upd(ctx, *f, r, e);
    if (t == 2) { F h{{1, 2, 3, 4, 5}}; auto q = e; h.update(q.n, &q.obs, &q.sv, 2, &q.w); }
    if (r.started) compare(ctx, *f, r, "first"); 
    if (s.started) compare(ctx, *g, s, "second");
    t++;
  }
  ctx.outcome(mc::fmt("%.0Lf %.0Lf", r.x[3], s.x[3]));
}
MC_SCENARIO(P12, single_update, "one update for every number of satellites 4..8 x every starting satellite x 7 time steps (also backwards) x 4 weightings x 3 satellite clocks x 2 initial states x 0..2 spare entries") {
  static const double DT[] = {0, 1e-3, 1, 30, 900, -1, -30}; static const double C[] = {0, 3e-4, -7e-4}; const double *x = ctx.choose(2) ? X1 : X0;
  std::unique_ptr<F> f(create(x, 0)); Ref r(x); int n = 4 + ctx.choose(5), g = ctx.choose(8); double dt = DT[ctx.choose(7)]; int w = ctx.choose(4); double c = C[ctx.choose(3)]; int ex = ctx.choose(3);
  upd(ctx, *f, r, make(n, g, dt, w, c, 1, ex)); compare(ctx, *f, r, "filter"); ctx.outcome(mc::fmt("%.0Lf %.1Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, satellite_counts, "all pairs of updates with 1..24 satellites, weighted or not, the vectors exact or with spare entries, the same vector objects refilled or new ones") {
  std::unique_ptr<F> f(create(X0, 0)); Ref r(X0); int a = 1 + ctx.choose(24), b = 1 + ctx.choose(24), w = ctx.choose(3), ex = ctx.choose(2) * 2, reuse = ctx.choose(2);
  Epoch e = make(a, b % 8, 1, w, 1e-4, 0, ex), g = make(b, a % 8, 30, w ? 3 - w : 2, -1e-4, 1, ex);
  if (!reuse) { upd(ctx, *f, r, e); compare(ctx, *f, r, "filter"); upd(ctx, *f, r, g); compare(ctx, *f, r, "filter"); }
  else { auto o = e.obs; auto sv = e.sv; auto ww = e.w; f->update(e.n, &o, &sv, e.dt, e.weighted ? &ww : nullptr); r.update(e); compare(ctx, *f, r, "filter"); o = g.obs; sv = g.sv; ww = g.w; f->update(g.n, &o, &sv, g.dt, g.weighted ? &ww : nullptr); r.update(g); compare(ctx, *f, r, "filter"); ctx.step(2); }
  ctx.outcome(mc::fmt("%d %d", a, b));
}
MC_SCENARIO(P12, long_runs, "runs of 60 (thorough 300) updates cycling through every pattern of 3 out of 5 kinds of update, from 2 initial states; compared after every update") {
  const double *x = ctx.choose(2) ? X1 : X0; std::unique_ptr<F> f(create(x, 0)); Ref r(x); int k[3] = {ctx.choose(5), ctx.choose(5), ctx.choose(5)}; int len = ctx.thorough() ? 300 : 60;
  for (int t = 0; t < len; t++) { Epoch e; switch (k[t % 3]) { case 0: e = make(8, 0, 1, 2, 1e-4, t, 0, 15); break; case 1: e = make(5, t % 8, 1, 0, -3e-5, t, 0, 15); break; case 2: e = make(6, 5, 30, 1, 2e-4, t, 1, 15); break; case 3: e = make(7, 2, 0, 3, 0, t, 0, 15); break; default: e = make(12, 1, 0.25, 2, 5e-4, t, 2, 15); } upd(ctx, *f, r, e); compare(ctx, *f, r, "filter"); }
  ctx.outcome(mc::fmt("%.0Lf %.1Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, copies, "all sequences of 5 (thorough 6) operations on two filters out of 6: 3 kinds of update on the first, copy it to the second, update the second, copy it back; both compared") {
  F f{{X0[0], X0[1], X0[2], X0[3], X0[4]}}, g{{X1[0], X1[1], X1[2], X1[3], X1[4]}}; Ref r(X0), s(X1); int depth = ctx.thorough() ? 6 : 5; { Epoch e = make(5, 1, 1, 2, 0, 0, 0); upd(ctx, g, s, e); upd(ctx, f, r, e); }
  for (int t = 1; t <= depth; t++) { int op = ctx.choose(6); ctx.note("op ", op); switch (op) { case 0: upd(ctx, f, r, make(8, 0, 1, 2, 1e-4, t, 0)); break; case 1: upd(ctx, f, r, make(4, 1, 30, 0, 0, t, 2)); break; case 2: upd(ctx, f, r, make(6, 3, .5, 3, -2e-4, t, 0)); break; case 3: g = f; s = r; break; case 4: upd(ctx, g, s, make(7, 4, 2, 2, 3e-4, t, 1)); break; default: { F h(g); f = h; r = s; } } compare(ctx, f, r, "first"); compare(ctx, g, s, "second"); }
  ctx.outcome(mc::fmt("%.0Lf %.0Lf", r.x[3], s.x[3]));
}
MC_SCENARIO(P12, geometries, "one and two updates from satellites at 3 altitudes in every pair of 8 directions repeated, receiver at 6 places on and above the Earth, 4 clock offsets and 3 drifts in the initial state") {
  static const double P[6][3] = {{6378137, 0, 0}, {0, 6378137, 0}, {0, 0, -6356752.3}, {-3678000.5, 3678000.5, 3678000.5}, {-2694045.2, -4293642.4, 3857878.9}, {6778137, 1e3, -2e3}}; static const double B[] = {0, 1500, -299792.458, 1e6}, D[] = {0, -30.5, 900}; static const double A[] = {19.1e6, 25.5e6, 42.164e6};
  const double *p = P[ctx.choose(6)]; int a = ctx.choose(8), b = ctx.choose(8), alt = ctx.choose(3); double c = B[ctx.choose(4)], d = D[ctx.choose(3)]; double x[5] = {p[0] + 12, p[1] - 7, p[2] + 3, c, d}; F f{{x[0], x[1], x[2], x[3], x[4]}}; Ref r(x);
  for (int t = 0; t < 2; t++) { Epoch e; e.n = 6; e.dt = 1 + t; e.weighted = t; for (int k = 0; k < 6; k++) { const double *u = DIR[(a + k * (1 + b)) % 8]; std::array<double, 4> s; double q = 0; for (int i = 0; i < 3; i++) { s[i] = A[alt] * u[(i + k) % 3] * (i == b % 3 ? -1 : 1) + 100.0 * t * i; q += (s[i] - p[i]) * (s[i] - p[i]); } s[3] = 1e-5 * (k - 3); e.obs.push_back(std::sqrt(q) + c + d * t - 299792458.0 * s[3] + k); e.sv.push_back(s); e.w.push_back(10 * k + t); } e.name = mc::fmt("geometry %d %d", a, b); upd(ctx, f, r, e); compare(ctx, f, r, "filter"); }
  ctx.outcome(mc::fmt("%.0Lf %.1Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, storage, "a filter created in storage holding zeros, ones, 3 byte patterns that read as ordinary doubles, NaNs, or what another filter left there after 0-2 updates of 3 kinds; then all sequences of 2 (thorough 3) updates of 4 kinds, compared after each") {
  struct alignas(64) B { unsigned char b[sizeof(F) + 64]; }; std::unique_ptr<B> m(new B); static const int FILL[] = {0, 0xff, 0x3f, 0x40, 0x41, 0xbf, 0x01};
  auto kind = [](int k, int t) { switch (k) { case 0: return make(8, 0, 1, 2, 1e-4, t, 0); case 1: return make(4, 1, 30, 0, 0, t, 2); case 2: return make(6, 3, .5, 3, -2e-4, t, 0); default: return make(7, 4, 0, 1, 3e-4, t, 1); } };
  int before = ctx.choose(11); std::memset(m->b, before < 7 ? FILL[before] : FILL[before - 7], sizeof m->b);
  if (before >= 7) { F *o = new (m->b) F{{X1[0], X1[1], X1[2], X1[3], X1[4]}}; Ref q(X1); int n = ctx.choose(3), k = ctx.choose(3); for (int t = 0; t < n; t++) { Epoch e = kind((k + t) % 3, t); upd(ctx, *o, q, e); } o->~F(); }
  F *f = new (m->b) F{{X0[0], X0[1], X0[2], X0[3], X0[4]}}; Ref r(X0); int depth = ctx.thorough() ? 3 : 2;
  struct End { F *f; ~End() { f->~F(); } } end{f};
  for (int t = 0; t < depth; t++) { Epoch e = kind(ctx.choose(4), t); upd(ctx, *f, r, e); compare(ctx, *f, r, "filter"); }
  ctx.outcome(mc::fmt("%.0Lf %.0Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, ranges, "two updates where one satellite of 4, 6 or 9 (every index) has one unusual entry: pseudorange error {-5e5, -2000, -60, 60, 2000, 5e5} m, satellite clock {-0.02, -1.5e-3, 1.5e-3, 0.02} s, weight {0, 1e-9, 1e-3, 1e6, 1e12}; the receiver clock jumps by {0, -3e5, 2998, 3e5} m before the second") {
  static const double PR[] = {-5e5, -2000, -60, 60, 2000, 5e5}, CK[] = {-.02, -1.5e-3, 1.5e-3, .02}, WT[] = {0, 1e-9, 1e-3, 1e6, 1e12}, JUMP[] = {0, -3e5, 2998, 3e5};
  static const int N[] = {4, 6, 9}; int n = N[ctx.choose(3)], at = ctx.choose(n), odd = ctx.choose(15), when = ctx.choose(2); double jump = JUMP[ctx.choose(4)];
  std::unique_ptr<F> f(create(X0, 0)); Ref r(X0);
  for (int t = 0; t < 2; t++) {
    Epoch e = make(n, t * 3, t ? 30 : 1, odd < 10 ? (at + t) % 3 : 2, 1e-4, t, 0);
    if (t) for (auto &o : e.obs) o += jump;
    if (t == when) { if (odd < 6) { e.obs[at] += PR[odd]; e.name += mc::fmt(", error %g m in entry %d", PR[odd], at); } else if (odd < 10) { e.obs[at] += 299792458.0 * (e.sv[at][3] - CK[odd - 6]); e.sv[at][3] = CK[odd - 6]; e.name += mc::fmt(", clock %g s in entry %d", CK[odd - 6], at); } else { e.w[at] = WT[odd - 10]; e.name += mc::fmt(", weight %g in entry %d", WT[odd - 10], at); } }
    upd(ctx, *f, r, e); compare(ctx, *f, r, "filter");
  }
  ctx.outcome(mc::fmt("%.0Lf %.1Lf", r.x[3], sqrtl(r.P[3][3])));
}
MC_SCENARIO(P12, far_start, "8 initial positions far from the receiver (near the centre of the Earth, 1000 km above, 3000 km aside, the other side of the Earth) x {4, 5, 8} satellites x 3 weightings: three updates, state and deviations compared after each") {
  static const double S[8][3] = {{1000, -2000, 500}, {RX[0] * 1.15, RX[1] * 1.15, RX[2] * 1.15}, {RX[0] + 3e6, RX[1], RX[2]}, {RX[0], RX[1] - 3e6, RX[2]}, {RX[0], RX[1], RX[2] + 3e6}, {-RX[0], -RX[1], -RX[2]}, {RX[0] - 1e5, RX[1] + 1e5, RX[2] - 1e5}, {6378137, 0, 0}}; static const int N[] = {4, 5, 8};
  int s = ctx.choose(8), n = N[ctx.choose(3)], wt = ctx.choose(3); double x[5] = {S[s][0], S[s][1], S[s][2], s % 2 ? 3e4 : 0, 0}; std::unique_ptr<F> f(create(x, 0)); Ref r(x);
  for (int t = 0; t < 3; t++) { upd(ctx, *f, r, make(n, t * 3, t ? 30 : 1, wt, 1e-4, t, t)); compare(ctx, *f, r, "far"); } ctx.outcome(mc::fmt("%d %.0Lf", s, r.x[3]));
}
