// MC-PROPERTIES: P19
#include "navorbit.hpp"
using nav::ld;
static const char SY[] = "GEC";
static const long long OFF[] = {0, 1, -1, 1000, 59999, -60000, 3600000, -3599000, 7200500, -7200000, 14400000, -14400000, 86400, -86400}; // ms
static const long SOW[] = {0, 16, 7200, 86384, 86400, 345600, 597600, 604784};
template <class T> static void one(mc::Ctx &ctx, const NavDataFrame &f, const nav::Blk &b, long tocday, long long off, ld tk, const std::string &w) {
  long long unit = 86400000 / (T::max_in_day < 86400000 ? T::max_in_day : 86400000); if (((b.sod * 1000LL) + off) % unit) return;
  double x[6], dt = 5; ctx.step(); auto t = nav::at<T>(tocday, b.sod * 1000LL + off); int st = f.stateNclock(t, x, dt); if (st) ctx.fail("status", w + mc::fmt(" status %d", st));
  ld r = nav::clock(b, off / 1000.0L, tk); if (!(fabsl(dt - r) < 2e-15L)) ctx.fail("clock", w + mc::fmt(" t-toc %lld ms: %.17g, expected %.17Lg", off, dt, r));
}
MC_SCENARIO(P19, polynomial, "3 systems x 8 clock epochs (week and day boundaries) x 9 differences toe-toc (0, +-16 s ... +-1 day) x 3 eccentricities x 4 sets of clock coefficients x 14 epochs in seconds, milliseconds and microseconds") {
  static const long DIFF[] = {0, 16, -16, 600, -600, 7200, -7200, 86400, -86400}; static const double ECC[] = {0, 0.0123, 0.17}; static const double A[4][3] = {{0, 0, 0}, {-2.345678901234e-4, 0, 0}, {5.5e-7, -8.9e-12, 0}, {-9.9e-4, 1.2e-11, -3.3e-17}};
  int s = ctx.choose(3), c = ctx.choose(8), d = ctx.choose(9), e = ctx.choose(3), a = ctx.choose(4); long week = 2034 + c; long long toc = week * 604800LL + SOW[c], toe = toc + DIFF[d];
  nav::Blk b = nav::ephemeris(SY[s], 24, toe / 604800, toe % 604800, ECC[e], 0.9 - e, 1); b.day = 44244 + toc / 86400; b.sod = toc % 86400; for (int i = 0; i < 3; i++) b.set(i, A[a][i]);
  std::string w = mc::fmt("%c toc %ld/%ld toe-toc %ld e %g coeffs %d", SY[s], week, SOW[c], DIFF[d], ECC[e], a); ctx.note(w); NavDataFrame f; if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w);
  std::string c0 = nav::content(f); ctx.site("clock");
  for (long long o : OFF) { ld tk = o / 1000.0L - DIFF[d]; one<seconds>(ctx, f, b, b.day, o, tk, w); one<milliseconds>(ctx, f, b, b.day, o, tk, w); one<microseconds>(ctx, f, b, b.day, o, tk, w); }
  ctx.check(nav::content(f) == c0, "frame-changed", w); ctx.state(w); ctx.outcome(mc::fmt("%d %d %d", s, d, a));
}
MC_SCENARIO(P19, every_minute, "3 systems x 3 clock epochs x every 4th minute (thorough: every 10 s) of +-4 h") {
  int s = ctx.choose(3); static const long S3[] = {0, 86400, 604784}; long sow = S3[ctx.choose(3)]; int part = ctx.choose(8); nav::Blk b = nav::ephemeris(SY[s], 24, 2100, sow, 0.0123, 1.1 * s - 1, 1); b.set(2, 2.2e-17); NavDataFrame f; std::string w = mc::fmt("%c sow %ld", SY[s], sow); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w);
  for (long long o = -14400000 + part * 3600000LL; o < -14400000 + (part + 1) * 3600000LL; o += ctx.thorough() ? 10000 : 240000) one<milliseconds>(ctx, f, b, b.day, o, o / 1000.0L, w); ctx.state(w + mc::fmt("/%d", part)); ctx.outcome(w);
}
MC_SCENARIO(P19, glonass, "frame times on 6 seconds of day x 3 days (week boundary) x 3 differences of clock epoch and frame time x 4 pairs of coefficients x every 20 s of +-15 min in 3 resolutions: offset plus relative frequency times the time since the reference epoch") {
  static const int SD[] = {0, 30, 900, 43200, 85500, 86370}; static const double A[4][2] = {{0, 0}, {-7.612345678901e-5, 0}, {0, 9.094947017729e-13}, {4.4e-4, -3.6e-12}}; static const int DC[] = {0, -30, 600};
  int d = ctx.choose(3), s = ctx.choose(6), k = ctx.choose(3), a = ctx.choose(4); long day = 58483 + d; long long toc = day * 86400LL + SD[s] + DC[k]; nav::Blk b = nav::glonass(5, toc / 86400, toc % 86400, day, SD[s], 0); b.set(0, A[a][0]); b.set(1, A[a][1]); std::string w = mc::fmt("tb %ld/%d toc-tb %d coeffs %d", day, SD[s], DC[k], a); NavDataFrame f; if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); ctx.site("clock");
  for (long long o = -900000; o <= 900000; o += 20000) for (int fr = 0; fr < 3; fr++) { long long ms = o + fr * (o > 0 ? -333 : 333); double x[6], dt = 5; ctx.step(); int st = fr == 0 ? f.stateNclock(nav::at<seconds>(day, SD[s] * 1000LL + ms), x, dt) : fr == 1 ? f.stateNclock(nav::at<milliseconds>(day, SD[s] * 1000LL + ms), x, dt) : f.stateNclock(nav::at<microseconds>(day, SD[s] * 1000LL + ms), x, dt);
    if (st) ctx.fail("glonass-status", w + mc::fmt(" status %d", st)); ld r = b.val(0) + b.val(1) * (ld)(ms / 1000.0L); if (!(fabsl(dt - r) < 1e-17L)) ctx.fail("glonass-clock", w + mc::fmt(" t-tb %lld ms: %.17g, expected %.17Lg", ms, dt, r)); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d", k, a));
}
MC_SCENARIO(P19, twins, "a frame and its twin, which differs in a single field (clock coefficients, the elements the eccentric anomaly depends on, toe, toc, PRN, system; GLONASS: offset, relative frequency, frame time): two frames asked in turn, one frame read anew or (by its accessors) changed between two questions x all sequences of 3 (thorough 4) questions at 3 epochs") {
  static const int F[] = {0, 1, 2, 5, 6, 8, 10, 4, 15, 11, -1, -2, -3}; static const long long O3[] = {0, 5400250, -719000};
  int s = ctx.choose(4), k = ctx.choose(13), mode = ctx.choose(3), fl = F[k]; bool glo = s == 3; if ((mode == 2 && (fl < 0 || fl == 11)) || (glo && (fl > 2 || fl == -3 || (fl == 2 && mode == 2)))) return;
  std::vector<nav::Blk> bl; for (int i = 0; i < 2; i++) { if (glo) bl.push_back(nav::glonass(i && fl == -1 ? 4 : 3, 58484, 43200, 58484, 43200 + (i && fl == 2 ? 600 : 0), 0)); else bl.push_back(nav::ephemeris(SY[i && fl == -3 ? (s + 1) % 3 : s], i && fl == -1 ? 25 : 24, 2100, 367200, 0.0123, 0.9, 1)); if (!glo) bl[i].set(2, -2e-17); if (!glo) bl[i].set(4, 12.5); }
  if (fl == -2) bl[1].sod += glo ? 900 : 7200; if (fl == -3) bl[1].set(10, bl[0].val(10)); if (fl == 11) bl[1].set(11, 367200 + 7200); else if (fl >= 0 && !(glo && fl == 2)) bl[1].set(fl, fl == 10 ? bl[0].val(10) + 12.5 : bl[0].val(fl) * 1.5);
  std::string w = mc::fmt("%c field %d mode %d: ", bl[0].sys, fl, mode); NavDataFrame f[2]; for (int i = 0; i < 2; i++) if (nav::load(ctx.scratch() + "/b", bl[i].text(), f[i])) ctx.fail("read", w); int held = 0;
  for (int n = 0; n < (ctx.thorough() ? 4 : 3); n++) { int o = ctx.choose(6), i = o / 3; w += mc::fmt("%d ", o); int at = mode ? 0 : i;
    if (mode && held != i) { held = i; if (mode == 1) { if (nav::load(ctx.scratch() + "/b", bl[i].text(), f[0])) ctx.fail("read", w); } else f[0].data(fl) = bl[i].val(fl); }
    long long off = O3[o % 3]; if (!glo) { long d = bl[i].sod - bl[0].sod; ld tk = off / 1000.0L - (i && fl == 11 ? 7200 : 0); one<milliseconds>(ctx, f[at], bl[i], bl[i].day, off - d * 1000LL, tk, w); continue; }
    off = off > 900000 ? 250500 : off; long tb = 43200 + (i && fl == 2 ? 600 : 0); double x[6], dt = 5; ctx.step(); int st = f[at].stateNclock(nav::at<milliseconds>(58484, 43200000LL + off), x, dt); if (st && st != -1) ctx.fail("status", w + mc::fmt("status %d", st)); if (st) continue;
    ld r = bl[i].val(0) + bl[i].val(1) * (off / 1000.0L + 43200 - tb); if (!(fabsl(dt - r) < 1e-17L)) ctx.fail("glonass-clock", w + mc::fmt("%.17g, expected %.17Lg", dt, r)); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d %d", glo, fl, mode));
}
