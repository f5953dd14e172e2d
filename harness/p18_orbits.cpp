// MC-PROPERTIES: P18
#include "navorbit.hpp"
using nav::ld;
static const char SY[] = "GEC"; static const double ECC[] = {0, 1e-9, 3.1e-3, 2.98e-2, 0.17}; static const double M0[] = {0, 0.7, -0.7, 1.5707963267949, -1.9, 3.1415926535898, -3.1415926535898, 2.6};
static const long SOW[] = {0, 16, 7200, 86384, 86400, 302400, 345600, 518400, 597600, 604784}; static const long WK[] = {1356, 2034, 2047, 2048, 2138};
// offsets from toe in ms
static const long long OFF[] = {0, 1, -1, 1000, -1000, 30000, 3599999, -3600000, 7199000, -7200000, 7216123, -7216123, 14399999, -14399999, 14400000, -14400000, 86399, -86401};
template <class T> static void one(mc::Ctx &ctx, const NavDataFrame &f, const nav::Blk &b, long week, long sow, long long off, const std::string &w) {
  long long unit = 86400000 / (T::max_in_day < 86400000 ? T::max_in_day : 86400000); if (off % unit) return;
  std::unique_ptr<double[]> x(new double[3]); double dt = 5; ld r[3]; auto t = nav::at<T>(44244 + 7 * week, (long long)sow * 1000 + off); ctx.step(); // three components, as documented
  int st = f.stateNclock(t, x.get(), dt); if (st) ctx.fail("status", w + mc::fmt(" status %d", st)); nav::position(b, off / 1000.0L, r);
  for (int i = 0; i < 3; i++) if (!(fabsl(x[i] - r[i]) < 2e-5L)) ctx.fail("position", w + mc::fmt(" t-toe %lld ms: component %d is %.6f, ICD algorithm gives %.6Lf", off, i, x[i], r[i]));
}
MC_SCENARIO(P18, icd_grid, "GPS, Galileo, BeiDou IGSO and MEO x 10 reference seconds of week (week and day boundaries) x 5 weeks (x 5 eccentricities x 8 mean anomalies x 3 sets of perturbation terms, thorough: full product) x 18 epochs within +-4 h in seconds, milliseconds and microseconds") {
  int s = ctx.choose(4); int wi, ei, mi, h; int so = ctx.choose(10);
  if (ctx.thorough()) { wi = ctx.choose(5); ei = ctx.choose(5); mi = ctx.choose(8); h = ctx.choose(3); } else { ei = ctx.choose(5); mi = ctx.choose(8); h = ctx.choose(3); wi = (so + ei + mi + h) % 5; }
  char sys = SY[s == 3 ? 2 : s]; int prn = s == 3 ? 30 : s == 2 ? 6 : 1 + mi; nav::Blk b = nav::ephemeris(sys, prn, WK[wi], SOW[so], ECC[ei], M0[mi], h); std::string w = mc::fmt("%c%02d week %ld sow %ld e %g M0 %g terms %d", sys, prn, WK[wi], SOW[so], ECC[ei], M0[mi], h); ctx.note(w);
  mc::Dirty<NavDataFrame> D(0xA5); NavDataFrame &f = D.make(); ctx.site("read"); int st = nav::load(ctx.scratch() + "/b", b.text(), f); if (st) ctx.fail("read", w + mc::fmt(" status %d", st)); std::string c0 = nav::content(f); ctx.site("state");
  for (long long o : OFF) { one<seconds>(ctx, f, b, WK[wi], SOW[so], o, w); one<milliseconds>(ctx, f, b, WK[wi], SOW[so], o, w); one<microseconds>(ctx, f, b, WK[wi], SOW[so], o, w); }
  ctx.check(nav::content(f) == c0, "frame-changed", w); ctx.state(w); ctx.outcome(mc::fmt("%d %d", s, so));
}
MC_SCENARIO(P18, every_minute, "3 systems x 4 reference times (first and last of a week, mid-week, day boundary) x every second minute (thorough: every 10 seconds) of +-4 h") {
  int s = ctx.choose(3); static const long S4[] = {0, 302400, 86400, 604784}; long sow = S4[ctx.choose(4)]; int part = ctx.choose(8); nav::Blk b = nav::ephemeris(SY[s], 24, 2100, sow, 0.0123, 1.1 * s - 1, 1 + s % 2); NavDataFrame f; int st = nav::load(ctx.scratch() + "/b", b.text(), f); std::string w = mc::fmt("%c sow %ld", SY[s], sow); if (st) ctx.fail("read", w);
  long step = ctx.thorough() ? 10000 : 120000; for (long long o = -14400000 + part * 3600000LL; o < -14400000 + (part + 1) * 3600000LL; o += step) one<milliseconds>(ctx, f, b, 2100, sow, o, w);
  ctx.state(w + mc::fmt("/%d", part)); ctx.outcome(w);
}
MC_SCENARIO(P18, single_terms, "each perturbation term and element alone (14 fields, both signs, 3 magnitudes up to the largest the message can carry) on 3 systems: 10 epochs") {
  static const int F[] = {4, 5, 7, 9, 12, 14, 16, 18, 19, 6, 13, 15, 17, 8}; static const double V[] = {100, 4e-9, 5e-6, 5e-6, 2e-7, 2e-7, 250, 8e-9, 4e-10, 1, 2, 0.3, 2.5, 0.01};
  static const double VM[] = {1020, 1.1e-8, 6e-5, 6e-5, 6e-5, 6e-5, 1020, 1.9e-6, 2.9e-9, 3.14, 3.14, 0.55, 3.14, 0.48}; // the largest the messages can carry
  int s = ctx.choose(3), k = ctx.choose(14), sg = ctx.choose(2), mg = ctx.choose(3); nav::Blk b = nav::ephemeris(SY[s], 24, 2100, 100800, 0.003, 0.5, 0); double v = mg == 2 ? VM[k] : V[k] * (mg ? 1 : 0.37); if (sg && F[k] != 8) v = -v; b.set(F[k], v + (F[k] == 15 ? 0.6 : 0)); NavDataFrame f; std::string w = mc::fmt("%c field %d = %g", SY[s], F[k], v); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w);
  for (long long o = -14400000; o <= 14400000; o += 3200000) one<milliseconds>(ctx, f, b, 2100, 100800, o, w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P18, long_fit, "GPS, Galileo, BeiDou x 5 reference seconds of week (first, last, week end near) x 3 eccentricities x 3 mean anomalies x every 6 h (thorough: every hour) and one second around the half week, up to +-3.5 days from the reference epoch") {
  static const long S5[] = {0, 7200, 259200, 302400, 604784}; static const double E3[] = {0.0042, 0.0297, 0.3}, M3[] = {0.2, -3.1, 2.2};
  int s = ctx.choose(3), so = ctx.choose(5), e = ctx.choose(3), m = ctx.choose(3); nav::Blk b = nav::ephemeris(SY[s], 24, 2100, S5[so], E3[e], M3[m], 1 + m % 2); NavDataFrame f; std::string w = mc::fmt("%c sow %ld e %g M0 %g", SY[s], S5[so], E3[e], M3[m]); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w);
  for (long long h = -84; h <= 84; h += ctx.thorough() ? 1 : 6) { one<seconds>(ctx, f, b, 2100, S5[so], h * 3600000, w); one<milliseconds>(ctx, f, b, 2100, S5[so], h * 3600000 + (h < 84 ? 1 : -1) * 12345, w); }
  for (long long d : {-302399999LL, -302399000LL, 302399000LL, 302399999LL}) one<milliseconds>(ctx, f, b, 2100, S5[so], d, w);
  ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P18, history, "two frames (any 2 of GPS, Galileo, BeiDou) x all sequences of 3 (thorough 5) operations out of: state of frame 1 or 2 at 3 epochs, copy 1 to 2, reload 1 or 2: every result is the one of the ephemeris held") {
  static const long long O3[] = {-7200500, 0, 13000000}; nav::Blk bl[3] = {nav::ephemeris('G', 24, 2100, 604784, 0.011, 0.4, 1), nav::ephemeris('E', 24, 2047, 0, 0.0002, -2.1, 2), nav::ephemeris('C', 24, 2048, 345600, 0.17, 3, 1)}; long wk[3] = {2100, 2047, 2048}; long so[3] = {604784, 0, 345600};
  int a = ctx.choose(3), b = ctx.choose(3); NavDataFrame f[2]; int held[2] = {a, b}; std::string w = mc::fmt("%d%d: ", a, b); for (int i = 0; i < 2; i++) if (nav::load(ctx.scratch() + "/b", bl[held[i]].text(), f[i])) ctx.fail("read", w);
  for (int k = 0; k < (ctx.thorough() ? 5 : 3); k++) { int o = ctx.choose(9); w += mc::fmt("%d ", o);
    if (o < 6) { int i = o / 3; one<milliseconds>(ctx, f[i], bl[held[i]], wk[held[i]], so[held[i]], O3[o % 3], w); }
    else if (o == 6) { f[1] = f[0]; held[1] = held[0]; ctx.step(); } else { int i = o - 7; held[i] = (held[i] + 1) % 3; if (nav::load(ctx.scratch() + "/b", bl[held[i]].text(), f[i])) ctx.fail("read", w); ctx.step(); }
    ctx.state(mc::fmt("%d%d", held[0], held[1])); }
  for (int i = 0; i < 2; i++) one<milliseconds>(ctx, f[i], bl[held[i]], wk[held[i]], so[held[i]], O3[0], w + "end"); ctx.outcome(mc::fmt("%d%d", held[0], held[1]));
}
MC_SCENARIO(P18, twins, "a frame and its twin, which differs in a single field (any element, perturbation term or clock coefficient, toe, week, toc, PRN) or in its system: two frames asked in turn, one frame read anew or (by its accessors) changed between two questions x all sequences of 3 (thorough 4) questions at 3 epochs") {
  static const int F[] = {0, 1, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 11, 21, -1, -2, -3}; static const long long O3[] = {0, 5400250, -7199000};
  int s = ctx.choose(3), k = ctx.choose(24), mode = ctx.choose(3), fl = F[k]; if (mode == 2 && (fl < 0 || fl == 11 || fl == 21)) return; long wk[2] = {2100, 2100}, so[2] = {367200, 367200};
  std::vector<nav::Blk> bl; for (int i = 0; i < 2; i++) { char sys = SY[i && fl == -3 ? (s + 1) % 3 : s]; if (i && fl == 11) so[1] += 3600; if (i && fl == 21) wk[1]++; bl.push_back(nav::ephemeris(sys, i && fl == -1 ? 25 : 24, wk[i], so[i], 0.0123, 0.9, 1)); if (i && fl == 11) { bl[1].day = bl[0].day; bl[1].sod = bl[0].sod; } }
  if (fl == -2) bl[1].sod += 30; if (fl == -3) bl[1].set(10, bl[0].val(10)); if (fl == 20 || fl == 24) { if (SY[s] != 'G') return; bl[1].set(fl, 1); } else if (fl >= 0 && fl != 11 && fl != 21) bl[1].set(fl, fl == 10 ? bl[0].val(10) + 12.5 : fl == 15 ? bl[0].val(15) + 0.01 : bl[0].val(fl) * 1.5);
  std::string w = mc::fmt("%c field %d mode %d: ", SY[s], fl, mode); NavDataFrame f[2]; for (int i = 0; i < 2; i++) if (nav::load(ctx.scratch() + "/b", bl[i].text(), f[i])) ctx.fail("read", w); int held = 0;
  for (int n = 0; n < (ctx.thorough() ? 4 : 3); n++) { int o = ctx.choose(6), i = o / 3; w += mc::fmt("%d ", o); int at = mode ? 0 : i;
    if (mode && held != i) { held = i; if (mode == 1) { if (nav::load(ctx.scratch() + "/b", bl[i].text(), f[0])) ctx.fail("read", w); } else f[0].data(fl) = bl[i].val(fl); }
    one<milliseconds>(ctx, f[at], bl[i], wk[i], so[i], O3[o % 3] - (so[i] - so[0]) * 1000LL, w); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d", fl, mode));
}
