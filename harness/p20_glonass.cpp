// MC-PROPERTIES: P20
#include "navorbit.hpp"
#include <array>
using nav::ld;
struct Ref { ld a[3]; std::vector<std::array<ld, 6>> s[2]; };
/// states at every whole second of +-900 s (step 5 s would do; 1 s keeps it simple)
static const Ref &reference(int orbit) {
  static Ref R[4]; static bool have[4]; Ref &r = R[orbit]; if (have[orbit]) return r; have[orbit] = true; nav::Blk b = nav::glonass(1, 58484, 900, 58484, 900, orbit);
  ld x0[6] = {b.val(3) * 1e3L, b.val(7) * 1e3L, b.val(11) * 1e3L, b.val(4) * 1e3L, b.val(8) * 1e3L, b.val(12) * 1e3L}; for (int i = 0; i < 3; i++) r.a[i] = b.val(5 + 4 * i) * 1e3L;
  for (int d = 0; d < 2; d++) { ld x[6]; memcpy(x, x0, sizeof x); for (int i = 0; i <= 900; i++) { r.s[d].push_back({x[0], x[1], x[2], x[3], x[4], x[5]}); nav::gstep(x, r.a, d ? -1 : 1); } } return r;
}
static void expect(int orbit, long long ms, ld *x) { const Ref &r = reference(orbit); int d = ms < 0; long long n = (d ? -ms : ms) / 1000; ld rest = ((d ? -ms : ms) % 1000) / 1000.0L; for (int i = 0; i < 6; i++) x[i] = r.s[d][n][i]; if (rest > 0) nav::gstep(x, r.a, d ? -rest : rest); }
template <class T> static void one(mc::Ctx &ctx, const NavDataFrame &f, int orbit, long day, int sod, long long ms, const std::string &w) {
  long long unit = 86400000 / (T::max_in_day < 86400000 ? T::max_in_day : 86400000); if (ms % unit) return; double x[6] = {1, 1, 1, 1, 1, 1}, dt; ld r[6]; ctx.step();
  int st = f.stateNclock(nav::at<T>(day, sod * 1000LL + ms), x, dt); if (st) ctx.fail("status", w + mc::fmt(" t-tb %lld ms: status %d", ms, st)); expect(orbit, ms, r);
  for (int i = 0; i < 6; i++) if (!(fabsl(x[i] - r[i]) < (i < 3 ? 5e-3L : 2e-5L))) ctx.fail(i < 3 ? "position" : "velocity", w + mc::fmt(" t-tb %lld ms: component %d is %.6f, integration gives %.6Lf", ms, i, x[i], r[i]));
  if (ms == 0) for (int i = 0; i < 3; i++) { ctx.check(x[i] == std::as_const(f).data(3 + 4 * i) && x[3 + i] == std::as_const(f).data(4 + 4 * i), "reference-state", w); }
}
MC_SCENARIO(P20, every_second, "4 orbits x 5 reference times (day and week boundaries) x every whole second of -900..+900 s (quick: every 7th and all within 130 s) in seconds, milliseconds and microseconds") {
  int o = ctx.choose(4); static const int SD[] = {0, 900, 44100, 85500, 86399}; int sod = SD[ctx.choose(5)]; int part = ctx.choose(6); long day = sod == 85500 ? 58483 : 58485; nav::Blk b = nav::glonass(3, day, sod, day, sod, o); NavDataFrame f; std::string w = mc::fmt("orbit %d tb %ld/%d", o, day, sod); ctx.note(w); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); ctx.site("state"); std::string c0 = nav::content(f);
  for (int s = -900 + part * 300; s <= -900 + (part + 1) * 300; s++) { if (!ctx.thorough() && std::abs(s) > 130 && s % 7 && std::abs(s) < 895) continue; one<seconds>(ctx, f, o, day, sod, s * 1000LL, w); one<milliseconds>(ctx, f, o, day, sod, s * 1000LL, w); one<microseconds>(ctx, f, o, day, sod, s * 1000LL, w); }
  ctx.check(nav::content(f) == c0, "frame-changed", w); ctx.state(w + mc::fmt("/%d", part)); ctx.outcome(w);
}
MC_SCENARIO(P20, fractions, "4 orbits x 3 reference times x 40 fractional epochs around 0, +-60 s multiples and +-15 min in milliseconds and microseconds") {
  static const long long C[] = {0, 60000, -60000, 120000, -120000, 480000, -480000, 899000, -899000, 30000}; static const int D[] = {1, -1, 499, -999}; int o = ctx.choose(4); static const int SD[] = {0, 44100, 86399}; int sod = SD[ctx.choose(3)]; nav::Blk b = nav::glonass(3, 58484, sod, 58484, sod, o); NavDataFrame f; std::string w = mc::fmt("orbit %d tb %d", o, sod); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); ctx.site("state");
  for (long long c : C) for (int d : D) { one<milliseconds>(ctx, f, o, 58484, sod, c + d, w); one<microseconds>(ctx, f, o, 58484, sod, c + d, w); } ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P20, frame_times, "clock epoch and frame time differing by 0, 30 s, 15 min, 1 h, in both directions, at 5 times including day and week boundaries: the state is the broadcast one at the frame time and the integrated one around it") {
  static const int DF[] = {0, 30, -30, 900, -900, 3600, -3600}; static const int SD[] = {0, 60, 43200, 86340, 86399}; int k = ctx.choose(7), s = ctx.choose(5), d = ctx.choose(7); long day = 58480 + d; long long toc = day * 86400LL + SD[s] + DF[k]; nav::Blk b = nav::glonass(9, toc / 86400, toc % 86400, day, SD[s], 1); NavDataFrame f; std::string w = mc::fmt("tb %ld/%d toc-tb %d", day, SD[s], DF[k]); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); ctx.site("state");
  for (long long ms : {0LL, 15000LL, -15000LL, 61500LL, -300000LL, 899999LL, -900000LL}) one<milliseconds>(ctx, f, 1, day, SD[s], ms, w); ctx.state(w); ctx.outcome(mc::fmt("%d", k));
}
MC_SCENARIO(P20, twins, "a frame and its twin, which differs in a single field (any position, velocity or acceleration, clock, frame time, clock epoch, slot): two frames asked in turn, one frame read anew or (by its accessors) changed between two questions x all sequences of 3 (thorough 4) questions at 4 epochs before, at and after the frame time") {
  static const int F[] = {3, 7, 11, 4, 8, 12, 5, 9, 13, 0, 1, 10, 2, -1, -2}; static const long long O4[] = {0, 60000, 150500, -121000};
  int k = ctx.choose(15), mode = ctx.choose(3), fl = F[k]; if (mode == 2 && (fl < 0 || fl == 2)) return; int tb[2] = {43200, fl == 2 ? 43230 : 43200};
  static std::map<std::pair<int, long long>, std::array<ld, 6>> R; // integrations already done
  nav::Blk bl[2] = {nav::glonass(3, 58484, 43200, 58484, tb[0], 0), nav::glonass(fl == -1 ? 4 : 3, 58484, fl == -2 ? 43500 : 43200, 58484, tb[1], 0)}; if (fl >= 0 && fl != 2) bl[1].set(fl, fl == 13 ? 1.862645149231e-9 : bl[0].val(fl) + (fl == 3 || fl == 7 || fl == 11 ? 1.5 : fl == 4 || fl == 8 || fl == 12 ? 0.01 : fl == 5 || fl == 9 ? 1.862645149231e-9 : 1));
  for (int i = 0; i < 2; i++) bl[i].set(13, i && fl == 13 ? 1.862645149231e-9 : -9.313225746155e-10);
  std::string w = mc::fmt("field %d mode %d: ", fl, mode); NavDataFrame f[2]; for (int i = 0; i < 2; i++) if (nav::load(ctx.scratch() + "/b", bl[i].text(), f[i])) ctx.fail("read", w); int held = 0;
  for (int n = 0; n < (ctx.thorough() ? 4 : 3); n++) { int o = ctx.choose(8), i = o / 4; w += mc::fmt("%d ", o); int at = mode ? 0 : i; long long ms = 43200000LL + O4[o % 4], off = ms - tb[i] * 1000LL;
    if (mode && held != i) { held = i; if (mode == 1) { if (nav::load(ctx.scratch() + "/b", bl[i].text(), f[0])) ctx.fail("read", w); } else { bool km = fl >= 3 && fl != 10; f[0].data(fl) = bl[i].val(fl) * (km ? 1e3 : 1); } }
    auto key = std::make_pair(i ? k : -1, off); if (!R.count(key)) { ld x[6], a[3]; for (int c = 0; c < 3; c++) x[c] = bl[i].val(3 + 4 * c) * 1e3L, x[3 + c] = bl[i].val(4 + 4 * c) * 1e3L, a[c] = bl[i].val(5 + 4 * c) * 1e3L; long long d = off < 0 ? -off : off; int sg = off < 0 ? -1 : 1; for (long long j = 0; j < d / 1000; j++) nav::gstep(x, a, sg); if (d % 1000) nav::gstep(x, a, sg * (d % 1000) / 1000.0L); std::copy(x, x + 6, R[key].begin()); }
    const auto &r = R[key]; double x[6] = {1, 1, 1, 1, 1, 1}, dt; ctx.step(); int st = f[at].stateNclock(nav::at<milliseconds>(58484, ms), x, dt); if (st) ctx.fail("status", w + mc::fmt("status %d", st));
    for (int c = 0; c < 6; c++) if (!(fabsl(x[c] - r[c]) < (c < 3 ? 5e-3L : 2e-5L))) ctx.fail(c < 3 ? "position" : "velocity", w + mc::fmt("component %d is %.6f, integration gives %.6Lf", c, x[c], r[c])); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d", fl, mode));
}
MC_SCENARIO(P20, after_far_epochs, "all sequences of 4 (thorough 5) questions to two frames at 5 epochs each, two of them beyond the validity interval (16 minutes before, 20 after): every answer within it is that of the integration, with status 0, whatever was asked before") {
  static const long long O5[] = {0, 450000, -899000, -960000, 1200000}; NavDataFrame f[2]; for (int i = 0; i < 2; i++) { nav::Blk b = nav::glonass(3 + i, 58484, 43200 + 1800 * i, 58484, 43200 + 1800 * i, i); if (nav::load(ctx.scratch() + "/b", b.text(), f[i])) ctx.fail("read", b.first()); }
  std::string w; std::string c0[2] = {nav::content(f[0]), nav::content(f[1])}; for (int n = 0; n < (ctx.thorough() ? 5 : 4); n++) { int o = ctx.choose(10), i = o / 5, sod = 43200 + 1800 * i; long long off = O5[o % 5]; w += mc::fmt("%d ", o); ctx.site("state"); if (std::llabs(off) <= 900000) one<milliseconds>(ctx, f[i], i, 58484, sod, off, w); else { double x[6], dt; ctx.step(); f[i].stateNclock(nav::at<milliseconds>(58484, sod * 1000LL + off), x, dt); } ctx.check(nav::content(f[i]) == c0[i], "frame-changed", w); }
  ctx.state(w); ctx.outcome(w.substr(0, 4));
}
