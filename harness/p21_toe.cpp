// MC-PROPERTIES: P21
#include "navorbit.hpp"
template <class T> static void same(mc::Ctx &ctx, const datetime<T> &d, long day, long sod, const char *key, const std::string &w) {
  long gd = d.mjd().as_underlying_type(); double gs = d.sec().to_fractional_seconds(); if (gd != day || gs != (double)sod) ctx.fail(key, w + mc::fmt(": MJD %ld + %.6f s, expected %ld + %ld s", gd, gs, day, sod));
}
static void all(mc::Ctx &ctx, NavDataFrame &f, long day, long sod, const std::string &w) {
  ctx.step(); same(ctx, std::as_const(f).toe<seconds>(), day, sod, "toe", w); same(ctx, std::as_const(f).toe<milliseconds>(), day, sod, "toe-ms", w); same(ctx, f.toe2date<seconds>(), day, sod, "toe2date", w); same(ctx, f.toe2date<milliseconds>(), day, sod, "toe2date-ms", w); same(ctx, f.toe2date<microseconds>(), day, sod, "toe2date-us", w);
}
static const long SD[] = {0, 1, 16, 59, 60, 3599, 3600, 7200, 43200, 82800, 86384, 86398, 86399};
MC_SCENARIO(P21, week_seconds, "GPS, Galileo, BeiDou: every day of 23 weeks (GPS weeks 1, 2, 255, 511, 512, 1022-1025 for GPS and Galileo, 1356-1358, 2033-2036, 2046-2049, 2190, 2300, 3000; thorough: every day of weeks 1400-2600) x 13 seconds of day") {
  static const long W[] = {1, 2, 255, 511, 512, 1022, 1023, 1024, 1025, 1356, 1357, 1358, 2033, 2034, 2035, 2036, 2046, 2047, 2048, 2049, 2190, 2300, 3000}; static const char SY[] = "GEC"; int s = ctx.choose(3); long wk = ctx.thorough() ? 1400 + ctx.choose(1201) : W[ctx.choose(23)]; int dow = ctx.choose(7); if (s == 2 && wk < 1356) return;
  for (long sod : SD) { nav::Blk b = nav::ephemeris(SY[s], 7, wk, dow * 86400L + sod, 0.01, 1, 1); std::string w = mc::fmt("%c week %ld sow %ld", SY[s], wk, dow * 86400L + sod); NavDataFrame f; ctx.site("read"); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); all(ctx, f, 44244 + 7 * wk + dow, sod, w); ctx.state(w); }
  ctx.outcome(mc::fmt("%d %ld", s, wk));
}
MC_SCENARIO(P21, clock_elsewhere, "GPS, Galileo, BeiDou: clock epoch before or after the reference epoch by 0, 16 s, 2 h, 1 day, in the neighbouring day, week, month or year: the reference epoch does not depend on it") {
  static const long DF[] = {0, 16, -16, 7200, -7200, 86400, -86400}; static const char SY[] = "GEC"; int s = ctx.choose(3), k = ctx.choose(7); long day = std::vector<long>{58483, 58484, 58485, 58849, 58908, 58909, 57387, 60369}[ctx.choose(8)];
  for (long sod : SD) { long long toe = (day - 44244) * 86400LL + sod, toc = toe + DF[k]; nav::Blk b = nav::ephemeris(SY[s], 7, toe / 604800, toe % 604800, 0.01, 1, 1); b.day = 44244 + toc / 86400; b.sod = toc % 86400; std::string w = mc::fmt("%c toe %ld/%ld toc-toe %ld", SY[s], day, sod, DF[k]); NavDataFrame f; if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); all(ctx, f, day, sod, w); same(ctx, std::as_const(f).toc(), b.day, b.sod, "toc", w); ctx.state(w); }
  ctx.outcome(mc::fmt("%d %d", s, k));
}
MC_SCENARIO(P21, glonass, "GLONASS: every day of 5 weeks with month and year ends (thorough: 10 years) x 13 seconds of day x frame time minus clock epoch of 0, +-1 s, +-30 s, +-15 min, +-3 h, +-12 h, +-1 day, healthy and unhealthy") {
  static const long DF[] = {0, 1, -1, 30, -30, 900, -900, 10800, -10800, 43200, -43200, 86399, -86399}; long day; if (ctx.thorough()) day = 56000 + ctx.choose(3653); else { static const long F[] = {58480, 58542, 58846, 58905, 60366}; int w = ctx.choose(5); day = F[w] + ctx.choose(7); }
  int h = ctx.choose(2);
  for (long sod : SD) for (long df : DF) { long long toc = day * 86400LL + sod, tb = toc + df; nav::Blk b = nav::glonass(9, day, sod, tb / 86400, tb % 86400, 1); b.set(6, h); std::string w = mc::fmt("toc %ld/%ld tb-toc %ld health %d", day, sod, df, h); NavDataFrame f; ctx.site("read"); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("glonass-read", w); all(ctx, f, tb / 86400, tb % 86400, w); }
  ctx.state(mc::fmt("%ld %d", day, h)); ctx.outcome(mc::fmt("%d %d", (int)(day % 7), h));
}
MC_SCENARIO(P21, reused_frame, "one frame read again: all sequences of 4 of 6 blocks (three systems, GLONASS, two SBAS/QZSS): the reference epoch is that of the block last read") {
  NavDataFrame f; std::string w; for (int i = 0; i < 4; i++) { int k = ctx.choose(6); w += mc::fmt("%d ", k); nav::Blk b = k < 3 ? nav::ephemeris("GEC"[k], 4, 2034 + k, k * 200000 + 7, 0.01, 1, 1) : k == 3 ? nav::glonass(2, 58484, 0, 58483, 86370, 0) : nav::Blk("SJ"[k - 4], 5); if (nav::load(ctx.scratch() + "/b", b.text(), f)) ctx.fail("read", w); if (k < 3) all(ctx, f, 44244 + 7 * (2034 + k) + (k * 200000 + 7) / 86400, (k * 200000 + 7) % 86400, w); else if (k == 3) all(ctx, f, 58483, 86370, w); ctx.state(w); } ctx.outcome(w);
}
