// MC-PROPERTIES: P30
#include "navorbit.hpp"
#include <limits>
static const char ALL[] = "GRESJCIM"; // every satellite system
static int sysno(char c) { return (int)nav::system(c); }
/// what the accessors must give, from the values the frame holds
struct Held { char sys; int prn; std::vector<double> v; long tocd, tocs, toed, toes; bool has_toe; };
static bool usable(char s) { return s == 'G' || s == 'R' || s == 'E' || s == 'C'; }
template <class F> static void refused(mc::Ctx &ctx, const char *key, const std::string &w, F f) {
  bool thrown = false; try { f(); } catch (std::runtime_error &) { thrown = true; } catch (std::exception &e) { ctx.fail(key, w + ": throws another exception: " + e.what()); }
  if (!thrown) ctx.fail(key, w + ": answered, not refused");
}
template <class T> static void instant(mc::Ctx &ctx, const datetime<T> &d, long day, long sod, const char *key, const std::string &w) {
  long gd = d.mjd().as_underlying_type(); double gs = d.sec().to_fractional_seconds(); if (gd != day || gs != (double)sod) ctx.fail(key, w + mc::fmt(": MJD %ld + %.6f s, expected %ld + %ld s", gd, gs, day, sod));
}
static void judge(mc::Ctx &ctx, const NavDataFrame &f, const Held &h, const std::string &w) {
  std::string c0 = nav::content(f); ctx.site("accessors of " + w);
  ctx.eq((int)f.system(), sysno(h.sys), "system", w); ctx.eq(f.prn(), h.prn, "prn", w); for (int i = 0; i < 31; i++) ctx.eq(f.data(i), h.v[i], "data", w + mc::fmt(" %d", i));
  instant(ctx, f.toc(), h.tocd, h.tocs, "toc", w); instant(ctx, f.toc<seconds>(), h.tocd, h.tocs, "toc", w); instant(ctx, f.toc<milliseconds>(), h.tocd, h.tocs, "toc-ms", w); instant(ctx, f.toc<microseconds>(), h.tocd, h.tocs, "toc-us", w);
  if (h.has_toe) { instant(ctx, f.toe<seconds>(), h.toed, h.toes, "toe", w); instant(ctx, f.toe<milliseconds>(), h.toed, h.toes, "toe-ms", w); instant(ctx, f.toe<microseconds>(), h.toed, h.toes, "toe-us", w); }
  if (usable(h.sys)) {
    ctx.eq(f.sv_health(), (int)h.v[h.sys == 'R' ? 6 : 24], "health", w);
    if (h.sys == 'R') ctx.eq(f.fit_interval(), 900L, "fit-interval", w); else if (h.sys == 'G') { if (h.v[28] != 0) ctx.eq(f.fit_interval(), 3600L * (long)h.v[28], "fit-interval", w); } else ctx.eq(f.fit_interval(), 14400L, "fit-interval", w);
    if (h.sys == 'G') { if (h.v[28] != 0) ctx.eq(f.gps_fit_interval(), (int)(3600L * (long)h.v[28]), "gps-fit-interval", w); float u = f.gps_ura(); if (h.v[23] >= 8192) ctx.eq(u, std::numeric_limits<float>::max(), "accuracy", w); else ctx.eq(u, (float)h.v[23], "accuracy", w); }
    if (h.sys == 'E') { ctx.eq(f.gal_sisa(), (float)h.v[23], "sisa", w); ctx.eq(f.gal_iod_nav(), (int)h.v[3], "iod", w); }
  } else {
    double x[6] = {1, 2, 3, 4, 5, 6}, dt = 7; datetime<milliseconds> t(modified_julian_day(h.tocd), milliseconds(h.tocs * 1000));
    refused(ctx, "health", w + " health", [&] { (void)f.sv_health(); }); refused(ctx, "fit-interval", w + " fit interval", [&] { (void)f.fit_interval(); });
    refused(ctx, "state", w + " state", [&] { (void)f.stateNclock(t, x, dt); }); refused(ctx, "toe2date", w + " toe2date", [&] { (void)f.toe2date<seconds>(); }); refused(ctx, "toe2date", w + " toe2date", [&] { (void)f.toe2date<microseconds>(); });
    for (int i = 0; i < 6; i++) ctx.eq(x[i], i + 1.0, "output-touched", w); ctx.eq(dt, 7.0, "output-touched", w);
  }
  ctx.check(nav::content(f) == c0, "frame-changed", w); ctx.step();
}
static Held held(const nav::Blk &b) {
  Held h; h.sys = b.sys; h.prn = b.prn; h.v.assign(31, 0); for (size_t i = 0; i < b.f.size(); i++) h.v[i] = b.val(i);
  h.tocd = b.day; h.tocs = b.sod; h.has_toe = usable(b.sys); h.toed = b.day; h.toes = b.sod; return h;
}
/// read the block in; fields whose decimal text has more digits than a double are taken as read (P16 judges them)
static Held load(mc::Ctx &ctx, const nav::Blk &b, NavDataFrame &f, const std::string &w) {
  ctx.site("read"); int st = nav::load(ctx.scratch() + "/b", b.text(), f); if (st) ctx.fail("read", w + mc::fmt(" status %d", st)); nav::compare(ctx, f, b, w); Held h = held(b); for (int i = 0; i < 31; i++) h.v[i] = std::as_const(f).data(i); return h;
}
static nav::Blk block(char s, int k) {
  if (s == 'R') { nav::Blk b = nav::glonass(3 + k, 58484 + k, 85500, 58484 + k, 85500, k % 4); return b; }
  if (s == 'G' || s == 'E' || s == 'C') return nav::ephemeris(s, 20 + k, 2034 + k, 86400 * k + 7200 * k, 0.01 + 0.001 * k, 0.3 * k, k % 3);
  nav::Blk b(s, 2 + k); b.day = 58484 + k; b.sod = 3600 * k; return b;
}
MC_SCENARIO(P30, health, "4 systems x every health word 0..511 (GLONASS 0..31), neighbouring fields set to other values, every other field zero or filled") {
  char s = "GREC"[ctx.choose(4)]; int fill = ctx.choose(2), part = ctx.choose(8); int n = s == 'R' ? 32 : 512;
  for (int v = part * n / 8; v < (part + 1) * n / 8; v++) { nav::Blk b = block(s, 1); int i = s == 'R' ? 6 : 24; b.set(i, v); if (fill) { b.set(i - 1, s == 'R' ? -3e-9 : 3.4); b.set(i + 1, s == 'R' ? 5e3 : -7.5e-9); if (s == 'R') b.set(10, 5), b.set(14, 2); else b.set(28 < b.f.size() ? 28 : 27, 6); }
    mc::Dirty<NavDataFrame> D(v & 1 ? 0xA5 : 0xFF); NavDataFrame &f = D.make(); std::string w = mc::fmt("%c health %d", s, v); ctx.note(w); Held h = load(ctx, b, f, w); if (h.v[i] != v) ctx.fail("read", w); judge(ctx, f, h, w); ctx.state(w); }
  ctx.outcome(mc::fmt("%c%d%d", s, fill, part));
}
MC_SCENARIO(P30, fit_interval, "4 systems x every whole number of hours 1..26 in the GPS fit interval field (other systems: any value in its place) x 7 health words") {
  char s = "GREC"[ctx.choose(4)]; static const int H[] = {0, 1, 2, 31, 32, 63, 511};
  int hl = H[ctx.choose(7)]; for (int v = 1; v <= 26; v++) { nav::Blk b = block(s, 2); if (b.f.size() > 28) b.set(28, v); else b.set(b.f.size() - 1, v); b.set(s == 'R' ? 6 : 24, hl); NavDataFrame f; std::string w = mc::fmt("%c fit %d h health %d", s, v, hl); ctx.note(w); judge(ctx, f, load(ctx, b, f, w), w); ctx.state(w); }
  ctx.outcome(mc::fmt("%c%d", s, hl));
}
MC_SCENARIO(P30, accuracy, "GPS accuracy and Galileo SISA: every value of the two tables (GPS 16 URA values and neighbours around each of the 1, 2, 2.8 ... 8192 m steps; Galileo 0..6.4 m in the ICD's 4 step sizes, no accuracy -1) ; every issue of data 0..1023 in the same place") {
  int sys = ctx.choose(2), part = ctx.choose(16);
  std::vector<double> V;
  if (!sys) { for (double v : {0.0, 2.0, 2.4, 2.8, 3.4, 4.0, 4.85, 5.7, 6.85, 8.0, 9.65, 11.3, 13.65, 16.0, 24.0, 32.0, 48.0, 64.0, 96.0, 128.0, 192.0, 256.0, 384.0, 512.0, 768.0, 1024.0, 1536.0, 2048.0, 3072.0, 4096.0, 6144.0, 8191.0, 8192.0, 8193.0, 16384.0, 32767.0}) V.push_back(v); for (int i = 0; i <= 20; i++) V.push_back(i); }
  else { V.push_back(-1); for (int i = 0; i < 50; i++) V.push_back(i * .01); for (int i = 0; i < 25; i++) V.push_back(.5 + i * .02); for (int i = 0; i < 25; i++) V.push_back(1 + i * .04); for (int i = 0; i <= 28; i++) V.push_back(2 + i * .16); }
  for (int io = part * 64; io < (part + 1) * 64; io++) { double v = V[io % V.size()]; nav::Blk b = block(sys ? 'E' : 'G', 1); b.set(23, v); b.set(3, io); b.set(24, io % 7); NavDataFrame f; std::string w = mc::fmt("%s accuracy %g issue %d", sys ? "Galileo" : "GPS", v, io); ctx.note(w); judge(ctx, f, load(ctx, b, f, w), w); ctx.state(w); }
  ctx.outcome(mc::fmt("%d%d", sys, part));
}
MC_SCENARIO(P30, every_value_alone, "8 systems x 31 data fields: a frame of zeros with one field set through data(i), read through every accessor") {
  char s = ALL[ctx.choose(8)]; for (int i = 0; i < 31; i++) for (double v : {1.0, 3.0, 300.0}) {
    mc::Dirty<NavDataFrame> D(0x5A); NavDataFrame &f = D.make(); f.system() = nav::system(s); f.prn() = 5; for (int k = 0; k < 31; k++) f.data(k) = 0; f.data(i) = v; f.set_toc(datetime<seconds>(modified_julian_day(58000 + i), seconds(7)));
    Held h; h.sys = s; h.prn = 5; h.v.assign(31, 0); h.v[i] = v; h.tocd = 58000 + i; h.tocs = 7; h.has_toe = false; std::string w = mc::fmt("%c field %d alone = %g", s, i, v); ctx.note(w); judge(ctx, f, h, w); ctx.state(w); }
  ctx.outcome(std::string(1, s));
}
MC_SCENARIO(P30, instants, "4 systems x 60 days (month, year and leap day ends) x 16 seconds of day: toc and toe in seconds, milliseconds and microseconds; set_toc to another epoch changes only toc; the same for every order of set_toc, copy and read of 3") {
  char s = "GREC"[ctx.choose(4)]; int d = ctx.choose(60); static const long F[] = {57386, 58180, 58483, 58542, 58846, 58905, 60366, 60675, 51543, 61403}; long day = F[d / 6] - 2 + d % 6; static const long S[] = {0, 1, 2, 59, 60, 61, 3599, 3600, 43199, 43200, 43201, 86340, 86370, 86384, 86398, 86399};
  for (long sod : S) { nav::Blk b = s == 'R' ? nav::glonass(3, day, sod, day, sod, 1) : nav::ephemeris(s, 24, (day - 44244) / 7, (day - 44244) % 7 * 86400 + sod, 0.01, 1, 1); NavDataFrame f; std::string w = mc::fmt("%c day %ld second %ld", s, day, sod); ctx.note(w); Held h = load(ctx, b, f, w); judge(ctx, f, h, w);
    long nd = day + (sod % 3) - 1, ns = (sod * 7 + 11) % 86400; f.set_toc(datetime<seconds>(modified_julian_day(nd), seconds(ns))); h.tocd = nd; h.tocs = ns; judge(ctx, f, h, w + " set"); NavDataFrame g(f); judge(ctx, g, h, w + " copy"); g.set_toc(datetime<seconds>(modified_julian_day(1), seconds(1))); judge(ctx, f, h, w + " other set"); ctx.state(w); }
  ctx.outcome(mc::fmt("%c%d", s, d));
}
MC_SCENARIO(P30, histories, "two frames x all sequences of 4 (thorough 5) of 12 operations (read one of 8 systems' blocks into the first, write health, write system, write prn, write fit interval or accuracy, set_toc, copy or move to and from the second, destroy and create in dirty memory); every accessor of both frames after every operation") {
  int fill = 0x3C; auto D = std::make_unique<mc::Dirty<NavDataFrame>>(fill); NavDataFrame *f = &D->make(); NavDataFrame g; std::string w; nav::Blk b0 = block('G', 1), b1 = block('E', 2); Held h = load(ctx, b0, *f, "start"), k = load(ctx, b1, g, "start"); int depth = ctx.thorough() ? 5 : 4;
  for (int t = 0; t < depth; t++) {
    int op = ctx.choose(12); w += mc::fmt("%d ", op); ctx.note("op ", op); ctx.site("history " + w);
    switch (op) {
    case 0: case 1: case 2: case 3: { char s = ALL[(op * 2 + t) % 8]; if (s == 'M') s = 'R'; nav::Blk b = block(s, 1 + t); std::vector<double> old = h.v; long od = h.toed, os = h.toes; bool ht = h.has_toe; int st = nav::load(ctx.scratch() + "/b", b.text(), *f); if (st) ctx.fail("read", w); nav::compare(ctx, *f, b, w); size_t n = b.f.size(); Held x = held(b); for (size_t i = 0; i < 31; i++) x.v[i] = i < n ? std::as_const(*f).data(i) : std::as_const(*f).data(i); (void)old; if (!x.has_toe) { x.toed = od; x.toes = os; (void)ht; } h = x; break; }
    case 4: { int i = h.sys == 'R' ? 6 : 24; double v = t % 2 ? 0 : 31; f->data(i) = v; h.v[i] = v; break; }
    case 5: { char s = ALL[(sysno(h.sys) + 3 * t + 1) % 8]; f->system() = nav::system(s); h.sys = s; h.has_toe = false; break; }
    case 6: f->prn() = 7 + t; h.prn = 7 + t; break;
    case 7: f->data(28) = 6 + t; f->data(23) = 11.3; h.v[28] = 6 + t; h.v[23] = (double)11.3; break;
    case 8: f->set_toc(datetime<seconds>(modified_julian_day(59000 + t), seconds(30 * t))); h.tocd = 59000 + t; h.tocs = 30 * t; break;
    case 9: g = *f; k = h; break;
    case 10: { NavDataFrame x(std::move(g)); *f = std::move(x); h = k; g = *f; break; }
    default: { NavDataFrame x(*f); D = std::make_unique<mc::Dirty<NavDataFrame>>(0xC3 + t); f = &D->make(); *f = x; } }
    judge(ctx, *f, h, "first after " + w); judge(ctx, g, k, "second after " + w);
  }
  ctx.state(mc::fmt("%c%d %c%d", h.sys, h.prn, k.sys, k.prn)); ctx.outcome(mc::fmt("%c%c", h.sys, k.sys));
}
MC_SCENARIO(P30, named_forms, "GPS, Galileo, BeiDou, GLONASS: the form for one system (gps_stateNclock ...) and the general stateNclock, the toe forms, at 41 epochs within +-4 h (GLONASS +-15 min): the same results; exactly 3 (GLONASS 6) components written") {
  int s = ctx.choose(4), k = ctx.choose(6), e = ctx.choose(41); char c = "GECR"[s]; nav::Blk b = block(c, k); NavDataFrame f; std::string w = mc::fmt("%c %d epoch %d", c, k, e); load(ctx, b, f, w);
  long day = f.toe<seconds>().mjd().as_underlying_type(); long long ms = f.toe<seconds>().sec().as_underlying_type() * 1000LL + (e - 20) * (s == 3 ? 44999LL : 719999LL); auto t = nav::at<milliseconds>(day, ms); int n = s == 3 ? 6 : 3; std::unique_ptr<double[]> x(new double[n]), y(new double[n]); double dx = 1, dy = 2; ctx.site(w);
  int a = f.stateNclock(t, x.get(), dx), q = s == 0 ? f.gps_stateNclock(t, y.get(), dy) : s == 1 ? f.gal_stateNclock(t, y.get(), dy) : s == 2 ? f.bds_stateNclock(t, y.get(), dy) : f.glo_stateNclock(t, y.get(), dy); ctx.step(2);
  ctx.eq(a, 0, "status", w); ctx.eq(q, 0, "status", w); for (int i = 0; i < n; i++) if (!(std::fabs(x[i] - y[i]) < 1e-5)) ctx.fail("named-state", w); if (!(std::fabs(dx - dy) < 1e-15)) ctx.fail("named-clock", w); ctx.state(w); ctx.outcome(mc::fmt("%c", c));
}
