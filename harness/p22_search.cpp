// MC-PROPERTIES: P22
#include "navorbit.hpp"
struct B { nav::Blk b; long long toc, toe; bool ok; long fit; };
static const long D0 = 58484; // 2019-01-01
static B mk(int sat, long toc, bool healthy, long fit_h) { // toc: seconds after 0h of D0
  static const struct { char s; int p; } S[] = {{'G', 1}, {'G', 12}, {'R', 3}, {'E', 1}, {'C', 30}, {'R', 13}};
  long long abs = D0 * 86400LL + toc; char s = S[sat].s; int p = S[sat].p; long gw = (abs / 86400 - 44244) / 7, sow = abs - (44244 + 7 * gw) * 86400LL;
  nav::Blk b = s == 'R' ? nav::glonass(p, abs / 86400, abs % 86400, abs / 86400, abs % 86400, 0) : nav::ephemeris(s, p, gw, sow, 0.01, 1, 1);
  if (s == 'R') b.set(6, healthy ? 0 : 1); else b.set(24, healthy ? 0 : 1 + 62 * (toc % 2)); if (s == 'G') b.set(28, fit_h); b.set(0, 1e-4 + 1e-9 * toc);
  return {b, abs, abs, healthy, s == 'R' ? 900 : s == 'G' ? fit_h * 3600 : 14400};
}
static bool valid(const B &x, long long tms) { long long c = x.toc * 1000; if (!x.ok) return false; return x.b.sys == 'R' ? tms >= x.toe * 1000 - 900000 && tms < x.toe * 1000 + 900000 : tms >= c && tms < c + x.fit * 1000; }
struct Sut {
  NavigationRnx r; std::vector<B> l; size_t cur = 0; bool unsure = false; std::vector<std::pair<NavigationRnx::pos_type, size_t>> sv;
  Sut(const std::string &p, const std::vector<B> &v) : r(p.c_str()), l(v) {}
  template <class T> void search(mc::Ctx &ctx, long long tms, char s, int prn, const std::string &w) {
    if (unsure) return; NavDataFrame f; NavigationRnx::pos_type pos; size_t k = cur; ctx.site("find_next_valid"); ctx.step(); long long day = tms / 86400000;
    int st = r.find_next_valid(nav::at<T>(day, tms - day * 86400000), pos, f, nav::system(s), prn); sv.emplace_back(pos, cur);
    while (k < l.size() && !(l[k].b.sys == s && (prn == -1 || l[k].b.prn == prn) && valid(l[k], tms))) k++;
    std::string q = w + mc::fmt(" search %c%d at %lld from block %zu", s, prn, tms - D0 * 86400000LL, cur); ctx.note(q, " -> ", st);
    if (k == l.size()) { if (st >= 0) ctx.fail("none", q + mc::fmt(": status %d, expected none", st)); unsure = true; return; }
    if (st) ctx.fail("not-found", q + mc::fmt(": status %d, expected block %zu", st, k));
    if (f.prn() != l[k].b.prn || (int)f.system() != (int)nav::system(s) || std::as_const(f).data(0) != l[k].b.val(0)) ctx.fail("wrong-block", q + mc::fmt(": expected block %zu", k)); cur = k + 1;
  }
  void rewind(mc::Ctx &ctx) { ctx.site("rewind"); r.rewind(); cur = 0; unsure = false; ctx.step(); }
  void back(mc::Ctx &ctx) { if (sv.empty()) return; ctx.site("rewind"); r.rewind(sv.back().first); cur = sv.back().second; unsure = false; ctx.step(); }
};
static std::string put(mc::Ctx &ctx, const std::vector<B> &l) { std::string t = nav::header(), p = ctx.scratch() + "/s"; for (auto &b : l) t += b.b.text(); nav::write(p, t); return p; }
MC_SCENARIO(P22, grid, "files of 1-3 (thorough 4) blocks, each of 2 GPS satellites or a GLONASS one, healthy or not, 0, 15 min or 2 h after the previous one x 16 epochs x search of G01, G12, any GPS, R03: search, search on, search again after rewinding to the saved position") {
  static const long STEP[] = {0, 900, 7200}; std::vector<B> l; long t = 75600; int n = 1 + ctx.choose(ctx.thorough() ? 4 : 3); std::string w; for (int i = 0; i < n; i++) { int c = ctx.choose(6), dt = i ? ctx.choose(3) : 0; t += STEP[dt]; int sat = c / 2; l.push_back(mk(sat, t, c % 2 == 0, sat == 1 ? 6 : 4)); w += mc::fmt("%c%02d%s+%ld ", l.back().b.sys, l.back().b.prn, c % 2 ? "x" : "", t); }
  std::string p = put(ctx, l); ctx.note(w); static const struct { char s; int p; } Q[] = {{'G', 1}, {'G', 12}, {'G', -1}, {'R', 3}}; static const long long E[] = {-21600000, -900001, -900000, -1, 0, 1, 899999, 900000, 7199999, 7200000, 14399999, 14400000, 21600000, 28800000 - 1, 28800000, 100000000};
  for (auto &q : Q) { Sut s(p, l); for (long long e : E) { long long tms = (D0 * 86400LL + 75600) * 1000 + e; std::string v = w; s.search<milliseconds>(ctx, tms, q.s, q.p, v); s.search<milliseconds>(ctx, tms, q.s, q.p, v + "on"); s.back(ctx); s.search<milliseconds>(ctx, tms, q.s, q.p, v + "again"); s.rewind(ctx); } }
  ctx.state(w); ctx.outcome(mc::fmt("%d", n));
}
MC_SCENARIO(P22, sequences, "a file of 7 blocks of 5 satellites over the day boundary x all sequences of 3 (thorough 4) operations out of 4 epochs x 4 targets, rewind, rewind to saved") {
  std::vector<B> l = {mk(0, 75600, true, 4), mk(2, 78300, true, 4), mk(3, 79200, false, 4), mk(1, 79200, true, 6), mk(0, 82800, true, 4), mk(2, 85500, true, 4), mk(3, 86400, true, 4), mk(4, 86400, true, 4), mk(0, 90000, false, 4), mk(2, 87300, true, 4)}; static std::string p; p = ctx.scratch() + "/seq"; if (access(p.c_str(), F_OK)) { std::string t = nav::header(); for (auto &b : l) t += b.b.text(); nav::write(p, t); }
  static const long long E[] = {79200000, 85500000, 86400000, 97199999}; static const struct { char s; int p; } Q[] = {{'G', 1}, {'R', 3}, {'E', 1}, {'G', -1}}; Sut s(p, l); std::string w;
  for (int i = 0; i < (ctx.thorough() ? 4 : 3); i++) { int o = ctx.choose(18); w += mc::fmt("%d ", o); if (o == 16) s.rewind(ctx); else if (o == 17) s.back(ctx); else s.search<milliseconds>(ctx, D0 * 86400000LL + E[o / 4], Q[o % 4].s, Q[o % 4].p, w); ctx.state(mc::fmt("%zu %d", s.cur, s.unsure)); } ctx.outcome(mc::fmt("%zu", s.cur));
}
MC_SCENARIO(P22, per_satellite_order, "files sorted by satellite (chronological for each, as is usual), 1-3 satellites x a block every 2 h of a day: every half hour and 1 ms either side, every satellite, also with an unhealthy block at each place") {
  int ns = 1 + ctx.choose(3), bad = ctx.choose(14), first = ctx.choose(5); std::vector<B> l; for (int k = 0; k < ns; k++) for (int i = 0; i < 13; i++) { int sat = (first + k) % 5; l.push_back(mk(sat, i * 7200, i != bad, 4)); } std::string p = put(ctx, l), w = mc::fmt("%d sats from %d bad %d", ns, first, bad); ctx.note(w);
  for (int k = 0; k < ns; k++) { int sat = (first + k) % 5; char s = mk(sat, 0, true, 4).b.sys; int prn = mk(sat, 0, true, 4).b.prn; Sut u(p, l); for (int h = -1; h < 58; h++) for (int d = -1; d <= 1; d++) { u.rewind(ctx); u.search<milliseconds>(ctx, D0 * 86400000LL + h * 1800000LL + d, s, prn, w); } }
  ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P22, fit_and_health, "GPS blocks with fit intervals of 1-14 h and all systems with health words 0..3, 63, every power of two to 256, 511, at 9 epochs (in milliseconds and in microseconds) around the end of the fit interval") {
  int sat = ctx.choose(5); long fit = 1 + ctx.choose(14); static const int H[] = {0, 1, 2, 3, 63, 4, 8, 16, 32, 64, 128, 256, 511}; int h = H[ctx.choose(13)]; B x = mk(sat, 82800, h == 0, fit); if (x.b.sys == 'R') x.b.set(6, h); else x.b.set(24, h); std::vector<B> l = {x, mk(3, 82801, true, 4)}; std::string p = put(ctx, l), w = mc::fmt("sat %d fit %ld health %d", sat, fit, h); Sut u(p, l);
  for (long long o : std::vector<long long>{-1LL, 0LL, 1LL, x.fit * 1000 - 1, x.fit * 1000, x.fit * 1000 + 1, 3600000LL, -900000LL, -900001LL}) { u.rewind(ctx); u.search<milliseconds>(ctx, x.toc * 1000 + o, x.b.sys, x.b.prn, w); u.rewind(ctx); u.search<milliseconds>(ctx, x.toc * 1000 + o, x.b.sys, -1, w); u.rewind(ctx); u.search<microseconds>(ctx, x.toc * 1000 + o, x.b.sys, x.b.prn, w + " us"); } ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P22, long_files, "0, 1, 50, 4999, 5001, 6000 blocks of other satellites before and after the wanted one") {
  static const int N[] = {0, 1, 50, 4999, 5001, 6000}; int a = N[ctx.choose(6)], b = N[ctx.choose(2)]; int other = ctx.choose(2); std::vector<B> l; for (int i = 0; i < a; i++) l.push_back(mk(other ? 2 : 0, i / 2, true, 4)); l.push_back(mk(1, 3600, true, 6)); for (int i = 0; i < b; i++) l.push_back(mk(0, 3700 + i, true, 4)); l.push_back(mk(1, 7200, true, 6)); std::string p = put(ctx, l), w = mc::fmt("%d other %d before, %d between", a, other, b); Sut u(p, l);
  u.search<milliseconds>(ctx, (D0 * 86400LL + 8000) * 1000, 'G', 12, w); u.search<milliseconds>(ctx, (D0 * 86400LL + 8000) * 1000, 'G', 12, w); u.search<milliseconds>(ctx, (D0 * 86400LL + 8000) * 1000, 'G', 12, w); u.rewind(ctx); u.search<milliseconds>(ctx, (D0 * 86400LL + 8000) * 1000, 'G', 12, w); ctx.state(w); ctx.outcome(w);
}
