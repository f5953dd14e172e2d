// MC-PROPERTIES: P09
#include "common.hpp"
#include "satellite.hpp"
using namespace ngpt;
struct M { int sys = 7, prn = -1, svn = -1; std::string ant, cos; };
static const SATELLITE_SYSTEM S[] = {SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas, SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss, SATELLITE_SYSTEM::irnss, SATELLITE_SYSTEM::mixed};
static std::string pad(int v, size_t n) { std::string d = std::to_string(v); while (d.size() < n) d = "0" + d; return d; }
static void verify(mc::Ctx &ctx, Satellite &s, const M &m, const char *w) {
  const Satellite &k = s;
  ctx.check(s.system() == S[m.sys] && k.system() == S[m.sys], "system", w);
  ctx.eq(s.prn(), m.prn, "prn", w); ctx.eq(k.prn(), m.prn, "prn", w); ctx.eq(s.svn(), m.svn, "svn", w); ctx.eq(k.svn(), m.svn, "svn", w);
  ctx.eq(mc::vis(s.antenna().to_string()), mc::vis(m.ant.substr(0, 20)), "antenna", w); ctx.eq(mc::vis(k.antenna().to_string()), mc::vis(m.ant.substr(0, 20)), "antenna", w);
  std::string c(s.cospar(), strnlen(s.cospar(), 9)); ctx.eq(mc::vis(c), mc::vis(m.cos), "cospar", w);
  if (m.prn >= 0) {
    std::string t = std::string(1, ref::SYS[m.sys]) + pad(m.prn, 2);
    ctx.eq(mc::vis(k.to_string()), t, "compact-text", w); ctx.eq(mc::vis(k.to_string(true)), t, "compact-text", w);
    if (m.svn >= 0) ctx.eq(mc::vis(k.to_string(false)), mc::vis(t + "-" + pad(m.svn, 3) + "/" + m.cos), "full-text", w);
    else { std::string f = k.to_string(false); ctx.check(f.compare(0, 3, t.substr(0, 3)) == 0 && f.size() > m.cos.size() && f.substr(f.size() - m.cos.size() - 1) == "/" + m.cos, "full-text-no-svn", mc::vis(f)); }
  }
  ctx.step(7);
}
static void set_cospar(Satellite &s, const std::string &c) { std::memcpy(s.cospar(), c.c_str(), c.size() + 1); }

MC_SCENARIO(P09, all_numbers, "every PRN 0..999 (with SVN at every width) and every SVN 0..999 (with PRN at every width)") {
  static const int K[] = {0, 1, 9, 10, 99, 100, 999};
  M m; m.sys = ctx.choose(ctx.thorough() ? 8 : 2); bool all = ctx.flag(); int v = ctx.choose(1000), k = K[ctx.choose(7)];
  m.prn = all ? v : k; m.svn = all ? k : v; m.cos = "2019-001A";
  Satellite s(S[m.sys], m.prn); s.svn() = m.svn; set_cospar(s, m.cos); verify(ctx, s, m, "numbers");
  ctx.state(mc::fmt("%d %d %d", m.sys, m.prn, m.svn)); ctx.outcome(mc::fmt("%zu %zu", std::to_string(m.prn).size(), std::to_string(m.svn).size()));
}
MC_SCENARIO(P09, histories, "all sequences of up to 3 (thorough 4) field updates, copies and assignments on two satellites, in memory filled with 4 patterns before; all observers of both after every operation") {
  static const int F[] = {0, 'Z', 0xFF, ' '};
  int f = F[ctx.choose(4)]; mc::Dirty<Satellite> A(f), B(f); M m, n;
  switch (ctx.choose(3)) { case 0: A.make(); break; case 1: A.make(SATELLITE_SYSTEM::galileo); m.sys = 3; break; case 2: A.make(SATELLITE_SYSTEM::gps, 7); m.sys = 0; m.prn = 7; break; }
  B.make(SATELLITE_SYSTEM::glonass, 24); n.sys = 1; n.prn = 24; n.svn = -1;
  Satellite &a = *A.p, &b = *B.p; verify(ctx, a, m, "a"); verify(ctx, b, n, "b");
  int depth = ctx.thorough() ? 4 : 3;
  for (int i = 0; i < depth; i++) {
    int op = ctx.choose(14); ctx.note("op ", op);
    switch (op) {
    case 0: a.prn() = 3; m.prn = 3; break;
    case 1: a.prn() = 32; m.prn = 32; break;
    case 2: a.prn() = 120; m.prn = 120; break;
    case 3: a.svn() = 5; m.svn = 5; break;
    case 4: a.svn() = 41; m.svn = 41; break;
    case 5: a.svn() = 730; m.svn = 730; break;
    case 6: a.system() = SATELLITE_SYSTEM::beidou; m.sys = 4; break;
    case 7: a.antenna() = SatelliteAntenna("BLOCK IIR-M"); m.ant = "BLOCK IIR-M"; break;
    case 8: a.antenna().set_from_cstr("ABCDEFGHIJKLMNOPQRSTUVWXYZ"); m.ant = "ABCDEFGHIJKLMNOPQRST"; break;
    case 9: set_cospar(a, "2019-001A"); m.cos = "2019-001A"; break;
    case 10: set_cospar(a, "1997"); m.cos = "1997"; break;
    case 11: { const Satellite &k = a; k.antenna().set_from_cstr("X"); b = a; n = m; break; }
    case 12: { Satellite t(a); a = b; b = t; std::swap(m, n); break; }
    case 13: b.antenna().set_from_cstr("G"); n.ant = "G"; b.svn() = 100; n.svn = 100; set_cospar(b, "2020-123ZZ" + 1); n.cos = "020-123ZZ"; break;
    }
    verify(ctx, a, m, "a"); verify(ctx, b, n, "b");
    ctx.state(mc::fmt("%d %d %d %s %s|%d %d %d %s %s", m.sys, m.prn, m.svn, m.ant.c_str(), m.cos.c_str(), n.sys, n.prn, n.svn, n.ant.c_str(), n.cos.c_str()));
  }
  ctx.outcome(mc::fmt("%d %zu %zu", m.prn < 0, m.ant.size(), m.cos.size()));
}
MC_SCENARIO(P09, identity, "all systems x COSPAR ids of every length 0..9 x antenna lengths 0,1,20 x memory fills") {
  static const int F[] = {0, 'Z', 0xFF}; M m; m.sys = ctx.choose(8); m.cos = std::string("2019-001A").substr(0, ctx.choose(10)); static const int L[] = {0, 1, 20}; m.ant = std::string(L[ctx.choose(3)], 'Q'); m.prn = 5; m.svn = 50;
  mc::Dirty<Satellite> A(F[ctx.choose(3)]); A.make(S[m.sys], 5); Satellite &s = *A.p; s.svn() = 50; if (!m.cos.empty() || ctx.flag()) set_cospar(s, m.cos); if (!m.ant.empty() || ctx.flag()) s.antenna().set_from_cstr(m.ant.c_str());
  verify(ctx, s, m, "identity"); Satellite c(s); verify(ctx, c, m, "copy"); ctx.state(m.cos + mc::fmt("%d", m.sys) + m.ant); ctx.outcome(m.cos);
}
MC_SCENARIO(P09, large_numbers, "PRN and SVN each one of 24 values around powers of ten and two up to 2^31-1, all systems") {
  static const int K[] = {0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 1000000, 999999999, 1000000000, 2147483647}; M m; m.sys = ctx.choose(8); m.prn = K[ctx.choose(24)]; m.svn = K[ctx.choose(24)]; m.cos = "2019-001A"; Satellite s(S[m.sys], m.prn); s.svn() = m.svn; set_cospar(s, m.cos); verify(ctx, s, m, "large"); ctx.state(mc::fmt("%d %d %d", m.sys, m.prn, m.svn)); ctx.outcome(mc::fmt("%zu %zu", std::to_string(m.prn).size(), std::to_string(m.svn).size()));
}
MC_SCENARIO(P09, collections, "vectors of 1..12 satellites built by growth, then one erased, swapped or assigned at every place: all show their own identity") {
  int n = 1 + ctx.choose(12), p = ctx.choose(n), op = ctx.choose(4); std::vector<Satellite> v; std::vector<M> w; for (int i = 0; i < n; i++) { M m; m.sys = i % 8; m.prn = 1 + i * 11; m.svn = i % 3 ? 40 + i * 70 : -1; m.ant = i % 4 ? mc::fmt("BLOCK %d", i) : ""; m.cos = i % 2 ? mc::fmt("20%02d-0%02dA", i, i) : ""; Satellite s(S[m.sys], m.prn); if (m.svn >= 0) s.svn() = m.svn; if (!m.ant.empty()) s.antenna().set_from_cstr(m.ant.c_str()); if (!m.cos.empty()) set_cospar(s, m.cos); v.push_back(s); w.push_back(m); }
  switch (op) { case 0: break; case 1: v.erase(v.begin() + p); w.erase(w.begin() + p); break; case 2: std::swap(v[p], v[n - 1 - p]); std::swap(w[p], w[n - 1 - p]); break; default: v[p] = v[(p + 1) % n]; w[p] = w[(p + 1) % n]; } for (size_t i = 0; i < v.size(); i++) verify(ctx, v[i], w[i], "vector"); ctx.state(mc::fmt("%d %d %d", n, p, op)); ctx.outcome(mc::fmt("%d", op));
}
