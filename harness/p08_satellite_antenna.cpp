// MC-PROPERTIES: P08
#include "common.hpp"
#include "antenna.hpp"
#include <memory>
using namespace ngpt;

static std::unique_ptr<char[]> exact(const std::string &s) { std::unique_ptr<char[]> c(new char[s.size() + 1]); memcpy(c.get(), s.c_str(), s.size() + 1); return c; }
static const std::vector<std::string> T = {"", "B", "BLOCK IIA", "BLOCK IIF", "BLOCK II", "BLOCK IIA ", " BLOCK IIA", "ABCDEFGHIJKLMNOPQRS", "ABCDEFGHIJKLMNOPQRST", "ABCDEFGHIJKLMNOPQRSTU", "ABCDEFGHIJKLMNOPQRSX", "                    "};
static void verify(mc::Ctx &ctx, const SatelliteAntenna &a, const std::string &given, const char *w) {
  std::string s = given.substr(0, 20); const char *u = a.__underlying_char__();
  std::string g(u, strnlen(u, 21));
  if (g != s) ctx.fail("stored", std::string(w) + ": [" + mc::vis(g) + "] expected [" + mc::vis(s) + "]");
  if (a.to_string() != s) ctx.fail("to-string", std::string(w) + ": [" + mc::vis(a.to_string()) + "] expected [" + mc::vis(s) + "]");
  for (auto &q : T) { auto c = exact(q); if (a.is_same(c.get()) != (q.substr(0, 20) == s)) ctx.fail("is-same", std::string(w) + ": [" + mc::vis(s) + "] against [" + mc::vis(q) + "]"); }
  ctx.step(2 + T.size());
}
MC_SCENARIO(P08, histories, "all sequences of 2 (thorough 3) operations on two satellite antennas (construct, default, set, copy, assign) over 12 types x prior memory fills; all observers after every operation") {
  static const int F[] = {0, 'A', 0xFF};
  int f = F[ctx.choose(3)]; mc::Dirty<SatelliteAntenna> A(f), B(f); std::string s, t;
  int i = ctx.choose(1 + (int)T.size());
  if (i) { s = T[i - 1]; A.make(exact(s).get()); } else A.make();
  B.make(); SatelliteAntenna &a = *A.p, &b = *B.p;
  verify(ctx, a, s, "a"); verify(ctx, b, t, "b");
  int depth = ctx.thorough() ? 3 : 2;
  for (int k = 0; k < depth; k++) {
    int n = T.size(), op = ctx.choose(2 * n + 4);
    if (op < n) { ctx.note("a.set ", T[op]); a.set_from_cstr(exact(T[op]).get()); s = T[op]; }
    else if (op < 2 * n) { ctx.note("b = ", T[op - n]); b = SatelliteAntenna(exact(T[op - n]).get()); t = T[op - n]; }
    else switch (op - 2 * n) {
      case 0: a = b; s = t; break; case 1: b = SatelliteAntenna(a); t = s; break; case 2: a = SatelliteAntenna(); s = ""; break;
      case 3: b.set_from_cstr(a.__underlying_char__()); t = s; break; }
    verify(ctx, a, s, "a"); verify(ctx, b, t, "b"); ctx.state(s + "|" + t);
  }
  ctx.outcome(mc::fmt("%zu/%zu", s.size(), t.size()));
}
MC_SCENARIO(P08, lengths, "set a type of every length 0..25 over one of every length, compared with every prefix and every single-column difference") {
  std::string full = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; std::string first = full.substr(0, ctx.choose(26)), second = std::string(full.rbegin(), full.rend()).substr(0, ctx.choose(26)); bool same = ctx.flag(); if (same) second = full.substr(0, second.size());
  SatelliteAntenna a(first.c_str()); a.set_from_cstr(second.c_str()); verify(ctx, a, second, "a");
  std::string s = second.substr(0, 20);
  for (size_t l = 0; l <= 25; l++) { std::string q = (same ? full : std::string(full.rbegin(), full.rend())).substr(0, l); ctx.eq(a.is_same(q.c_str()), q.substr(0, 20) == s, "prefix"); }
  for (size_t p = 0; p < second.size(); p++) { std::string q = second; q[p] = '#'; ctx.eq(a.is_same(q.c_str()), p >= 20, "column"); }
  ctx.step(26 + second.size()); ctx.state(first + "|" + second); ctx.outcome(mc::fmt("%zu", s.size()));
}
MC_SCENARIO(P08, every_byte, "every byte 1..255 at every column 1..21 of a type") {
  std::string t = "GLONASS-K1 EXTENDED XY"; int p = ctx.choose(22); t[p] = (char)(1 + ctx.choose(255)); SatelliteAntenna a(t.c_str()); verify(ctx, a, t, "a");
  ctx.check(a.is_same(t.c_str()), "self"); std::string q = t; q[p] = q[p] == 'k' ? 'j' : 'k'; ctx.eq(a.is_same(q.c_str()), p >= 20, "other-byte"); ctx.state(t); ctx.outcome(mc::fmt("%d", p));
}
MC_SCENARIO(P08, very_long, "types and compared texts of 40 lengths around powers of two up to 70000, set in new antennas or over shorter and longer types") {
  static const std::vector<int> L = [] { std::vector<int> l; for (int p : {20, 32, 64, 128, 256, 512, 4096, 32768, 65536}) for (int d : {-1, 0, 1, 20}) l.push_back(p + d); l.push_back(70000); l.push_back(300); l.push_back(240); l.push_back(1000); return l; }();
  int n = ctx.pick(L), k = ctx.choose(3), pre = ctx.choose(4); std::string s(n, k == 0 ? 'q' : k == 1 ? ' ' : 'A'); if (k == 2) for (int i = 0; i < n; i++) s[i] = 'A' + i % 26; SatelliteAntenna a; if (pre) a = SatelliteAntenna(exact(T[pre * 3]).get()); if (pre == 3) a = SatelliteAntenna(exact(s).get()); else a.set_from_cstr(exact(s).get()); verify(ctx, a, s, "a"); ctx.check(a.is_same(exact(s).get()), "self"); std::string q = s.substr(0, std::min(n, 20)); ctx.check(a.is_same(exact(q).get()), "prefix"); q = s; q[n > 20 ? 19 : n - 1] = '#'; ctx.check(!a.is_same(exact(q).get()), "other"); ctx.state(mc::fmt("%d %d %d", n, k, pre)); ctx.outcome(mc::fmt("%d%d", k, pre));
}
