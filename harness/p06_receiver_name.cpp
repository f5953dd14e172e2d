// MC-PROPERTIES: P06
#include "common.hpp"
#include "antenna.hpp"
#include <memory>
using namespace ngpt;

static std::string want(const std::string &t) {
  std::string w = t.substr(0, 20); w.resize(20, ' ');
  if (w.substr(16) == "    ") w.replace(16, 4, "NONE");
  return w;
}
// a heap copy of exactly the size of the text: reading past it is caught
struct Exact {
  std::unique_ptr<char[]> p;
  explicit Exact(const std::string &s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
};
static void verify(mc::Ctx &ctx, const ReceiverAntenna &a, const std::string &t) {
  std::string w = want(t);
  const char *u = a.__underlying_char__();
  if (memcmp(u, w.data(), 20)) ctx.fail("columns", "text [" + mc::vis(t) + "] gives [" + mc::vis(std::string(u, 20)) + "], expected [" + mc::vis(w) + "]");
  if (strnlen(u, 41) > 20 && std::string(u + 20, strnlen(u + 20, 21)).find_first_not_of(' ') != std::string::npos)
    ctx.fail("serial-appears", "text [" + mc::vis(t) + "] gives [" + mc::vis(std::string(u, strnlen(u, 41))) + "]");
  if (a.has_serial()) ctx.fail("serial-appears", "has_serial() after construction from [" + mc::vis(t) + "]");
  if (!a.compare_serial("") || a.compare_serial("X")) ctx.fail("serial-appears", "compare_serial after construction from [" + mc::vis(t) + "]");
  ReceiverAntenna n{w.c_str()}; // the normal form denotes the same antenna
  if (!a.compare_model(n) || !n.compare_model(a)) ctx.fail("normal-form", mc::vis(t));
  if (a.is_same(n) || n.is_same(a)) ctx.fail("same-without-serial", mc::vis(t));
  ctx.step(4);
}
static void run(mc::Ctx &ctx, const std::string &t) {
  static const int F[] = {0, ' ', 'A', 0xFF};
  int f = F[ctx.choose(4)], how = ctx.choose(3);
  ctx.note("text [", mc::vis(t), "] memory ", f, how == 0 ? " from C string" : how == 1 ? " from std::string" : " by copy and assignment");
  Exact e(t); mc::Dirty<ReceiverAntenna> d(f);
  switch (how) {
  case 0: verify(ctx, d.make((const char *)e.p.get()), t); break;
  case 1: verify(ctx, d.make(std::string(t)), t); break;
  case 2: {
    mc::Dirty<ReceiverAntenna> s(f ^ 0x41); s.make((const char *)e.p.get()); d.make(*s.p); verify(ctx, *d.p, t);
    ReceiverAntenna x("OTHER          XABCD"); x.set_serial_nr("12345678901234567890"); x = *s.p; verify(ctx, x, t);
    break; }
  }
  ctx.state(t); ctx.outcome(want(t).substr(16) + mc::fmt("%zu", std::min<size_t>(t.size(), 21)));
}

MC_SCENARIO(P06, every_length, "texts of every length 0..45, as letters with a blank at / blanks up to / blanks from every position, x 4 memory fills x 3 ways to build") {
  int len = ctx.choose(46); std::string t;
  for (int i = 0; i < len; i++) t += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[i];
  int p = ctx.choose(len + 1), k = ctx.choose(len ? 4 : 1);
  if (k == 1 && p < len) t[p] = ' ';
  if (k == 2) for (int i = 0; i < p; i++) t[i] = ' ';
  if (k == 3) for (int i = p; i < len; i++) t[i] = ' ';
  run(ctx, t);
}
MC_SCENARIO(P06, radome_columns, "every combination of {blank, letter, digit 0} in columns 15..21 for every length 14..21, x memory fills x ways") {
  int len = 14 + ctx.choose(8); std::string t(len, 'M'); t[3] = ' ';
  for (int i = 14; i < len; i++) t[i] = " A0"[ctx.choose(ctx.thorough() || (i > 14 && i < 20) ? 3 : 2)];
  run(ctx, t);
}
MC_SCENARIO(P06, every_byte, "every byte 1..255 at every position 0..21, with and without radome") {
  std::string t = "TRM41249.00     TZGDxy"; if (ctx.flag()) t = t.substr(0, 16) + "    xy";
  int p = ctx.choose(22); t[p] = (char)(1 + ctx.choose(255)); run(ctx, t);
}
MC_SCENARIO(P06, default_blank, "default antenna in memory with every byte value before, also after moves between objects") {
  int f = ctx.choose(256), how = ctx.choose(3); mc::Dirty<ReceiverAntenna> d(f); d.make();
  ReceiverAntenna x("TRM41249.00     TZGD"); x.set_serial_nr("1"); ReceiverAntenna *p = d.p;
  if (how == 1) { x = *d.p; p = &x; } else if (how == 2) { x = ReceiverAntenna(); p = &x; }
  const char *u = p->__underlying_char__();
  ctx.eq(std::string(u, 20), std::string(20, ' '), "default-columns"); ctx.check(!p->has_serial() && p->compare_serial(""), "default-serial");
  ctx.check(!p->is_same(*p), "default-same"); ctx.check(p->compare_model(ReceiverAntenna()), "default-model"); ctx.check(!p->compare_model(ReceiverAntenna("")), "default-vs-none");
  ctx.step(5); ctx.state(f); ctx.outcome("blank");
}
MC_SCENARIO(P06, very_long, "texts of 40 lengths around powers of two up to 70000, with or without radome columns or all blank up to column 20, then letters or blanks") {
  static const std::vector<int> L = [] { std::vector<int> l; for (int p : {32, 64, 128, 256, 512, 1024, 4096, 32768, 65536}) for (int d : {-1, 0, 1, 17}) l.push_back(p + d); l.push_back(70000); l.push_back(300); l.push_back(240); l.push_back(1000); return l; }();
  int n = ctx.pick(L), k = ctx.choose(4), tail = ctx.choose(2); std::string t(n, tail ? ' ' : 'z'); t.replace(0, 20, k == 0 ? "TRM41249.00     TZGD" : k == 1 ? "TRM41249.00         " : k == 2 ? "                    " : "ABCDEFGHIJKLMNOPQRST"); run(ctx, t);
}
