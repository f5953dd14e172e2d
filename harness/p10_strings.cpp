// MC-PROPERTIES: P10
#include "common.hpp"
#include "nvarstr.hpp"
#include <memory>
using namespace ngpt;
static const size_t NP = (size_t)-1;
// exact-size heap copy (ASan catches any read or write outside the string)
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string &s) : p(new char[s.size() + 1]), n(s.size()) { memcpy(p.get(), s.data(), n); p[n] = 0; } };

static void trims(mc::Ctx &ctx, const std::string &s, size_t stop) {
  Exact e(s); const char *c = e.p.get(); std::string v = stop == NP ? s : s.substr(0, stop);
  size_t b = 0; while (b < v.size() && v[b] != ' ') b++;               // first blank
  size_t r = v.size(); while (r > 0 && v[r - 1] == ' ') r--;           // after last non-blank
  size_t l = 0; while (l < v.size() && v[l] == ' ') l++;               // first non-blank
  auto w = [&] { return "[" + mc::vis(s) + mc::fmt("] stop %zd", (ssize_t)stop); };
  size_t pos = 777; std::string g = stop == NP && ctx.len_ % 2 ? rtrim(c, pos) : rtrim(c, pos, stop);
  if (g != v.substr(0, b) || pos != b) ctx.fail("rtrim", w() + " gives [" + mc::vis(g) + mc::fmt("] at %zu, expected %zu", pos, b));
  pos = 778; g = rtrim<str_algorithm_details::StrSearchPolicyStart>(c, pos, stop);
  if (g != v.substr(0, b) || pos != b) ctx.fail("rtrim-start", w() + " gives [" + mc::vis(g) + mc::fmt("] at %zu, expected %zu", pos, b));
  pos = 779; g = rtrim<str_algorithm_details::StrSearchPolicyEnd>(c, pos, stop);
  if (g != v.substr(0, r) || pos != r) ctx.fail("rtrim-end", w() + " gives [" + mc::vis(g) + mc::fmt("] at %zu, expected %zu", pos, r));
  pos = 780; g = ltrim(c, pos, stop);
  if (g != v.substr(l) || pos != l) ctx.fail("ltrim", w() + " gives [" + mc::vis(g) + mc::fmt("] at %zu, expected %zu", pos, l));
  bool em = string_is_empty(c, stop);
  if (em != (l == v.size())) ctx.fail("empty", w() + mc::fmt(" gives %d", em));
  if (stop == NP) {
    if (string_is_empty(c) != em) ctx.fail("empty", w() + " without stop");
    pos = 781; g = rtrim(c, pos); if (g != v.substr(0, b) || pos != b) ctx.fail("rtrim", w() + " default stop");
    pos = 782; g = rtrim<str_algorithm_details::StrSearchPolicyEnd>(c, pos); if (g != v.substr(0, r) || pos != r) ctx.fail("rtrim-end", w() + " default stop");
    pos = 783; g = ltrim(c, pos); if (g != v.substr(l) || pos != l) ctx.fail("ltrim", w() + " default stop");
  }
  if (memcmp(c, s.c_str(), s.size() + 1)) ctx.fail("input-changed", w());
  ctx.step(5);
}
MC_SCENARIO(P10, trimming, "all strings of length 0..6 (thorough 0..8) over {blank, a, b, tab} x every stop 0..length+2 and none") {
  int n = ctx.choose(ctx.thorough() ? 9 : 7); std::string s; for (int i = 0; i < n; i++) s += " ab\t"[ctx.choose(4)];
  ctx.note("[", mc::vis(s), "]");
  for (size_t k = 0; k <= s.size() + 2; k++) trims(ctx, s, k);
  trims(ctx, s, NP); ctx.state(s); ctx.outcome(mc::fmt("%d %zu %zu", n, s.find(' ') + 1, s.find_last_not_of(' ') + 1));
}
MC_SCENARIO(P10, trimming_bytes, "every byte 1..255 at every position of strings of length 1..4 over {blank, a}") {
  int n = 1 + ctx.choose(4); std::string s; for (int i = 0; i < n; i++) s += " a"[ctx.choose(2)]; s[ctx.choose(n)] = (char)(1 + ctx.choose(255));
  ctx.note("[", mc::vis(s), "]"); for (size_t k = 0; k <= s.size() + 1; k++) trims(ctx, s, k); trims(ctx, s, NP); ctx.state(s); ctx.outcome(mc::fmt("%d", n));
}
MC_SCENARIO(P10, long_strings, "strings of length 60..140: one blank run of every length at every place, stops around its ends") {
  int n = 60 + 20 * ctx.choose(5), a = ctx.choose(n), len = 1 + ctx.choose(3) * 7; std::string s(n, 'x'); bool inv = ctx.flag(); if (inv) s.assign(n, ' ');
  for (int i = a; i < std::min(n, a + len); i++) s[i] = inv ? 'x' : ' ';
  for (int k : {a - 1, a, a + 1, a + len, a + len + 1, n - 1, n, n + 1}) if (k >= 0) trims(ctx, s, k);
  trims(ctx, s, NP); ctx.state(mc::fmt("%d %d %d %d", n, a, len, inv)); ctx.outcome(mc::fmt("%d %d", n, inv));
}
static void conv(mc::Ctx &ctx, const std::string &s) {
  Exact e(s); __for2cpp__(e.p.get()); std::string w = s; for (auto &c : w) if (c == 'D' || c == 'd') c = 'E';
  if (std::string(e.p.get(), e.n) != w || e.p[e.n]) ctx.fail("for2cpp", "[" + mc::vis(s) + "] gives [" + mc::vis(e.p.get()) + "]");
  __for2cpp__(e.p.get()); if (std::string(e.p.get()) != w) ctx.fail("for2cpp-idempotent", mc::vis(s)); ctx.step(2);
}
MC_SCENARIO(P10, exponents, "all strings of length 0..6 (thorough 0..7) over {D, d, E, e, 1, -, blank}") {
  int n = ctx.choose(ctx.thorough() ? 8 : 7); std::string s; for (int i = 0; i < n; i++) s += "DdEe1- "[ctx.choose(7)]; conv(ctx, s); ctx.state(s); ctx.outcome(mc::fmt("%d %zu", n, s.find_first_of("Dd") + 1));
}
MC_SCENARIO(P10, exponent_bytes, "every pair of bytes 1..255, and D/d at every place of strings of every length 0..100") {
  if (ctx.flag()) { std::string s; s += (char)(1 + ctx.choose(255)); s += (char)(1 + ctx.choose(255)); conv(ctx, s); ctx.state(s); ctx.outcome("bytes"); }
  else { int n = ctx.choose(101); std::string s(n, '7'); if (n) s[ctx.choose(n)] = "Dd"[ctx.choose(2)]; conv(ctx, s); ctx.state(s); ctx.outcome(mc::fmt("len %d", n)); }
}
MC_SCENARIO(P10, very_long, "strings of 35 lengths around powers of two up to 70000: blank, full, one non-blank or blank run at the start, middle, end or around 127, 255, 4095, 32767, 65535; every stop near those; an exponent letter there") {
  static const int L[] = {126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16384, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600, 70000, 300}; static const int P[] = {0, 1, 126, 127, 128, 255, 256, 1023, 4095, 4096, 32767, 32768, 65535, 65536};
  int n = L[ctx.choose(35)], inv = ctx.choose(2), len = ctx.choose(3), pi = ctx.choose(17); int p = pi < 14 ? P[pi] : pi == 14 ? n / 2 : n - 1 - (pi == 16); if (p >= n) return; std::string s(n, inv ? ' ' : 'x'); static const int RL[] = {0, 1, 300}; for (int i = p; i < std::min(n, p + RL[len]); i++) s[i] = inv ? 'x' : ' ';
  ctx.note(n, inv ? " blanks" : " letters", " with ", RL[len], " others at ", p); for (int k : {p - 1, p, p + 1, p + RL[len], n - 1, n, n + 1, 255, 256, 65535, 65536}) if (k >= 0) trims(ctx, s, k); trims(ctx, s, NP); std::string d(n, '7'); d[p] = len % 2 ? 'd' : 'D'; conv(ctx, d); d.assign(n, 'd'); conv(ctx, d); ctx.state(mc::fmt("%d %d %d %d", n, inv, len, p)); ctx.outcome(mc::fmt("%d %d", n, inv));
}
