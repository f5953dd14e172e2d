// MC-PROPERTIES: P11
#include "common.hpp"
#include "nvarstr.hpp"
#include <cstdlib>
#include <memory>
using namespace ngpt;

template <int M> static bool call(bool ct, int n, const char *l, double *d) {
  if (!ct) return __char2double__<M>(l, d, n);
  switch (n) { case 1: return __char2double__<1, M>(l, d); case 2: return __char2double__<2, M>(l, d); case 3: return __char2double__<3, M>(l, d); default: return __char2double__<4, M>(l, d); }
}
// the number written in one field; false when there is none
static bool number(const std::string &f, double &v) {
  size_t b = f.find_first_not_of(' '); if (b == std::string::npos) return false;
  std::string t = f.substr(b, f.find_last_not_of(' ') - b + 1); char *e; v = std::strtod(t.c_str(), &e); return e != t.c_str();
}
template <int M> static void decode(mc::Ctx &ctx, int n, const std::string &line, bool ct, int err) {
  std::unique_ptr<char[]> l(new char[line.size() + 1]); memcpy(l.get(), line.c_str(), line.size() + 1);
  std::unique_ptr<double[]> d(new double[n]); for (int i = 0; i < n; i++) d[i] = -777.25;
  bool ok = true; double w[64]; int good = 0;
  for (int i = 0; i < n && ok; i++) { std::string f = (size_t)i * M < line.size() ? line.substr(i * M, M) : std::string(); if ((ok = number(f, w[i]))) good++; }
  errno = err;
  bool g = call<M>(ct, n, l.get(), d.get()); errno = 0;
  auto wh = [&] { return mc::fmt("N=%d M=%d %s line [", n, M, ct ? "compile-time" : "run-time") + mc::vis(line) + "]"; };
  if (g != ok) ctx.fail("status", wh() + mc::fmt(" reports %d, expected %d (errno before: %d)", g, ok, err));
  for (int i = 0; i < good; i++) if (!(d[i] == w[i])) ctx.fail("value", wh() + mc::fmt(" number %d is %.17g, expected %.17g", i, d[i], w[i]));
  if (memcmp(l.get(), line.c_str(), line.size() + 1)) ctx.fail("input-changed", wh());
  ctx.step();
  ctx.outcome(mc::fmt("%d %d/%d", ok, good, n));
}
template <int M> static void combos(mc::Ctx &ctx, const std::vector<std::string> &A, int maxn) {
  int n = 1 + ctx.choose(maxn); std::string line; for (int i = 0; i < n; i++) line += ctx.pick(A);
  bool ct = ctx.flag(); ctx.note("[", mc::vis(line), "]");
  static const std::vector<std::string> TAIL = {"", " ", "9", ".5", "e5", "-1", "123456789012345678901234567890"};
  for (auto &t : TAIL) for (int err : {0, ERANGE, EINVAL}) decode<M>(ctx, n, line + t, ct, err);
  ctx.state(line);
}
MC_SCENARIO(P11, width5, "all combinations of 12 field contents in 1..4 fields (thorough 16 contents) of 5 columns x 7 tails x prior errno, both variants") {
  std::vector<std::string> A = {"1.5  ", "  2.5", "12345", "-1234", "3E+02", "     ", " abc ", "+.125", "1e-10", "    7", "-0.0 ", "9999."};
  if (ctx.thorough()) { A.push_back("     "); A.back()[4] = '-'; A.push_back("x1234"); A.push_back("0    "); A.push_back("1E100"); }
  combos<5>(ctx, A, 4);
}
MC_SCENARIO(P11, width14, "all combinations of 9 observation-style fields in 1..4 fields of 14 columns, both variants") {
  combos<14>(ctx, {"  23629347.915", "-123456789.123", "99999999999.99", "          .300", "        -0.353", "              ", "      garbage ", "1             ", "1.2345678E+123"}, ctx.thorough() ? 4 : 3);
}
MC_SCENARIO(P11, width19, "all combinations of 9 navigation-style fields in 1..4 fields of 19 columns, both variants") {
  combos<19>(ctx, {" 1.234567890123E-05", "-1.234567890123E+02", "-.994871584587E-03 ", "                   ", "123456789012345.678", "                  0", "-999999999999999999", " not a number      ", " 0.000000000000E+00"}, ctx.thorough() ? 4 : 3);
}
MC_SCENARIO(P11, truncated, "lines of 1..4 fields cut at every length, widths 5, 14 and 19, both variants: complete and partial leading fields still decode, nothing is read past the end") {
  int m = ctx.choose(3), n = 1 + ctx.choose(4); bool ct = ctx.flag(); static const int W[] = {5, 14, 19}; std::string line;
  static const char *F[3][3] = {{"1.5  ", "12345", " -2.5"}, {"  23629347.915", "-123456789.123", "          .300"}, {" 1.234567890123E-05", "-1.234567890123E+02", "123456789012345.678"}};
  for (int i = 0; i < n; i++) line += F[m][ctx.choose(3)];
  line = line.substr(0, ctx.choose(n * W[m] + 1)); ctx.note("[", mc::vis(line), "]");
  // a cut inside an exponent leaves no well-formed number: only the status of earlier fields is defined there
  if (!line.empty() && (line.back() == 'E' || line.back() == '+' || line.back() == '-' || line.back() == '.')) { ctx.outcome("cut inside a number"); ctx.state(line); if (m == 0) decode<5>(ctx, n, line.substr(0, line.size() / 5 * 5), ct, 0); return; }
  for (int err : {0, ERANGE}) { if (m == 0) decode<5>(ctx, n, line, ct, err); else if (m == 1) decode<14>(ctx, n, line, ct, err); else decode<19>(ctx, n, line, ct, err); }
  ctx.state(line);
}
MC_SCENARIO(P11, two_calls, "all pairs of consecutive decodes (8 x 8 lines, either variant first): the second never depends on the first") {
  static const std::vector<std::string> L = {"1.5  2.5  ", "12345-1234", "     1.0  ", "1.0       ", "abc  1.0  ", "1E99 1E-9 ", "1.0", ""};
  auto &x = ctx.pick(L); auto &y = ctx.pick(L); bool c1 = ctx.flag(), c2 = ctx.flag(); ctx.note(mc::vis(x), " then ", mc::vis(y));
  decode<5>(ctx, 2, x, c1, 0); decode<5>(ctx, 2, y, c2, 0); decode<5>(ctx, 1, y, c1, 0); ctx.state(x + "|" + y);
}
/// every width: run-time count up to 40, compile-time counts 1..4
template <int M> static void width(mc::Ctx &ctx) {
  static const int N[] = {1, 2, 3, 4, 7, 13, 26, 40}; int n = N[ctx.choose(8)], kind = ctx.choose(6), bad = ctx.choose(4); bool ct = ctx.choose(2) == 1; if (ct && n > 4) return; std::string line;
  for (int i = 0; i < n; i++) { std::string f; switch ((kind + i * (kind > 2)) % 6) { case 0: for (int k = 0; k < M; k++) f += char('1' + (i + k) % 9); break; case 1: f = mc::fmt("%*d", M, i % 9 + 1); break; case 2: f = mc::fmt("%-*d", M, i % 9 + 1); break; case 3: f = std::string(M, '9'); if (M > 2) f[M / 2] = '.'; break; case 4: f = std::string(M, '0'); f[M - 1] = '5'; if (M > 1) f[0] = '-'; break; default: f = M > 5 ? mc::fmt("%*.1E", M, -2.5 * i) : mc::fmt("%*d", M, i % 7); } f.resize(M, ' '); if (M > 300) { f.assign(M, ' '); f.replace(M - 4, 4, "2.25"); } line += f.substr(0, M); }
  int at = bad == 1 ? 0 : bad == 2 ? n / 2 : bad == 3 ? n - 1 : -1; if (at >= 0) line.replace(at * M, M, std::string(M, at % 2 ? 'x' : ' ')); ctx.note("[", mc::vis(line), "]"); for (const char *t : {"", "7", " 8", "e9"}) for (int err : {0, ERANGE}) decode<M>(ctx, n, line + t, ct, err); ctx.state(line + mc::fmt("%d", M)); }
MC_SCENARIO(P11, widths, "20 widths of 1..128 columns x 1, 2, 3, 4, 7, 13, 26 and 40 fields x 6 kinds of numbers (filling their columns, right, left, point, signed, exponent, mixed) x no bad field or one at the start, middle, end x 4 tails, both variants") {
  switch (ctx.choose(20)) { case 0: width<1>(ctx); break; case 1: width<2>(ctx); break; case 2: width<3>(ctx); break; case 3: width<4>(ctx); break; case 4: width<6>(ctx); break; case 5: width<7>(ctx); break; case 6: width<8>(ctx); break; case 7: width<9>(ctx); break; case 8: width<10>(ctx); break; case 9: width<12>(ctx); break; case 10: width<14>(ctx); break; case 11: width<16>(ctx); break; case 12: width<18>(ctx); break; case 13: width<19>(ctx); break; case 14: width<20>(ctx); break; case 15: width<22>(ctx); break; case 16: width<24>(ctx); break; case 17: width<32>(ctx); break; case 18: width<64>(ctx); break; default: width<128>(ctx); } }
