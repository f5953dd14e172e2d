// MC-PROPERTIES: P26
#include "atxfile.hpp"
using namespace atx;
static Block sv(char s, int prn, int svn, const char *type, const char *cospar, T from, T until, int i) { Block b; b.type = type; b.sys = s; b.prn = prn; b.svn = svn; b.cospar = cospar; b.from = from; b.until = until; b.f = {freq(s, 1, 100 + i), freq(s, 2, 200 + i), freq(s, 5, 300 + i)}; b.f.resize(1 + i % 3); b.extra = i % 4; return b; }
static const std::vector<Block> &kinds() {
  static std::vector<Block> k; if (k.empty()) { k = {
    sv('G', 1, 32, "BLOCK IIA", "1992-079A", {1992, 11, 22, 0}, {2008, 10, 16, 86399}, 1), sv('G', 1, 49, "BLOCK IIR-M", "2009-014A", {2009, 3, 24, 0}, {2011, 5, 6, 86399}, 2), sv('G', 1, 63, "BLOCK IIF", "2011-036A", {2011, 7, 16, 0}, {}, 3),
    sv('G', 1, -1, "BLOCK II", "", {2008, 10, 17, 0}, {2008, 10, 17, 43199}, 4), sv('R', 1, 730, "GLONASS-M", "", {2006, 12, 25, 0}, {}, 5), sv('E', 1, -1, "GALILEO-2", "2016-030B", {2016, 5, 24, 0}, {}, 6), sv('C', 1, -1, "BEIDOU-2G", "", {2010, 1, 16, 0}, {2016, 12, 31, 86399}, 7), sv('G', 11, 46, "BLOCK IIR-A", "1999-055A", {1999, 10, 7, 0}, {}, 8) };
    Block r; r.type = "LEIAX1202GG     SCIT"; r.f = {freq('G', 1, 1)}; k.push_back(r); r.serial = "08300501"; r.extra = 2; k.push_back(r); } return k;
}
struct Q { char s; int prn; T t; };
static const std::vector<Q> &queries() {
  static std::vector<Q> q; if (q.empty()) { std::set<T> ts; for (auto &b : kinds()) { if (b.from.y) for (int d : {-86400, -1, 0, 1, 30}) ts.insert(shift(b.from, d)); if (b.until.y) for (int d : {-30, -1, 0, 1, 2, 86400}) ts.insert(shift(b.until, d)); } ts.insert(T{1980, 1, 6, 0}); ts.insert(T{2010, 6, 15, 43200}); ts.insert(T{2030, 12, 31, 86399}); for (auto &t : ts) q.push_back({'G', 1, t}); for (char s : {'R', 'E', 'C', 'J', 'G', 'S'}) for (int p : {1, 2, 11, 10}) if (s != 'G' || p > 1) for (T t : {T{1990, 1, 1, 0}, T{2006, 12, 25, 0}, T{2016, 6, 1, 1}, T{2017, 1, 1, 0}}) q.push_back({s, p, t}); } return q;
}
static std::string put(mc::Ctx &ctx, const File &f) { std::string p = ctx.scratch() + "/a"; atx::write(p, f.str()); return p; }
MC_SCENARIO(P26, blocks, "files of 0-3 different blocks out of 10 kinds (one PRN in four validity intervals, same PRN in other systems, without SVN, COSPAR id or end, receivers) in every order x 140 queries (epochs at and around every interval end, satellites present or not) x 3 calls") {
  const auto &k = kinds(); int n = ctx.choose(4), how = ctx.choose(3); std::vector<int> left; for (size_t i = 0; i < k.size(); i++) left.push_back(i); File f; std::string w; for (int i = 0; i < n; i++) { int c = ctx.choose(left.size()); f.b.push_back(k[left[c]]); w += char('a' + left[c]); left.erase(left.begin() + c); } std::string p = put(ctx, f); ctx.site("open"); Antex a(p.c_str()); for (auto &q : queries()) { ask(ctx, a, f.b, q.s, q.prn, q.t, how, w); ctx.outcome(mc::fmt("%d", select(f.b, q.s, q.prn, q.t))); } ctx.state(w);
}
MC_SCENARIO(P26, interval_ends, "intervals beginning and ending at 12 instants (leap days, year ends, midnight, 23:59:59, GPS week ends) of every pair; queries -86400..+86400 s around both ends") {
  static const std::vector<T> E = {{1980, 1, 6, 0}, {1999, 12, 31, 86399}, {2000, 2, 28, 86399}, {2000, 2, 29, 43200}, {2000, 3, 1, 0}, {2004, 2, 29, 86399}, {2005, 3, 1, 1}, {2008, 12, 31, 86399}, {2009, 1, 1, 0}, {2010, 6, 15, 3599}, {2019, 4, 7, 0}, {2100, 2, 28, 59}}; int i = ctx.choose(12), j = ctx.choose(13); if (j <= i) return; Block b = sv('G', 5, 35, "BLOCK IIA", "1993-054A", E[i], j < 12 ? E[j] : T{}, 1); File f; f.b = {kinds()[0], b, sv('G', 5, 50, "BLOCK IIR-M", "2009-043A", {2150, 1, 1, 0}, {}, 2)}; std::string p = put(ctx, f), w = mc::fmt("%d-%d", i, j); Antex a(p.c_str()); for (T t : {E[i], j < 12 ? E[j] : shift(E[i], 7 * 86400)}) for (int d : {-86400, -3600, -60, -2, -1, 0, 1, 2, 59, 60, 3600, 86399, 86400}) ask(ctx, a, f.b, 'G', 5, shift(t, d), ctx.thorough() ? 0 : d & 1, w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P26, chains, "one PRN used by a chain of 1-4 satellites with intervals touching (next begins a second after the end), with gaps or open ends at the last, blocks in every order; queries at every end") {
  int n = 1 + ctx.choose(4), gap = ctx.choose(3), open = ctx.choose(2); std::vector<Block> k; T t{1999, 12, 30, 0}; for (int i = 0; i < n; i++) { T u = shift(t, 2 * 86400 - 1); k.push_back(sv("GRE"[n % 3], 24, i == 1 ? -1 : 700 + i, i == 2 ? "GLONASS-K1" : "BLOCK IIA", i == 1 ? "" : "1989-085A", t, i == n - 1 && open ? T{} : u, i)); t = shift(u, gap == 0 ? 1 : gap == 1 ? 2 : 43200); } std::vector<int> ord; std::vector<Block> left = k; File f; std::string w; while (!left.empty()) { int c = ctx.choose(left.size()); f.b.push_back(left[c]); w += mc::fmt("%d", (int)left[c].f[0].n.size()) + left[c].cospar + mc::fmt("%d ", left[c].svn); left.erase(left.begin() + c); } std::string p = put(ctx, f); Antex a(p.c_str()); for (auto &b : k) for (T x : {b.from, b.until.y ? b.until : b.from}) for (int d : {-43200, -2, -1, 0, 1, 2, 43200}) for (int how = 0; how < 3; how++) ask(ctx, a, f.b, k[0].sys, 24, shift(x, d), how, w); ctx.state(w + mc::fmt("%d %d", gap, open)); ctx.outcome(w);
}
MC_SCENARIO(P26, satellites, "blocks of every system x PRN 1-99 (thorough: all; quick: every 3rd and 1-12) x SVN none, 1-999 x COSPAR id or none; queried by itself, neighbours and the other systems") {
  int s = ctx.choose(7), prn = 1 + ctx.choose(99), svn = ctx.choose(5), c = ctx.choose(2); if (!ctx.thorough() && prn > 12 && prn % 3) return; static const int SV[] = {-1, 1, 32, 730, 999}; char sys = "GRECJSI"[s]; File f; f.b = {sv(sys, prn % 99 + 1, 555, "BLOCK IIR-B", "2003-005A", {2001, 1, 1, 0}, {}, 1), sv(sys, prn, SV[svn], "BEIDOU-3M-CAST-1234", c ? "2017-069A" : "", {2001, 1, 1, 0}, {}, 2), sv("GRECJSI"[(s + 1) % 7], prn, 444, "QZSS", "2010-045A", {2001, 1, 1, 0}, {}, 0)}; std::string p = put(ctx, f), w = mc::fmt("%c%02d svn %d", sys, prn, SV[svn]); Antex a(p.c_str()); T t{2015, 5, 5, 5}; for (int k = 0; k < 7; k++) ask(ctx, a, f.b, "GRECJSI"[k], prn, t, k % 3, w); for (int how = 0; how < 3; how++) ask(ctx, a, f.b, sys, prn, t, how, w); ask(ctx, a, f.b, sys, prn == 1 ? 3 : prn - 1, t, 0, w); ask(ctx, a, f.b, sys, prn % 99 + 1, t, 0, w); ask(ctx, a, f.b, sys, prn + 100, t, 0, w); ctx.state(w + mc::fmt("%d", c)); ctx.outcome(mc::fmt("%c%d", sys, prn));
}
MC_SCENARIO(P26, frequencies, "satellite blocks of 0-6 frequencies x RMS sections after none, all, every second or at the end x azimuth grid x optional lines between (SINEX code, comments that look like other lines) x end or none, in the middle of others") {
  static const char S[] = "GGGREC"; static const int B[] = {1, 2, 5, 3, 7, 6}; int n = 1 + ctx.choose(6), rms = ctx.choose(4), dz = ctx.choose(2), ex = ctx.choose(8), e = ctx.choose(2), zen = ctx.choose(3); Block b = sv('G', 7, 48, "BLOCK IIR-M", "2008-012A", {2008, 3, 15, 0}, e ? T{2018, 1, 1, 0} : T{}, 0); b.f.clear(); for (int i = 0; i < n; i++) b.f.push_back(freq(S[i], B[i], 1.25 * i - 3, rms == 1 || rms == 3 || (rms == 2 && i % 2 == 0))); b.rms_at_end = rms == 3; b.dazi = dz * 5; b.extra = ex; b.dzen = 1; b.zen2 = zen == 0 ? 14 : zen == 1 ? 17 : 20; File f; f.b = {sv('G', 7, 37, "BLOCK IIA", "1993-032A", {1993, 5, 13, 0}, {2008, 3, 14, 86399}, 1), b, kinds()[8], sv('G', 8, 38, "BLOCK IIA", "1997-067A", {1997, 11, 6, 0}, {}, 2)}; std::string p = put(ctx, f), w = mc::fmt("%d frequencies, RMS %d, azimuth %d, lines %d", n, rms, dz, ex); Antex a(p.c_str()); for (int how = 0; how < 3; how++) for (T t : {T{2000, 1, 1, 0}, T{2010, 1, 1, 0}, T{2018, 1, 1, 0}, T{2018, 1, 1, 1}}) { ask(ctx, a, f.b, 'G', 7, t, how, w); ask(ctx, a, f.b, 'G', 8, t, how, w); } ctx.state(w + mc::fmt("%d %d", e, zen)); ctx.outcome(mc::fmt("%d", n));
}
MC_SCENARIO(P26, unreadable_intervals, "a satellite's block whose beginning or end is blank, no number, or an impossible date (10 kinds) before, between or behind 0-2 good blocks of the same satellite with an earlier and a later interval: never used, the good blocks are found as without it") {
  static const char *D[] = {"                                           ", "  xxxx     1     1     0     0    0.0000000", "  2009    13     1     0     0    0.0000000", "  2009     0     1     0     0    0.0000000", "  x009     2     3     0     0    0.0000000", "  2009     1    32     0     0    0.0000000", "  2009     1     0     0     0    0.0000000", "  2009", "  2009     x     1     0     0    0.0000000", "  2009     1     y     0     0    0.0000000"};
  int k = ctx.choose(10), end = ctx.choose(2), good = ctx.choose(4), at = ctx.choose(3), open = ctx.choose(2); if (open && end) return; Block x = sv('G', 5, 50, "BLOCK IIR-M", "2009-043A", {2008, 8, 27, 0}, open ? T{} : T{2012, 2, 2, 86399}, 2), e = sv('G', 5, 35, "BLOCK IIA", "1993-054A", {1993, 9, 28, 0}, {2008, 8, 26, 86399}, 1), l = sv('G', 5, 77, "BLOCK IIF", "2012-099A", {2012, 2, 3, 0}, {}, 3); File f; std::vector<std::string> txt; if (good & 1) f.b.push_back(e), txt.push_back(e.str()); if (good & 2) f.b.push_back(l), txt.push_back(l.str()); std::string s = x.str(); size_t q = s.find(end ? "VALID UNTIL" : "VALID FROM"); q = s.rfind('\n', q) + 1; s.replace(q, 43, std::string(D[k]) + std::string(43 - strlen(D[k]), ' '));
  txt.insert(txt.begin() + std::min<size_t>(at, txt.size()), s); std::string t = f.head; for (auto &b : txt) t += b; Block tail = kinds()[4]; t += tail.str(); std::vector<Block> all = f.b; all.push_back(tail); std::string p = ctx.scratch() + "/u", w = mc::fmt("[%s] end %d good %d at %d open %d", D[k], end, good, at, open); atx::write(p, t); ctx.site("open"); Antex a(p.c_str()); for (T v : {T{1990, 1, 1, 0}, T{2000, 1, 1, 0}, T{2008, 8, 27, 0}, T{2009, 1, 1, 0}, T{2010, 6, 1, 0}, T{2012, 2, 2, 86399}, T{2012, 2, 3, 0}, T{2030, 1, 1, 0}}) for (int how = 0; how < 3; how++) { ask(ctx, a, all, 'G', 5, v, how, w); ask(ctx, a, all, 'R', 1, v, how, w); } ctx.state(w); ctx.outcome(mc::fmt("%d %d", k, end)); }

MC_SCENARIO(P26, remarks, "satellite blocks with 0-4990 comment lines (17 counts) before VALID FROM, between it and VALID UNTIL, or before the first frequency, with or without end; the block first, between or last among blocks of the same satellite and others; every interval end looked up") {
  static const int N[] = {1, 2, 3, 5, 9, 10, 11, 12, 15, 19, 20, 21, 50, 99, 500, 1000, 4990}; int n = N[ctx.choose(17)], where = ctx.choose(3), e = ctx.choose(2), at = ctx.choose(3); Block b = sv('G', 7, 48, "BLOCK IIR-M", "2008-012A", {2008, 3, 15, 0}, e ? T{2018, 1, 1, 0} : T{}, 1); b.extra = 0; b.rem[where] = n; File f; f.b = {sv('G', 7, 37, "BLOCK IIA", "1993-032A", {1993, 5, 13, 0}, {2008, 3, 14, 86399}, 1), sv('G', 8, 38, "BLOCK IIA", "1997-067A", {1997, 11, 6, 0}, {}, 2)}; f.b.insert(f.b.begin() + at, b); std::string p = put(ctx, f), w = mc::fmt("%d comment lines, place %d, end %d, block %d", n, where, e, at); Antex a(p.c_str());
  for (int how = 0; how < 3; how++) for (T t : {T{2000, 1, 1, 0}, T{2008, 3, 14, 86399}, T{2008, 3, 15, 0}, T{2010, 1, 1, 0}, T{2018, 1, 1, 0}, T{2018, 1, 1, 1}}) { ask(ctx, a, f.b, 'G', 7, t, how, w); ask(ctx, a, f.b, 'G', 8, t, how, w); } ctx.state(w); ctx.outcome(mc::fmt("%d", where)); }
