// MC-PROPERTIES: P28
#include "satfile.hpp"
using namespace bern;
static const std::vector<Entry> &kinds() {
  static const std::vector<Entry> k = {{101, "MW", "GLONASS", 719, {2005, 12, 25, 0}, {2009, 9, 1, 0}, "   1", "L1 L2"}, {117, "MW", "GLONASS-M", 719, {2009, 9, 1, 0}, {}, "  -4", "L1 L2 C1 P1 C2 P2"}, {102, "MW", "GLONASS", 728, {2008, 12, 25, 0}, {}, "  -7", ""}, {104, "MW", "GLONASS", 728, {2008, 12, 26, 0}, {2010, 1, 1, 0}, "   6", ""}, {1, "MW", "BLOCK IIA", 32, {1992, 11, 22, 0}, {2008, 10, 17, 0}, "", "L1C L2W"}, {951, "SLR", "LAGEOS 1", -1, {1976, 5, 4, 0}, {}, "", ""}, {101, "SLR", "LRA", 719, {2000, 1, 1, 0}, {}, "   3", ""}, {101, "MW", "GLONASS", 801, {2006, 12, 25, 43201}, {2008, 2, 29, 86399}, "   0", std::string(90, 'S')}, {19, "MW", "BLOCK II", 19, {1989, 10, 21, 0}, {}, "   2", "L1C"}}; return k; }
static const std::vector<std::pair<int, T>> &queries() { static std::vector<std::pair<int, T>> q; if (q.empty()) { std::set<T> ts = {{1970, 1, 1, 0}, {2030, 6, 6, 6}}; for (auto &e : kinds()) for (const T &t : {e.from, e.until}) if (t.y) for (int d : {-1, 0, 1}) ts.insert(shift(t, d)); for (int s : {719, 728, 801, 19, 7190, 777}) for (auto &t : ts) q.push_back({s, t}); } return q; }
MC_SCENARIO(P28, entries, "files of 0-3 different entries out of 9 kinds (same SVN, SVN 19 and 719 in touching or overlapping intervals, other types, no SVN, no end, signal lists over the line buffer) in every order x 6 SVNs x epochs before, at and after every interval end") {
  const auto &k = kinds(); int n = ctx.choose(4); std::vector<int> left; for (size_t i = 0; i < k.size(); i++) left.push_back(i); File f; std::string w; for (int i = 0; i < n; i++) { int c = ctx.choose(left.size()); f.e.push_back(k[left[c]]); w += char('a' + left[c]); left.erase(left.begin() + c); } BernSatellit b(put(ctx, f.str()).c_str()); for (auto &q : queries()) { ask(ctx, b, f.e, q.first, q.second, w); ctx.outcome(mc::fmt("%d", find(f.e, q.first, q.second))); } ctx.state(w);
}
MC_SCENARIO(P28, columns, "channels -99..999 in 4 columns (left, right) x PRN 1-999 x SVN 1-999 x signal lists of 0-90 characters directly behind x names filling their columns x an old errno") {
  static const char *F[] = {"   0", "  -7", "  +6", "6   ", "-7  ", " 13 ", "-100", "9999", "   1", "0001", " -99"}; static const int P[] = {1, 9, 32, 101, 124, 900, 999}, S[] = {1, 9, 32, 701, 999}; int i = ctx.choose(11), p = ctx.choose(7), s = ctx.choose(5), sig = ctx.choose(6), nm = ctx.choose(3), er = ctx.choose(2); Entry e{P[p], "MW", nm == 0 ? "" : nm == 1 ? "GLONASS-M" : "12345678901234567", S[s], {2000, 1, 1, 0}, {}, F[i], std::string(sig * 18, '7')}; if (sig == 1) e.signals = ""; File f; f.e = {kinds()[0], e, kinds()[2]}; f.e[0].svn = 555; std::string w = mc::fmt("channel [%s] prn %d svn %d signals %zu name %d", F[i], P[p], S[s], e.signals.size(), nm); BernSatellit b(put(ctx, f.str()).c_str()); if (er) errno = ERANGE; ask(ctx, b, f.e, S[s], {2015, 1, 1, 0}, w); ask(ctx, b, f.e, 555, {2007, 1, 1, 0}, w); errno = 0; ctx.state(w + mc::fmt("%d", er)); ctx.outcome(w);
}
MC_SCENARIO(P28, interval_ends, "intervals between every pair of 12 instants (or without end) x queries from a day before to a day after both ends, another entry of the satellite following") {
  static const std::vector<T> E = {{1982, 10, 12, 0}, {1999, 12, 31, 86399}, {2000, 2, 28, 86399}, {2000, 2, 29, 43200}, {2000, 3, 1, 0}, {2004, 2, 29, 86399}, {2005, 3, 1, 1}, {2008, 12, 31, 86399}, {2009, 1, 1, 0}, {2010, 6, 15, 3599}, {2019, 4, 7, 0}, {2098, 2, 28, 59}}; int i = ctx.choose(12), j = ctx.choose(13), nxt = ctx.choose(2); if (j <= i) return; File f; f.e = {kinds()[5], {103, "MW", "GLONASS", 743, E[i], j < 12 ? E[j] : T{}, "   2", ""}}; if (nxt) f.e.push_back({104, "MW", "GLONASS", 743, j < 12 ? E[j] : T{2098, 12, 31, 0}, {}, "   3", ""}); std::string w = mc::fmt("%d-%d %d", i, j, nxt); BernSatellit b(put(ctx, f.str()).c_str()); for (T t : {E[i], j < 12 ? E[j] : shift(E[i], 7 * 86400)}) for (int d : {-86400, -3600, -60, -2, -1, 0, 1, 2, 59, 60, 3600, 86399, 86400}) ask(ctx, b, f.e, 743, shift(t, d), w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P28, line_lengths, "a line of every length 240-270, 495-530, 750-780, 1010-1040, 2040-2060 or 5000-5010 characters (part 1, an entry of another satellite, or the satellite's own) before a complete entry; every stretch of 255, 256 or 257 characters of it would read as an entry of the satellite, the end of the part or an end marker") {
  static const int LO[] = {240, 495, 750, 1010, 2040, 5000}, N[] = {31, 36, 31, 31, 21, 11}; int g = ctx.choose(6), len = LO[g] + ctx.choose(N[g]), where = ctx.choose(3), fill = ctx.choose(3), per = 255 + ctx.choose(3);
  Entry bad = {133, "MW", "GLONASS", 756, {1999, 1, 1, 0}, {}, "   9", "L1 L2"}; std::string chunk = fill == 0 ? bad.str() : fill == 1 ? "PART 3: SOMETHING" : where == 0 ? "PART 2: ON-BOARD SENSORS" : ""; if (!chunk.empty() && chunk.back() == '\n') chunk.pop_back(); chunk.resize(per, ' ');
  auto stretch = [&](std::string l) { if (!l.empty() && l.back() == '\n') l.pop_back(); l.resize(per, ' '); while ((int)l.size() < len) l += chunk; l.resize(len); if (l.back() == ' ') l.back() = 'S'; return l + "\n"; };
  File f; Entry good{105, "MW", "GLONASS", 756, {2010, 1, 1, 0}, {}, "   1", ""}, other{106, "MW", "GLONASS", 757, {2000, 1, 1, 0}, {}, "  -3", ""}; f.e = {other, good}; std::string t;
  if (where == 0) { std::string h = head(3); size_t a = h.find('\n') + 1, b = h.find('\n', a) + 1; t = h.substr(0, a) + stretch("  a line of part 1") + h.substr(b); f.h = ""; t += f.str(); }
  else { f.e = {}; std::string tail = f.t; f.t = ""; t = f.str() + (where == 1 ? stretch(other.str()) + good.str() : other.str() + stretch(good.str())) + tail; f.e = {other, good}; }
  std::string w = mc::fmt("line of %d, place %d, fill %d every %d", len, where, fill, per); BernSatellit b(put(ctx, t).c_str());
  for (int i = 0; i < 2; i++) { ask(ctx, b, f.e, 756, {2010, 1, 1, 0}, w); ask(ctx, b, f.e, 756, {2009, 12, 31, 86399}, w); ask(ctx, b, f.e, 757, {2015, 1, 1, 0}, w); ask(ctx, b, f.e, 777, {2015, 1, 1, 0}, w); }
  ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P28, histories, "3 files (records, few records, records up to the end of file without newline) x all sequences of 4 (thorough 5) of 8 lookups, move and move assignment; then all lookups") {
  int k = ctx.choose(3), depth = ctx.thorough() ? 5 : 4; File f; f.e = {kinds()[6], kinds()[0], kinds()[1], kinds()[2], kinds()[5], kinds()[7]}; if (k == 1) f.e.resize(2); std::string t = f.str(); if (k == 2) { f.t = ""; t = f.str(); t.pop_back(); } std::string p = ctx.scratch() + mc::fmt("/k%d", k), o = ctx.scratch() + "/other"; File g; g.e = {kinds()[3]}; if (access(p.c_str(), F_OK)) { atx::write(p, t); atx::write(o, g.str()); } std::unique_ptr<BernSatellit> b(new BernSatellit(p.c_str())); static const std::vector<std::pair<int, T>> Q = {{719, {2005, 12, 25, 0}}, {719, {2009, 9, 1, 0}}, {719, {2004, 1, 1, 0}}, {728, {2020, 1, 1, 0}}, {801, {2007, 1, 1, 0}}, {555, {2007, 1, 1, 0}}, {777, {2007, 1, 1, 0}}, {32, {2007, 1, 1, 0}}}; std::string w = mc::fmt("%d: ", k);
  for (int i = 0; i < depth; i++) { int x = ctx.choose(10); w += char('0' + x); if (x < 8) ask(ctx, *b, f.e, Q[x].first, Q[x].second, w); else if (x == 8) { std::unique_ptr<BernSatellit> c(new BernSatellit(std::move(*b))); b = std::move(c); } else { std::unique_ptr<BernSatellit> c(new BernSatellit(o.c_str())); ask(ctx, *c, g.e, 728, {2009, 1, 1, 0}, w); *c = std::move(*b); b = std::move(c); } ctx.state(w); } for (auto &q : Q) ask(ctx, *b, f.e, q.first, q.second, w + " then"); ctx.outcome(mc::fmt("%d", k));
}
MC_SCENARIO(P28, other_parts, "part 1 of 0-5000 lines; 0-6000 other entries before the satellite; the end marked by an empty line, PART 3 or the end of file; a first line with or without date") {
  static const int N[] = {0, 1, 3, 50, 500, 990, 1001, 5000}, M[] = {0, 1, 2, 99, 500, 998, 999, 1000, 1001, 2050, 6000}; int a = ctx.choose(8), m = ctx.choose(11), t = ctx.choose(4), h = ctx.choose(2); File f; f.h = head(N[a], h ? "" : "  14-MAR-19"); f.t = t == 0 ? TAIL : t == 1 ? TAIL + 2 : t == 2 ? "" : "      \n"; if (t == 1) f.t = TAIL + 2; for (int i = 0; i < M[m]; i++) { Entry e = kinds()[i % 8]; e.svn = e.svn < 0 ? -1 : 300 + i % 90; f.e.push_back(e); } f.e.push_back({105, "MW", "GLONASS", 756, {2010, 1, 1, 0}, {}, "   1", ""}); std::string w = mc::fmt("part 1 %d lines, %d entries, end %d", N[a], M[m], t); BernSatellit b(put(ctx, f.str()).c_str()); for (int i = 0; i < 2; i++) { ask(ctx, b, f.e, 756, {2010, 1, 1, 0}, w); ask(ctx, b, f.e, 756, {2009, 12, 31, 86399}, w); ask(ctx, b, f.e, 777, {2015, 1, 1, 0}, w); } ctx.state(w + mc::fmt("%d", h)); ctx.outcome(w);
}
MC_SCENARIO(P28, short_lines, "an entry of another satellite or type cut to 10-230 columns before or behind a complete entry; the complete one is found, and the short one of the satellite itself gives an error or its own values, never those of another line") {
  int keep = ctx.thorough() ? 10 + ctx.choose(221) : 10 + 4 * ctx.choose(56), kind = ctx.choose(3), pos = ctx.choose(2); Entry e = kinds()[kind == 0 ? 2 : kind == 1 ? 5 : 0]; e.keep = keep; Entry g = kinds()[kind == 2 ? 2 : 7]; if (keep < 32 && kind != 1) return; File f; f.e = pos ? std::vector<Entry>{g, e} : std::vector<Entry>{e, g}; std::string w = mc::fmt("%d columns, kind %d, place %d", e.keep, kind, pos); BernSatellit b(put(ctx, f.str()).c_str()); ask(ctx, b, f.e, g.svn, {2020, 1, 1, 0}, w); ask(ctx, b, {g}, g.svn, {2007, 1, 1, 0}, w);
  if (kind != 1) { int ch = 9999, prn = 9999, st = 0; ctx.site("lookup"); try { st = b.get_frequency_channel(e.svn, T{2009, 1, 2, 0}.dt(), ch, prn); } catch (std::exception &x) { ctx.fail("exception", w + x.what()); } Entry full = e; full.keep = 1000; int size = full.str().size() - 1; if (st == 0 && (ch != std::atoi(e.ifrq.c_str()) || prn != e.prn)) ctx.fail("invented", w + mc::fmt(": channel %d prn %d", ch, prn)); if (st && e.keep >= std::min(size, 197)) ctx.fail("not-found", w + mc::fmt(": status %d", st)); ctx.outcome(mc::fmt("%d", st)); } ctx.state(w);
}
static int get(mc::Ctx &ctx, BernSatellit &b, int i, int &f, int &p, const std::string &w) { static const std::vector<std::pair<int, T>> Q = {{719, {2006, 12, 25, 0}}, {719, {2009, 9, 1, 0}}, {728, {2020, 1, 1, 0}}, {801, {2007, 1, 1, 0}}, {777, {2007, 1, 1, 0}}}; f = p = 9999; ctx.step(); ctx.site("lookup"); try { return b.get_frequency_channel(Q[i].first, Q[i].second.dt(), f, p); } catch (std::exception &x) { ctx.fail("exception", w + ": " + x.what()); } }
MC_SCENARIO(P28, cut, "a file cut after every byte: refused while the header is incomplete; then every lookup gives the values of its entry or an error, an intact entry is found, the answers are the same in any order") {
  File f; f.h = head(1); f.e = {kinds()[0], kinds()[1], kinds()[5], kinds()[2], kinds()[7]}; std::string t = f.str(); int n = ctx.choose(t.size() + 1); std::string w = mc::fmt("%d of %zu bytes", n, t.size()); ctx.note(w); std::unique_ptr<BernSatellit> b; ctx.site("open"); std::string p = put(ctx, t.substr(0, n)); try { b.reset(new BernSatellit(p.c_str())); } catch (std::runtime_error &) {} int h = f.h.size(); if (!b) { if (n >= h) ctx.fail("refused", w); ctx.state(w); ctx.outcome("refused"); return; } if (n < h - 2) ctx.fail("accepted", w);
  static const int E[] = {0, 1, 3, 4, -1}; std::vector<int> got; for (int i : {0, 1, 2, 3, 4, 3, 2, 1, 0, 4}) { int c, q, st = get(ctx, *b, i, c, q, w); int end = h; for (int j = 0; j <= E[i]; j++) end += f.e[j].str().size(); if (E[i] < 0) { if (st == 0) ctx.fail("found", w); } else if (st == 0) { if (c != std::atoi(f.e[E[i]].ifrq.c_str()) || q != f.e[E[i]].prn) ctx.fail("invented", w + mc::fmt(", lookup %d: %d %d", i, c, q)); } else if (n >= end) ctx.fail("lost", w + mc::fmt(", lookup %d: status %d", i, st)); got.push_back(st); } for (int i = 0; i < 4; i++) if (got[i] != got[8 - i]) ctx.fail("history", w + mc::fmt(", lookup %d: status %d, then %d", i, got[i], got[8 - i])); ctx.state(w); ctx.outcome(mc::fmt("%d %d %d %d", got[0], got[1], got[2], got[3]));
}
MC_SCENARIO(P28, damaged, "a file with every byte replaced by each of 7 (quick: 2 or 3) characters or removed, every line removed or doubled: refused or every lookup answers, the same in any order, entries before the damage are found") {
  File f; f.h = head(1); f.e = {kinds()[0], kinds()[1], kinds()[5], kinds()[2], kinds()[7]}; std::string t = f.str(); int n = ctx.choose(t.size()), d = ctx.choose(10); if (d < 7) { if (!ctx.thorough() && d % 3 != n % 3) return; char c = " 9M-\n\0W"[d]; if (t[n] == c) return; t[n] = c; } else if (d == 7) t.erase(n, 1); else { size_t a = n ? t.rfind('\n', n - 1) : std::string::npos; a = a == std::string::npos ? 0 : a + 1; if ((size_t)n != a) return; size_t e = t.find('\n', a) + 1; std::string l = t.substr(a, e - a); if (d == 8) t.erase(a, e - a); else t.insert(a, l); } std::string w = mc::fmt("byte %d kind %d", n, d); ctx.note(w); std::unique_ptr<BernSatellit> b; ctx.site("open"); std::string p = put(ctx, t); try { b.reset(new BernSatellit(p.c_str())); } catch (std::runtime_error &) {} int h = f.h.size(); if (!b) { if (n >= h) ctx.fail("refused", w); ctx.state(w); ctx.outcome("refused"); return; }
  static const int E[] = {0, 1, 3, 4, -1}; std::vector<std::string> got; for (int i : {0, 1, 2, 3, 4, 3, 2, 1, 0, 4}) { int c, q, st = get(ctx, *b, i, c, q, w); int end = h; for (int j = 0; j <= E[i]; j++) end += f.e[j].str().size(); if (E[i] >= 0 && n >= end && (st || c != std::atoi(f.e[E[i]].ifrq.c_str()) || q != f.e[E[i]].prn)) ctx.fail("lost", w + mc::fmt(", lookup %d: status %d channel %d prn %d", i, st, c, q)); got.push_back(mc::fmt("%d %d %d", st, st ? 0 : c, st ? 0 : q)); } for (int i = 0; i < 4; i++) if (got[i] != got[8 - i]) ctx.fail("history", w + mc::fmt(", lookup %d: ", i) + got[i] + ", then " + got[8 - i]); ctx.state(w); ctx.outcome(got[0] + got[1]);
}
MC_SCENARIO(P28, types, "an entry of another type (18 of them, also with an M or a W), with and without SVN, of the satellite asked for: before, behind and between its MW entries or alone: only MW entries count") {
  static const char *Y[] = {"SLR", "LRR", "ML", "LW", "MR", "SW", "MM", "WW", "WM", "mw", "Mw", "mW", "M", "W", "KBR", "GRV", "KW", ""}; int y = ctx.choose(18), sv = ctx.choose(3), pos = ctx.choose(5); Entry o{333, Y[y], "OTHER", sv ? 719 : -1, {2005, 1, 1, 0}, sv == 2 ? T{2012, 1, 1, 0} : T{}, "   9", "L1"}; const Entry &a = kinds()[0], &b = kinds()[1]; File f; switch (pos) { case 0: f.e = {o, a, b}; break; case 1: f.e = {a, o, b}; break; case 2: f.e = {a, b, o}; break; case 3: f.e = {o}; break; default: f.e = {o, o, b, o, a, o}; }
  std::string w = std::string("type [") + Y[y] + mc::fmt("] %d %d", sv, pos); ctx.note(w); BernSatellit s(put(ctx, f.str()).c_str()); for (auto &q : queries()) ask(ctx, s, f.e, q.first, q.second, w); ctx.state(w); ctx.outcome(mc::fmt("%d", pos)); }
MC_SCENARIO(P28, unreadable_numbers, "an entry whose SVN cannot be read (10 texts) behind an entry of the satellite asked for or of another one, its interval containing the epoch, with or without the right entry behind it: the right entry, not found or an error, never the values of the unreadable one; the same for PRN and channel texts of the satellite's own entry: an error") {
  static const char *X[] = {"abc", "---", " x ", "...", "#12", "N/A", "*19", "-  ", "+  ", "(3)"}; int x = ctx.choose(10), what = ctx.choose(3), before = ctx.choose(3), right = ctx.choose(2), twice = ctx.choose(2);
  Entry old{101, "MW", "GLONASS-M", 719, {2005, 1, 1, 0}, {2009, 1, 1, 0}, "   1", ""}, oth{102, "MW", "GLONASS-M", 701, {2005, 1, 1, 0}, {}, "   2", ""}, bad{133, "MW", "GLONASS-M", 719, {2009, 1, 1, 0}, {2015, 1, 1, 0}, "   9", ""}, good{107, "MW", "GLONASS-M", 719, {2010, 1, 1, 0}, {}, "   5", ""};
  std::string b = bad.str(); if (what == 0) b.replace(28, 3, X[x]); else if (what == 1) b.replace(0, 3, X[x]); else b.replace(193, 4, std::string(" ") + X[x]);
  std::string s = head(); if (before == 1) s += old.str(); if (before == 2) s += oth.str() + old.str(); s += b; if (right) s += good.str(); s += TAIL; std::string w = mc::fmt("[%s] in place %d, before %d, right entry %d", X[x], what, before, right); ctx.note(w); BernSatellit sat(put(ctx, s).c_str());
  std::vector<Entry> known; if (before) known = {old}; if (before == 2) known.push_back(oth); for (int i = 0; i < 1 + twice; i++) { int f = 9999, p = 9999, st = 0; ctx.step(); ctx.site("lookup"); try { st = sat.get_frequency_channel(719, T{2012, 1, 1, 0}.dt(), f, p); } catch (std::exception &e) { ctx.fail("exception", w + e.what()); }
    if (what == 0) { if (st == 0 && (!right || f != 5 || p != 107)) ctx.fail("invented", w + mc::fmt(": channel %d prn %d", f, p)); } else if (st == 0 || st == -1) ctx.fail("malformed-accepted", w + mc::fmt(": status %d channel %d prn %d", st, f, p));
    if (before) ask(ctx, sat, known, 719, {2006, 1, 1, 0}, w); if (before == 2) ask(ctx, sat, known, 701, {2006, 1, 1, 0}, w); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d", what, x));
}
