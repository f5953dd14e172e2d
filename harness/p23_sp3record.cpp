// MC-PROPERTIES: P23
#include "sp3file.hpp"
using namespace sp3;
static void all(mc::Ctx &ctx, File &f, const std::string &w, int fill = 0) {
  std::string p = ctx.scratch() + "/s"; sp3::write(p, f.str()); ctx.site("open"); errno = ERANGE; Sut s(ctx, p); ctx.eq(s.v.size(), f.sats.size(), "vector", w);
  for (size_t i = 0; i < f.e.size(); i++) { for (auto &x : s.v) { x.flag_.bits_ = fill ? 0xff : 0; x.prn_ = 77; x.vals_ = {1, 2, 3, 4}; } errno = i % 2 ? 0 : ERANGE; s.read(f.e[i], i + 1 == f.e.size(), w + mc::fmt(" epoch %zu", i)); } errno = 0; s.end(w); ctx.state(w);
}
static File base(int n) { static const std::pair<char, int> S[] = {{'G', 1}, {'R', 24}, {'E', 9}}; File f; f.sats.assign(S, S + n); return f; }
MC_SCENARIO(P23, flags, "all ordered pairs of lines, each with any of the 16 flag combinations or cut before the flags or the deviations, trimmed or full, in one epoch or in two; result objects with all flags set before") {
  File f = base(2); std::string w; Rec r[2]; for (int i = 0; i < 2; i++) { int k = ctx.choose(18); r[i] = rec(f.sats[i].first, f.sats[i].second, 10000.5 + i); r[i].tail = k == 16 ? " 10 11 12 150" : k == 17 ? "" : tail(k % 3, k); w += mc::fmt("%d ", k); } bool two = ctx.flag(), trim = ctx.flag(); Epoch a; a.trim = trim; a.t.us = 900000000; a.r = {r[0]}; if (two) { Epoch b = a; b.t = a.t.plus(900000000); b.r = {r[1]}; f.e = {a, b}; } else { a.r.push_back(r[1]); f.e = {a}; } w += two ? "two" : "one"; all(ctx, f, w, 1); ctx.outcome(w);
}
MC_SCENARIO(P23, wrong_letters, "every letter and blank in each of the trailing columns 61-80 alone: only E in 75, P in 76, M in 79 and P in 80 are flags") {
  int col = 61 + ctx.choose(20), c = ctx.choose(38); File f = base(1); Epoch e; Rec r = rec('G', 1, 20000.25); r.tail = tail(false, 0); r.tail[col - 61] = c < 26 ? 'A' + c : c < 36 ? '0' + c - 26 : c == 36 ? ' ' : 'e'; e.r = {r}; Epoch g = e; g.t.us = 1; g.r[0].tail = tail(true, 15); f.e = {g, e}; all(ctx, f, mc::fmt("column %d [%c]", col, r.tail[col - 61])); ctx.outcome(mc::fmt("%d", col));
}
MC_SCENARIO(P23, values, "11 values (zero, smallest, full width with either sign, missing clock) in each pair of the 4 value columns, the other two normal or full") {
  static const char *V[] = {"0.000000", "0.000001", "-0.000001", "-99999.999999", "999999.999999", "12345.678901", "-1234567.12345", "1.5", "999998.999999", "999999.000000", "1000000.000001"}; int a = ctx.choose(4), b = ctx.choose(4), x = ctx.choose(11), y = ctx.choose(11), full = ctx.choose(2); File f = base(2); Epoch e; Rec r = rec('G', 1, 15000.125, 5); std::string *F[] = {&r.x, &r.y, &r.z, &r.c}; if (full) for (auto *s : F) *s = "-2345678.12345"; *F[a] = V[x]; *F[b] = V[y]; e.r = {rec('E', 9, 7, 10), r, rec('R', 24, 0, 0)}; e.r.pop_back(); f.e = {e}; std::string w = mc::fmt("%d=%s %d=%s full %d", a, V[x], b, V[y], full); all(ctx, f, w); ctx.outcome(mc::fmt("%d %d %d %d", a, b, x, y));
}
MC_SCENARIO(P23, decimals, "values of 8 magnitudes and both signs whose last six decimals run through all steps of 1001 (thorough 97) millionths, in each of the 4 columns") {
  static const double M[] = {0, 9, 80, 700, 6000, 13479, 26560, 99998}; int m = ctx.choose(8), neg = ctx.choose(2), rot = ctx.choose(4), blk = ctx.choose(10); File f = base(3); int step = ctx.thorough() ? 97 : 1001, n = 1000000 / step / 10; for (int i = 0; i < n; i += 3) { Epoch e; e.t.us = i * 1000000L; for (int k = 0; k < 3 && i + k < n; k++) { long u = (blk * (long)n + i + k) * step + m; std::string v[4]; for (int c = 0; c < 4; c++) v[(c + rot) % 4] = mc::fmt("%s%d.%06ld", (neg ^ (c & 1)) ? "-" : "", (int)M[(m + c) % 8], (u + 77777 * c) % 1000000); e.r.push_back({f.sats[k].first, f.sats[k].second, v[0], v[1], v[2], v[3], tail(true, 0)}); } f.e.push_back(e); }
  std::string w = mc::fmt("%g %d %d %d", M[m], neg, rot, blk); all(ctx, f, w); ctx.outcome(w);
}
MC_SCENARIO(P23, satellites, "every system and PRN 1-99 as the first, second or last of 1-3 records, SP3-c and SP3-d") {
  int s = ctx.choose(7), p = 1 + ctx.choose(99), at = ctx.choose(3); File f = base(3); f.ver = p % 2 ? 'c' : 'd'; Epoch e; for (int i = 0; i <= 2; i++) e.r.push_back(i == at ? rec("GRESJCI"[s], p, 20000 + p, p % 16) : rec(f.sats[i].first, f.sats[i].second, 12000 + i)); if (p % 3 == 0) e.r.resize(at + 1); f.e = {e}; all(ctx, f, mc::fmt("%c%02d at %d", "GRESJCI"[s], p, at)); ctx.outcome(mc::fmt("%d %d", s, p));
}
MC_SCENARIO(P23, other_lines, "2 epochs of 0-2 satellites with each sequence of 0-2 other lines (velocity, correlation, velocity correlation, long, short, empty) after each record") {
  static const char *O[] = {"VG01 -12345.678901  23456.789012 -34567.890123 123456.789012 11 12 13 111   EP  MP\n", "EP    55   55   55     222    1234567 -1234567    5999999     -30       21 -1230000\n", "EV    22   22   22     111    1234567  1234567   1234567  1234567  1234567  1234567\n", "V\n", "/* COMMENT INSIDE THE EPOCH THAT IS LONGER THAN EIGHTY COLUMNS AND THAN ONE HUNDRED AND TWENTY-EIGHT COLUMNS TOO, SO THAT IT DOES NOT FIT PG01\n"};
  File f = base(2); std::string w; for (int k = 0; k < 2; k++) { Epoch e; e.t.us = k * 1000000; int n = ctx.choose(3); for (int i = 0; i < n; i++) { e.r.push_back(rec(f.sats[i].first, f.sats[i].second, 100 * k + i + 1, i * 3)); int o = ctx.choose(6); w += char('0' + o); std::string a; if (o < 5) a = O[o]; if (o < 3 && k == 0) { int o2 = ctx.choose(3); a += O[o2]; w += char('0' + o2); } e.after.push_back(a); } w += ' '; f.e.push_back(e); } all(ctx, f, w, 1); ctx.outcome(w);
}
MC_SCENARIO(P23, epoch_times, "13 days at month, year, leap-day and week boundaries x 24 hours x 4 minutes x 9 seconds values down to a microsecond, as first and second epoch") {
  static const int D[][3] = {{2019, 1, 1}, {2019, 12, 31}, {2020, 2, 28}, {2020, 2, 29}, {2020, 3, 1}, {2021, 2, 28}, {2000, 2, 29}, {2016, 12, 31}, {1999, 12, 31}, {2038, 1, 19}, {2019, 4, 7}, {1999, 8, 22}, {2019, 10, 10}}; static const long S[] = {0, 1, 500000, 999999, 15000000, 29999999, 59000000, 59999999, 8300001}; static const int M[] = {0, 9, 45, 59};
  int d = ctx.choose(13), h = ctx.choose(24), m = M[ctx.choose(4)], s = ctx.choose(9); File f = base(1); Epoch e; e.t = {D[d][0], D[d][1], D[d][2], (h * 60L + m) * 60000000L + S[s]}; e.r = {rec('G', 1, 5)}; Epoch b = e; b.t = e.t.plus(999999); f.e = {e, b}; all(ctx, f, e.t.str()); ctx.outcome(e.t.str());
}
MC_SCENARIO(P23, flag_object, "every value of the flag byte, set and clear of each of 6 events: only that event changes") {
  int b = ctx.choose(64), k = ctx.choose(6), op = ctx.choose(3); Sp3Flag f; Sp3Event E[] = {Sp3Event::bad_abscent_position, Sp3Event::bad_abscent_clock, Sp3Event::clock_event, Sp3Event::clock_prediction, Sp3Event::maneuver, Sp3Event::orbit_prediction}; for (int i = 0; i < 6; i++) if (b >> i & 1) f.set(E[i]); ctx.step(); if (op == 0) f.set(E[k]); else if (op == 1) f.clear(E[k]); else f.reset(); for (int i = 0; i < 6; i++) ctx.eq(f.is_set(E[i]), op == 2 ? false : i == k ? op == 0 : (b >> i & 1) == 1, "flag", mc::fmt("%d", b)); ctx.state(mc::fmt("%d %d %d", b, k, op)); ctx.outcome(mc::fmt("%d", op));
}
MC_SCENARIO(P23, twins, "two files whose epochs differ in one part only (year, month, day, hour, minute, second, microsecond, system, PRN, one value, one flag), each with 3 epochs (of the one kind, the other, the one): all interleavings of 3 reads of two readers") {
  int k = ctx.choose(17); Epoch e[2]; for (auto &x : e) { x.t = {2019, 3, 12, ((4 * 60L + 5) * 60 + 6) * 1000000L}; x.r = {rec('G', 5, 20000.25), rec('R', 5, -14000.5)}; } T &t = e[1].t; Rec &r = e[1].r[0];
  switch (k) { case 0: t.y = 2020; break; case 1: t.m = 4; break; case 2: t.d = 13; break; case 3: t.us += 3600000000L; break; case 4: t.us += 60000000L; break; case 5: t.us += 1000000L; break; case 6: t.us += 1; break; case 7: r.sys = 'E'; break; case 8: r.prn = 6; break; case 9: r.x = "20000.250001"; break; case 10: r.y = "0.000000"; break; case 11: r.z = "-20001.500000"; break; case 12: r.c = "999999.999999"; break; default: r.tail = tail(true, 1 << (k - 13)); }
  File f[2]; for (int i = 0; i < 2; i++) { f[i] = base(2); f[i].e = {e[i], e[1 - i], e[i]}; } std::string w = mc::fmt("part %d: ", k), p[2]; for (int i = 0; i < 2; i++) { p[i] = ctx.scratch() + mc::fmt("/t%d", i); sp3::write(p[i], f[i].str()); } Sut a(ctx, p[0]), b(ctx, p[1]); Sut *S[2] = {&a, &b}; size_t at[2] = {0, 0};
  while (at[0] < 3 || at[1] < 3) { int i = at[0] == 3 ? 1 : at[1] == 3 ? 0 : ctx.choose(2); w += char('a' + i); S[i]->read(f[i].e[at[i]], at[i] == 2, w); at[i]++; } for (auto *s : S) s->end(w); ctx.state(w); ctx.outcome(mc::fmt("%d", k));
}
MC_SCENARIO(P23, microseconds, "epochs at every one of 60 seconds x all microseconds in steps of 997 (thorough: 101), each written with 8 decimals, one second after the other in one file, in the first or the last minute of a day") {
  int sec = ctx.choose(60), late = ctx.choose(2), step = ctx.thorough() ? 101 : 997; File f = base(1); for (long u = sec % 7; u < 1000000; u += step) { Epoch e; e.t.us = (late ? 86340L : 0L) * 1000000 + sec * 1000000L + u; e.r = {rec('G', 1, 5)}; f.e.push_back(e); } all(ctx, f, mc::fmt("second %d late %d", sec, late)); ctx.outcome(mc::fmt("%d", sec)); }
MC_SCENARIO(P23, line_ends, "2 epochs of 2 records, each with any of the 16 flag combinations on the first, whose lines (position, epoch, header, end or all) go on behind column 80 with 0-4 blanks, a carriage return or both") {
  int k = ctx.choose(16), trim = ctx.choose(2), which = 1 + ctx.choose(15), b = ctx.choose(5), cr = ctx.choose(2); std::string x(b, ' '); if (cr) x += '\r'; File f = base(2); for (int i = 0; i < 2; i++) { Epoch e; e.trim = trim; e.t.us = i * 900000000L; e.r = {rec('G', 1, 12000.5 + i), rec('R', 24, 7)}; e.r[0].tail = tail(i, k); e.r[1].tail = tail(true, 0); f.e.push_back(e); }
  std::string t = f.str(), o, l; size_t q = 0, h = f.header().size(); while (q < t.size()) { size_t e = t.find('\n', q); l = t.substr(q, e - q); int cls = q < h ? 4 : l[0] == 'P' ? 1 : l[0] == '*' ? 2 : 8; if (which & cls && (!trim || cr || cls != 1 || b)) { if (b && l.size() < 80 && !trim) l.resize(80, ' '); l += x; } o += l + "\n"; q = e + 1; }
  std::string w = mc::fmt("flags %d trim %d lines %d blanks %d cr %d", k, trim, which, b, cr), p = ctx.scratch() + "/e"; sp3::write(p, o); ctx.site("open"); std::unique_ptr<Sut> s; try { s.reset(new Sut(ctx, p)); } catch (std::runtime_error &e) { ctx.fail("refused", w + ": " + e.what()); } for (size_t i = 0; i < 2; i++) s->read(f.e[i], i == 1, w); s->end(w); ctx.state(w); ctx.outcome(mc::fmt("%d", which)); }
