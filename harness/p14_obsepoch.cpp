// MC-PROPERTIES: P14
#include "obsfile.hpp"
using namespace obs;
struct File { Types ty; std::vector<std::string> order; std::vector<Epoch> e; std::string between;
  std::string str() const { std::vector<Line> h{first()}; for (auto &t : ty) for (auto &l : types(t.first, t.second)) h.push_back(l); std::string s = text(h) + END(); for (auto &x : e) s += x.str(); return s; } };
/// write, open, map, read every epoch, compare, expect the end
static void all(mc::Ctx &ctx, const File &f, const std::vector<Req> &rq, const std::string &w, const std::string &body = "", int fill = 0) {
  std::string p = ctx.scratch() + "/o"; if (body.empty()) obs::write(p, f.str()); else obs::write(p, body); ctx.site("open"); ObservationRnx r(p.c_str()); InMap im = inmap(rq); ctx.site("map"); ReadMap m = r.set_read_map(im); if (m.empty() && !rq.empty()) ctx.fail("map", w);
  EpochVec v = r.initialize_epoch_vector(m); for (auto &x : v) for (auto &y : x.second) y = fill; int n = 77; modified_julian_day d(0); double sod = -1;
  for (size_t i = 0; i < f.e.size(); i++) { ctx.site("read"); ctx.step(); errno = i ? ERANGE : 0; int st = r.read_next_epoch(m, v, n, d, sod); if (st) ctx.fail("read-status", w + mc::fmt(": epoch %zu status %d", i, st)); compare(ctx, f.e[i], f.ty, rq, v, n, d, sod, w + mc::fmt(" epoch %zu", i)); }
  ctx.site("end"); int st = r.read_next_epoch(m, v, n, d, sod); if (st >= 0) ctx.fail("end-status", w + mc::fmt(": status %d after the last epoch", st)); errno = 0;
}
static std::vector<std::string> codes(int n) { std::vector<std::string> c; for (int i = 0; i < n; i++) c.push_back(code(i)); return c; }
static Cell pat(int k, int i) { double v = 20000000.125 + 1234567.25 * i; switch (k) { case 0: return cell(v); case 1: return cell(-v - 0.001, '1', '7'); case 2: return Cell{"", ' ', ' '}; case 3: return Cell{"", ' ', '5'}; default: return Cell{"", '2', ' '}; } }
MC_SCENARIO(P14, presence, "one satellite, 4 codes, each present, present with flags, blank, blank with signal strength (thorough: or loss of lock) x full, trimmed, flagless and padded lines x memory content; 9 requested combinations of 1-4 terms, also with coefficient 0") {
  File f; f.ty['G'] = codes(4); Epoch e; Sat s{'G', 7, {}}; int np = ctx.thorough() ? 5 : 4; std::string w; for (int i = 0; i < 4; i++) { int k = ctx.choose(np); s.c.push_back(pat(k, i)); w += char('0' + k); } e.trim = Trim(ctx.choose(4)); int fill = ctx.choose(2) ? 4711 : 0; e.s = {s}; f.e = {e}; w += mc::fmt(" trim %d", e.trim); ctx.note(w);
  std::vector<Req> rq = {{'G', {{code(0), 1}}}, {'G', {{code(1), 1}}}, {'G', {{code(3), 1}}}, {'G', {{code(2), -0.5}}}, {'G', {{code(0), 2.5457277801631593}, {code(3), -1.5457277801631593}}}, {'G', {{code(3), 0.5}, {code(1), 0.25}}}, {'G', {{code(0), 1}, {code(1), -1}, {code(2), 1}, {code(3), -1}}}, {'G', {{code(0), 1}, {code(1), 0}}}, {'G', {{code(2), 0}}}};
  all(ctx, f, rq, w, "", fill); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P14, satellites, "epochs of 0-4 satellites over 3 systems with different code lists (every sequence) x every subset of requested systems") {
  static const char S[] = "GRE"; File f; f.ty['G'] = codes(3); f.ty['R'] = {code(2), code(0)}; f.ty['E'] = {code(9), code(1), code(2), code(0), code(8)}; Epoch e; int n = ctx.choose(5); std::string w; for (int i = 0; i < n; i++) { int k = ctx.choose(3); Sat s{S[k], 1 + i * 3 + (i == 3 ? 22 : 0), {}}; for (size_t j = 0; j < f.ty[S[k]].size(); j++) s.c.push_back((i + j) % 4 == 3 ? Cell{} : cell(1000 * (i + 1) + j + 0.5, ' ', '6')); e.s.push_back(s); w += S[k]; } e.trim = n % 2 ? TRIMMED : FULL; f.e = {e, e}; f.e[1].mi = 1; for (auto &s : f.e[1].s) for (auto &c : s.c) if (!c.missing()) c = cell(std::strtod(c.v.c_str(), nullptr) + 0.25);
  int sub = 1 + ctx.choose(7); std::vector<Req> rq; for (int i = 0; i < 3; i++) if (sub >> i & 1) { rq.push_back({S[i], {{code(0), 1}}}); rq.push_back({S[i], {{code(2), 1}, {code(0), -1}}}); if (i == 0) rq.push_back({'G', {{code(1), 3}}}); } w += mc::fmt(" systems %d", sub); all(ctx, f, rq, w, "", 99); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P14, field_values, "14-column values (one of them the missing-value marker) from -999999999.999 to 9999999999.999, each flag combination (10 x 10 digits, blanks), in the first, middle and last column, neighbours filled to the last digit") {
  static const char *V[] = {"-999999999.999", "9999999999.999", "      .001", "     -0.001", "  23629347.915", "1.000", "         5.000", "-123456789.000", "           42.", "-999.990", "-999.99", "999.990"}; int v = ctx.choose(12), col = ctx.choose(3), l = ctx.choose(11), s = ctx.choose(11); File f; f.ty['G'] = codes(3); Epoch e; Sat x{'G', 31, {}}; for (int i = 0; i < 3; i++) x.c.push_back(i == col ? Cell{V[v], l == 10 ? ' ' : char('0' + l), s == 10 ? ' ' : char('0' + s)} : Cell{"12345678901.25", '9', '9'}); e.s = {x}; f.e = {e};
  std::vector<Req> rq = {{'G', {{code(0), 1}}}, {'G', {{code(1), 1}}}, {'G', {{code(2), 1}}}, {'G', {{code(2), 2}, {code(1), 1}}}, {'G', {{code(0), -0.5}}}, {'G', {{code(1), 1}, {code(0), -1}}}}; std::string w = mc::fmt("[%s] column %d flags %d %d", V[v], col, l, s); all(ctx, f, rq, w); ctx.state(w); ctx.outcome(mc::fmt("%d %d", v, col));
}
MC_SCENARIO(P14, code_counts, "1-40 and 52, 63-66, 79, 99, 100 codes per system (thorough 1-128), lines of all cells, only the first, only the last, or every second cell x full/trimmed/flagless: every code requested, epoch lines with and without clock offset") {
  static const int MORE[] = {52, 63, 64, 65, 66, 79, 99, 100}; int n = 1 + ctx.choose(ctx.thorough() ? 128 : 48); if (!ctx.thorough() && n > 40) n = MORE[n - 41]; int k = ctx.choose(4), tr = ctx.choose(4), off = ctx.choose(2); File f; f.ty['E'] = codes(n); f.ty['G'] = codes(1 + n / 3); Epoch e; e.trim = Trim(tr); if (off) e.off = " -.123456789012"; for (char s : {'E', 'G'}) { Sat x{s, 11, {}}; int m = f.ty[s].size(); for (int i = 0; i < m; i++) x.c.push_back(k == 0 || (k == 1 && i == 0) || (k == 2 && i == m - 1) || (k == 3 && i % 2) ? cell(100 + i + 0.125, ' ', '8') : Cell{}); e.s.push_back(x); } f.e = {e, e}; f.e[1].sec = " 30.0000000";
  std::vector<Req> rq; for (int i = 0; i < n; i++) rq.push_back({'E', {{code(i), 1}}}); rq.push_back({'G', {{code(0), 1}}}); std::string w = mc::fmt("%d codes pattern %d trim %d offset %d", n, k, tr, off); all(ctx, f, rq, w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P14, epoch_times, "days around month, year and leap-day boundaries x 12 times of day with 7-decimal seconds x flag 0 or 1 x clock offset absent, short, full") {
  static const int D[][3] = {{2019, 1, 1}, {2019, 12, 31}, {2020, 1, 1}, {2020, 2, 28}, {2020, 2, 29}, {2020, 3, 1}, {2021, 2, 28}, {2000, 2, 29}, {2100, 2, 28}, {2016, 12, 31}, {1999, 12, 31}, {2038, 1, 19}}; static const char *S[] = {"  0.0000000", "  0.0000001", "  5.5000000", " 29.9990000", " 30.0000000", " 59.9999999", "  9.0000000", " 10.1234567"};
  int d = ctx.choose(12), s = ctx.choose(8), fl = ctx.choose(2), of = ctx.choose(3); File f; f.ty['G'] = codes(2); for (int t = 0; t < 4; t++) { Epoch e; e.y = D[d][0]; e.m = D[d][1]; e.d = D[d][2]; e.hh = t * 7 + t / 3 * 2; e.mi = t == 3 ? 59 : t * 19; e.sec = S[s]; e.flag = '0' + fl; e.off = of == 0 ? "" : of == 1 ? " 0.000000000000" : "-0.123456789012"; e.s = {{'G', 1, {cell(1 + t), cell(2 + t)}}}; f.e.push_back(e); }
  std::string w = mc::fmt("day %d sec %s flag %d offset %d", d, S[s], fl, of); all(ctx, f, {{'G', {{code(0), 1}}}, {'G', {{code(1), 1}}}}, w); ctx.state(w); ctx.outcome(mc::fmt("%d %d", d, s));
}
MC_SCENARIO(P14, event_records, "event epochs (flags 2-6, blank or written date, 0-4, 9-11, 99-101 or 345 records that look like header lines, satellite lines or epoch values) before, between and after 2 observation epochs") {
  static const int K[] = {0, 1, 2, 3, 4, 9, 10, 11, 99, 100, 101, 345}; int flag = 2 + ctx.choose(5), k = K[ctx.choose(12)], kind = ctx.choose(3), blank = ctx.choose(2), at = ctx.choose(3); File f; f.ty['G'] = codes(2); Epoch a; a.s = {{'G', 3, {cell(1), cell(2)}}, {'R', 3, {cell(7)}}}; f.ty['R'] = codes(1); Epoch b = a; b.mi = 5; b.s[0].c[1] = Cell{}; f.e = {a, b};
  std::string ev = (blank ? std::string(">                          ") + "    " : std::string("> 2019 01 01 00 02  0.0000000  ")) + char('0' + flag) + mc::fmt("%3d", k) + "\n"; static const char *R[] = {"some comment                                                COMMENT", "G05           1.000           2.000", "> 2019 01 01 00 00  0.0000000  0  1"}; for (int i = 0; i < k; i++) ev += std::string(kind == 2 && flag != 6 ? R[0] : flag == 6 ? R[1] : R[kind]) + "\n";
  std::vector<Line> h{first()}; for (auto &t : f.ty) for (auto &l : types(t.first, t.second)) h.push_back(l); std::string body = text(h) + END() + (at == 0 ? ev : "") + a.str() + (at == 1 ? ev : "") + b.str() + (at == 2 ? ev : ""); std::string w = mc::fmt("flag %d, %d records of kind %d, blank %d at %d", flag, k, kind, blank, at); ctx.note(w); all(ctx, f, {{'G', {{code(0), 1}}}, {'G', {{code(1), 1}}}, {'R', {{code(0), 1}}}}, w, body); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P14, missing_codes, "lists of 1-4 requested combinations, each available, with an unavailable code, or of an absent system x skip or not: what is left is read in order, the requested list is reduced accordingly, an unskipped miss gives an empty map") {
  File f; f.ty['G'] = codes(5); f.ty['E'] = codes(2); Epoch e; e.s = {{'G', 1, {cell(1), cell(2), cell(3), cell(4), cell(5)}}, {'E', 9, {cell(6), cell(7)}}}; f.e = {e}; std::string p = ctx.scratch() + "/o"; obs::write(p, f.str()); ObservationRnx r(p.c_str());
  int n = 1 + ctx.choose(4); bool skip = ctx.flag(); std::vector<Req> rq, left; std::string w; bool miss = false; for (int i = 0; i < n; i++) { int k = ctx.choose(6); w += char('0' + k); Req q = k == 0 ? Req{'G', {{code(i), 1 + i}}} : k == 1 ? Req{'G', {{code(4), 1}, {code(i), -1}}} : k == 2 ? Req{'E', {{code(i % 2), 1}}} : k == 3 ? Req{'G', {{code(i), 1}, {code(30), 1}}} : k == 4 ? Req{'G', {{code(29), 2}}} : Req{'R', {{code(0), 1}}}; rq.push_back(q); if (k < 3) left.push_back(q); else miss = true; }
  InMap im = inmap(rq); ctx.site("map"); ReadMap m = skip || n % 2 ? r.set_read_map(im, skip) : r.set_read_map(im); ctx.step(); w += skip ? " skip" : ""; ctx.note(w);
  if (miss && !skip) { if (!m.empty()) ctx.fail("map-not-empty", w); ctx.outcome("refused"); ctx.state(w); return; }
  for (char s : {'G', 'E', 'R'}) { std::vector<GnssObservable> want; for (auto &q : left) if (q.sys == s) want.push_back(q.make()); size_t got = m.count(obs::system(s)) ? m[obs::system(s)].size() : 0; ctx.eq(got, want.size(), "map-size", w); if (!im.count(obs::system(s))) continue; ctx.eq(im[obs::system(s)].size(), want.size(), "input-size", w); for (size_t i = 0; i < want.size(); i++) ctx.check(im[obs::system(s)][i] == want[i], "input-order", w); }
  if (!left.empty()) { EpochVec v = r.initialize_epoch_vector(m); int c; modified_julian_day d(0); double sod; if (r.read_next_epoch(m, v, c, d, sod)) ctx.fail("read-status", w); compare(ctx, e, f.ty, left, v, c, d, sod, w); } ctx.state(w); ctx.outcome(mc::fmt("%zu", left.size()));
}
MC_SCENARIO(P14, many_satellites, "epochs of 5-80 satellites: all are read, in order") {
  int n = 5 + ctx.choose(76); File f; f.ty['G'] = codes(2); f.ty['C'] = codes(3); Epoch e; for (int i = 0; i < n; i++) { Sat s{i % 2 ? 'C' : 'G', 1 + i % 63, {}}; for (int j = 0; j < (i % 2 ? 3 : 2); j++) s.c.push_back((i + j) % 5 ? cell(i * 10 + j, ' ', '4') : Cell{}); e.s.push_back(s); } e.trim = n % 2 ? TRIMMED : FULL; f.e = {e, e}; f.e[1].s.resize(n / 2); f.e[1].hh = 3; std::string w = mc::fmt("%d satellites", n); all(ctx, f, {{'G', {{code(1), 1}}}, {'C', {{code(2), 1}, {code(0), 1}}}}, w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P14, refused_requests, "lists of 1-4 requests, each readable, unavailable, a combination of two systems (4 kinds), or filed under another system x skip or not: a combination over two systems or a misfiled one gives an empty map, whatever is before and after it; without them the readable ones are read") {
  File f; f.ty['G'] = codes(5); f.ty['E'] = codes(3); Epoch e; e.s = {{'E', 9, {cell(6), cell(7), cell(8)}}, {'G', 1, {cell(1), cell(2), cell(3), cell(4), cell(5)}}, {'E', 3, {cell(16), cell(17), cell(18)}}}; f.e = {e}; std::string p = ctx.scratch() + "/o"; obs::write(p, f.str()); ObservationRnx r(p.c_str());
  int n = 1 + ctx.choose(4); bool skip = ctx.flag(), bad = false, miss = false; InMap im; std::vector<Req> left; std::string w;
  for (int i = 0; i < n; i++) { int k = ctx.choose(9); w += char('0' + k); auto G = SATELLITE_SYSTEM::gps, E = SATELLITE_SYSTEM::galileo; Req q{'G', {{code(i), 1 + i}}}, x{'E', {{code(i % 3), 2}}};
    switch (k) { case 0: left.push_back(q); im[G].push_back(q.make()); break; case 1: left.push_back(x); im[E].push_back(x.make()); break; case 2: q.t = {{code(40), 1}}; im[G].push_back(q.make()); miss = true; break; case 3: x.t = {{code(1), 1}, {code(4), 1}}; im[E].push_back(x.make()); miss = true; break;
    case 4: { auto o = q.make(); o.add(E, ObservationCode(code(0).c_str()), -1); im[G].push_back(o); bad = true; break; } case 5: { auto o = x.make(); o.add(G, ObservationCode(code(1).c_str()), -1); im[E].push_back(o); bad = true; break; } case 6: { auto o = q.make(); o.add(G, ObservationCode(code(4).c_str()), 1); o.add(E, ObservationCode(code(2).c_str()), 1); im[G].push_back(o); bad = true; break; } case 7: { auto o = x.make(); im[G].push_back(o); bad = true; break; } default: { auto o = q.make(); im[E].push_back(o); bad = true; } } }
  ctx.site("map"); ReadMap m = skip || n % 2 ? r.set_read_map(im, skip) : r.set_read_map(im); ctx.step(); w += skip ? " skip" : ""; ctx.note(w); if (bad || (miss && !skip)) { if (!m.empty()) ctx.fail("map-not-empty", w); ctx.outcome("refused"); ctx.state(w); return; }
  for (char s : {'G', 'E'}) { size_t want = 0; for (auto &q : left) want += q.sys == s; ctx.eq(m.count(obs::system(s)) ? m[obs::system(s)].size() : 0, want, "map-size", w); }
  if (!m.empty()) { EpochVec v = r.initialize_epoch_vector(m); int c; modified_julian_day d(0); double sod; if (r.read_next_epoch(m, v, c, d, sod)) ctx.fail("read-status", w); compare(ctx, e, f.ty, left, v, c, d, sod, w); } ctx.state(w); ctx.outcome(mc::fmt("%zu", left.size())); }
MC_SCENARIO(P14, twins, "two files whose epochs differ in one part only (year, month, day, hour, minute, second, fraction, flag, system, number, one value, one gap, one flag, the order of codes in the header), each with 3 epochs (of the one kind, the other, the one): all interleavings of 3 reads of two readers, with maps of their own or one map where the headers agree") {
  int k = ctx.choose(15); Epoch e[2]; for (auto &x : e) { x.y = 2019; x.m = 3; x.d = 12; x.hh = 4; x.mi = 5; x.sec = "  6.0000000"; x.s = {{'G', 5, {cell(100), cell(101.5, '1', '7'), cell(102.25)}}, {'E', 5, {cell(201), cell(202), cell(203)}}}; } Epoch &x = e[1];
  switch (k) { case 0: x.y = 2020; break; case 1: x.m = 4; break; case 2: x.d = 13; break; case 3: x.hh = 5; break; case 4: x.mi = 6; break; case 5: x.sec = "  7.0000000"; break; case 6: x.sec = "  6.0000001"; break; case 7: x.flag = '1'; break; case 8: x.s[0].sys = 'E', x.s[1].sys = 'G'; break; case 9: x.s[0].prn = 6; break; case 10: x.s[0].c[0] = cell(100.001); break; case 11: x.s[0].c[1] = Cell{}; break; case 12: x.s[0].c[2] = Cell{"", '1', '1'}; break; case 13: x.s.pop_back(); break; default: break; }
  Types ty[2]; for (int i = 0; i < 2; i++) for (char c : {'G', 'E'}) { if (k == 14 && i) ty[i][c] = {"C2W", "C1C", "L1C"}; else ty[i][c] = {"C1C", "L1C", "C2W"}; } int share = ctx.choose(2); if (share && k == 14) return; std::vector<Req> rq = {{'G', {{"C1C", 1}}}, {'G', {{"L1C", 1}}}, {'G', {{"C2W", 2.5}, {"C1C", -1.5}}}, {'E', {{"C2W", 1}, {"L1C", 1}}}};
  std::string w = mc::fmt("part %d share %d: ", k, share); std::unique_ptr<ObservationRnx> r[2]; ReadMap m[2]; EpochVec v[2]; size_t at[2] = {0, 0}; const Epoch *seq[2][3] = {{&e[0], &e[1], &e[0]}, {&e[1], &e[0], &e[1]}};
  for (int i = 0; i < 2; i++) { std::vector<Line> h{first()}; for (auto &t : ty[i]) for (auto &l : types(t.first, t.second)) h.push_back(l); std::string b = text(h) + END(); for (auto *q : seq[i]) b += q->str(); std::string p = ctx.scratch() + mc::fmt("/t%d", i); obs::write(p, b); r[i].reset(new ObservationRnx(p.c_str())); InMap im = inmap(rq); m[i] = r[i]->set_read_map(im); v[i] = r[i]->initialize_epoch_vector(m[i]); }
  while (at[0] < 3 || at[1] < 3) { int i = at[0] == 3 ? 1 : at[1] == 3 ? 0 : ctx.choose(2); w += char('a' + i); int n = 55; modified_julian_day d(1); double sod = -5; ctx.site("read"); ctx.step(); int st = r[i]->read_next_epoch(m[share ? 0 : i], v[share ? 0 : i], n, d, sod); if (st) ctx.fail("read-status", w + mc::fmt(": status %d", st)); compare(ctx, *seq[i][at[i]], ty[i], rq, v[share ? 0 : i], n, d, sod, w); at[i]++; }
  ctx.state(w); ctx.outcome(mc::fmt("%d", k));
}
MC_SCENARIO(P14, numbers, "satellites of every one of 7 systems with every number 1-99, written with a blank or a zero, first or second in the epoch, requested or not: system, number and values") {
  int k = ctx.choose(7), n = 1 + ctx.choose(99), at = ctx.choose(2), want = ctx.choose(2), blank = n < 10 ? ctx.choose(2) : 0; static const char SY[] = "GRECJSI"; File f; f.ty[SY[k]] = codes(2); char o = SY[(k + 1) % 7]; f.ty[o] = codes(3); Epoch e; Sat a{SY[k], n, {cell(n + 0.5, '1', '3'), cell(-n)}}, b{o, 100 - n, {cell(7), cell(8), cell(9)}}; e.s = at ? std::vector<Sat>{b, a} : std::vector<Sat>{a, b}; f.e = {e, e}; f.e[1].mi = 1; std::reverse(f.e[1].s.begin(), f.e[1].s.end());
  std::string w = mc::fmt("%c%d at %d want %d blank %d", SY[k], n, at, want, blank), t = f.str(); if (blank) { std::string from = mc::fmt("\n%c%02d", SY[k], n), to = mc::fmt("\n%c%2d", SY[k], n); for (size_t q = 0; (q = t.find(from, q)) != std::string::npos; q += 4) t.replace(q, 4, to); } std::vector<Req> rq; if (want) rq.push_back({SY[k], {{code(1), 1}}}), rq.push_back({SY[k], {{code(0), 2}}}); rq.push_back({o, {{code(2), 1}}}); all(ctx, f, rq, w, t); ctx.state(w); ctx.outcome(mc::fmt("%d %d", k, n)); }
MC_SCENARIO(P14, repeated_terms, "combinations of 1-3 (thorough 4) terms over 2 codes with coefficients 1, -1 and 0.5, every sequence, also with the same term several times, next to a single one; values present or blank") {
  File f; f.ty['G'] = codes(2); int n = 1 + ctx.choose(ctx.thorough() ? 4 : 3); static const double C[] = {1, -1, 0.5}; Req q{'G', {}}; std::string w; for (int i = 0; i < n; i++) { int k = ctx.choose(6); q.t.push_back({code(k % 2), C[k / 2]}); w += char('0' + k); } int miss = ctx.choose(4), at = ctx.choose(2); Epoch e; e.s = {{'G', 9, {miss & 1 ? Cell{} : cell(20000000.125, '1', '7'), miss & 2 ? Cell{} : cell(-345.5)}}}; f.e = {e, e}; f.e[1].mi = 1; Req one{'G', {{code(1), 3}}}; w += mc::fmt(" missing %d at %d", miss, at); all(ctx, f, at ? std::vector<Req>{one, q} : std::vector<Req>{q, one, q}, w, "", 5); ctx.state(w); ctx.outcome(w); }
MC_SCENARIO(P14, line_ends, "2 epochs of 2 satellites, lines full, trimmed or flagless, the epoch lines, satellite lines or header lines (or all) followed by 0-13 blanks, those of the header also by a carriage return, with and without clock offset") {
  int which = 1 + ctx.choose(7), b = ctx.choose(14), cr = ctx.choose(2), tr = ctx.choose(3), off = ctx.choose(2), fl = ctx.choose(2); if ((which & 4 && b > 3) || (which & 3 && cr)) return; std::string x(b, ' '); if (cr) x += '\r'; File f; f.ty['G'] = codes(3); f.ty['R'] = codes(1); for (int i = 0; i < 2; i++) { Epoch e; e.mi = i; e.trim = Trim(tr); e.flag = '0' + fl; if (off) e.off = " 0.123456789012"; e.s = {{'G', 4, {cell(1 + i, '1', '7'), Cell{}, i ? Cell{} : cell(3)}}, {'R', 5, {cell(5)}}}; f.e.push_back(e); }
  std::string t = f.str(), o; size_t q = 0, h = t.find("\n> ") + 1; while (q < t.size()) { size_t e = t.find('\n', q); std::string l = t.substr(q, e - q); int cls = q < h ? 4 : l[0] == '>' ? 1 : 2; if (which & cls) { if (cls == 4) l.resize(80, ' '); if (cls == 1 && b && l.size() < 41) l.resize(41, ' '); l += x; } o += l + "\n"; q = e + 1; }
  std::string w = mc::fmt("lines %d blanks %d cr %d trim %d offset %d flag %d", which, b, cr, tr, off, fl); ctx.note(w); all(ctx, f, {{'G', {{code(0), 1}}}, {'G', {{code(2), 1}}}, {'G', {{code(1), 1}}}, {'R', {{code(0), 1}}}}, w, o); ctx.state(w); ctx.outcome(w); }
MC_SCENARIO(P14, decimals, "values of 8 magnitudes and both signs whose three decimals run through all thousandths (and the digits before them in steps), in each of 3 columns, in 50 epochs of 20 satellites") {
  static const double M[] = {0, 90, 800, 7000, 654321, 23456789, 123456789, 999999998}; int m = ctx.choose(8), neg = ctx.choose(2), rot = ctx.choose(3); File f; f.ty['G'] = codes(3); for (int i = 0; i < 50; i++) { Epoch e; e.hh = i / 2; e.mi = i % 2 * 30; e.hh %= 24; if (i >= 48) e.d = 2; for (int k = 0; k < 20; k++) { Sat s{'G', k + 1, {Cell{}, Cell{}, Cell{}}}; for (int c = 0; c < 3; c++) { int u = (i * 20 + k + 333 * c) % 1000; s.c[(c + rot) % 3] = Cell{mc::fmt("%s%ld.%03d", (neg ^ (c & 1)) ? "-" : "", (long)M[(m + c) % 8] + k % 2, u), ' ', char('1' + k % 9)}; } e.s.push_back(s); } f.e.push_back(e); }
  std::string w = mc::fmt("%g %d %d", M[m], neg, rot); all(ctx, f, {{'G', {{code(0), 1}}}, {'G', {{code(1), 1}}}, {'G', {{code(2), 1}}}, {'G', {{code(1), 1}, {code(0), -1}}}}, w); ctx.state(w); ctx.outcome(w); }
