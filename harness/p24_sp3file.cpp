// MC-PROPERTIES: P24
#include "sp3file.hpp"
using namespace sp3;
static std::map<std::string, std::string> members(const Sp3c &r) {
  std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); auto p = std::cout.precision(17); r.print_members(); std::cout.precision(p); std::cout.rdbuf(old); std::istringstream i(o.str()); std::string l; std::map<std::string, std::string> m; while (std::getline(i, l)) { size_t c = l.find(':'); if (c == std::string::npos) continue; std::string k = l.substr(0, c); k.resize(k.find_last_not_of(' ') + 1); m[k] = l.substr(c + 1); } return m;
}
static std::string bare(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == 0)) s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
static void verify(mc::Ctx &ctx, File &f, const std::string &w) {
  std::string p = ctx.scratch() + "/h"; sp3::write(p, f.str()); ctx.site("open"); errno = ERANGE; std::unique_ptr<Sut> s; std::string err; try { s.reset(new Sut(ctx, p)); } catch (std::exception &e) { err = e.what(); } errno = 0; if (!s) ctx.fail("refused", w + ": " + err); auto m = members(s->r);
  auto is = [&](const char *k, const std::string &want, const char *key) { if (!m.count(k) || bare(m[k]) != bare(want)) ctx.fail(key, w + ": [" + mc::vis(m[k]) + "], written [" + want + "]"); };
  is("filename", p, "filename"); is("Version", std::string(1, f.ver), "version"); is("# Epochs", mc::fmt("%d", f.neph), "epochs"); is("Coordinate S", f.crd, "coordinates"); is("Orbit Type", f.type, "orbit-type"); is("Agency", f.agency, "agency"); is("Time System", f.sys, "time-system");
  datetime<microseconds> t(year(f.start.y), month(f.start.m), day_of_month(f.start.d), microseconds(f.start.us)); is("Start Epoch", strftime_ymd_hms(t), "start"); ctx.eq((long)s->r.interval().as_underlying_type(), f.interval, "interval", w); ctx.eq(s->r.num_sats(), (int)f.sats.size(), "num-sats", w); ctx.eq(s->v.size(), f.sats.size(), "vector", w);
  for (size_t i = 0; i < f.e.size(); i++) s->read(f.e[i], i + 1 == f.e.size(), w); if (f.e.size()) s->end(w); ctx.state(f.header());
}
static File base(int n, int k = 1) { static const std::pair<char, int> S[] = {{'G', 1}, {'R', 24}, {'E', 9}, {'C', 30}}; File f; f.sats.assign(S, S + n); for (int i = 0; i < k; i++) { Epoch e; e.t = f.start.plus(i * f.interval); for (int j = 0; j < n; j++) e.r.push_back(rec(f.sats[j].first, f.sats[j].second, 1000 * (i + 1) + j + 0.5, (i * 7 + j * 5) % 16)); f.e.push_back(e); } return f; }
MC_SCENARIO(P24, start_epochs, "start epochs: every 15 minutes (thorough: every minute) of 8 days, also with 6 fractions of a second down to a microsecond") {
  static const int D[][3] = {{2019, 3, 31}, {2020, 2, 29}, {1999, 8, 22}, {2000, 1, 1}, {2038, 1, 19}, {1980, 1, 6}, {2016, 12, 31}, {2019, 12, 29}}; static const long S[] = {0, 1, 500000, 30000000, 59999999, 12345678, 100000}; int d = ctx.choose(8), m = ctx.thorough() ? ctx.choose(1440) : 15 * ctx.choose(96), s = ctx.choose(7); File f = base(1); f.start = {D[d][0], D[d][1], D[d][2], m * 60000000L + S[s]}; f.e[0].t = f.start; verify(ctx, f, f.start.str()); ctx.outcome(f.start.str());
}
MC_SCENARIO(P24, header_fields, "13 intervals x 6 epoch counts x 13 satellite counts (1-999) (SP3-d above 85) x 4 sets of names x 0, 1, 4, 9, 100 or 400 comment lines of 3 or 80 columns") {
  static const long I[] = {900000000, 300000000, 30000000, 5000000, 1000000, 500000, 100000, 700000, 1, 3600000000, 86400000000, 333333, 290000}; static const int N[] = {1, 9, 96, 289, 86401, 9999999}, SN[] = {1, 2, 17, 18, 85, 86, 99, 120, 170, 255, 256, 300, 999}, C[] = {0, 1, 4, 9, 100, 400};
  int i = ctx.choose(13), n = ctx.choose(6), k = ctx.choose(13), names = ctx.choose(4), c = ctx.choose(6); File f = base(1); f.interval = I[i]; f.neph = N[n]; f.sats.clear(); for (int j = 0; j < SN[k]; j++) f.sats.push_back({"GREC"[j % 4], 1 + j / 4 % 99}); if (SN[k] > 85 || i % 2) f.ver = 'd'; if (names == 1) f.crd = "WGS84", f.type = "FIT", f.agency = "NGS", f.sys = "UTC"; if (names == 2) f.crd = "ITR92", f.type = "BHN", f.agency = "ABCD", f.sys = "GAL", f.used = "u+U"; if (names == 3) f.crd = "J2", f.type = "EXT", f.agency = "X", f.sys = "GLO", f.used = "D"; f.comments.assign(C[c], "/*"); for (auto &x : f.comments) if (i % 2) { x += " "; while (x.size() < 80) x += 'P'; }
  verify(ctx, f, mc::fmt("interval %ld epochs %d satellites %d names %d comments %d", I[i], N[n], SN[k], names, C[c])); ctx.outcome(mc::fmt("%d %d %d %d %d", i, n, k, names, c));
}
/// histories
static void op(Sut &s, File &f, size_t &cur, int o, const std::string &w) {
  switch (o) { case 0: if (cur < f.e.size()) { s.read(f.e[cur], cur + 1 == f.e.size(), w); cur++; } else s.end(w); break; default: s.ctx.note("rewind"); s.ctx.site("rewind"); s.ctx.step(); s.r.rewind(); cur = 0; } }
MC_SCENARIO(P24, histories, "files of 0-4 epochs x 1-3 satellites (some missing in some epochs), final newline or not x all sequences of 6 (thorough 9) reads and rewinds, reader moved at any one place; then read through twice") {
  int n = ctx.choose(5), k = 1 + ctx.choose(3); bool nl = ctx.choose(2) == 0; int depth = ctx.thorough() ? 9 : 6, mv = ctx.choose(depth + 1); File f = base(k, n); if (n > 1) f.e[1].r.pop_back(); if (n > 2) f.e[2].r.erase(f.e[2].r.begin()); std::string name = mc::fmt("%d %d %d", n, k, nl), p = ctx.scratch() + "/" + mc::fmt("s%d%d%d", n, k, nl); if (access(p.c_str(), F_OK)) { std::string t = f.str(); if (!nl) t.pop_back(); sp3::write(p, t); }
  std::unique_ptr<Sut> s(new Sut(ctx, p)); size_t cur = 0; std::string w = name + ": "; for (int i = 0; i < depth; i++) { if (i == mv) { ctx.note("move"); Sp3c t(std::move(s->r)); std::string q = ctx.scratch() + "/x"; if (access(q.c_str(), F_OK)) { File g = base(1, 2); sp3::write(q, g.str()); } s.reset(); s.reset(new Sut(ctx, q)); s->r = std::move(t); s->v = s->r.allocate_epoch_vector(); w += "m"; } int o = ctx.choose(2); w += char('0' + o); op(*s, f, cur, o, w); ctx.state(name + mc::fmt("@%zu %d", cur, i)); }
  size_t left = n - cur; for (int rep = 0; rep < 2; rep++) { while (cur < f.e.size()) op(*s, f, cur, 0, w + " rest"); for (int i = 0; i < 3; i++) op(*s, f, cur, 0, w + " end"); op(*s, f, cur, 1, w); } ctx.outcome(mc::fmt("%zu", left));
}
MC_SCENARIO(P24, cut, "files of 3 epochs x 1-3 satellites with full or short lines, cut after every byte: refused while the header is incomplete; then all epochs that are followed by another line, an epoch whose end is in doubt only completely, an end or error status, and the end; a rewind brings the epochs back") {
  int k = 1 + ctx.choose(3); bool shortl = ctx.flag(); File f = base(k, 3); if (shortl) for (auto &e : f.e) for (auto &r : e.r) r.tail = ""; std::string t = f.str(), h = f.header(); int n = ctx.choose(t.size() + 1); ctx.note(n); std::string p = ctx.scratch() + "/c", w = mc::fmt("%d satellites, %d of %zu bytes", k, n, t.size()); sp3::write(p, t.substr(0, n)); std::unique_ptr<Sut> s; ctx.site("open"); try { s.reset(new Sut(ctx, p)); } catch (std::runtime_error &) {} if (!s) { if (n >= (int)h.size()) ctx.fail("refused", w); ctx.state(n); ctx.outcome("refused"); return; } if (n < (int)h.rfind("\n%i") + 3) ctx.fail("accepted", w + ": header incomplete");
  size_t q = h.size(), full = 0; int doubt = -1; for (int i = 0; i < 3; i++) { size_t e = q + f.e[i].str().size(); bool complete = n >= (int)e - 1, sure = n >= (int)e + (i == 2 ? 3 : 1); if (sure) full++; else if (complete) doubt = i; q = e; }
  for (int rep = 0; rep < 2; rep++) { for (size_t i = 0; i < full; i++) s->read(f.e[i], i == 2, w); bool end = false; for (int i = 0; i < 30 && !end; i++) { datetime<microseconds> d; int c = 0; int st = s->next(d, c); end = st < 0; if (st <= 0 && c > 0) { if (doubt < 0) ctx.fail("invented", w + mc::fmt(": status %d with %d records", st, c)); compare(ctx, f.e[doubt], d, s->v, c, w + " (last epoch)"); doubt = -1; } else if (st == 0) ctx.fail("invented", w + ": an empty epoch"); } if (!end) ctx.fail("no-end", w); s->end(w); s->r.rewind(); if (rep == 0) { doubt = -1; q = h.size(); for (int i = 0; i < 3; i++) { size_t e = q + f.e[i].str().size(); if (n >= (int)e - 1 && n < (int)e + (i == 2 ? 3 : 1)) doubt = i; q = e; } } }
  ctx.state(w); ctx.outcome(mc::fmt("%zu", full));
}
MC_SCENARIO(P24, damaged, "a file of 3 epochs x 2 satellites, every byte replaced by each of 8 characters or removed, every line removed or doubled: header errors are exceptions; the epochs before the damage are read, the end comes after epochs and errors, nothing crashes; a rewind brings the epochs back") {
  File f = base(2, 3); std::string t = f.str(), h = f.header(); int n = ctx.choose(t.size()), k = ctx.choose(11); if (k < 8) t[n] = " 9P*-\nE\0"[k]; else if (k == 8) t.erase(n, 1); else { size_t a = n ? t.rfind('\n', n - 1) : std::string::npos; a = a == std::string::npos ? 0 : a + 1; if ((size_t)n != a) return; size_t b = t.find('\n', a) + 1; std::string l = t.substr(a, b - a); if (k == 9) t.erase(a, b - a); else t.insert(b, l); } ctx.note(n, " ", k); std::string w = mc::fmt("byte %d kind %d", n, k);
  std::string p = ctx.scratch() + "/d"; sp3::write(p, t); ctx.site("open"); std::unique_ptr<Sut> s; try { s.reset(new Sut(ctx, p)); } catch (std::runtime_error &) {} if (!s) { if (n >= (int)h.size()) ctx.fail("refused", w); ctx.state(w); ctx.outcome("refused"); return; }
  size_t q = h.size(), full = 0; if (n >= (int)q) for (int i = 0; i < 3; i++) { q += f.e[i].str().size(); if (n > (int)q && i < 2) full++; } for (int rep = 0; rep < 2; rep++) { for (size_t i = 0; i < full; i++) s->read(f.e[i], i == 2, w); bool end = false; for (int i = 0; i < 60 && !end; i++) { datetime<microseconds> d; int c = 0; int st = s->next(d, c); end = st < 0; if (c > (int)s->v.size()) ctx.fail("too-many", w); } if (!end) ctx.fail("no-end", w); s->r.rewind(); } ctx.state(w); ctx.outcome(mc::fmt("%zu", full));
}
MC_SCENARIO(P24, too_many, "epochs with 1-5 more satellites than the header has, also with doubled satellites: never more records than the result vector holds; the following epochs or the end are reached") {
  int k = 1 + ctx.choose(4), x = 1 + ctx.choose(5), at = ctx.choose(3); File f = base(k, 3); for (int i = 0; i < x; i++) f.e[at].r.push_back(rec(i % 2 ? 'E' : 'G', 1 + i, 77)); std::string p = ctx.scratch() + "/t", w = mc::fmt("%d + %d at %d", k, x, at); sp3::write(p, f.str()); Sut s(ctx, p); for (int i = 0; i < at; i++) s.read(f.e[i], false, w); datetime<microseconds> d; int c = 0; int st = s.next(d, c); if (st <= 0) ctx.fail("too-many", w + mc::fmt(": status %d with %d records", st, c)); bool end = st < 0; for (int i = 0; i < 40 && !end; i++) { end = s.next(d, c) < 0; } if (!end) ctx.fail("no-end", w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P24, between, "files of 3 epochs x 2 satellites with 1 or 2 of 8 other lines (velocity, correlation, comment, E line, unknown, empty) at every place behind a position record: every epoch is returned once, in order and complete, before and after a rewind") {
  static const char *O[] = {"VG01 -12345.678901  23456.789012 -34567.890123 123456.789012 11 12 13 111   EP  MP\n", "EP    55   55   55     222    1234567 -1234567    5999999     -30       21 -1230000\n", "EV    22   22   22     111    1234567  1234567   1234567  1234567  1234567  1234567\n", "/* COMMENT\n", "E\n", "EO\n", "X 2019\n", "\n"}; int at = ctx.choose(6), o = ctx.choose(8), two = ctx.choose(9); File f = base(2, 3); for (auto &e : f.e) e.after.assign(2, ""); f.e[at / 2].after[at % 2] = std::string(O[o]) + (two < 8 ? O[two] : ""); std::string p = ctx.scratch() + "/b", w = mc::fmt("line %d %d behind record %d", o, two, at); sp3::write(p, f.str()); Sut s(ctx, p);
  for (int rep = 0; rep < 2; rep++) { for (size_t i = 0; i < 3; i++) s.read(f.e[i], i == 2, w); s.end(w); s.r.rewind(); } ctx.state(w); ctx.outcome(w);
}
/// text put over a place of the second epoch: a time, satellite or value that cannot be
MC_SCENARIO(P24, corrupted, "a file of 3 epochs x 2 satellites on 4 dates, with one impossible entry in the second epoch (45 in the epoch line: mark, year, month, day, hour, minute, second out of range, blank or no number; 25 in either position line: system, number, each coordinate, clock): the first epoch is read, then an error status; whatever is still read is the third epoch, unchanged; the same after a rewind") {
  static const T D[] = {{2019, 1, 31, 0}, {2020, 2, 29, 0}, {2019, 2, 28, 0}, {2019, 4, 30, 85500000000L}}; struct C { int at; const char *s; }; static const C E[] = {{1, "*"}, {3, "    "}, {3, "abcd"}, {3, "0000"}, {3, "-019"}, {8, " 0"}, {8, "13"}, {8, "99"}, {8, "-1"}, {8, "  "}, {8, "ab"}, {11, " 0"}, {11, "32"}, {11, "99"}, {11, "-1"}, {11, "  "}, {11, "xy"}, {8, " 2 30"}, {8, " 2 31"}, {8, " 4 31"}, {8, " 6 31"}, {8, " 9 31"}, {8, "11 31"}, {3, "2019  2 29"}, {3, "2100  2 29"}, {3, "2021  2 29"}, {14, "24"}, {14, "25"}, {14, "99"}, {14, "-1"}, {14, "  "}, {14, "ab"}, {17, "60"}, {17, "61"}, {17, "99"}, {17, "-1"}, {17, "  "}, {17, "ab"}, {20, "61.00000000"}, {20, "99.00000000"}, {20, "-1.00000000"}, {20, "           "}, {20, "abcdefghijk"}, {20, "  .        "}, {20, "          -"}};
  static const C R[] = {{1, "X"}, {1, " "}, {1, "9"}, {1, "g"}, {2, "  "}, {2, "00"}, {2, " 0"}, {2, "-1"}, {2, "ab"}, {4, "              "}, {18, "              "}, {32, "              "}, {46, "              "}, {4, "abcdefghijklmn"}, {18, "abcdefghijklmn"}, {32, "abcdefghijklmn"}, {46, "abcdefghijklmn"}, {4, "      -.      "}, {18, "      -.      "}, {32, "      -.      "}, {46, "      -.      "}, {4, "             x"}, {18, "  x   5.000000"}, {32, "**************"}, {46, "**************"}};
  const int NE = sizeof E / sizeof *E, NR = sizeof R / sizeof *R; File f = base(2, 0); f.start = D[ctx.choose(4)]; for (int i = 0; i < 3; i++) { Epoch e; e.t = f.start.plus(i * f.interval); for (int j = 0; j < 2; j++) e.r.push_back(rec(f.sats[j].first, f.sats[j].second, 1000 * (i + 1) + j + 0.5, (i * 7 + j * 5) % 16)); f.e.push_back(e); }
  int k = ctx.choose(NE + 2 * NR); std::string t = f.str(); size_t q = f.header().size() + f.e[0].str().size(), l = q; if (k >= NE) for (int i = (k - NE) % 2; i >= 0; i--) l = t.find('\n', l) + 1; const C &c = k < NE ? E[k] : R[(k - NE) / 2]; t.replace(l + c.at, strlen(c.s), c.s); std::string w = mc::fmt("%d-%d-%d: [", f.start.y, f.start.m, f.start.d) + t.substr(l, t.find('\n', l) - l) + "]"; ctx.note(w); std::string p = ctx.scratch() + "/k"; sp3::write(p, t); Sut s(ctx, p); ctx.site("after the damage");
  for (int rep = 0; rep < 2; rep++) { s.read(f.e[0], false, w); datetime<microseconds> d; int n = 0, st = s.next(d, n); if (st <= 0) ctx.fail("accepted", w + mc::fmt(": status %d", st)); bool end = false, third = false; for (int i = 0; i < 30 && !end; i++) { n = 0; st = s.next(d, n); end = st < 0; if (st <= 0 && n > 0) { if (third) ctx.fail("invented", w); third = true; compare(ctx, f.e[2], d, s.v, n, w + " (third epoch)"); } } if (!end) ctx.fail("no-end", w); s.r.rewind(); s.ended = false; }
  ctx.state(w); ctx.outcome(k < NE ? "epoch line" : "position line"); }
MC_SCENARIO(P24, header_damaged, "headers on 4 dates with one impossible or contradictory entry out of 52 (version letter, marks, date and time out of range or blank, epoch count, GPS week, seconds of week, interval, MJD or day fraction not those of the start, number of satellites), the rest as it should be: opening fails; without that entry it does not") {
  static const T D[] = {{2019, 3, 31, 0}, {2020, 2, 29, 85500000000L}, {1999, 8, 22, 0}, {2019, 4, 6, 43200000000L}}; struct C { int line, at; const char *s; }; static const C E[] = {{0, 0, " "}, {0, 0, "*"}, {0, 1, "a"}, {0, 1, "b"}, {0, 1, "e"}, {0, 1, " "}, {0, 1, "C"}, {0, 3, "    "}, {0, 3, "20xx"}, {0, 3, "2031"}, {0, 8, " 0"}, {0, 8, "13"}, {0, 8, "  "}, {0, 8, "xx"}, {0, 8, "12"}, {0, 11, " 0"}, {0, 11, "32"}, {0, 11, "  "}, {0, 11, "xx"}, {0, 11, "17"}, {0, 14, "24"}, {0, 14, "  "}, {0, 14, "-1"}, {0, 14, "13"}, {0, 17, "60"}, {0, 17, "  "}, {0, 17, "-1"}, {0, 17, "33"}, {0, 20, "61.00000000"}, {0, 20, "           "}, {0, 20, "-1.00000000"}, {0, 20, " 0.00010000"}, {0, 32, "      0"}, {0, 32, "     -5"}, {0, 32, "       "}, {0, 32, "     xx"}, {1, 0, " "}, {1, 1, "c"}, {1, 3, "    "}, {1, 3, "xxxx"}, {1, 8, "               "}, {1, 8, "            xxx"}, {1, 24, "              "}, {1, 24, "   -1.00000000"}, {1, 39, "     "}, {1, 39, "    x"}, {1, 39, "50000"}, {1, 45, "               "}, {2, 0, " "}, {2, 3, "   "}, {2, 3, "  0"}, {2, 3, " -1"}};
  const int N = sizeof E / sizeof *E; static const long W[] = {1, -1, 1024, -1024, 7}; static const double S[] = {1, -1, 0.001, 900, 86400}; static const double Q[] = {1e-3, -1e-3, 0.5, 1e-7}; File f = base(2, 0); f.start = D[ctx.choose(4)]; for (int i = 0; i < 2; i++) { Epoch e; e.t = f.start.plus(i * f.interval); for (int j = 0; j < 2; j++) e.r.push_back(rec(f.sats[j].first, f.sats[j].second, 1000 * (i + 1) + j + 0.5)); f.e.push_back(e); }
  int k = ctx.choose(N + 5 + 5 + 4 + 2); std::string t = f.str(); long d = f.start.day() - 44244; double sow = (d % 7) * 86400.0 + f.start.us / 1e6, fr = f.start.us / 86400e6; C c; std::string x; if (k < N) c = E[k], x = c.s; else if (k < N + 5) { c = {1, 3, ""}; x = mc::fmt("%4ld", d / 7 + W[k - N]); } else if (k < N + 10) { double v = sow + S[k - N - 5]; if (v < 0) v = sow + 2; c = {1, 8, ""}; x = mc::fmt("%15.8f", v); } else if (k < N + 14) { double v = fr + Q[k - N - 10]; if (v < 0) v = fr + 2e-3; c = {1, 45, ""}; x = mc::fmt("%.13f", v); } else { c = {1, 39, ""}; x = mc::fmt("%5ld", f.start.day() + (k == N + 14 ? 1 : -1)); }
  size_t l = 0; for (int i = 0; i < c.line; i++) l = t.find('\n', l) + 1; std::string w = mc::fmt("%d-%d-%d line %d column %d [%s] for [%s]", f.start.y, f.start.m, f.start.d, c.line + 1, c.at + 1, x.c_str(), t.substr(l + c.at, x.size()).c_str()), p = ctx.scratch() + "/v"; if (t.compare(l + c.at, x.size(), x) == 0) { ctx.state(w); return; } sp3::write(p, f.str()); { Sut s(ctx, p); for (size_t i = 0; i < 2; i++) s.read(f.e[i], i == 1, w); }
  t.replace(l + c.at, x.size(), x); sp3::write(p, t); bool ok = true; ctx.site("open"); ctx.step(); try { Sut s(ctx, p); } catch (std::runtime_error &) { ok = false; } if (ok) ctx.fail("accepted", w); ctx.state(w); ctx.outcome(mc::fmt("%d", k)); }

MC_SCENARIO(P24, after_eof, "files of 0-3 epochs whose EOF line is followed by one of 11 things (blank lines, another EOF, comments, a whole epoch, a part of one, another file, with or without newline): the epochs, then end of file on each of 5 calls, again after each of 2 rewinds, also when the reader was moved at the end") {
  static const char *X[] = {"\n", "\n\n\n", "EOF\n", "EOF", "/* LATE COMMENT\n", "*", " ", "\x1a\n"}; int n = ctx.choose(4), x = ctx.choose(11), mv = ctx.choose(2), k = 1 + ctx.choose(2); File f = base(k, n); Epoch late; late.t = f.start.plus(9 * f.interval); late.r = {rec('G', 1, 4711.5)}; std::string t = f.str(), more = x < 8 ? X[x] : x == 8 ? late.str() : x == 9 ? late.str() + "EOF\n" : base(1, 2).str(); std::string p = ctx.scratch() + "/ae", w = mc::fmt("%d epochs of %d, then kind %d", n, k, x); ctx.note(w); sp3::write(p, t + more); Sut s(ctx, p); Vec keep;
  for (int rep = 0; rep < 3; rep++) { for (int i = 0; i < n; i++) s.read(f.e[i], i + 1 == n, w); for (int i = 0; i < 5; i++) { if (mv && i == 2) { Sp3c o(std::move(s.r)); s.r = std::move(o); } s.end(w); } s.r.rewind(); } ctx.state(w); ctx.outcome(mc::fmt("%d", x)); }
