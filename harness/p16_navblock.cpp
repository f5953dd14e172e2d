// MC-PROPERTIES: P16
#include "navmodel.hpp"
static const char *SY = "GRECJIS";
// texts of exactly 19 columns (15 for the readable part)
static const std::vector<std::string> FMT = {" 1.234567890123D+01", "-1.234567890123D-05", " 1.234567890123d+02", "-1.234567890123E+03", " 1.234567890123e-04", "-12.34567890123D+01", "9.87654321012345D+1", "-9.8765432101234e-1", "                  7", "1234567890123456789", " .123456789012D+01 ", "-.1234567890123D-01", "0                  ", "  0.000000000000D+00", "     -3.5          "};
static std::string fmt19(int k) { std::string s = FMT[k]; s.resize(19, ' '); return s; }
static bool integral_field(char s, int i) { return (s == 'R' && i == 2) || (std::strchr("GEC", s) && i == 11); }

MC_SCENARIO(P16, every_field, "7 systems x every field position x 15 number formats x 3 surroundings (ordinary, all fields filling their 19 columns with digits, mixed) x with and without final newline: system, PRN, epoch and every field") {
  char s = SY[ctx.choose(7)]; nav::Blk b(s, 3); int i = ctx.choose(nav::nfields(s)), k = ctx.choose((int)FMT.size()), su = ctx.choose(3); bool nl = ctx.flag();
  for (int j = 0; j < (int)b.f.size(); j++) if (!integral_field(s, j)) { if (su == 1) b.f[j] = j % 2 ? "9.87654321012345D+1" : "-9.8765432101234e-1"; else if (su == 2) b.f[j] = fmt19((j + k) % (int)FMT.size()); }
  if (!integral_field(s, i)) b.f[i] = fmt19(k);
  else { static const char *T[] = {" 1.728000000000D+05", "-0.000000000000D+00", "             172800", "6.0479900000000d+05", " 6.048000000000e+05"}; b.f[i] = T[k % 5]; }
  NavDataFrame fr; std::string w = b.first() + mc::fmt(" field %d = [%s]", i, b.f[i].c_str()); ctx.note(w); ctx.site("set_from_rnx3");
  int st = nav::load(ctx.scratch() + "/b", b.text(nl), fr); ctx.step();
  if (b.sys == 'E' && i == 22) ctx.note("spare");
  ctx.eq(st, 0, "status", w); nav::compare(ctx, fr, b, w);
  ctx.state(w + mc::fmt("%d%d", su, nl)); ctx.outcome(mc::fmt("%c %g", s, std::as_const(fr).data(i)));
}
MC_SCENARIO(P16, epochs_and_prns, "7 systems x PRN 1..99 x 6 epochs around day, year and leap day boundaries") {
  static const long D[] = {58484, 58483, 58907, 58848, 51543, 66154}; static const int S[] = {0, 86399, 43200, 3661, 86398, 59};
  nav::Blk b(SY[ctx.choose(7)], 1 + ctx.choose(99)); int e = ctx.choose(6); b.day = D[e]; b.sod = S[(e + b.prn) % 6]; NavDataFrame fr;
  if (std::strchr("GEC", b.sys)) { long wk = (b.day - 44244) / 7; b.f[21] = nav::d19(wk - (b.sys == 'C' ? 1356 : 0)); b.f[11] = nav::d19(((b.day - 44244) % 7) * 86400.0 + b.sod); }
  if (b.sys == 'R') b.f[2] = nav::d19(((b.day - 44244) % 7) * 86400.0 + b.sod);
  std::string t = b.text(); if (ctx.flag() && b.prn < 10) t[1] = ' '; // blank padded number
  ctx.note(t.substr(0, 23)); ctx.site("set_from_rnx3"); int st = nav::load(ctx.scratch() + "/b", t, fr); ctx.step();
  ctx.eq(st, 0, "status", b.first()); nav::compare(ctx, fr, b, b.first());
  ctx.state(b.first()); ctx.outcome(b.first());
}
MC_SCENARIO(P16, object_reuse, "all ordered sequences of 2 (thorough 3) blocks out of 7 systems x 3 kinds (ordinary, all zero, lines cut after their last number) read into one object, each also after a failed read (truncated block) or a stale errno") {
  int n = ctx.thorough() ? 3 : 2; NavDataFrame fr; std::string w; int fails = 0;
  for (int k = 0; k < n; k++) {
    char s = SY[ctx.choose(7)]; int kind = ctx.choose(3), pre = ctx.choose(4); nav::Blk b(s, 5 + k); b.sod = 900 * k + kind; b.blank_spare = kind == 2;
    if (kind == 1) for (int i = 0; i < (int)b.f.size(); i++) if (!(std::strchr("GEC", s) && i == 21)) b.f[i] = nav::d19(0);
    if (kind == 0) for (int i = 0; i < (int)b.f.size(); i++) if (!integral_field(s, i)) b.f[i] = nav::d19((k + 1) * (i + .5));
    std::string t = b.text(); if (kind == 2) { std::string u; for (auto l : b.lines()) { while (l.back() == ' ') l.pop_back(); u += l + "\n"; } t = u; }
    w += b.first() + mc::fmt("(kind %d, before: %d); ", kind, pre); ctx.site("set_from_rnx3");
    if (pre == 1) { int st = nav::load(ctx.scratch() + "/x", t.substr(0, t.size() / 2), fr); ctx.step(); if (st == 0) ctx.fail("truncated-accepted", w); fails++; }
    else if (pre == 2) { nav::Blk o(s == 'R' ? 'C' : 'R', 9); if (nav::load(ctx.scratch() + "/x", o.text(), fr)) ctx.fail("status", w + o.first()); ctx.step(); }
    else if (pre == 3) errno = ERANGE;
    int st = nav::load(ctx.scratch() + "/b", t, fr); ctx.step(); ctx.note(w);
    ctx.eq(st, 0, "status", w); nav::compare(ctx, fr, b, w); ctx.state(w);
  }
  ctx.outcome(mc::fmt("%d", fails));
}
MC_SCENARIO(P16, two_from_one_stream, "all ordered pairs of blocks of 7 systems x 2 spare styles read from one stream into one or two objects") {
  nav::Blk a(SY[ctx.choose(7)], 1), b(SY[ctx.choose(7)], 2); a.blank_spare = ctx.flag(); b.blank_spare = ctx.flag(); bool two = ctx.flag();
  std::string p = ctx.scratch() + "/b"; nav::write(p, a.text() + b.text()); std::ifstream in(p.c_str()); NavDataFrame x, y; NavDataFrame &z = two ? y : x;
  std::string w = a.first() + " , " + b.first(); ctx.note(w); ctx.site("set_from_rnx3");
  ctx.eq(x.set_from_rnx3(in), 0, "status", w); nav::compare(ctx, x, a, w); ctx.eq(z.set_from_rnx3(in), 0, "status", w); nav::compare(ctx, z, b, w);
  if (two) nav::compare(ctx, x, a, w + " first again"); ctx.step(2); ctx.state(w); ctx.outcome(w);
}
// what the columns of a (damaged) block say
static bool refparse(const std::string &t, char s, std::vector<double> &v) {
  std::vector<std::string> L(1); for (char c : t) if (c == '\n') L.emplace_back(); else L.back() += c;
  v.clear(); int n = nav::nfields(s);
  for (int i = 0; i < n; i++) {
    size_t ln = i < 3 ? 0 : 1 + (i - 3) / 4, col = i < 3 ? 23 + 19 * i : 4 + 19 * ((i - 3) % 4);
    std::string f = ln < L.size() && col < L[ln].size() ? L[ln].substr(col, 19) : ""; for (auto &c : f) if (c == 'D' || c == 'd') c = 'E';
    char *e; double x = std::strtod(f.c_str(), &e); if (e == f.c_str() && !nav::spare(s, i)) return false; v.push_back(x);
  }
  return true;
}
MC_SCENARIO(P16, cut_at_every_byte, "blocks of 7 systems cut at every byte, into a new object or one that held another block: refused with a status unless all numbers are there, never fatal") {
  char s = SY[ctx.choose(7)]; nav::Blk b(s, 7), o(s == 'G' ? 'R' : 'G', 8); std::string t = b.text(); int cut = ctx.choose((int)t.size() + 1); bool used = ctx.flag();
  NavDataFrame fr; if (used && nav::load(ctx.scratch() + "/x", o.text(), fr)) ctx.fail("status", o.first());
  t.resize(cut); std::string w = b.first() + mc::fmt(" cut after %d bytes", cut); ctx.note(w); ctx.site("set_from_rnx3");
  int st = nav::load(ctx.scratch() + "/b", t, fr); ctx.step(); std::vector<double> v; bool ok = refparse(t, s, v);
  if ((st == 0) != ok) ctx.fail("cut-status", w + mc::fmt(": status %d", st));
  if (ok) for (int i = 0; i < (int)v.size(); i++) { double x = v[i]; if (s == 'R' && (i == 3 || i == 4 || i == 5 || i == 7 || i == 8 || i == 9 || i == 11 || i == 12 || i == 13)) x *= 1e3; if (!nav::spare(s, i) && std::as_const(fr).data(i) != x) ctx.fail("cut-field", w + mc::fmt(" field %d", i)); }
  ctx.state(w); ctx.outcome(mc::fmt("%d", st));
}
MC_SCENARIO(P16, every_byte_damaged, "blocks of 7 systems, every byte replaced by each of 9 characters (blank, newline, NUL, letters, digit, sign, 0xff): never fatal, and what is accepted has all undamaged numbers right") {
  static const char R[] = {' ', '\n', 0, 'x', 'M', '9', '-', '.', (char)0xff};
  char s = SY[ctx.choose(7)]; nav::Blk b(s, 7); std::string t = b.text(); int at = ctx.choose((int)t.size()); char c = R[ctx.choose(9)]; bool used = ctx.thorough() ? ctx.flag() : at % 2;
  if (t[at] == '\n') c = ' ';
  int ln = 0, ls = 0; for (int i = 0; i < at; i++) if (t[i] == '\n') ln++, ls = i + 1; int col = at - ls;
  nav::Blk o(s == 'G' ? 'R' : 'G', 8); NavDataFrame fr; if (used && nav::load(ctx.scratch() + "/x", o.text(), fr)) ctx.fail("status", o.first());
  std::string w = b.first() + mc::fmt(" line %d column %d becomes 0x%02x", ln, col, (unsigned char)c); char was = t[at]; t[at] = c; ctx.note(w); ctx.site("set_from_rnx3");
  int st = nav::load(ctx.scratch() + "/b", t, fr); ctx.step(); ctx.state(w); ctx.outcome(mc::fmt("%d", st));
  if (was == c) { ctx.eq(st, 0, "status", w); return; }
  if (ln == 0 && col < 23) { if (col == 0 && std::strchr("xM9-. ", c) && st == 0 && c) ctx.fail("accepted-system", w); return; }
  if (was == '\n' || c == '\n' || c == 0 || st) return;
  int base = ln == 0 ? 23 : 4, f0 = ln == 0 ? 0 : 3 + (ln - 1) * 4, hit = col < base ? -1 : f0 + (col - base) / 19;
  for (int i = 0; i < (int)b.f.size(); i++) { if (i == hit || nav::spare(s, i)) continue; double x = b.val(i); if (s == 'R' && (i == 3 || i == 4 || i == 5 || i == 7 || i == 8 || i == 9 || i == 11 || i == 12 || i == 13)) x *= 1e3; if (std::as_const(fr).data(i) != x) ctx.fail("neighbour", w + mc::fmt(": field %d is %.15g", i, std::as_const(fr).data(i))); }
}
MC_SCENARIO(P16, twins, "a block and its twin, which differs in one part only (year, month, day, hour, minute, second, PRN, or one field) of 7 systems: all sequences of 3 (thorough 5) readings of either, into objects of their own, into one object, or always into a new one, from files or from one stream") {
  char s = SY[ctx.choose(7)]; int k = ctx.choose(7 + nav::nfields(s)), mode = ctx.choose(4); nav::Blk b[2] = {nav::Blk(s, 7), nav::Blk(s, 7)}; for (auto &x : b) x.day = nav::mjd(2019, 3, 12), x.sod = 4 * 3600 + 5 * 60 + 6; long &d = b[1].day;
  switch (k) { case 0: d = nav::mjd(2020, 3, 12); break; case 1: d = nav::mjd(2019, 4, 12); break; case 2: d = nav::mjd(2019, 3, 13); break; case 3: b[1].sod += 3600; break; case 4: b[1].sod += 60; break; case 5: b[1].sod++; break; case 6: b[1].prn = 8; break;
  default: { int f = k - 7; if (nav::spare(s, f)) return; bool integral = (s == 'R' && f == 2) || ((s == 'G' || s == 'E' || s == 'C') && (f == 11 || f == 21)); b[1].set(f, b[0].val(f) + (integral ? 1 : 0.5)); } }
  std::string w = mc::fmt("%c part %d mode %d: ", s, k, mode); NavDataFrame f[2]; std::unique_ptr<NavDataFrame> n; std::vector<int> seq; int len = ctx.thorough() ? 5 : 3; for (int i = 0; i < len; i++) { seq.push_back(ctx.choose(2)); w += char('A' + seq[i]); }
  std::string t; for (int i : seq) t += b[i].text(); nav::write(ctx.scratch() + "/all", t); std::ifstream in((ctx.scratch() + "/all").c_str());
  for (int i : seq) { NavDataFrame *p = &f[mode == 0 ? i : 0]; if (mode == 2) n.reset(new NavDataFrame), p = n.get(); ctx.site("read"); ctx.step(); int st = mode == 3 ? p->set_from_rnx3(in) : nav::load(ctx.scratch() + "/b", b[i].text(), *p); if (st) ctx.fail("status", w + mc::fmt(" status %d", st)); nav::compare(ctx, *p, b[i], w); }
  ctx.state(w); ctx.outcome(mc::fmt("%c %d", s, k));
}
MC_SCENARIO(P16, blank_numbers, "blocks of 7 systems with any one of the clock and orbit numbers (clock terms, positions, velocities and accelerations; Crs to i-dot) blank, or with text in its place (8 texts), read into a new object or one holding another block: refused; the complete block after it is read") {
  static const char *X[] = {"", "abc", "N/A", "-", "none", ".", "E+00", "*"}; char s = SY[ctx.choose(7)]; bool state = s == 'R' || s == 'S'; std::vector<int> F; if (state) F = {0, 1, 3, 4, 5, 7, 8, 9, 11, 12, 13}; else { F = {0, 1, 2}; for (int i = 4; i <= 18; i++) F.push_back(i); }
  int i = F[ctx.choose(F.size())], x = ctx.choose(8), used = ctx.choose(2); nav::Blk b(s, 5), o(s == 'G' ? 'E' : 'G', 7); std::vector<std::string> l = b.lines(); int ln = i < 3 ? 0 : 1 + (i - 3) / 4, col = i < 3 ? 23 + 19 * i : 4 + 19 * ((i - 3) % 4); std::string v(19, ' '); std::string t = X[x]; v.replace(6, t.size(), t); std::string &q = l[ln]; q.resize(std::max<size_t>(q.size(), col + 19), ' '); q.replace(col, 19, v); std::string u; for (auto &z : l) u += z + "\n";
  std::string w = std::string(1, s) + mc::fmt(": number %d is [%s]", i, X[x]); ctx.note(w); NavDataFrame f; ctx.site("set_from_rnx3"); if (used && nav::load(ctx.scratch() + "/x", o.text(), f)) ctx.fail("status", w); int st = nav::load(ctx.scratch() + "/b", u, f); ctx.step(); if (st == 0) ctx.fail("accepted", w); ctx.eq(nav::load(ctx.scratch() + "/c", b.text(), f), 0, "status", w); nav::compare(ctx, f, b, w); ctx.state(w); ctx.outcome(mc::fmt("%c %d", s, x));
}
