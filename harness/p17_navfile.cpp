// MC-PROPERTIES: P17
#include "navmodel.hpp"
// block kinds: different lengths (8, 4 lines) and two satellites of one system
static nav::Blk kind(int k, int pos) {
  static const struct { char s; int p; } K[] = {{'G', 1}, {'R', 1}, {'G', 12}, {'E', 1}, {'C', 30}, {'S', 20}, {'I', 4}, {'J', 2}};
  nav::Blk b(K[k].s, K[k].p); b.sod = 60 * pos + 7; b.set(0, 1e-4 * (pos + 1)); return b;
}
struct Model { std::vector<nav::Blk> l; size_t cur = 0; };
static std::string make(mc::Ctx &ctx, Model &m, int maxn, int kinds, int minn = 0) {
  int n = minn + ctx.choose(maxn - minn + 1); std::string name = "f"; for (int i = 0; i < n; i++) { int k = ctx.choose(kinds); name += char('a' + k); m.l.push_back(kind(k, i)); }
  bool nl = n == 0 || ctx.choose(2) == 0; name += nl ? "1" : "0"; std::string p = ctx.scratch() + "/" + name;
  if (access(p.c_str(), F_OK)) { std::string t = nav::header(); for (int i = 0; i < n; i++) t += m.l[i].text(nl || i + 1 < n); nav::write(p, t); }
  return p;
}
static std::string show(const Model &m) { std::string s; for (auto &b : m.l) s += mc::fmt("%c%02d ", b.sys, b.prn); return s; }
static void got(mc::Ctx &ctx, NavDataFrame &fr, const nav::Blk &b, const std::string &w) {
  ctx.eq((int)fr.system(), (int)nav::system(b.sys), "system", w); ctx.eq(fr.prn(), b.prn, "prn", w); auto c = std::as_const(fr).toc(); ctx.eq(c.sec().as_underlying_type(), (long)b.sod, "toc", w);
  ctx.check(std::as_const(fr).data(0) == b.val(0) && std::as_const(fr).data(14) == b.val(14), "data", w);
}
struct Sut { NavigationRnx r; std::vector<std::pair<NavigationRnx::pos_type, size_t>> saved; explicit Sut(const char *p) : r(p) {} Sut(NavigationRnx &&o) : r(std::move(o)) {} };
/// one operation on the reader and on the model
static void op(mc::Ctx &ctx, NavigationRnx &r, Model &m, std::vector<std::pair<NavigationRnx::pos_type, size_t>> &saved, int o, const std::string &w) {
  ctx.step(); size_t n = m.l.size();
  auto find = [&](char s, int prn) {
    NavDataFrame fr; NavigationRnx::pos_type pos; ctx.site("find_next"); size_t k = m.cur; int st = r.find_next(pos, fr, nav::system(s), prn);
    saved.emplace_back(pos, m.cur);
    while (k < n && !(m.l[k].sys == s && (prn == -1 || m.l[k].prn == prn))) k++;
    std::string q = w + mc::fmt("find %c %d", s, prn); ctx.note(q, " -> ", st);
    if (k < n) { if (st) ctx.fail("find-status", q + mc::fmt(": status %d", st)); got(ctx, fr, m.l[k], q); m.cur = k + 1; }
    else { if (st >= 0) ctx.fail("find-end", q + mc::fmt(": status %d", st)); m.cur = n; }
  };
  switch (o) {
  case 0: { ctx.site("peak_satsys"); int st = 99; auto s = r.peak_satsys(st); ctx.note("peek -> ", st); if (m.cur < n) { ctx.eq(st, 0, "peek-status", w); ctx.eq((int)s, (int)nav::system(m.l[m.cur].sys), "peek", w); } else if (st >= 0) ctx.fail("peek-end", w + mc::fmt("status %d", st)); break; }
  case 1: { ctx.site("ignore_next_block"); int st = r.ignore_next_block(); ctx.note("skip -> ", st); if (m.cur < n) { ctx.eq(st, 0, "skip-status", w); m.cur++; } else if (st >= 0) ctx.fail("skip-end", w + mc::fmt("status %d", st)); break; }
  case 2: { ctx.site("read_next_record"); NavDataFrame fr; int st = r.read_next_record(fr); ctx.note("read -> ", st); if (m.cur < n) { ctx.eq(st, 0, "read-status", w); got(ctx, fr, m.l[m.cur], w); m.cur++; } else if (st >= 0) ctx.fail("read-end", w + mc::fmt("status %d", st)); break; }
  case 3: find('G', 12); break;
  case 4: find('R', -1); break;
  case 5: ctx.site("rewind"); ctx.note("rewind"); r.rewind(); m.cur = 0; break;
  case 6: if (saved.empty()) break; ctx.site("rewind"); ctx.note("rewind to saved"); r.rewind(saved.back().first); m.cur = saved.back().second; break;
  case 7: find('G', -1); break;
  case 8: find('E', 1); break;
  case 9: find('J', 99); break;
  }
  ctx.state(show(m) + mc::fmt("@%zu", m.cur));
}
MC_SCENARIO(P17, sequences, "all files of 0-2 (thorough 3) blocks over 3 kinds (2 GPS satellites, GLONASS) with and without final newline x all sequences of 4 (thorough 5) operations out of peek, skip, read, find satellite, find any, rewind, rewind to the position last saved; then the rest of the file is read and compared") {
  Model m; std::string p = make(ctx, m, ctx.thorough() ? 3 : 2, 3); NavigationRnx r(p.c_str()); std::vector<std::pair<NavigationRnx::pos_type, size_t>> sv; std::string w = show(m) + ": ";
  for (int i = 0; i < (ctx.thorough() ? 5 : 4); i++) { int o = ctx.choose(7); w += mc::fmt("%d ", o); op(ctx, r, m, sv, o, w); }
  size_t left = m.l.size() - m.cur; for (size_t i = 0; i <= left; i++) op(ctx, r, m, sv, 2, w + "rest: ");
  ctx.outcome(mc::fmt("%zu %zu", left, sv.size()));
}
MC_SCENARIO(P17, all_systems, "all files of 1-2 (thorough 4) blocks over 8 kinds (every system) x all sequences of 2 operations out of 10, then rewind and read everything twice") {
  Model m; std::string p = make(ctx, m, ctx.thorough() ? 4 : 2, 8, 1); NavigationRnx r(p.c_str()); std::vector<std::pair<NavigationRnx::pos_type, size_t>> sv; std::string w = show(m) + ": ";
  for (int i = 0; i < 2; i++) { int o = ctx.choose(10); w += mc::fmt("%d ", o); op(ctx, r, m, sv, o, w); }
  for (int k = 0; k < 2; k++) { op(ctx, r, m, sv, 5, w); for (size_t i = 0; i <= m.l.size(); i++) op(ctx, r, m, sv, 2, w + "all: "); }
  ctx.outcome(show(m));
}
MC_SCENARIO(P17, long_searches, "files with 0..12 blocks of other systems between two blocks of the wanted satellite, searched repeatedly, at each of 3 starting points; also with 6000 blocks in between") {
  int gap = ctx.choose(14); if (gap == 13) gap = 6000; int start = ctx.choose(3); Model m; m.l.push_back(kind(2, 0)); for (int i = 0; i < gap; i++) m.l.push_back(kind(i % 3 == 2 ? 3 : i % 3 ? 1 : 0, i % 1000)); m.l.push_back(kind(2, 1)); m.l.push_back(kind(1, 2));
  std::string t = nav::header(); for (auto &b : m.l) t += b.text(); std::string p = ctx.scratch() + "/long"; nav::write(p, t);
  NavigationRnx r(p.c_str()); std::vector<std::pair<NavigationRnx::pos_type, size_t>> sv; std::string w = mc::fmt("gap %d start %d: ", gap, start);
  if (start == 1) op(ctx, r, m, sv, 1, w); if (start == 2) { op(ctx, r, m, sv, 3, w); op(ctx, r, m, sv, 6, w); }
  for (int i = 0; i < 4; i++) op(ctx, r, m, sv, 3, w); op(ctx, r, m, sv, 6, w); op(ctx, r, m, sv, 5, w); op(ctx, r, m, sv, 4, w); ctx.outcome(mc::fmt("%d", gap));
}
MC_SCENARIO(P17, prns, "files of 3 blocks: one of each of 7 systems with each PRN 1..99, between two blocks of every other system or of PRN 1 of the same: found by PRN, found as any, found from the saved position, not found under a neighbouring PRN") {
  static const char S[] = "GREJCIS"; int a = ctx.choose(7), prn = 1 + ctx.choose(99), o = ctx.choose(7); Model m; auto blk = [](char s, int p, int pos) { nav::Blk b(s, p); b.sod = 60 * pos + 7; b.set(0, 1e-4 * (pos + 1)); return b; };
  m.l.push_back(blk(S[o], o == a ? prn % 99 + 1 : prn, 0)); m.l.push_back(blk(S[a], prn, 1)); m.l.push_back(blk(S[o], o == a ? prn % 99 + 1 : prn, 2)); std::string t = nav::header(); for (auto &b : m.l) t += b.text(); std::string p = ctx.scratch() + "/prns"; nav::write(p, t); NavigationRnx r(p.c_str()); std::string w = show(m) + ": "; ctx.note(w);
  for (int q : {prn, -1, prn % 99 + 1, prn > 1 ? prn - 1 : 98, -1}) {
    NavDataFrame fr; NavigationRnx::pos_type pos; for (int k = 0; k < 4; k++) { ctx.site("find_next"); ctx.step(); size_t at = m.cur; while (at < 3 && !(m.l[at].sys == S[a] && (q == -1 || m.l[at].prn == q))) at++; int st = r.find_next(pos, fr, nav::system(S[a]), q); std::string v = w + mc::fmt("find %c %d from %zu", S[a], q, m.cur); ctx.note(v, " -> ", st);
      if (at < 3) { if (st) ctx.fail("find-status", v + mc::fmt(": status %d", st)); got(ctx, fr, m.l[at], v); if (k == 1) r.rewind(pos); else m.cur = at + 1; } else { if (st >= 0) ctx.fail("find-end", v + mc::fmt(": status %d", st)); m.cur = 3; } }
    r.rewind(); m.cur = 0;
  }
  ctx.outcome(mc::fmt("%d %d", a, o)); ctx.state(w);
}
MC_SCENARIO(P17, moved_readers, "a reader moved (constructed or assigned) at every point of all sequences of 3 operations out of 7 on files of 2 blocks over 3 kinds: the new object continues where the old one was") {
  Model m; std::string p = make(ctx, m, 2, 3, 2); std::vector<std::pair<NavigationRnx::pos_type, size_t>> sv; std::string w = show(m) + ": ";
  auto r = std::make_unique<NavigationRnx>(p.c_str()); int at = ctx.choose(4), how = ctx.choose(2);
  for (int i = 0; i < 4; i++) {
    if (i == at) { std::unique_ptr<NavigationRnx> n; w += "move "; ctx.site("move"); if (how) { std::string q = ctx.scratch() + "/other"; if (access(q.c_str(), F_OK)) nav::write(q, nav::header() + kind(5, 3).text()); n = std::make_unique<NavigationRnx>(q.c_str()); int st; n->peak_satsys(st); *n = std::move(*r); } else n = std::make_unique<NavigationRnx>(std::move(*r)); r = std::move(n); }
    if (i < 3) { int o = ctx.choose(7); w += mc::fmt("%d ", o); op(ctx, *r, m, sv, o, w); }
  }
  size_t left = m.l.size() - m.cur; for (size_t i = 0; i <= left; i++) op(ctx, *r, m, sv, 2, w + "rest: "); ctx.outcome(mc::fmt("%zu", left));
}
MC_SCENARIO(P17, damaged_files, "files of 3 blocks with every line removed, doubled or replaced by each of 8 damaged lines (blank, unknown letters, M block, too long, NUL, 0xff), under 4 access patterns: every call returns, errors are reported, the end is reached") {
  static const std::string BAD[] = {"", " ", "M01 2019 01 01 00 00 00", "X", std::string(200, 'G'), std::string("G\0", 2), "\xff\xff\xff", "G99 9999 99 99 99 99 99 garbage"};
  static const char *SET[] = {"aba", "bbd", "gfa", "dch"}; const char *f = SET[ctx.choose(4)]; std::vector<std::string> L; for (int i = 0; i < 3; i++) for (auto &s : kind(f[i] - 'a', i).lines()) L.push_back(s);
  int at = ctx.choose((int)L.size()), how = ctx.choose(10), pat = ctx.choose(5); std::string w = mc::fmt("%s line %d damage %d pattern %d", f, at, how, pat);
  if (how == 8) L.erase(L.begin() + at); else if (how == 9) L.insert(L.begin() + at, L[at]); else L[at] = BAD[how];
  std::string t = nav::header(); for (auto &s : L) t += s + "\n"; std::string p = ctx.scratch() + "/d"; nav::write(p, t); ctx.note(w);
  NavigationRnx r(p.c_str()); NavDataFrame fr; NavigationRnx::pos_type pos; int st = 0, errs = 0; size_t k = 0;
  NavigationRnx::pos_type first; r.find_next(first, fr, SATELLITE_SYSTEM::mixed, 1); r.rewind();
  for (; k < L.size() + 5; k++) {
    ctx.site(mc::fmt("pattern %d", pat)); ctx.step();
    if (pat == 0) st = r.read_next_record(fr); else if (pat == 1) st = r.ignore_next_block(); else if (pat == 2) st = r.find_next(pos, fr, SATELLITE_SYSTEM::gps, 12); else if (pat == 3) st = r.find_next(pos, fr, SATELLITE_SYSTEM::mixed, -1);
    else { datetime<milliseconds> q(modified_julian_day(58484), milliseconds(3600000)); st = r.find_next_valid(q, pos, fr, SATELLITE_SYSTEM::gps, 12); }
    if (st < 0) break; if (st > 0) errs++;
  }
  if (pat == 0 && st >= 0 && how != 4) ctx.fail("no-end", w + mc::fmt(": %zu reads without reaching the end", k));
  ctx.site("rewind"); if ((at + how) % 2) r.rewind(); else r.rewind(first); nav::Blk b0 = kind(f[0] - 'a', 0); bool intact = at >= (int)b0.lines().size();
  st = r.read_next_record(fr); if (intact) { ctx.eq(st, 0, "after-rewind", w); got(ctx, fr, b0, w); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d", st, errs));
}
MC_SCENARIO(P17, cut_files, "files of 2 blocks (7 combinations of systems) cut at every byte of header and body: opening throws only when the header is incomplete; reading yields exactly the complete blocks, then reports the end or an error, and never loops") {
  static const char *SET[] = {"ab", "ba", "ac", "dd", "eb", "gf", "hb"}; const char *f = SET[ctx.choose(7)]; nav::Blk a = kind(f[0] - 'a', 0), b = kind(f[1] - 'a', 1); std::string h = nav::header(), t = h + a.text() + b.text();
  int cut = ctx.choose((int)t.size() + 1), pat = ctx.choose(2); std::string w = mc::fmt("%s cut after %d bytes (header %zu)", f, cut, h.size()); nav::write(ctx.scratch() + "/c", t.substr(0, cut)); ctx.note(w);
  std::unique_ptr<NavigationRnx> r; ctx.site("open"); try { r = std::make_unique<NavigationRnx>((ctx.scratch() + "/c").c_str()); } catch (std::runtime_error &e) { if (cut >= (int)h.size() - 1) ctx.fail("open", w + e.what()); ctx.outcome("refused"); ctx.state(w); ctx.step(); return; }
  if (cut < (int)h.size() - 8) ctx.fail("open-incomplete-header", w);
  NavDataFrame fr; int done = 0, st = 0, k = 0;
  // a block is certainly complete when all its bytes are there, certainly not when a line is missing
  size_t e1 = h.size() + a.text().size() - 1, e2 = t.size() - 1, m1 = e1 - 8, m2 = e2 - 8;
  for (; k < 12; k++) { ctx.step(); ctx.site("read"); st = pat ? r->ignore_next_block() : r->read_next_record(fr); if (st < 0) break; if (st == 0) { if (!pat && (size_t)cut >= (done ? e2 : e1)) got(ctx, fr, done ? b : a, w); done++; } }
  if (st >= 0) ctx.fail("no-end", w);
  if ((size_t)cut >= e2 && done != 2) ctx.fail("blocks", w + mc::fmt(": %d read", done)); if ((size_t)cut >= e1 && done < 1) ctx.fail("blocks", w + mc::fmt(": %d read", done));
  size_t l1 = e1 - a.lines().back().size(), l2 = e2 - b.lines().back().size(); if ((size_t)cut <= l1 && done > 0) ctx.fail("incomplete-block", w); if ((size_t)cut <= l2 && done > 1) ctx.fail("incomplete-block", w);
  if (!pat && (size_t)cut < m1 - 60 && done > 0) ctx.fail("incomplete-block", w); if (!pat && (size_t)cut >= e1 && (size_t)cut < m2 - 60 && done > 1) ctx.fail("incomplete-block", w);
  r->rewind(); ctx.site("rewind"); if ((size_t)cut >= e1) { ctx.eq(r->read_next_record(fr), 0, "after-rewind", w); got(ctx, fr, a, w); }
  ctx.state(w); ctx.outcome(mc::fmt("%d %d", done, k));
}
MC_SCENARIO(P17, line_ends, "files of 3 blocks of all ordered pairs of 7 systems, first, middle, last or all lines of a block, the header lines, or all, going on with 0-40 blanks, a carriage return or both behind their last column (header lines 0-3): read, skipped, searched, rewound as without") {
  int x = ctx.choose(7), y = ctx.choose(7), which = ctx.choose(5), b = ctx.choose(7), cr = ctx.choose(2); static const int B[] = {0, 1, 2, 3, 17, 30, 40}; Model m; m.l = {kind(x, 0), kind(y, 1), kind(x, 2)}; std::string ends(B[b], ' '); if (cr) ends += '\r'; std::string t; { std::string h = nav::header(), l; size_t q = 0; while (q < h.size()) { size_t e = h.find('\n', q); l = h.substr(q, e - q); if (which >= 3 && B[b] <= 3) { l.resize(80, ' '); l += ends; } t += l + "\n"; q = e + 1; } }
  for (auto &k : m.l) { auto ls = k.lines(); for (size_t i = 0; i < ls.size(); i++) { bool ext = which == 4 || (which == 0 && i == 0) || (which == 1 && i && i + 1 < ls.size()) || (which == 2 && i + 1 == ls.size()); t += ls[i] + (ext ? ends : "") + "\n"; } } std::string p = ctx.scratch() + "/e"; nav::write(p, t); NavigationRnx r(p.c_str()); std::vector<std::pair<NavigationRnx::pos_type, size_t>> sv; std::string w = show(m) + mc::fmt("lines %d blanks %d cr %d: ", which, B[b], cr);
  for (int o : {2, 2, 2, 2, 5, 0, 1, 2, 1, 1, 5, 4, 5, 7, 5, 8, 5, 2, 1, 0, 2, 2}) op(ctx, r, m, sv, o, w); ctx.outcome(w); }

MC_SCENARIO(P17, cut_searches, "files of 2 blocks (7 combinations of systems) cut at every byte: searches for either satellite, or any of its system, find it as often as it is there with all its lines, before and after a rewind; then the end or an error") {
  static const char *SET[] = {"ab", "ba", "ac", "dd", "eb", "gf", "hb"}; const char *f = SET[ctx.choose(7)]; nav::Blk a = kind(f[0] - 'a', 0), b = kind(f[1] - 'a', 1); std::string h = nav::header(), t = h + a.text() + b.text(); int cut = (int)h.size() + ctx.choose((int)(t.size() - h.size()) + 1), who = ctx.choose(2), any = ctx.choose(2); const nav::Blk &q = who ? b : a; std::string w = mc::fmt("%s cut after %d bytes, find %c %d", f, cut, q.sys, any ? -1 : q.prn), p = ctx.scratch() + "/cs"; ctx.note(w); nav::write(p, t.substr(0, cut)); NavigationRnx r(p.c_str());
  size_t e1 = h.size() + a.text().size() - 1, e2 = t.size() - 1, l1 = e1 - a.lines().back().size(), l2 = e2 - b.lines().back().size(); auto fits = [&](const nav::Blk &x) { return x.sys == q.sys && (any || x.prn == q.prn); }; int sure = ((size_t)cut >= e1 && fits(a)) + ((size_t)cut >= e2 && fits(b)), most = ((size_t)cut > l1 && fits(a)) + ((size_t)cut > l2 && fits(b));
  for (int rep = 0; rep < 2; rep++) { int n = 0, st = 0; for (int i = 0; i < 12; i++) { NavDataFrame fr; NavigationRnx::pos_type pos; ctx.step(); ctx.site("find_next"); st = r.find_next(pos, fr, nav::system(q.sys), any ? -1 : q.prn); if (st < 0) break; if (st == 0) { if (n < sure) got(ctx, fr, n == 0 && fits(a) ? a : b, w); n++; } } if (st >= 0) ctx.fail("no-end", w); if (n < sure) ctx.fail("lost", w + mc::fmt(": %d found", n)); if (n > most) ctx.fail("incomplete-block", w + mc::fmt(": %d found", n)); r.rewind(); } ctx.state(w); ctx.outcome(mc::fmt("%d %d", sure, most)); }
MC_SCENARIO(P17, headers, "headers of every system letter (8), with 0-40 comment lines, filled to 80 columns or not: opened, the block behind found; with a file type other than N (11), an unknown system letter (12), no END OF HEADER line (followed by blocks or nothing): refused") {
  int k = ctx.choose(4), c = ctx.choose(5); static const int C[] = {0, 1, 3, 10, 40}; static const char TY[] = "OMGHCSnQ 0D", Y[] = "XAZ0-gm*BDHK"; std::string h = nav::header(), w, body; size_t n1 = h.find('\n') + 1; std::string com; for (int i = 0; i < C[c]; i++) { std::string l = i % 3 == 1 ? "G01 2019 01 01 00 00 00 NOT A BLOCK" : "END OF HEADER IS NOT HERE"; l.resize(60, ' '); l += "COMMENT"; if (i % 2) l.resize(80, ' '); com += l + "\n"; } h.insert(n1, com); nav::Blk b = kind(0, 0); int i = 0; body = b.text() + kind(1, 1).text();
  if (k == 0) h[40] = "GREJCSIM"[i = ctx.choose(8)]; if (k == 1) h[20] = TY[i = ctx.choose(11)]; if (k == 2) h[40] = Y[i = ctx.choose(12)]; if (k == 3) { i = ctx.choose(2); h = h.substr(0, h.rfind('\n', h.size() - 2) + 1); if (i) body = ""; } w = mc::fmt("header %d %d, %d comments", k, i, C[c]); ctx.note(w); std::string p = ctx.scratch() + "/hd"; nav::write(p, h + body); bool ok = true; ctx.site("open"); ctx.step(); std::unique_ptr<NavigationRnx> r; try { r = std::make_unique<NavigationRnx>(p.c_str()); } catch (std::runtime_error &) { ok = false; } ctx.eq(ok, k == 0, k ? "accepted" : "refused", w); if (ok) for (int rep = 0; rep < 2; rep++) { NavDataFrame fr; ctx.eq(r->read_next_record(fr), 0, "read-status", w); got(ctx, fr, b, w); r->rewind(); } ctx.state(w); ctx.outcome(mc::fmt("%d", k)); }
