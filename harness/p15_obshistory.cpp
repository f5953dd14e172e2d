// MC-PROPERTIES: P15
#include "obsfile.hpp"
using namespace obs;
static const int NK = 7;
/// kinds of epochs: few and many satellites, short lines, blank cells, power failure, none, other systems only, clock offset
static Epoch kind(int k, int pos) {
  Epoch e; e.hh = pos / 60; e.mi = pos % 60; double b = 1000 * (pos + 1) + k; e.sec = mc::fmt("%11.7f", k * 1.5);
  switch (k) {
  case 0: e.s = {{'G', 7, {cell(b), cell(b + .25, '1', '7'), cell(b + .5)}}}; break;
  case 1: e.s = {{'G', 12, {Cell{}, cell(b + 9), Cell{}}}, {'E', 3, {cell(b), Cell{}}}, {'G', 1, {cell(b + 2), cell(b + 3, ' ', '9'), cell(b + 4)}}}; e.trim = TRIMMED; break;
  case 2: e.flag = '1'; e.s = {{'E', 36, {cell(b, '4', '4'), cell(b + 1)}}}; e.off = "-0.123456789012"; break;
  case 3: break;
  case 4: e.s = {{'R', 1, {cell(b)}}, {'R', 2, {cell(b + 1)}}}; break;
  case 5: e.s = {{'G', 32, {cell(b, ' ', '5'), Cell{}, Cell{}}}}; e.trim = TRIMMED; break;
  default: e.s = {{'R', 24, {cell(b)}}, {'G', 9, {cell(-b), cell(b), Cell{}}}, {'E', 9, {Cell{}, Cell{}}}}; e.trim = NOFLAGS; e.off = " 0.000000000001"; break;
  }
  return e;
}
static Types tys() { Types t; t['G'] = {"C1C", "L1C", "C2W"}; t['E'] = {"C1X", "L1X"}; t['R'] = {"C1P"}; return t; }
static std::string header() { std::vector<Line> h{first(), {"NAME", "MARKER NAME"}}; for (auto &t : tys()) for (auto &l : types(t.first, t.second)) h.push_back(l); return text(h) + END(); }
static std::vector<Req> req() { return {{'G', {{"C1C", 1}}}, {'G', {{"C2W", 1}, {"C1C", -1}}}, {'E', {{"L1X", 1}}}, {'G', {{"L1C", 2}}}}; }
static std::vector<Req> req2() { return {{'R', {{"C1P", 1}}}, {'E', {{"C1X", 1}}}, {'E', {{"L1X", 1}, {"C1X", 1}}}}; }
static const char *EVENT = ">                              4  2\nG07       1.000           2.000             MARKER              COMMENT\nREMARK                                                      COMMENT\n";
struct Model { std::vector<Epoch> l; size_t cur = 0; };
static std::string body(const Model &m, bool nl, int event = -1) { std::string t; for (size_t i = 0; i < m.l.size(); i++) { if ((int)i == event) t += EVENT; t += m.l[i].str(); } if (event == (int)m.l.size()) t += EVENT; if (!nl && !t.empty()) t.pop_back(); return t; }
struct Sut {
  mc::Ctx &ctx; std::unique_ptr<ObservationRnx> r; ReadMap m, m2; EpochVec v, v2;
  Sut(mc::Ctx &c, const std::string &p) : ctx(c), r(new ObservationRnx(p.c_str())) { InMap a = inmap(req()), b = inmap(req2()); m = r->set_read_map(a); m2 = r->set_read_map(b); v = r->initialize_epoch_vector(m); v2 = r->initialize_epoch_vector(m2); }
  void read(Model &md, const std::string &w, bool second = false) {
    ctx.site("read"); ctx.step(); int n = 55; modified_julian_day d(1); double sod = -5; int st = r->read_next_epoch(second ? m2 : m, second ? v2 : v, n, d, sod); ctx.note("read -> ", st);
    if (md.cur >= md.l.size()) { if (st >= 0) ctx.fail("end-status", w + mc::fmt(": status %d at the end", st)); return; }
    if (st) ctx.fail("read-status", w + mc::fmt(": epoch %zu, status %d", md.cur, st)); compare(ctx, md.l[md.cur], tys(), second ? req2() : req(), second ? v2 : v, n, d, sod, w); md.cur++;
  }
  void op(int o, Model &md, const std::string &w) {
    switch (o) {
    case 0: read(md, w); break;
    case 1: ctx.site("rewind"); ctx.note("rewind"); ctx.step(); r->rewind(); md.cur = 0; break;
    case 2: { ctx.site("move"); ctx.note("move construction"); ctx.step(); std::unique_ptr<ObservationRnx> n(new ObservationRnx(std::move(*r))); r = std::move(n); break; }
    case 3: { ctx.site("move-assign"); ctx.note("move assignment"); ctx.step(); std::string p = ctx.scratch() + "/other"; if (access(p.c_str(), F_OK)) obs::write(p, text({first('E', "3.01")}) + text(types('E', {"C5Q", "L5Q", "C7Q", "L7Q"})) + END() + "> 2001 01 01 00 00  0.0000000  0  0\n"); std::unique_ptr<ObservationRnx> n(new ObservationRnx(p.c_str())); *n = std::move(*r); r = std::move(n); break; }
    case 4: read(md, w, true); break;
    }
  }
};
static std::string place(mc::Ctx &ctx, const std::string &name, const std::string &t) { std::string p = ctx.scratch() + "/" + name; if (access(p.c_str(), F_OK)) obs::write(p, t); return p; }
MC_SCENARIO(P15, sequences, "all files of 0-2 epochs over 3 kinds with and without final newline x all sequences of 4 (thorough: 0-3 epochs over 4 kinds, 5 operations) out of read, rewind, move construction, move assignment, read with another map; then the rest is read twice with a rewind in between") {
  Model m; int n = ctx.choose(ctx.thorough() ? 4 : 3); std::string name = "s"; static const int K[] = {0, 1, 5, 3}; for (int i = 0; i < n; i++) { int k = ctx.choose(ctx.thorough() ? 4 : 3); name += char('0' + K[k]); m.l.push_back(kind(K[k], i)); } bool nl = ctx.choose(2) == 0; name += nl ? "n" : "e"; Sut s(ctx, place(ctx, name, header() + body(m, nl))); std::string w = name + ": ";
  for (int i = 0; i < (ctx.thorough() ? 5 : 4); i++) { int o = ctx.choose(5); w += mc::fmt("%d ", o); s.op(o, m, w); ctx.state(name + mc::fmt("@%zu %d", m.cur, i)); } size_t left = m.l.size() - m.cur; for (size_t i = 0; i <= left; i++) s.read(m, w + "rest"); s.op(1, m, w); for (size_t i = 0; i <= m.l.size() + 1; i++) s.read(m, w + "again", i % 2); ctx.outcome(mc::fmt("%zu %d", left, nl));
}
MC_SCENARIO(P15, neighbours, "all files of 1-3 (thorough 1-4) epochs over 7 kinds x event records at every place or nowhere x final newline or not: read through, rewound, read again with another map, rewound before every length of a partial reading") {
  Model m; int n = 1 + ctx.choose(ctx.thorough() ? 4 : 3); std::string name = "n"; for (int i = 0; i < n; i++) { int k = ctx.choose(NK); name += char('0' + k); m.l.push_back(kind(k, i)); } int ev = ctx.choose(n + 2) - 1; bool nl = ctx.choose(2) == 0; name += mc::fmt(" event %d%s", ev, nl ? "" : " no newline"); std::string p = ctx.scratch() + "/n"; obs::write(p, header() + body(m, nl, ev)); Sut s(ctx, p);
  for (int i = 0; i <= n; i++) s.read(m, name); s.op(1, m, name); for (int i = 0; i <= n; i++) s.read(m, name + " second", true); for (int part = 0; part <= n; part++) { s.op(1, m, name); for (int i = 0; i < part; i++) s.read(m, name + " third"); } ctx.state(name); ctx.outcome(mc::fmt("%d %d %d", n, ev, nl));
}
MC_SCENARIO(P15, leftovers, "every epoch kind after every other, the result vector filled with 3 kinds of leftovers and errno set: only that epoch's data") {
  int a = ctx.choose(NK), b = ctx.choose(NK), f = ctx.choose(4); Model m; m.l = {kind(a, 0), kind(b, 1)}; std::string p = ctx.scratch() + "/l"; obs::write(p, header() + body(m, true)); Sut s(ctx, p); std::string w = mc::fmt("%d then %d, leftovers %d", a, b, f);
  for (int rep = 0; rep < 3; rep++) { for (int i = 0; i < 2; i++) { for (auto *v : {&s.v, &s.v2}) for (auto &x : *v) { x.first = Satellite(SATELLITE_SYSTEM::irnss, 99); for (auto &y : x.second) y = f == 0 ? NAN : f == 1 ? 1e300 : f == 2 ? RNXOBS_MISSING_VAL : 3; } errno = rep == 1 ? ERANGE : rep == 2 ? EINVAL : 0; s.read(m, w, rep == 1); } s.op(1, m, w); } errno = 0; ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P15, long_file, "files of 1..400 epochs (steps of 21): every epoch once and in order, twice") {
  int n = 1 + 21 * ctx.choose(20); Model m; for (int i = 0; i < n; i++) m.l.push_back(kind((i * 5 + i / 7) % NK, i)); std::string p = ctx.scratch() + "/long"; obs::write(p, header() + body(m, n % 2)); Sut s(ctx, p); for (int k = 0; k < 2; k++) { for (int i = 0; i <= n; i++) s.read(m, "long"); s.op(1, m, ""); } ctx.state(n); ctx.outcome(mc::fmt("%d", n));
}
MC_SCENARIO(P15, cut, "14 files of 3 epochs covering all kinds at every place (thorough: all 343 triples), cut after every byte: all complete epochs, then an end or error status (a line cut short may still give the values that are complete), then the end; a rewind brings the complete epochs back") {
  Model m; int a = ctx.choose(NK), b = ctx.thorough() ? ctx.choose(NK) : (a + 1 + 2 * ctx.choose(2)) % NK, c = ctx.thorough() ? ctx.choose(NK) : (a + b) % NK; m.l = {kind(a, 0), kind(b, 1), kind(c, 2)}; int ev = ctx.choose(2) ? 2 : -1; std::string h = header(), t = body(m, true, ev); size_t end[3]; { size_t q = 0; for (int i = 0; i < 3; i++) { if (i == ev) q += strlen(EVENT); q += m.l[i].str().size(); end[i] = q - 1; } }
  int n = ctx.choose(t.size() + 1); ctx.note(n); std::string p = ctx.scratch() + "/c"; obs::write(p, h + t.substr(0, n)); Sut s(ctx, p); std::string w = mc::fmt("%d %d %d cut at %d", a, b, c, n); size_t full = 0; while (full < 3 && (size_t)n >= end[full]) full++;
  for (int rep = 0; rep < 2; rep++) {
    Model q; q.l.assign(m.l.begin(), m.l.begin() + full); for (size_t i = 0; i < full; i++) s.read(q, w);
    bool ended = false; for (int i = 0; i < 12 && !ended; i++) { ctx.site("after the cut"); ctx.step(); int k = 0; modified_julian_day d(0); double sod = 0; for (auto &x : s.v) for (auto &y : x.second) y = 4711; int st = s.r->read_next_epoch(s.m, s.v, k, d, sod);
      if (st < 0) ended = true;
      else if (st == 0) { // only the epoch that was cut in its last line
        if (full == 3 || i) ctx.fail("invented", w + ": an epoch after the last one"); const Epoch &e = m.l[full]; std::string es = e.str(); size_t start = (full ? end[full - 1] + 1 : 0) + ((int)full == ev ? strlen(EVENT) : 0), last = start + es.rfind('\n', es.size() - 2) + 1; if (!e.s.empty() && (size_t)n < last + (e.s.back().sys == 'R' ? 1 : 3)) ctx.fail("invented", w + ": satellites without a line"); if (e.s.empty()) ctx.fail("invented", w + ": epoch");
        Epoch z = e; Sat &y = z.s.back(); size_t have = n - last; for (size_t j = 0; j < y.c.size(); j++) if (have < 3 + 16 * j + 14) y.c[j] = Cell{}; compare(ctx, z, tys(), req(), s.v, k, d, sod, w + " (last line cut)"); } }
    if (!ended) ctx.fail("no-end", w); s.r->rewind(); }
  ctx.state(w); ctx.outcome(mc::fmt("%zu", full));
}
MC_SCENARIO(P15, damaged, "a file of 3 epochs, every byte replaced by each of 7 characters, or removed: the epochs before are read, then epochs, errors or the end; the end comes, nothing crashes, a rewind brings the first epochs back") {
  Model m; int a = ctx.choose(3); m.l = {kind(1, 0), kind(a == 0 ? 6 : a == 1 ? 2 : 0, 1), kind(5, 2)}; std::string h = header(), t = body(m, true, a == 2 ? 1 : -1); int n = ctx.choose(t.size()), k = ctx.choose(8); if (k < 7) t[n] = " 9G>-\n\0"[k]; else t.erase(n, 1); ctx.note(n, " ", k); std::string p = ctx.scratch() + "/d"; obs::write(p, h + t); Sut s(ctx, p); std::string w = mc::fmt("byte %d kind %d", n, k); size_t e0 = m.l[0].str().size(), full = n < (int)e0 ? 0 : 1;
  for (int rep = 0; rep < 2; rep++) { Model q = m; for (size_t i = 0; i < full; i++) s.read(q, w); bool ended = false; for (int i = 0; i < 40 && !ended; i++) { ctx.site("after the damage"); ctx.step(); int c = 0; modified_julian_day d(0); double sod = 0; int st = s.r->read_next_epoch(s.m, s.v, c, d, sod); ended = st < 0; if (st == 0 && c > 80) ctx.fail("too-many", w); } if (!ended) ctx.fail("no-end", w); s.r->rewind(); } ctx.state(w + mc::fmt(" %d", a)); ctx.outcome(mc::fmt("%d %zu", k, full));
}
MC_SCENARIO(P15, too_many, "epochs of 79-85, 99 and 200 satellites with and without unrequested ones: never more than the result vector holds, and the next epochs or the end are reached") {
  static const int N[] = {79, 80, 81, 82, 85, 99, 200}; int n = N[ctx.choose(7)], every = ctx.choose(3); Epoch e; int wanted = 0; for (int i = 0; i < n; i++) { bool g = every == 0 || i % (every + 1); wanted += g; Sat s{g ? 'G' : 'R', 1 + i % 99, {cell(i + 1)}}; e.s.push_back(s); } Model m; m.l = {kind(0, 0), e, kind(1, 2)}; m.l[1].mi = 1; std::string p = ctx.scratch() + "/t"; obs::write(p, header() + body(m, true)); Sut s(ctx, p); std::string w = mc::fmt("%d satellites, %d wanted", n, wanted);
  for (int rep = 0; rep < 2; rep++) { Model q = m; s.read(q, w); if (wanted <= (int)s.v.size()) { s.read(q, w); s.read(q, w); s.read(q, w); } else { ctx.site("too many"); int c; modified_julian_day d(0); double sod; int st = s.r->read_next_epoch(s.m, s.v, c, d, sod); if (st == 0) ctx.fail("accepted", w); bool ended = false; for (int i = 0; i < 300 && !ended; i++) ended = s.r->read_next_epoch(s.m, s.v, c, d, sod) < 0; if (!ended) ctx.fail("no-end", w); } s.r->rewind(); } ctx.state(w); ctx.outcome(w);
}
/// text put over a place of the second epoch: a time, a count, a satellite or a value that cannot be
MC_SCENARIO(P15, corrupted, "a file of 3 epochs x 4 satellites on 4 dates, with one impossible entry in the second epoch (58 in the epoch line: mark, year, month, day, hour, minute, second, flag, number of satellites, clock offset; 24 in the first and in the last satellite line: system, number, requested value): the first epoch is read, then an error status; whatever is still read is the third epoch, unchanged; the same after a rewind") {
  struct C { int at; const char *s; }; static const int D[][3] = {{2019, 1, 31}, {2020, 2, 29}, {2019, 2, 28}, {2019, 4, 30}};
  static const C E[] = {{0, "*"}, {0, " "}, {0, "G"}, {2, "    "}, {2, "abcd"}, {7, "00"}, {7, "13"}, {7, "99"}, {7, "-1"}, {7, "  "}, {7, "ab"}, {10, "00"}, {10, "32"}, {10, "99"}, {10, "-1"}, {10, "  "}, {10, "xy"}, {7, "02 30"}, {7, "02 31"}, {7, "04 31"}, {7, "06 31"}, {7, "09 31"}, {7, "11 31"}, {2, "2019 02 29"}, {2, "2100 02 29"}, {2, "2021 02 29"}, {13, "24"}, {13, "25"}, {13, "99"}, {13, "-1"}, {13, "  "}, {13, "ab"}, {16, "60"}, {16, "61"}, {16, "99"}, {16, "-1"}, {16, "  "}, {16, "ab"}, {18, " 61.0000000"}, {18, " 99.0000000"}, {18, " -1.0000000"}, {18, "           "}, {18, "abcdefghijk"}, {18, "   .       "}, {18, "          -"}, {31, "7"}, {31, "9"}, {31, " "}, {31, "x"}, {31, "-"}, {31, "/"}, {31, ":"}, {32, "   "}, {32, "abc"}, {32, " -4"}, {32, "  x"}, {41, "abcdefghijklmno"}, {41, "              x"}};
  static const C R[] = {{0, "X"}, {0, " "}, {0, "9"}, {0, "g"}, {0, ">"}, {1, "  "}, {1, "00"}, {1, " 0"}, {1, "-1"}, {1, "ab"}, {1, "x7"}, {3, "abcdefghijklmn"}, {3, "      -.      "}, {3, "             x"}, {3, "**************"}, {3, "  x   5.000   "}, {19, "abcdefghijklmn"}, {19, "      -.      "}, {19, "             x"}, {19, "**************"}, {35, "abcdefghijklmn"}, {35, "      +       "}, {35, "             x"}, {35, "**************"}};
  const int NE = sizeof E / sizeof *E, NR = sizeof R / sizeof *R; const int *d = D[ctx.choose(4)]; Model m; for (int i = 0; i < 3; i++) { Epoch e; e.y = d[0]; e.m = d[1]; e.d = d[2]; e.hh = 23; e.mi = 10 * i + 5; e.sec = " 30.0000000"; e.off = "-0.123456789012"; double b = 1000 * (i + 1); e.s = {{'G', 7, {cell(b), cell(b + 1), cell(b + 2)}}, {'R', 3, {cell(b + 9)}}, {'E', 12, {cell(b + 3), cell(b + 4)}}, {'G', 31, {cell(b + 5), cell(b + 6), cell(b + 7)}}}; m.l.push_back(e); }
  int k = ctx.choose(NE + 2 * NR); std::string t = header(); size_t l = t.size() + m.l[0].str().size(); t += body(m, true); if (k >= NE) for (int i = (k - NE) % 2 ? 4 : 1; i > 0; i--) l = t.find('\n', l) + 1; const C &c = k < NE ? E[k] : R[(k - NE) / 2]; t.replace(l + c.at, strlen(c.s), c.s);
  std::string w = mc::fmt("%d-%d-%d: [", d[0], d[1], d[2]) + t.substr(l, t.find('\n', l) - l) + "]"; ctx.note(w); std::string p = ctx.scratch() + "/k"; obs::write(p, t); Sut s(ctx, p);
  for (int rep = 0; rep < 2; rep++) { m.cur = 0; s.read(m, w); bool end = false, third = false;
    for (int i = 0; i < 20 && !end; i++) { ctx.site("after the damage"); ctx.step(); int n = 0; modified_julian_day md(1); double sod = -5; int st = s.r->read_next_epoch(s.m, s.v, n, md, sod); end = st < 0; if (!i && st <= 0) ctx.fail("accepted", w + mc::fmt(": status %d, %d satellites", st, n)); if (st == 0) { if (third) ctx.fail("invented", w); third = true; compare(ctx, m.l[2], tys(), req(), s.v, n, md, sod, w + " (third epoch)"); } }
    if (!end) ctx.fail("no-end", w); s.r->rewind(); }
  ctx.state(w); ctx.outcome(k < NE ? "epoch line" : "satellite line"); }
MC_SCENARIO(P15, maps_in_place, "a file of 4 epochs of 3 systems read with 6 different requests (systems, columns, coefficients, order), all sequences of 4 (thorough 5): put into one map object changed in place, into two used in turn, or a new one for each reading: every epoch as that request alone gives it, the maps unchanged") {
  const std::vector<Req> R[6] = {req(), req2(), {{'G', {{"C1C", 1}}}}, {{'G', {{"L1C", 1}}}}, {{'G', {{"C1C", -2.5}}}, {'R', {{"C1P", 1}}}}, {{'E', {{"C1X", 1}}}, {'G', {{"L1C", 2}}}}};
  Model m; for (int i = 0; i < 4; i++) { Epoch e = kind(6, i); e.trim = FULL; e.off.clear(); for (auto &s : e.s) for (auto &c : s.c) if (c.missing()) c = cell(7000 + 100 * i + s.prn); e.s.push_back({'E', 30 + i, {cell(31 + i), cell(32.5 + i)}}); e.s.push_back({'G', 20 + i, {cell(11 + i), cell(-12.5 - i), cell(13)}}); m.l.push_back(e); }
  ObservationRnx r(place(ctx, "maps", header() + body(m, true)).c_str()); ReadMap M[2]; std::unique_ptr<ReadMap> fresh; EpochVec v; { InMap a = inmap(req()); ReadMap big = r.set_read_map(a); v = r.initialize_epoch_vector(big); } int how = ctx.choose(3); std::string w = mc::fmt("%d: ", how);
  int n = ctx.thorough() ? 5 : 4; for (int i = 0; i < n; i++) { int q = ctx.choose(6); w += mc::fmt("%d ", q); if (i == 4) { r.rewind(); m.cur = 0; } InMap a = inmap(R[q]); ReadMap want = r.set_read_map(a); if (how == 2) fresh.reset(new ReadMap(want)); ReadMap &use = how == 2 ? *fresh : M[how == 1 ? i % 2 : 0]; use = want;
    ctx.site("read"); ctx.step(); int k = 55; modified_julian_day d(1); double sod = -5; int st = r.read_next_epoch(use, v, k, d, sod); if (st) ctx.fail("read-status", w + mc::fmt(": status %d", st)); compare(ctx, m.l[m.cur], tys(), R[q], v, k, d, sod, w); m.cur++; ctx.check(use == want, "map-changed", w); }
  ctx.state(w); ctx.outcome(mc::fmt("%d", how));
}
