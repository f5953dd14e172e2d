// MC-PROPERTIES: P29
#include "actors.hpp"
static void interleave(mc::Ctx &ctx, std::vector<std::unique_ptr<Actor>> &a) { std::vector<int> at(a.size(), 0); for (;;) { std::vector<int> can; for (size_t i = 0; i < a.size(); i++) if (at[i] < LEN) can.push_back(i); if (can.empty()) break; int i = can[can.size() > 1 ? ctx.choose(can.size()) : 0]; a[i]->step(at[i]++); std::string s = "s"; for (size_t k = 0; k < a.size(); k++) s += a[k]->w + mc::fmt("@%d ", at[k]); ctx.state(s); } ctx.outcome(a[0]->w + a[1]->w); }
MC_SCENARIO(P29, same_class, "two objects of each of 13 classes or readers (of the same or of different content or file): all interleavings of creation, 4 (thorough 5) uses and destruction") { LEN = ctx.thorough() ? 7 : 6; int k = ctx.choose(NK), v = ctx.choose(2); std::vector<std::unique_ptr<Actor>> a; a.emplace_back(actor(ctx, k, 0)); a.emplace_back(actor(ctx, k, v)); interleave(ctx, a); }
MC_SCENARIO(P29, two_classes, "one object each of every two of 13 classes or readers: all interleavings of creation, 2 (thorough 4) uses and destruction") { LEN = ctx.thorough() ? 6 : 4; int i = ctx.choose(NK), j = ctx.choose(NK); if (j <= i) return; std::vector<std::unique_ptr<Actor>> a; a.emplace_back(actor(ctx, i, 0)); a.emplace_back(actor(ctx, j, 1)); interleave(ctx, a); }
MC_SCENARIO(P29, three_objects, "three objects of each class (two of the same content): all interleavings of creation, use (thorough: 2 uses) and destruction") { LEN = ctx.thorough() ? 4 : 3; int k = ctx.choose(NK); std::vector<std::unique_ptr<Actor>> a; a.emplace_back(actor(ctx, k, 0)); a.emplace_back(actor(ctx, k, 1)); a.emplace_back(actor(ctx, k, 0)); interleave(ctx, a); }
MC_SCENARIO(P29, one_after_another, "every ordered pair (thorough: triple) of classes: complete use of one, then of the other, then of the first again, also after an old errno") { LEN = 7; int i = ctx.choose(NK), j = ctx.choose(NK), k = ctx.thorough() ? ctx.choose(NK) : i, e = ctx.choose(3); int n = 0; for (int x : {i, j, k}) { std::unique_ptr<Actor> a(actor(ctx, x, n++ % 2)); for (int s = 0; s < LEN; s++) { errno = e == 1 ? ERANGE : e == 2 ? EINVAL : errno; a->step(s); } } errno = 0; ctx.state(mc::fmt("%d %d %d %d", i, j, k, e)); ctx.outcome(mc::fmt("%d %d", i, j)); }
/// the last record read by one reader, then the first of another that lacks something: nothing may be handed over
MC_SCENARIO(P29, handover_obs, "one reader reads one field (value present or blank x 11 loss-of-lock digits x 11 strength digits), then another reads one with each kind of gap (blank, flags only, value only, value with flags; line cut or full), then the first reads on") {
  using namespace obs; static const char F[] = " 0123456789"; int a = ctx.choose(2), l = ctx.choose(11), s = ctx.choose(11), b = ctx.choose(5), tr = ctx.choose(2); if (a && l + s == 0) return; Types ty; ty['G'] = {"C1C", "L1C", "C2W"}; std::vector<Req> rq{{'G', {{"C1C", 1}}}, {'G', {{"L1C", 1}}}, {'G', {{"C2W", 1}}}};
  Epoch e; e.trim = tr ? TRIMMED : FULL; auto field = [&](int k, double v) { static const char *L = " 4 37", *S = "  956"; (void)L; obs::Cell c = cell(v); if (k == 0 || k == 1) c.v = ""; c.lli = L[k]; c.ssi = S[k]; return c; };
  e.s = {{'G', 1, {cell(11.5), obs::Cell{}, obs::Cell{a ? "" : "        20.250", F[l], F[s]}}}}; Epoch e2 = e; e2.mi = 1; e2.s[0].c = {field(b, 77.5), obs::Cell{}, cell(3)}; Epoch g = e; g.s = {{'G', 2, {field(b, 7.5), b % 2 ? obs::Cell{} : obs::Cell{"", '4', '4'}, cell(5)}}}; Epoch g2 = g; g2.mi = 1; g2.s[0].c = {obs::Cell{}, obs::Cell{}, cell(9)};
  auto head = [&] { std::vector<Line> h{first()}; for (auto &x : obs::types('G', ty['G'])) h.push_back(x); return obs::text(h) + END(); }; std::string p = ctx.scratch() + "/h1", q = ctx.scratch() + "/h2"; obs::write(p, head() + e.str() + e2.str()); obs::write(q, head() + g.str() + g2.str());
  ObservationRnx r(p.c_str()), t(q.c_str()); InMap im = inmap(rq), im2 = im; ReadMap m = r.set_read_map(im), m2 = t.set_read_map(im2); EpochVec v = r.initialize_epoch_vector(m), u = t.initialize_epoch_vector(m2);
  auto read = [&](ObservationRnx &x, ReadMap &mm, EpochVec &vv, const Epoch &want, const char *w) { int n = 9; modified_julian_day d(1); double sod = -1; ctx.site(w); ctx.step(); ctx.eq(x.read_next_epoch(mm, vv, n, d, sod), 0, "obs-status", w); obs::compare(ctx, want, ty, rq, vv, n, d, sod, w); };
  read(r, m, v, e, "first"); read(t, m2, u, g, "second"); read(r, m, v, e2, "first again"); read(t, m2, u, g2, "second again"); ctx.state(e.str() + g.str()); ctx.outcome(mc::fmt("%d %d", a, b)); }
MC_SCENARIO(P29, handover_sp3, "one reader reads a record (each of 16 flag sets x present, zero or absent clock x short or full line x maximal width), then another one (each again), then the first reads on") {
  auto make = [&](int f, int k, int v) { sp3::File x; x.sats = {{'G', 1}, {'R', 2}}; for (int i = 0; i < 2; i++) { sp3::Epoch e; e.t = x.start.plus(i * x.interval); sp3::Rec a = sp3::rec('G', 1, 1000 + v, i ? 0 : f), b = sp3::rec('R', 2, 2000 + v, i ? 15 - f : f); if (k == 1) b.c = "999999.999999"; if (k == 2) a.x = a.y = a.z = "0.000000"; if (k == 3) a.tail = b.tail = ""; if (k == 4) b.x = "-23456.789012", b.c = "-123456.789012"; e.r = {a, b}; e.trim = k % 2; x.e.push_back(e); } return x; };
  sp3::File a = make(ctx.choose(16), ctx.choose(5), 0), b = make(ctx.choose(16), ctx.choose(5), 50); std::string p = ctx.scratch() + "/s1", q = ctx.scratch() + "/s2"; sp3::write(p, a.str()); sp3::write(q, b.str()); sp3::Sut r(ctx, p), t(ctx, q); r.read(a.e[0], false, "first"); t.read(b.e[0], false, "second"); r.read(a.e[1], true, "first again"); t.read(b.e[1], true, "second again"); ctx.state(a.str() + b.str()); ctx.outcome(a.e[0].str() + b.e[0].str()); }
MC_SCENARIO(P29, handover_nav, "one reader reads a block of each system (spare fields written or blank), then another one of each system and kind, then both read on") {
  auto make = [&](char s, int cut, int v) { nav::Blk b(s, 3 + v); b.sod = 0; b.set(0, 1e-4 + v); b.blank_spare = cut; return b; }; static const char S[] = "GREJC"; char s1 = S[ctx.choose(5)], s2 = S[ctx.choose(5)]; int c1 = ctx.choose(2), c2 = ctx.choose(2); if (s1 == 'R') c1 = 0; if (s2 == 'R') c2 = 0;
  std::vector<nav::Blk> A{make(s1, c1, 0), make(s2, c2, 1)}, B{make(s2, c2, 2), make(s1, c1, 3)}; for (auto *x : {&A, &B}) (*x)[1].sod = 7200; std::string p = ctx.scratch() + "/n1", q = ctx.scratch() + "/n2"; nav::write(p, nav::header() + A[0].text() + A[1].text()); nav::write(q, nav::header() + B[0].text() + B[1].text()); NavigationRnx r(p.c_str()), t(q.c_str()); NavDataFrame f, g;
  for (int i = 0; i < 2; i++) { ctx.step(2); ctx.eq(r.read_next_record(f), 0, "nav-status", "first"); ctx.eq(t.read_next_record(g), 0, "nav-status", "second"); nav::compare(ctx, f, A[i], "first"); nav::compare(ctx, g, B[i], "second"); } ctx.state(A[0].text() + B[0].text()); ctx.outcome(mc::fmt("%c%c%d%d", s1, s2, c1, c2)); }
MC_SCENARIO(P29, handover_atx, "two files of 2 blocks each out of 5 (receiver generic, with serial, satellite with and without SVN and COSPAR, with an end): every pair of 4 questions to the first and 4 to the second, alternating, 3 turns") {
  auto blk = [&](int k, int v) { atx::Block b; b.zen2 = 5; if (k < 2) { b.type = "LEIAX1202GG     NONE"; if (k) b.serial = "08300501"; } else { b.type = k == 4 ? "BLOCK IIF" : "BLOCK IIA"; b.sys = 'G'; b.prn = 3; b.svn = k == 3 ? -1 : 33 + v; if (k != 3) b.cospar = "1996-019A"; b.from = {2000, 1, 1, 0}; if (k == 4) b.until = {2003, 1, 1, 0}; } b.f = {atx::freq('G', 1, 10 * k + v), atx::freq('G', 2, 5 * k + v)}; if (k % 2) b.f.pop_back(); return b; };
  atx::File f[2]; for (int i = 0; i < 2; i++) { int a = ctx.choose(5), b = ctx.choose(4); if (b >= a) b++; f[i].b = {blk(a, i), blk(b, i)}; } int q[2] = {ctx.choose(4), ctx.choose(4)}; std::string p[2]; std::unique_ptr<Antex> x[2]; for (int i = 0; i < 2; i++) { p[i] = ctx.scratch() + mc::fmt("/x%d", i); atx::write(p[i], f[i].str()); x[i].reset(new Antex(p[i].c_str())); }
  for (int t = 0; t < 3; t++) for (int i = 0; i < 2; i++) switch ((q[i] + t * (i + 1)) % 4) { case 0: atx::ask(ctx, *x[i], f[i].b, 'G', 3, atx::T{2001, 1, 1, 0}, 0, mc::fmt("%d", i)); break; case 1: atx::ask(ctx, *x[i], f[i].b, 'G', 3, atx::T{2004, 1, 1, 0}, 2, mc::fmt("%d", i)); break; case 2: atx::ask(ctx, *x[i], f[i].b, atx::Query{"LEIAX1202GG     NONE", "08300501", false}, mc::fmt("%d", i)); break; default: atx::ask(ctx, *x[i], f[i].b, atx::Query{"LEIAX1202GG     NONE", "", false}, mc::fmt("%d", i)); }
  ctx.state(f[0].str() + f[1].str()); ctx.outcome(mc::fmt("%d %d", q[0], q[1])); }
/// one value of each class and one question about it; the expected answer comes from the text of the properties alone
struct Question { std::string name; std::function<std::string()> ask; std::string want; };
static const std::vector<Question> &questions() {
  static const std::vector<Question> Q = [] { std::vector<Question> q; auto add = [&](std::string n, std::function<std::string()> a, std::string w) { q.push_back({std::move(n), std::move(a), std::move(w)}); };
    static const SATELLITE_SYSTEM SV[] = {SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou}; static const char SC[] = "GREC";
    struct K { int prn, svn; const char *cos; }; static const K KS[] = {{7, 34, "1993-068A"}, {7, 5, "1990-103A"}, {7, 200, ""}, {31, 34, "1993-068A"}, {31, 751, "2014-012A"}};
    for (int s = 0; s < 4; s++) for (auto &k : KS) { auto kept = std::make_shared<Satellite>(SV[s], k.prn); kept->svn() = k.svn; std::strcpy(kept->cospar(), k.cos); std::string c = mc::fmt("%c%02d", SC[s], k.prn), f = c + mc::fmt("-%03d/", k.svn) + k.cos; add("satellite text " + f, [kept] { return kept->to_string(false); }, f); if (k.svn == 34) { add("new satellite text " + f, [s, k] { Satellite x(SV[s], k.prn); x.svn() = k.svn; std::strcpy(x.cospar(), k.cos); return x.to_string(false); }, f); add("compact " + c, [s, k] { return Satellite(SV[s], k.prn).to_string(); }, c); } }
    static const char *CODES[] = {"C1C", "C1W", "L1C", "C2C", "C5Q", "S7I"}; for (auto c : CODES) { auto kept = std::make_shared<ObservationCode>(c); add(std::string("code ") + c, [kept] { return kept->to_string(); }, c); add(std::string("new code ") + c, [c] { return ObservationCode(c).to_string(); }, c); }
    struct T { int s; const char *c; double k; }; static const std::vector<T> TS[] = {{{0, "C1C", 1}}, {{0, "C1C", 2.5}}, {{0, "C1W", 1}}, {{2, "C1C", 1}}, {{3, "C2I", 1}}, {{0, "C2W", 1}}, {{0, "C1C", 2.5}, {0, "C2W", -1.5}}, {{0, "C2W", -1.5}, {0, "C1C", 2.5}}, {{0, "C1C", 2.5}, {1, "C1C", 1}}, {{2, "C1C", 1}, {2, "C7I", 1}}, {{3, "C7I", 1}}};
    auto build = [](const std::vector<T> &t) { GnssObservable o(SV[t[0].s], ObservationCode(t[0].c), t[0].k); for (size_t i = 1; i < t.size(); i++) o.add(GnssRawObservable(SV[t[i].s], ObservationCode(t[i].c)), t[i].k); return o; };
    for (auto &t : TS) { auto kept = std::make_shared<GnssObservable>(build(t)); std::string w; double f = 0; bool mix = false; for (auto &x : t) { w += mc::fmt("%s%c::%s*%f", w.empty() ? "" : "+", SC[x.s], x.c, x.k); if (x.s != 1) f += x.k * ref::freq().at(SC[x.s]).at(x.c[1] - '0'); mix |= x.s != t[0].s; }
      add("observable " + w, [kept] { return kept->to_string(); }, w); add("frequency " + w, [kept] { return mc::fmt("%.6f", kept->frequency()); }, mc::fmt("%.6f", f)); add("new frequency " + w, [t, build] { return mc::fmt("%.6f", build(t).frequency()); }, mc::fmt("%.6f", f)); add("mixed " + w, [kept] { return std::string(kept->is_of_mixed_satsys() ? "mixed" : "one"); }, mix ? "mixed" : "one");
      if (t.size() == 2) for (auto &o : TS) if (o.size() == 2) { bool same = (&t == &TS[6] || &t == &TS[7]) && (&o == &TS[6] || &o == &TS[7]); same |= &t == &o; add("equal " + w, [kept, o, build] { return std::string(*kept == build(o) ? "same" : "other"); }, same ? "same" : "other"); } }
    struct A { const char *n, *s; }; static const A AS[] = {{"LEIAX1202GG     NONE", ""}, {"LEIAX1202GG     NONE", "08300501"}, {"LEIAX1202GG     LEIT", "08300501"}, {"TRM29659.00     SCIT", "08300501"}, {"TRM29659.00", "7"}};
    auto ant = [](const A &a) { ReceiverAntenna r(a.n); r.set_serial_nr(a.s); return r; };
    for (auto &a : AS) { auto kept = std::make_shared<ReceiverAntenna>(ant(a)); std::string n = std::string(a.n).size() < 20 ? "TRM29659.00     NONE" : a.n, w = n + " " + a.s; add("antenna " + w, [kept] { const char *u = kept->__underlying_char__(); return std::string(u, 20) + atx::trimmed(std::string(u + 20, strnlen(u + 20, 20))); }, n + a.s); add("serial of " + w, [kept] { return mc::fmt("%d%d%d", kept->has_serial(), kept->compare_serial("08300501"), kept->compare_serial("7")); }, mc::fmt("%d%d%d", *a.s != 0, std::string(a.s) == "08300501", std::string(a.s) == "7"));
      for (auto &b : AS) { bool same = &a == &b && *a.s, model = std::string(a.n) == b.n; add("antenna " + w + " and " + b.n + " " + b.s, [kept, b, ant] { ReceiverAntenna r = ant(b); return mc::fmt("%d%d", kept->is_same(r), kept->compare_model(r)); }, mc::fmt("%d%d", same, model)); } }
    static const char *SA[] = {"BLOCK IIA", "BLOCK IIF", "GALILEO-2", ""}; for (auto a : SA) { auto kept = std::make_shared<SatelliteAntenna>(a); add(std::string("satellite antenna ") + a, [kept] { return kept->to_string(); }, a); for (auto b : SA) add(std::string("satellite antenna ") + a + " and " + b, [kept, b] { return std::string(kept->is_same(b) ? "same" : "other"); }, a == b ? "same" : "other"); }
    for (int i = 0; i < 8; i++) { add(mc::fmt("letter %c", ref::SYS[i]), [i] { return std::string(1, satsys_to_char(char_to_satsys(ref::SYS[i]))); }, std::string(1, ref::SYS[i])); } add("letter X", [] { try { char_to_satsys('X'); return std::string("known"); } catch (const std::exception &) { return std::string("refused"); } }, "refused");
    static const char *ST[] = {"ABC   ", "  ABC", "A", "   "}; for (auto t : ST) { std::string r = atx::trimmed(t); std::string l = t; l.erase(0, std::min(l.size(), l.find_first_not_of(' '))); add(std::string("rtrim ") + t, [t] { size_t n = 77; std::string s = rtrim<str_algorithm_details::StrSearchPolicyEnd>(t, n); return s; }, r); add(std::string("ltrim ") + t, [t] { size_t n = 77; return ltrim(t, n); }, l); }
    static const char *FT[] = {" 1.0000D+00", "-2.5000D-01", " 0.0000D+00"}; static const double FV[] = {1, -0.25, 0}; (void)FV; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { std::string t = std::string(FT[i]) + FT[j]; std::replace(t.begin(), t.end(), 'D', 'E'); add("fields " + t, [t] { double d[2] = {9, 9}; bool ok = __char2double__<2, 11>(t.c_str(), d); return mc::fmt("%d %f %f", ok, d[0] + 0.0, d[1] + 0.0); }, mc::fmt("1 %f %f", FV[i], FV[j])); }
    return q; }();
  return Q; }
static void ask(mc::Ctx &ctx, const Question &q) { ctx.note(q.name); ctx.site("question"); ctx.step(); ctx.eq(q.ask(), q.want, "answer", q.name); }
MC_SCENARIO(P29, questions, "every ordered pair (thorough: triple) out of 189 questions about values that differ in only one part (satellites, codes, observables, antennas, letters, strings), asked of objects built before or just now: first, second, first again; every answer as if asked alone") {
  auto &q = questions(); int n = q.size(), i = ctx.choose(n); for (int j = 0; j < n; j++) { ask(ctx, q[i]); ask(ctx, q[j]); ask(ctx, q[i]); if (ctx.thorough()) for (int k = 0; k < n; k++) { ask(ctx, q[k]); ask(ctx, q[i]); ask(ctx, q[j]); } } ctx.state(q[i].name); ctx.outcome(q[i].want); }
