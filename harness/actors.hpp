// The objects of the library and their use, compared with the reference model of each object alone.
#ifndef VERIF_ACTORS_HPP
#define VERIF_ACTORS_HPP
#include "kalmanmodel.hpp"
#include "obsfile.hpp"
#include "navorbit.hpp"
#include "sp3file.hpp"
#include "satfile.hpp"
#include "nvarstr.hpp"
#include <algorithm>
#include <functional>
#include <memory>
/// An object of the library and its use in LEN operations: creation, work, destruction. Every result is compared with the reference model of that object alone.
static int LEN = 5;
struct Actor { mc::Ctx &ctx; int v; std::string w; Actor(mc::Ctx &c, int var, const char *n) : ctx(c), v(var), w(mc::fmt("%s %d", n, var)) {} virtual ~Actor() {} virtual void create() = 0; virtual void use(int k) = 0; virtual void destroy() = 0;
  void step(int i) { ctx.note(w, i == 0 ? ": create" : i == LEN - 1 ? ": destroy" : mc::fmt(": use %d", i)); ctx.site(w.substr(0, w.find(' '))); ctx.step(); if (i == 0) create(); else if (i == LEN - 1) destroy(); else use(i - 1); } };
static std::string file(mc::Ctx &ctx, const std::string &n, const std::string &t) { std::string p = ctx.scratch() + "/" + n; if (access(p.c_str(), F_OK)) obs::write(p, t); return p; }
struct Receiver : Actor { std::unique_ptr<ReceiverAntenna> a; std::string serial; Receiver(mc::Ctx &c, int v) : Actor(c, v, "receiver") {} const char *name() { return v ? "TRM29659.00     SCIT" : "LEIAX1202GG     NONE"; }
  void look() { const char *u = a->__underlying_char__(); ctx.eq(std::string(u, 20), std::string(name()), "receiver-name", w); ctx.eq(atx::trimmed(std::string(u + 20, strnlen(u + 20, 20))), serial, "receiver-serial", w); ctx.eq(a->has_serial(), !serial.empty(), "receiver-has-serial", w); ctx.eq(a->compare_serial(v ? "0220172012" : "08300501"), !serial.empty() && serial != "X", "receiver-compare", w); }
  void create() override { serial = ""; a.reset(new ReceiverAntenna(name())); look(); } void destroy() override { look(); a.reset(); }
  void use(int k) override { look(); if (k % 3 == 0) { serial = v ? "0220172012" : "08300501"; a->set_serial_nr(serial.c_str()); } else if (k % 3 == 1) { std::unique_ptr<ReceiverAntenna> b(new ReceiverAntenna(*a)); ctx.check(b->is_same(*a), "receiver-same", w); b->set_serial_nr("Y"); a.swap(b); a->set_serial_nr("X"); serial = "X"; } else { serial = v ? "0220172012" : "08300501"; a->set_serial_nr(serial.c_str()); } look(); } };
struct Sat : Actor { std::unique_ptr<Satellite> s; Sat(mc::Ctx &c, int v) : Actor(c, v, "satellite") {} void look(int svn, const char *cos) { const Satellite &k = *s; ctx.eq((int)k.system(), (int)(v ? SATELLITE_SYSTEM::galileo : SATELLITE_SYSTEM::gps), "sat-system", w); ctx.eq(k.prn(), v ? 31 : 7, "sat-prn", w); ctx.eq(k.svn(), svn, "sat-svn", w); ctx.eq(std::string(s->cospar()), std::string(cos), "sat-cospar", w); ctx.eq(k.to_string(), std::string(v ? "E31" : "G07"), "sat-text", w); }
  int n = 0; void create() override { s.reset(new Satellite(v ? SATELLITE_SYSTEM::galileo : SATELLITE_SYSTEM::gps, v ? 31 : 7)); n = 0; s->svn() = -1; std::strcpy(s->cospar(), ""); look(-1, ""); } void destroy() override { look(n ? 40 + n + v : -1, n ? (v ? "2016-030B" : "1992-079A") : ""); s.reset(); }
  void use(int k) override { look(n ? 40 + n + v : -1, n ? (v ? "2016-030B" : "1992-079A") : ""); n++; s->svn() = 40 + n + v; std::strcpy(s->cospar(), v ? "2016-030B" : "1992-079A"); s->antenna().set_from_cstr(v ? "GALILEO-2           " : "BLOCK IIR-M         "); ctx.eq(atx::trimmed(s->antenna().to_string()), std::string(v ? "GALILEO-2" : "BLOCK IIR-M"), "sat-antenna", w); if (k % 2) { std::unique_ptr<Satellite> c(new Satellite(*s)); s.swap(c); c->svn() = 1; } look(40 + n + v, v ? "2016-030B" : "1992-079A"); } };
struct Observable : Actor { std::unique_ptr<GnssObservable> o; std::string t; Observable(mc::Ctx &c, int v) : Actor(c, v, "observable") {} void look() { ctx.eq(o->to_string(), t, "observable-text", w); ctx.eq(o->is_of_mixed_satsys(), t.find("R::") != std::string::npos, "observable-mixed", w); }
  void create() override { o.reset(new GnssObservable(v ? SATELLITE_SYSTEM::galileo : SATELLITE_SYSTEM::gps, ObservationCode(v ? "L5Q" : "C1C"), v ? -2.5 : 1.5)); t = v ? "E::L5Q*-2.500000" : "G::C1C*1.500000"; look(); } void destroy() override { look(); o.reset(); }
  void use(int k) override { look(); if (k % 2 == 0) { o->add(GnssRawObservable(v ? SATELLITE_SYSTEM::galileo : SATELLITE_SYSTEM::gps, ObservationCode(v ? "L1X" : "C2W")), 0.25 + k); t += mc::fmt("+%s*%f", v ? "E::L1X" : "G::C2W", 0.25 + k); } else { o->add(GnssRawObservable(SATELLITE_SYSTEM::glonass, ObservationCode(v ? "L1P" : "C2P")), 4.0 + k); t += mc::fmt("+R::%s*%f", v ? "L1P" : "C2P", 4.0 + k); } look(); } };
struct Codes : Actor { std::unique_ptr<ObservationCode> c; int n = 0; Codes(mc::Ctx &x, int v) : Actor(x, v, "code") {} const char *text() { static const char *T[2][3] = {{"C1C", "L2W", "D5I"}, {"S7Q", "C5X", "L1X"}}; return T[v][n % 3]; } void look() { ctx.eq(c->to_string(), std::string(text()), "code-text", w); ctx.eq((int)std::as_const(*c).band(), text()[1] - '0', "code-band", w); GnssObservable r(v ? SATELLITE_SYSTEM::galileo : SATELLITE_SYSTEM::gps, *c, 1.0); double f = r.frequency(), e = ref::freq().at(v ? 'E' : 'G').at(text()[1] - '0'); if (std::fabs(f - e) > 1e-9) ctx.fail("code-frequency", w + mc::fmt(": %f", f)); }
  void create() override { n = 0; c.reset(new ObservationCode(text())); look(); } void destroy() override { look(); c.reset(); } void use(int) override { look(); n++; *c = ObservationCode(text()); look(); } };
struct Filter : Actor { std::unique_ptr<kal::F> f; std::unique_ptr<kal::Ref> r; int t = 0; Filter(mc::Ctx &c, int v) : Actor(c, v, "filter") {} void create() override { const double *x = v ? kal::X1 : kal::X0; f.reset(new kal::F{{x[0], x[1], x[2], x[3], x[4]}}); r.reset(new kal::Ref(x)); t = 0; } void destroy() override { if (r->started) kal::compare(ctx, *f, *r, w.c_str()); f.reset(); }
  void use(int k) override { if (r->started) kal::compare(ctx, *f, *r, w.c_str()); kal::upd(ctx, *f, *r, v ? kal::make(5 + k % 3, 2, 0.5, 2, 2e-4, t++, 1) : kal::make(8 - k % 4, 0, 1, k % 3, -1e-4, t++, 0)); kal::compare(ctx, *f, *r, w.c_str()); } };
/// observation files
struct ObsReader : Actor { std::unique_ptr<ObservationRnx> r; obs::ReadMap m; obs::EpochVec vec; int cur = 0; ObsReader(mc::Ctx &c, int v) : Actor(c, v, "obs") {}
  obs::Types types() { obs::Types t; if (v) t['E'] = {"L5Q", "C5Q"}; t['G'] = v ? std::vector<std::string>{"L2W", "C2W"} : std::vector<std::string>{"C1C", "L1C", "C2W"}; if (!v) t['R'] = {"C1P"}; return t; } std::vector<obs::Req> req() { return v ? std::vector<obs::Req>{{'E', {{"C5Q", 1}}}, {'G', {{"L2W", 2}, {"C2W", -1}}}} : std::vector<obs::Req>{{'G', {{"C2W", 1}}}, {'G', {{"C1C", 1}, {"L1C", 1}}}, {'R', {{"C1P", 1}}}}; }
  obs::Epoch epoch(int i) { using obs::cell; obs::Epoch e; e.d = 1 + v; e.mi = i; double b = 100 * i + 10000 * v; if (v) { e.s = {{'E', 5, {cell(b, '1', '7'), cell(b + 1)}}, {'G', 3, {cell(b + 2), cell(b + 3, ' ', '4')}}}; if (i % 2) e.s.pop_back(); } else { e.s = {{'G', 9 + i, {cell(b), cell(b + .5), obs::Cell{}}}, {'R', 24, {cell(-b - 1)}}, {'G', 1, {cell(b + 7), obs::Cell{}, cell(b + 8)}}}; e.trim = obs::TRIMMED; } return e; }
  std::string path() { std::vector<obs::Line> h{obs::first(), {v ? "NAME1" : "OTHER", "MARKER NAME"}}; for (auto &t : types()) for (auto &l : obs::types(t.first, t.second)) h.push_back(l); std::string t = obs::text(h) + obs::END(); for (int i = 0; i < 4; i++) t += epoch(i).str(); return file(ctx, mc::fmt("obs%d", v), t); }
  void create() override { r.reset(new ObservationRnx(path().c_str())); cur = 0; obs::InMap a = obs::inmap(req()); m = r->set_read_map(a); vec = r->initialize_epoch_vector(m); } void destroy() override { r.reset(); }
  void use(int k) override { if (k == 2) { r->rewind(); cur = 0; } int n = 55; modified_julian_day d(1); double sod = -5; int st = r->read_next_epoch(m, vec, n, d, sod); if (cur >= 4) { if (st >= 0) ctx.fail("obs-end", w); return; } ctx.eq(st, 0, "obs-status", w); obs::compare(ctx, epoch(cur), types(), req(), vec, n, d, sod, w); cur++; } };
/// navigation files and frames
struct NavReader : Actor { std::unique_ptr<NavigationRnx> r; int cur = 0; NavReader(mc::Ctx &c, int v) : Actor(c, v, "nav") {} nav::Blk blk(int i) { static const char *S[] = {"GREG", "CGJR"}; nav::Blk b(S[v][i], 3 + i + 7 * v); b.sod = 60 * i + 900 * v; b.set(0, 1e-4 * (i + 1) + v); return b; }
  std::string path() { std::string t = nav::header(); for (int i = 0; i < 4; i++) t += blk(i).text(); return file(ctx, mc::fmt("nav%d", v), t); } void create() override { r.reset(new NavigationRnx(path().c_str())); cur = 0; } void destroy() override { r.reset(); }
  void use(int k) override { if (k == 3) { r->rewind(); cur = 0; } NavDataFrame f; int st = r->read_next_record(f); if (cur >= 4) { if (st >= 0) ctx.fail("nav-end", w); return; } ctx.eq(st, 0, "nav-status", w); nav::compare(ctx, f, blk(cur), w); cur++; } };
struct Frame : Actor { std::unique_ptr<NavDataFrame> f; nav::Blk b; Frame(mc::Ctx &c, int v) : Actor(c, v, "frame"), b(v ? nav::ephemeris('E', 9, 2100, 302400, 3e-4, -1.9, 2) : nav::ephemeris('G', 5, 2048, 7200, 0.012, 0.7, 1)) {} void create() override { f.reset(new NavDataFrame); ctx.eq(nav::load(ctx.scratch() + mc::fmt("/fr%d", v), b.text(), *f), 0, "frame-read", w); } void destroy() override { nav::compare(ctx, *f, b, w); f.reset(); }
  void use(int k) override { long off = (k - 1) * 1800000L + v * 60000; double x[6], dt; auto t = nav::at<milliseconds>(44244 + 7 * (v ? 2100 : 2048), (v ? 302400000LL : 7200000LL) + off); ctx.eq(f->stateNclock(t, x, dt), 0, "frame-status", w); nav::ld r[3]; nav::position(b, off / 1000.0L, r); for (int i = 0; i < 3; i++) if (!(fabsl(x[i] - r[i]) < 2e-5L)) ctx.fail("frame-position", w); } };
struct Glonass : Actor { std::unique_ptr<NavDataFrame> f; nav::Blk b; Glonass(mc::Ctx &c, int v) : Actor(c, v, "glonass"), b(nav::glonass(1 + v, 58484, 900, 58484, 900, v ? 3 : 0)) {} void create() override { f.reset(new NavDataFrame); ctx.eq(nav::load(ctx.scratch() + mc::fmt("/gl%d", v), b.text(), *f), 0, "glonass-read", w); } void destroy() override { nav::compare(ctx, *f, b, w); f.reset(); }
  void use(int k) override { int s = (k - 1) * 120 + 30 * v; double x[6], dt; ctx.eq(f->stateNclock(nav::at<seconds>(58484, (900 + s) * 1000LL), x, dt), 0, "glonass-status", w); nav::ld y[6] = {b.val(3) * 1e3L, b.val(7) * 1e3L, b.val(11) * 1e3L, b.val(4) * 1e3L, b.val(8) * 1e3L, b.val(12) * 1e3L}, a[3] = {b.val(5) * 1e3L, b.val(9) * 1e3L, b.val(13) * 1e3L}; for (int i = 0; i < std::abs(s); i += 10) nav::gstep(y, a, s < 0 ? -10 : 10); for (int i = 0; i < 6; i++) if (!(fabsl(x[i] - y[i]) < (i < 3 ? 5e-3L : 2e-5L))) ctx.fail("glonass-state", w + mc::fmt(" component %d: %.6f, %.6Lf", i, x[i], y[i])); } };
struct Sp3Reader : Actor { std::unique_ptr<sp3::Sut> s; size_t cur = 0; Sp3Reader(mc::Ctx &c, int v) : Actor(c, v, "sp3") {} sp3::File make() { sp3::File f; f.start.us = v * 3600000000L; if (v) f.ver = 'd'; static const std::pair<char, int> S[2][3] = {{{'G', 1}, {'G', 2}, {'R', 3}}, {{'E', 11}, {'C', 22}, {'G', 32}}}; f.sats.assign(S[v], S[v] + 3 - v); for (int i = 0; i < 3; i++) { sp3::Epoch e; e.t = f.start.plus(i * f.interval); for (size_t j = 0; j < f.sats.size(); j++) e.r.push_back(sp3::rec(f.sats[j].first, f.sats[j].second, 1000 * (i + 1) + 10.5 * j + v, (i * 7 + j * 5 + v) % 16)); if (i == 1) e.r.pop_back(); f.e.push_back(e); } return f; }
  void create() override { s.reset(new sp3::Sut(ctx, file(ctx, mc::fmt("sp3%d", v), make().str()))); cur = 0; } void destroy() override { s.reset(); } void use(int k) override { sp3::File f = make(); if (k == 2) { s->r.rewind(); cur = 0; } if (cur < 3) s->read(f.e[cur], cur == 2, w), cur++; else s->end(w); } };
struct AtxReader : Actor { std::unique_ptr<Antex> a; AtxReader(mc::Ctx &c, int v) : Actor(c, v, "atx") {} atx::File make() { atx::File f; atx::Block r; r.zen2 = 5; r.type = v ? "TRM29659.00     SCIT" : "LEIAX1202GG     NONE"; r.f = {atx::freq('G', 1, 10 + v), atx::freq('G', 2, 20 + v)}; atx::Block s = r; s.serial = v ? "0220172012" : "08300501"; s.f = {atx::freq('R', 1, 30 + v)}; atx::Block q; q.zen2 = 5; q.type = "BLOCK IIA"; q.sys = 'G'; q.prn = 3; q.svn = v ? -1 : 33; q.cospar = v ? "" : "1996-019A"; q.from = {2000 + v, 1, 1, 0}; q.f = {atx::freq('G', 1, 50 + v)}; f.b = {r, q, s}; if (v) std::swap(f.b[0], f.b[1]); return f; }
  void create() override { a.reset(new Antex(file(ctx, mc::fmt("atx%d", v), make().str()).c_str())); } void destroy() override { a.reset(); } void use(int k) override { auto b = make().b; switch (k % 4) { case 0: atx::ask(ctx, *a, b, 'G', 3, atx::T{2000, 6, 6, 6}, 0, w); break; case 1: atx::ask(ctx, *a, b, atx::Query{"LEIAX1202GG     NONE", "08300501", false}, w); break; case 2: atx::ask(ctx, *a, b, atx::Query{"TRM29659.00     SCIT", "77", false}, w); break; default: atx::ask(ctx, *a, b, 'G', 3, atx::T{2002, 6, 6, 6}, 2, w); } } };
struct SatReader : Actor { std::unique_ptr<BernSatellit> b; SatReader(mc::Ctx &c, int v) : Actor(c, v, "satellit") {} bern::File make() { bern::File f; f.h = bern::head(1 + v); f.e = {{101, "MW", "GLONASS", 719, {2005, 12, 25, 0}, {2009, 9, 1, 0}, v ? "   1" : "  -3", "L1 L2"}, {102 + v, "MW", "GLONASS", 728 + v, {2008, 12, 25, 0}, {}, "  -7", ""}}; if (v) std::swap(f.e[0], f.e[1]); return f; } void create() override { b.reset(new BernSatellit(file(ctx, mc::fmt("bern%d", v), make().str()).c_str())); } void destroy() override { b.reset(); } void use(int k) override { auto e = make().e; static const std::pair<int, atx::T> Q[] = {{719, {2006, 1, 1, 0}}, {729, {2010, 1, 1, 0}}, {728, {2010, 1, 1, 0}}, {719, {2010, 1, 1, 0}}}; bern::ask(ctx, *b, e, Q[k % 4].first, Q[k % 4].second, w); } };
struct Fields : Actor { std::unique_ptr<std::string> s; Fields(mc::Ctx &c, int v) : Actor(c, v, "fields") {} void create() override { s.reset(new std::string(v ? "  1.5000D+02 -2.25     " : " -7.0000D-01  3.5E1    ")); } void destroy() override { s.reset(); } void use(int k) override { double d[2] = {9, 9}; std::string l = *s; if (k % 2 == 0) { std::string a = l; for (auto &c : a) if (c == 'D') c = 'E'; bool ok = __char2double__<2, 12>(a.c_str(), d); ctx.check(ok, "fields-status", w); ctx.eq(d[0], v ? 150.0 : -0.7, "fields-value", w); ctx.eq(d[1], v ? -2.25 : 35.0, "fields-value", w); } else { std::size_t p = 0; ctx.eq(ltrim(l.c_str(), p, l.size()), l.substr(v ? 2 : 1), "fields-trim", w); } ctx.check(!string_is_empty(l.c_str(), l.size()), "fields-empty", w); } };
static const int NK = 13;
static Actor *actor(mc::Ctx &c, int k, int v) { switch (k) { case 0: return new Receiver(c, v); case 1: return new Sat(c, v); case 2: return new Observable(c, v); case 3: return new Codes(c, v); case 4: return new Filter(c, v); case 5: return new ObsReader(c, v); case 6: return new NavReader(c, v); case 7: return new Frame(c, v); case 8: return new Glonass(c, v); case 9: return new Sp3Reader(c, v); case 10: return new AtxReader(c, v); case 11: return new SatReader(c, v); default: return new Fields(c, v); } }
#endif
