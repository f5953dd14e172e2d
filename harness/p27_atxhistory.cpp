// MC-PROPERTIES: P27
#include "atxfile.hpp"
using namespace atx;
static File base(int kind) {
  File f; Block r; r.zen2 = 5; r.type = "LEIAX1202GG     SCIT"; r.f = {freq('G', 1, 10.25), freq('G', 2, 20.25, true)}; Block s = r; s.serial = "08300501"; s.f = {freq('G', 1, 30.25)}; Block u = r; u.type = "TRM29659.00"; u.f.push_back(freq('R', 1, 40.25));
  Block a; a.zen2 = 5; a.type = "BLOCK IIA"; a.sys = 'G'; a.prn = 3; a.svn = 33; a.cospar = "1996-019A"; a.from = {1996, 3, 28, 0}; a.until = {2014, 10, 28, 86399}; a.f = {freq('G', 1, 50.25), freq('G', 2, 51.25)}; Block b = a; b.type = "BLOCK IIF"; b.svn = -1; b.cospar = ""; b.from = {2014, 10, 29, 0}; b.until = {}; b.f.resize(1); b.f[0] = freq('G', 1, 60.25); b.extra = 2;
  switch (kind) { case 0: f.b = {r, s, a, b}; break; case 1: f.b = {b, s, r, a}; f.head = header('M', "1.4", 7); break; case 2: f.b = {a, u, b, s}; break; case 3: f.b = {s, r}; break; default: f.b = {u, a}; } return f;
}
struct Ask { int how; Query q; int prn; T t; };
static const std::vector<Ask> &asks() {
  static const std::vector<Ask> a = {{-1, {"LEIAX1202GG     SCIT", "", false}, 0, {}}, {-1, {"LEIAX1202GG     SCIT", "08300501", true}, 0, {}}, {-1, {"LEIAX1202GG     SCIT", "7", true}, 0, {}}, {-1, {"LEIAX1202GG     SCIT", "08300501", false}, 0, {}}, {-1, {"LEIAX1202GG", "", false}, 0, {}}, {-1, {"TRM29659.00", "9", false}, 0, {}}, {0, {}, 3, {2014, 10, 28, 86399}}, {1, {}, 3, {2014, 10, 29, 0}}, {2, {}, 3, {2020, 1, 1, 0}}, {0, {}, 3, {1996, 3, 27, 86399}}, {2, {}, 4, {2010, 1, 1, 0}}};
  return a;
}
static void ask(mc::Ctx &ctx, Antex &r, const std::vector<Block> &b, const Ask &a, const std::string &w) { if (a.how < 0) atx::ask(ctx, r, b, a.q, w); else atx::ask(ctx, r, b, 'G', a.prn, a.t, a.how, w); }
MC_SCENARIO(P27, histories, "5 files x all sequences of 3 (thorough 4) out of 15 operations: 11 lookups (found or not, by model, serial, satellite, epoch; offsets or information), reader reset to the same or another file, moved, moved by assignment; then all lookups") {
  int k = ctx.choose(5), depth = ctx.thorough() ? 4 : 3; File f = base(k), g = base((k + 2) % 5); std::string p = ctx.scratch() + mc::fmt("/h%d", k), q = ctx.scratch() + mc::fmt("/h%d", (k + 2) % 5); for (auto x : {std::make_pair(&p, &f), std::make_pair(&q, &g)}) if (access(x.first->c_str(), F_OK)) { std::string t = x.second->str(); if (k % 2) t.pop_back(); atx::write(*x.first, t); } std::unique_ptr<Antex> a(new Antex(p.c_str())); const File *cur = &f; std::string w = mc::fmt("%d: ", k);
  for (int i = 0; i < depth; i++) { int o = ctx.choose(15); w += mc::fmt("%x", o); ctx.note("operation ", o); ctx.step(); ctx.site("operation"); if (o < 11) ask(ctx, *a, cur->b, asks()[o], w); else if (o == 11) { const std::string &n = cur == &f ? p : q; a->reset_to_file(n.c_str()); } else if (o == 12) { cur = cur == &f ? &g : &f; a->reset_to_file((cur == &f ? p : q).c_str()); } else if (o == 13) { std::unique_ptr<Antex> b(new Antex(std::move(*a))); a = std::move(b); } else { std::unique_ptr<Antex> b(new Antex(q.c_str())); ask(ctx, *b, g.b, asks()[i], w); *b = std::move(*a); a = std::move(b); } ctx.state(w); }
  ctx.eq(a->filename(), cur == &f ? p : q, "filename", w); for (auto &x : asks()) ask(ctx, *a, cur->b, x, w + " then"); ctx.outcome(mc::fmt("%d %d", k, cur == &f));
}
MC_SCENARIO(P27, empty_reader, "readers without a file, after a refused or missing file, and after a further good file: every lookup of a reader without file is refused; afterwards all lookups are answered") {
  int k = ctx.choose(4), n = ctx.choose(asks().size()); std::string p = ctx.scratch() + "/e", bad = ctx.scratch() + "/bad"; File f = base(0); atx::write(p, f.str()); atx::write(bad, k == 2 ? "" : "     1.4            X\n"); std::unique_ptr<Antex> a(k == 3 ? new Antex(p.c_str()) : new Antex()); if (k) { bool thrown = false; ctx.site("reset"); try { a->reset_to_file(k == 1 ? "/nonexistent/file" : bad.c_str()); } catch (std::runtime_error &) { thrown = true; } ctx.eq(thrown, true, "accepted", mc::fmt("%d", k)); }
  const Ask &x = asks()[n]; AntennaPcoList l = stale(); ctx.site("lookup"); int st; Satellite sv; datetime<seconds> t = T{2010, 1, 1, 0}.dt(); if (x.how < 0) st = a->get_antenna_pco(x.q.make(), l, x.q.must); else st = a->get_antenna_pco(x.prn, SATELLITE_SYSTEM::gps, t, l, &sv); ctx.step(); if (st <= 0) ctx.fail("found", mc::fmt("kind %d lookup %d: status %d", k, n, st)); a->reset_to_file(p.c_str()); for (auto &y : asks()) ask(ctx, *a, f.b, y, "after"); ctx.state(mc::fmt("%d %d", k, n)); ctx.outcome(mc::fmt("%d", st));
}
/// answers as text
static std::string answer(mc::Ctx &ctx, Antex &r, const Ask &a, int &st, AntennaPcoList &l) {
  l = stale(); Satellite sv; ctx.step(); ctx.site("lookup"); datetime<seconds> t = a.how < 0 ? datetime<seconds>() : a.t.dt(); if (a.how < 0) st = r.get_antenna_pco(a.q.make(), l, a.q.must); else if (a.how == 2) st = r.get_satellite_info(a.prn, SATELLITE_SYSTEM::gps, t, sv); else st = r.get_antenna_pco(a.prn, SATELLITE_SYSTEM::gps, t, l, a.how == 0 ? &sv : nullptr); const Satellite &c = sv; return mc::fmt("%d ", st) + (a.how != 2 ? show(l) : "") + (st == 0 && a.how % 2 == 0 ? mc::fmt("%c%d %d ", satsys_to_char(c.system()), c.prn(), c.svn()) + sv.cospar() + std::string(sv.antenna().__underlying_char__()) : "");
}
static bool allowed(const Block &b, const Ask &a) { if (a.how < 0) return matches(b, a.q, true) || (!a.q.must && matches(b, a.q, false)); return b.sat() && b.sys == 'G' && b.prn == a.prn && b.valid(a.t); }
MC_SCENARIO(P27, cut, "3 files cut after every byte: refused while the header is incomplete; then every lookup gives the complete offsets of a block that fits, or an error; cut between blocks: the answers of the shorter file; the same answers in any order (forwards, backwards, twice)") {
  int k = ctx.choose(3); File f = base(k); std::string t = f.str(); int n = ctx.choose(t.size() + 1); std::string p = ctx.scratch() + "/c", w = mc::fmt("file %d, %d of %zu bytes", k, n, t.size()); ctx.note(w); atx::write(p, t.substr(0, n)); std::unique_ptr<Antex> a; ctx.site("open"); try { a.reset(new Antex(p.c_str())); } catch (std::runtime_error &) {} int h = f.head.size(); if (!a) { if (n >= h) ctx.fail("refused", w); ctx.state(w); ctx.outcome("refused"); return; } if (n < h - 1) ctx.fail("accepted", w);
  int q = h; size_t whole = 0; bool edge = n >= h - 1 && n <= h; for (auto &b : f.b) { q += b.str().size(); if (n >= q - 1) whole++; if (n == q || n == q - 1) edge = true; } std::vector<Block> sub(f.b.begin(), f.b.begin() + whole); std::vector<std::string> got; int ok = 0;
  for (auto &x : asks()) { if (edge) { ask(ctx, *a, sub, x, w); } int st; AntennaPcoList l; got.push_back(answer(ctx, *a, x, st, l)); if (st == 0) { ok++; bool good = false; for (auto &b : f.b) good |= allowed(b, x) && (x.how == 2 || show(l) == show(b)); if (!good) ctx.fail("answer", w + mc::fmt(", lookup %zu: ", got.size()) + show(l)); } else if (st < 0) ctx.fail("status", w + mc::fmt(": %d", st)); }
  for (int i = (int)asks().size() - 1; i >= 0; i--) { int st; AntennaPcoList l; std::string g = answer(ctx, *a, asks()[i], st, l); if (g != got[i]) ctx.fail("history", w + mc::fmt(", lookup %d: ", i) + g + ", before " + got[i]); } ctx.state(w); ctx.outcome(mc::fmt("%d", ok));
}
MC_SCENARIO(P27, damaged, "a file (thorough: 3) with every byte replaced by each of 7 (quick: 2 or 3 of them) characters or removed, every line removed or doubled: refused or every lookup gives an answer or an error, the same in any order; nothing crashes or hangs; blocks before the damage are found") {
  int k = ctx.thorough() ? ctx.choose(3) : 0; File f = base(k); std::string t = f.str(); int n = ctx.choose(t.size()), d = ctx.choose(10); if (d < 7) { if (!ctx.thorough() && d % 3 != n % 3) return; char c = " 9G-\n\0E"[d]; if (t[n] == c) return; t[n] = c; } else if (d == 7) t.erase(n, 1); else { size_t a = n ? t.rfind('\n', n - 1) : std::string::npos; a = a == std::string::npos ? 0 : a + 1; if ((size_t)n != a) return; size_t b = t.find('\n', a) + 1; std::string l = t.substr(a, b - a); if (d == 8) t.erase(a, b - a); else t.insert(b, l); } std::string p = ctx.scratch() + "/d", w = mc::fmt("file %d, byte %d kind %d", k, n, d); ctx.note(w); atx::write(p, t);
  std::unique_ptr<Antex> a; ctx.site("open"); try { a.reset(new Antex(p.c_str())); } catch (std::runtime_error &) {} int q = f.head.size(); if (!a) { if (n >= q) ctx.fail("refused", w); ctx.state(w); ctx.outcome("refused"); return; } size_t whole = 0; if (n >= q) for (auto &b : f.b) { q += b.str().size(); if (n >= q) whole++; else break; }
  std::vector<std::string> got; for (auto &x : asks()) { int st; AntennaPcoList l; got.push_back(answer(ctx, *a, x, st, l)); for (size_t i = 0; i < whole; i++) if (x.how < 0 ? matches(f.b[i], x.q, true) : allowed(f.b[i], x)) { if (st) ctx.fail("lost", w + mc::fmt(", lookup %zu: status %d", got.size(), st)); if (x.how != 2 && show(l) != show(f.b[i])) ctx.fail("answer", w + mc::fmt(", lookup %zu: ", got.size()) + show(l)); break; } if (st < 0) ctx.fail("status", w + mc::fmt(": %d", st)); }
  for (int i = (int)asks().size() - 1; i >= 0; i--) { int st; AntennaPcoList l; std::string g = answer(ctx, *a, asks()[i], st, l); if (g != got[i]) ctx.fail("history", w + mc::fmt(", lookup %d: ", i) + g + ", before " + got[i]); } ctx.state(w); ctx.outcome(mc::fmt("%d", (int)whole));
}
