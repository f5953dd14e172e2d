// MC-PROPERTIES: P31
#include "obsmodel.hpp"
#include "antenna_pcv.hpp"
#include <memory>
struct Off { int sys; std::string code; double v[3]; bool operator==(const Off &o) const { return sys == o.sys && code == o.code && v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
  std::string show() const { return mc::fmt("%c[%s] %.17g, %.17g, %.17g", ref::SYS[sys], code.c_str(), v[0], v[1], v[2]); } };
/// read an entry through its printed form, all digits asked for
static Off look(mc::Ctx &ctx, const AntennaPco &p, const std::string &w) {
  std::ostringstream o; o.precision(17); p.dummy_print(o); std::string s = o.str(); Off r{-1, "", {0, 0, 0}}; char sy, code[8] = {0};
  if (std::sscanf(s.c_str(), "%c[%3[^]]] %lf, %lf, %lf", &sy, code, &r.v[0], &r.v[1], &r.v[2]) != 5) ctx.fail("printed", w + ": [" + s + "]");
  const char *q = std::strchr(ref::SYS, sy); r.sys = q ? q - ref::SYS : -1; r.code = code; return r;
}
static void same(mc::Ctx &ctx, const AntennaPco &p, const Off &m, const std::string &w) { Off g = look(ctx, p, w); if (!(g == m)) ctx.fail("entry", w + ": holds " + g.show() + ", made as " + m.show()); }
static void same(mc::Ctx &ctx, AntennaPcoList &l, const std::vector<Off> &m, const std::string &w) {
  const auto &v = l.__vecref__(); ctx.eq(v.size(), m.size(), "length", w); for (size_t i = 0; i < m.size(); i++) same(ctx, v[i], m[i], w + mc::fmt(" entry %zu", i)); ctx.step(m.size() + 1);
}
static AntennaPco make(const Off &o) { return AntennaPco(ObservationCode(o.code.c_str()), SYSV[o.sys], o.v[0], o.v[1], o.v[2]); }
static const double V[] = {0, 0.01, -0.01, 1, -1, 87.654, -123.45, 2561.43, -0.0, 99999.99, 1e-9, 1.0 / 3};
MC_SCENARIO(P31, every_entry, "8 systems x 6 observable types x 10 bands x 27 attributes x values each of the 3 components alone or all different, in memory that held other data: printed content, copy, assignment over another entry; the code object changed afterwards") {
  int s = ctx.choose(8), t = ctx.choose(6), b = ctx.choose(10); static const char T[] = "CLDSIX";
  for (int a = 0; a < 27; a++) { std::string c = {T[t], (char)('0' + b), a == 26 ? '?' : (char)('A' + a)}; Off m{s, c, {V[(a + b) % 12], V[(a + 5) % 12], V[(b + 3 * a + 1) % 12]}}; std::string w = m.show(); ctx.note(w); ctx.site(w);
    mc::Dirty<AntennaPco> D(0xA5); ObservationCode oc(c.c_str()); AntennaPco &p = D.make(oc, SYSV[s], m.v[0], m.v[1], m.v[2]); oc.band() = (b + 1) % 10; same(ctx, p, m, w); AntennaPco q(p); same(ctx, q, m, w + " copy"); Off z{(s + 1) % 8, "L1C", {7, 8, 9}}; AntennaPco r = make(z); r = p; same(ctx, r, m, w + " assigned"); p = make(z); same(ctx, r, m, w + " independent"); same(ctx, p, z, w + " replaced"); ctx.step(7); ctx.state(c + ref::SYS[s]); }
  ctx.outcome(mc::fmt("%d%d%d", s, t, b));
}
MC_SCENARIO(P31, values, "all 12^3 triples of north, east and up values; default arguments: the missing trailing values are zero") {
  int i = ctx.choose(12), j = ctx.choose(12), k = ctx.choose(12); Off m{i % 8, "L1C", {V[i], V[j], V[k]}}; same(ctx, make(m), m, "triple"); ObservationCode c("L1C");
  mc::Dirty<AntennaPco> A(0xFF), B(0xFF), C(0xFF); same(ctx, A.make(c, SYSV[i % 8]), Off{i % 8, "L1C", {0, 0, 0}}, "no values"); same(ctx, B.make(c, SYSV[i % 8], V[i]), Off{i % 8, "L1C", {V[i], 0, 0}}, "one value"); same(ctx, C.make(c, SYSV[i % 8], V[i], V[j]), Off{i % 8, "L1C", {V[i], V[j], 0}}, "two values"); ctx.step(4); ctx.state(mc::fmt("%d %d %d", i, j, k)); ctx.outcome(mc::fmt("%d", i)); }
static const Off E[] = {{0, "L1C", {0.59, -0.46, 91.24}}, {0, "L2W", {-0.1, -0.62, 120.06}}, {1, "L1P", {0.59, -0.46, 91.24}}, {0, "L1C", {0, 0, 0}}, {3, "L5X", {400, -1.5, 2561.43}}};
MC_SCENARIO(P31, list_histories, "two lists x all sequences of 4 (thorough 5) of 15 operations (append one of 5 entries, two of them for the same signal; insert at the front; remove first or last; clear; copy, move, assign, swap the lists; start again from one entry or empty); both lists compared after every one") {
  std::unique_ptr<AntennaPcoList> a; std::vector<Off> ma, mb{E[1], E[4]}; AntennaPcoList b; for (auto &e : mb) b.__vecref__().push_back(make(e));
  if (ctx.flag()) { a.reset(new AntennaPcoList(make(E[2]))); ma = {E[2]}; } else a.reset(new AntennaPcoList); same(ctx, *a, ma, "start"); same(ctx, b, mb, "start"); std::string w; int depth = ctx.thorough() ? 5 : 4;
  for (int t = 0; t < depth; t++) { int op = ctx.choose(15); w += mc::fmt("%d ", op); ctx.note("op ", op); ctx.site(w); auto &v = a->__vecref__();
    switch (op) {
    case 0: case 1: case 2: case 3: case 4: v.push_back(make(E[op])); ma.push_back(E[op]); break;
    case 5: v.insert(v.begin(), make(E[t])); ma.insert(ma.begin(), E[t]); break;
    case 6: if (!v.empty()) { v.pop_back(); ma.pop_back(); } break;
    case 7: if (!v.empty()) { v.erase(v.begin()); ma.erase(ma.begin()); } break;
    case 8: v.clear(); ma.clear(); break;
    case 9: b = *a; mb = ma; break;
    case 10: { AntennaPcoList c(*a); c.__vecref__().push_back(make(E[0])); break; }
    case 11: { AntennaPcoList c(std::move(*a)); *a = c; break; }
    case 12: std::swap(*a, b); std::swap(ma, mb); break;
    case 13: a.reset(new AntennaPcoList(make(E[t]))); ma = {E[t]}; break;
    default: *a = AntennaPcoList(); ma.clear(); }
    same(ctx, *a, ma, "first after " + w); same(ctx, b, mb, "second after " + w); }
  ctx.state(mc::fmt("%zu %zu", ma.size(), mb.size())); ctx.outcome(mc::fmt("%zu", ma.size()));
}
MC_SCENARIO(P31, long_lists, "lists of every length 0..200 (thorough 2000) built one by one, in order and reversed, then copied and compared") {
  int n = ctx.thorough() ? ctx.choose(21) * 100 : ctx.choose(201); bool rev = ctx.flag(); AntennaPcoList l; std::vector<Off> m; for (int i = 0; i < n; i++) { Off o = E[i % 5]; o.v[i % 3] = i * 0.25; if (rev) { l.__vecref__().insert(l.__vecref__().begin(), make(o)); m.insert(m.begin(), o); } else { l.__vecref__().push_back(make(o)); m.push_back(o); } }
  same(ctx, l, m, "built"); AntennaPcoList c(l); l.__vecref__().clear(); same(ctx, c, m, "copy"); ctx.state(mc::fmt("%d %d", n, rev)); ctx.outcome(mc::fmt("%d", n));
}
