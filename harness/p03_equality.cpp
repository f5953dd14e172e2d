// MC-PROPERTIES: P03
#include "obsmodel.hpp"

static Terms sorted(Terms t) { std::sort(t.begin(), t.end()); return t; }

// alphabet: a base term and one variant per component that can differ
static const std::vector<Term> A = {{0, "L1C", 1.0}, {0, "L2C", 1.0}, {0, "L1C", -1.0}, {3, "L1C", 1.0}, {0, "C1C", 1.0}, {0, "L1W", 1.0}, {0, "L1?", 1.0}, {0, "L1C", 1.5}, {7, "L1C", 1.0}};

static GnssObservable build(const Terms &t, int how) {
  GnssObservable o = how & 1 ? GnssObservable(t[0].raw(), t[0].coef) : GnssObservable(SYSV[t[0].sys], ObservationCode(t[0].code.c_str()), t[0].coef);
  for (size_t i = 1; i < t.size(); i++)
    if (how & 2) o.add(t[i].raw(), t[i].coef); else o.add(SYSV[t[i].sys], ObservationCode(t[i].code.c_str()), t[i].coef);
  return o;
}
static Terms pick_terms(mc::Ctx &ctx, int maxn, int alpha) {
  int n = 1 + ctx.choose(maxn); Terms t;
  for (int i = 0; i < n; i++) t.push_back(A[ctx.choose(alpha)]);
  return t;
}

MC_SCENARIO(P03, all_pairs, "all pairs of observables of 1-3 terms over 7 terms (thorough: 1-4 terms over 5, both build ways): == / != against multiset equality, both directions, operands unchanged") {
  bool th = ctx.thorough();
  Terms x = pick_terms(ctx, th ? 4 : 3, th ? 5 : 7), y = pick_terms(ctx, th ? 4 : 3, th ? 5 : 7);
  int how = th ? ctx.choose(2) * 3 : 0;
  GnssObservable a = build(x, how), b = build(y, 3 - how);
  ctx.note(show(x), "  vs  ", show(y)); ctx.site("operator==");
  bool e = sorted(x) == sorted(y);
  std::string w = ctx.tracing() ? show(x) + " == " + show(y) : std::string();
  ctx.eq(a == b, e, "equality", w); ctx.eq(b == a, e, "symmetry", w);
  ctx.eq(a != b, !e, "inequality", w); ctx.eq(b != a, !e, "inequality-symmetry", w);
  ctx.check(a == a && b == b && !(a != a), "reflexive", w);
  ctx.check(look(a) == x && look(b) == y, "operand-changed", w);
  ctx.step(6);
  ctx.state(show(x)); ctx.outcome(mc::fmt("%d/%zu/%zu", e, x.size(), y.size()));
}

MC_SCENARIO(P03, permutations, "for every observable of 1-4 terms over 7 terms (thorough 1-5): equal to each of its permutations, unequal to each single-term replacement, duplication or removal") {
  bool th = ctx.thorough();
  Terms x = pick_terms(ctx, th ? 5 : 4, th ? 7 : 7);
  GnssObservable a = build(x, th ? ctx.choose(4) : 2);
  ctx.note(show(x));
  Terms p = sorted(x);
  do {
    GnssObservable b = build(p, 0); ctx.step();
    if (!(a == b && b == a && !(a != b))) ctx.fail("permutation-unequal", show(x) + " vs " + show(p));
  } while (std::next_permutation(p.begin(), p.end()));
  for (size_t i = 0; i < x.size(); i++) {
    for (size_t k = 0; k < A.size(); k++) {
      Terms q = x; q[i] = A[k]; bool e = sorted(q) == sorted(x);
      GnssObservable b = build(q, 3); ctx.step();
      if ((a == b) != e) ctx.fail("replacement", show(x) + " vs " + show(q));
      if ((b == a) != e) ctx.fail("replacement-symmetry", show(q) + " vs " + show(x));
    }
    Terms d = x; d.push_back(x[i]); GnssObservable b = build(d, 0); ctx.step();
    if (!(a != b && b != a && !(a == b) && !(b == a))) ctx.fail("duplicate-ignored", show(x) + " vs " + show(d));
  }
  ctx.state(show(x)); ctx.outcome(mc::fmt("%zu", x.size()));
}

MC_SCENARIO(P03, transitivity, "all triples of observables of 1-2 terms over 4 terms") {
  Terms x = pick_terms(ctx, 2, 4), y = pick_terms(ctx, 2, 4), z = pick_terms(ctx, 2, 4);
  GnssObservable a = build(x, 0), b = build(y, 1), c = build(z, 2);
  if (a == b && b == c && !(a == c)) ctx.fail("transitive", show(x) + " , " + show(y) + " , " + show(z));
  ctx.step(3); ctx.state(show(x) + show(y) + show(z)); ctx.outcome(mc::fmt("%d%d%d", a == b, b == c, a == c));
}

MC_SCENARIO(P03, terms_and_raw, "all pairs of single terms / raw observables over all 8 systems x 4 codes x 4 coefficients") {
  static const char *C[] = {"L1C", "L2C", "C1C", "L1W"}; static const double K[] = {1.0, -1.0, 1.5, 0.0};
  Term x{ctx.choose(8), C[ctx.choose(4)], K[ctx.choose(4)]}, y{ctx.choose(8), C[ctx.choose(4)], K[ctx.choose(4)]};
  GnssRawObservable r = x.raw(), s = y.raw(); __ObsPart p(r, x.coef), q(SYSV[y.sys], ObservationCode(y.code.c_str()), y.coef);
  ctx.note(x.show(), " vs ", y.show());
  bool re = x.sys == y.sys && x.code == y.code, pe = x == y;
  ctx.eq(r == s, re, "raw-equal", x.show() + " vs " + y.show()); ctx.eq(r != s, !re, "raw-unequal", x.show() + " vs " + y.show());
  ctx.eq(p == q, pe, "term-equal", x.show() + " vs " + y.show()); ctx.eq(p != q, !pe, "term-unequal", x.show() + " vs " + y.show());
  ctx.step(4); ctx.state(x.show() + y.show()); ctx.outcome(mc::fmt("%d%d", re, pe));
}

MC_SCENARIO(P03, after_edits, "all histories of up to 4 (thorough 5) additions/edits/removals applied to two observables, compared after every operation") {
  Terms x{A[0]}, y{A[0]}; GnssObservable a = build(x, 0), b = build(y, 1);
  int depth = ctx.thorough() ? 5 : 4;
  for (int i = 0; i < depth; i++) {
    int who = ctx.choose(2), op = ctx.choose(6);
    GnssObservable &o = who ? b : a; Terms &t = who ? y : x;
    ctx.note(who ? "b" : "a", " op ", op);
    switch (op) {
    case 0: o.add(A[0].raw(), A[0].coef); t.push_back(A[0]); break;
    case 1: o.add(A[1].raw(), A[1].coef); t.push_back(A[1]); break;
    case 2: o.underlying_vector().back().__coef = -1.0; t.back().coef = -1.0; break;
    case 3: if (t.size() > 1) { o.underlying_vector().erase(o.underlying_vector().begin()); t.erase(t.begin()); } break;
    case 4: std::reverse(o.underlying_vector().begin(), o.underlying_vector().end()); std::reverse(t.begin(), t.end()); break;
    case 5: if (who) { b = a; y = x; } else { a = b; x = y; } break;
    }
    bool e = sorted(x) == sorted(y);
    ctx.eq(a == b, e, "equality", show(x) + " == " + show(y)); ctx.eq(b == a, e, "symmetry", show(y) + " == " + show(x)); ctx.eq(a != b, !e, "inequality", show(x) + " != " + show(y));
    ctx.step(); ctx.state(show(x) + "|" + show(y));
  }
  ctx.outcome(mc::fmt("%zu/%zu/%d", x.size(), y.size(), a == b));
}

MC_SCENARIO(P03, every_code_pair, "all ordered pairs of observation codes: 7 types x 10 bands x 28 attributes (A-Z, '?', '1'), and of raw observables of one system") {
  static const OBSERVABLE_TYPE T[] = {OBSERVABLE_TYPE::pseudorange, OBSERVABLE_TYPE::carrier_phase, OBSERVABLE_TYPE::doppler, OBSERVABLE_TYPE::signal_strength, OBSERVABLE_TYPE::ionosphere_phase_delay, OBSERVABLE_TYPE::receiver_channel_number, OBSERVABLE_TYPE::any};
  static const char AT[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ?1";
  int t = ctx.choose(7), b = ctx.choose(10), a = ctx.choose(28); SATELLITE_SYSTEM s = SYSV[b % 8];
  ObservationCode x(T[t], b, ObservationAttribute(AT[a])); GnssRawObservable rx(s, x);
  for (int i = 0; i < 7; i++) for (int j = 0; j < 10; j++) for (int k = 0; k < 28; k++) {
    ObservationCode y(T[i], j, ObservationAttribute(AT[k])); bool e = i == t && j == b && k == a; GnssRawObservable ry(s, y);
    if ((x == y) != e || (x != y) == e) ctx.fail("code-equal", x.to_string() + " vs " + y.to_string());
    if ((rx == ry) != e || (rx != ry) == e) ctx.fail("raw-code-equal", x.to_string() + " vs " + y.to_string());
  }
  ctx.step(7 * 10 * 28); ctx.state(x.to_string()); ctx.outcome(mc::fmt("%d", t));
}
MC_SCENARIO(P03, long_lists, "lists of 5..70 (thorough 5..300) terms in 4 patterns (all equal, all different, two alternating, one odd one) against: 6 reorderings, one term exchanged or dropped or doubled at every place") {
  int n = 5 + ctx.choose(ctx.thorough() ? 296 : 66), pat = ctx.choose(4); Terms x;
  for (int i = 0; i < n; i++) { Term t = A[0]; if (pat == 1) { t.coef = i / 8 - 10.5; t.sys = i % 8; } else if (pat == 2) t = A[i % 2 * 3]; else if (pat == 3 && i == n / 3) t = A[2]; x.push_back(t); }
  GnssObservable a = build(x, n % 4); int kind = ctx.choose(4); ctx.note(n, " terms, pattern ", pat, " kind ", kind);
  auto ask = [&](const Terms &y, const char *w) { GnssObservable b = build(y, (n + kind) % 4); bool e = sorted(x) == sorted(y); ctx.step(); if ((a == b) != e || (b == a) != e || (a != b) == e || (b != a) == e) ctx.fail("long", mc::fmt("%d terms pattern %d: ", n, pat) + w + (e ? " not equal" : " equal")); };
  if (kind == 0) { Terms y = x; std::reverse(y.begin(), y.end()); ask(y, "reversed"); for (int r : {1, n / 2, n - 1}) { y = x; std::rotate(y.begin(), y.begin() + r, y.end()); ask(y, "rotated"); } y = x; std::swap(y[0], y[n - 1]); ask(y, "ends swapped"); ask(sorted(x), "sorted"); }
  else for (int i = 0; i < n; i++) { Terms y = x; if (kind == 1) y[i] = A[7]; else if (kind == 2) y.erase(y.begin() + i); else y[i] = x[(i + 1) % n]; ask(y, kind == 1 ? "one exchanged" : kind == 2 ? "one dropped" : "one doubled"); }
  ctx.state(mc::fmt("%d %d %d", n, pat, kind)); ctx.outcome(mc::fmt("%d %d", pat, kind));
}
MC_SCENARIO(P03, close_coefficients, "all pairs of terms over 26 coefficients (0, values one and two ulps and 1e-12..1e-3 apart, tiny, huge, infinite), alone and after a common term in either order") {
  static const std::vector<double> K = [] { std::vector<double> k{0.0, 1.0, -1.0, 1e-300, -1e-300, 5e-324, 1e300, 1e308, INFINITY, -INFINITY, 154.0, 120.0, 2.5457277801631593, -1.5457277801631593}; for (double e : {1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-3}) { k.push_back(1 + e); } for (double v : {1.0, 2.5457277801631593, 154.0}) { k.push_back(std::nextafter(v, 1e9)); k.push_back(std::nextafter(std::nextafter(v, 1e9), 1e9)); } return k; }();
  double p = K[ctx.choose(K.size())], q = K[ctx.choose(K.size())]; int how = ctx.choose(3); Terms x, y; if (how) { x.push_back(A[3]); y.push_back(A[3]); } x.push_back({0, "L1C", p}); y.push_back({0, "L1C", q}); if (how == 2) std::swap(y[0], y[1]); GnssObservable a = build(x, 0), b = build(y, 1); bool e = p == q;
  ctx.eq(a == b, e, "equality", mc::fmt("%.17g and %.17g", p, q)); ctx.eq(b == a, e, "symmetry", mc::fmt("%.17g and %.17g", p, q)); ctx.eq(a != b, !e, "inequality", mc::fmt("%.17g and %.17g", p, q)); ctx.step(3); ctx.state(mc::fmt("%.17g %.17g", p, q)); ctx.outcome(mc::fmt("%d", e));
}
