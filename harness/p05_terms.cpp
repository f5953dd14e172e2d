// MC-PROPERTIES: P05
#include "obsmodel.hpp"
#include <memory>

static bool mixed(const Terms &t) { for (auto &x : t) for (auto &y : t) if (x.sys != y.sys) return true; return false; }

static void agree(mc::Ctx &ctx, GnssObservable &o, const Terms &t, const char *w) {
  const GnssObservable &k = o;
  ctx.eq(o.underlying_vector().size(), t.size(), "term-count", w);
  for (size_t i = 0; i < t.size(); i++) {
    auto x = look(o.underlying_vector()[i]);
    ctx.eq(x.show(), t[i].show(), "term", w); ctx.eq(x.coef, t[i].coef, "coefficient", w);
    ctx.eq(mc::vis(o.underlying_vector()[i].to_string()), mc::vis(t[i].show()), "term-text", w);
    auto r = o.underlying_vector()[i].type();
    ctx.eq(r.to_string(), std::string(1, ref::SYS[t[i].sys]) + "::" + t[i].code, "raw-text", w);
    ctx.eq(r.band(), t[i].code[1] - '0', "band", w); const auto &cr = r; ctx.eq(sys_index(cr.satsys()), t[i].sys, "system", w);
    auto [s, c] = cr; ctx.eq(sys_index(s), t[i].sys, "binding-system", w); ctx.eq(c.to_string(), t[i].code, "binding-code", w);
    ctx.eq(sys_index(cr.get<0>()), t[i].sys, "get-system", w); ctx.eq(cr.get<1>().to_string(), t[i].code, "get-code", w); ctx.eq(cr.code().to_string(), t[i].code, "get-code", w);
    auto m = r; ctx.check(&m.get<0>() == &m.satsys() && sys_index(m.get<0>()) == t[i].sys && m.get<1>().to_string() == t[i].code, "get-reference", w); m.get<0>() = SATELLITE_SYSTEM::irnss; m.get<1>() = ObservationCode("D9A"); ctx.eq(m.to_string(), std::string("I::D9A"), "set-by-reference", w);
    ctx.eq(look(__ObsPart(cr)).show(), Term{t[i].sys, t[i].code, 1.0}.show(), "term-from-raw", w); ctx.eq(look(__ObsPart(cr)).coef, 1.0, "default-coefficient", w); ctx.eq(look(__ObsPart(cr.satsys(), cr.code())).coef, 1.0, "default-coefficient", w); ctx.check(look(__ObsPart(cr.satsys(), cr.code(), t[i].coef)) == t[i], "term-from-parts", w);
  }
  ctx.check(look(k) == t, "const-view", w);
  ctx.eq(k.is_of_mixed_satsys(), mixed(t), "mixed", w);
  if (!t.empty()) ctx.eq(k.to_string(), show(t), "text", w);
  ctx.step(3 + t.size());
}

static const std::vector<Term> A = {{0, "L1C", 1.0}, {3, "C5Q", -2.25}, {0, "S2W", 0.5}};

MC_SCENARIO(P05, histories, "all sequences of up to 3 (thorough 4) operations out of 15 (construct, add by either overload with and without coefficient, edit, pop, clear, copy, move, assign, swap, edit a copy) on an observable, all views checked after each") {
  Terms t{A[0]}; std::unique_ptr<GnssObservable> o;
  switch (ctx.choose(4)) {
  case 0: o.reset(new GnssObservable(SATELLITE_SYSTEM::gps, ObservationCode("L1C"))); break;
  case 1: o.reset(new GnssObservable(A[0].raw())); break;
  case 2: o.reset(new GnssObservable(A[1].raw(), -2.25)); t = {A[1]}; break;
  case 3: o.reset(new GnssObservable(SATELLITE_SYSTEM::galileo, ObservationCode("C5Q"), -2.25)); t = {A[1]}; break;
  }
  GnssObservable other(*o); Terms u = t;
  agree(ctx, *o, t, "initial"); agree(ctx, other, u, "copy");
  int depth = ctx.thorough() ? 4 : 3;
  for (int i = 0; i < depth; i++) {
    int op = ctx.choose(15); ctx.note("op ", op, " on ", show(t)); ctx.site(mc::fmt("op %d", op));
    auto &v = o->underlying_vector();
    switch (op) {
    case 0: o->add(A[0].raw()); t.push_back(A[0]); break;
    case 1: o->add(A[1].raw(), A[1].coef); t.push_back(A[1]); break;
    case 2: o->add(SATELLITE_SYSTEM::gps, ObservationCode("S2W"), 0.5); t.push_back(A[2]); break;
    case 3: o->add(SATELLITE_SYSTEM::gps, ObservationCode("L1C")); t.push_back(A[0]); break;
    case 4: if (!t.empty()) { v[0].__coef = 7; t[0].coef = 7; } break;
    case 5: if (!t.empty()) { v.back().__type.satsys() = SATELLITE_SYSTEM::irnss; t.back().sys = 6; } break;
    case 6: if (!t.empty()) { auto &[s, c] = v[0].__type; s = SATELLITE_SYSTEM::glonass; c = ObservationCode("D3X"); t[0].sys = 1; t[0].code = "D3X"; } break;
    case 7: if (!t.empty()) { v.pop_back(); t.pop_back(); } break;
    case 8: v.clear(); t.clear(); break;
    case 9: other = *o; u = t; break;
    case 10: *o = other; t = u; break;
    case 11: { GnssObservable m(std::move(*o)); o.reset(new GnssObservable(m)); break; }
    case 12: std::swap(*o, other); std::swap(t, u); break;
    case 13: { const GnssObservable &k = *o; auto c = k.underlying_vector(); for (auto &p : c) p.__coef = 99; c.push_back(__ObsPart(A[1].raw())); break; } // a copy
    case 14: if (!t.empty()) { auto r = v[0].type(); r.satsys() = SATELLITE_SYSTEM::mixed; const auto &cr = v[0]; auto q = cr.type(); q.satsys() = SATELLITE_SYSTEM::sbas; } break; // copies
    }
    agree(ctx, *o, t, "after op"); agree(ctx, other, u, "other object");
    ctx.state(show(t) + "|" + show(u));
  }
  ctx.outcome(show(t));
}

MC_SCENARIO(P05, mixedness, "all system sequences of length 1-4 (thorough 5) over the 8 systems") {
  int n = 1 + ctx.choose(ctx.thorough() ? 5 : 4); Terms t; std::unique_ptr<GnssObservable> o;
  for (int i = 0; i < n; i++) {
    t.push_back({ctx.choose(8), "L1C", 1.0});
    if (!o) o.reset(new GnssObservable(t[0].raw())); else o->add(t.back().raw());
  }
  ctx.note(show(t)); ctx.eq(o->is_of_mixed_satsys(), mixed(t), "mixed", show(t)); ctx.step();
  ctx.state(show(t)); ctx.outcome(mc::fmt("%d", mixed(t)));
}

MC_SCENARIO(P05, text, "all 8 systems x 7 codes x 12 coefficients, alone and as second term") {
  static const std::vector<std::string> C = {"C1C", "L2W", "D5Q", "S7I", "I1?", "X9A", "L1?"};
  static const double K[] = {1, -1, 0, 0.5, 2.54572778, -1.54572778, 1e-7, 123456.789, -1e6, 60, 1.0 / 3, 77.0 / 60};
  Term t{ctx.choose(8), ctx.pick(C), K[ctx.choose(12)]}; int two = ctx.choose(2);
  Terms ts; if (two) ts.push_back(A[2]); ts.push_back(t);
  GnssObservable o(ts[0].raw(), ts[0].coef); if (two) o.add(ts[1].raw(), ts[1].coef);
  ctx.note(show(ts)); agree(ctx, o, ts, "text"); ctx.state(show(ts)); ctx.outcome(o.to_string());
}
MC_SCENARIO(P05, long_lists, "lists of 1..70 terms (thorough 1..300), of one system except one term at every place (or none) and of another kind of value at that place: content, text and mixedness, also of a copy and after removing the first or the last") {
  int n = 1 + ctx.choose(ctx.thorough() ? 300 : 70), kind = ctx.choose(4); std::set<int> at; for (int i : {0, 1, n / 2, n - 2, n - 1}) if (i >= 0 && i < n) at.insert(i);
  for (int q : at) { Terms t; std::unique_ptr<GnssObservable> o; for (int i = 0; i < n; i++) { Term x{4, std::string(1, "CLDS"[i % 4]) + char('1' + i % 9) + "?CPXQ"[i % 5], i * 0.5 - 3}; if (i == q) { if (kind == 1) x.sys = 5; if (kind == 2) x.sys = 7; if (kind == 3) x.coef = -123456.75; } t.push_back(x); if (!o) o.reset(new GnssObservable(x.raw(), x.coef)); else if (i % 2) o->add(x.raw(), x.coef); else o->add(SYSV[x.sys], ObservationCode(x.code.c_str()), x.coef); }
    std::string w = mc::fmt("%d terms, kind %d at %d", n, kind, q); ctx.note(w); agree(ctx, *o, t, w.c_str()); GnssObservable c(*o); if (n > 1) { o->underlying_vector().erase(o->underlying_vector().begin()); c.underlying_vector().pop_back(); Terms a(t.begin() + 1, t.end()), b(t.begin(), t.end() - 1); agree(ctx, *o, a, w.c_str()); agree(ctx, c, b, w.c_str()); } ctx.state(w); }
  ctx.outcome(mc::fmt("%d", kind));
}
