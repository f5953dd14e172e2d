// MC-PROPERTIES: P04
#include "obsmodel.hpp"
#include <memory>

static bool known_band(char s, int b) { auto it = ref::freq().find(s); return it != ref::freq().end() && it->second.count(b); }
static bool zero_sys(int s) { return ref::SYS[s] == 'R' || ref::SYS[s] == 'M'; }
static double nominal(int s, int b) { return zero_sys(s) ? 0.0 : ref::freq().at(ref::SYS[s]).at(b); }

/// "value", or "error" for a catchable standard exception
struct Out { bool err; double v; };
template <class F> static Out outcome(F f) {
  try { return {false, f()}; } catch (const std::exception &) { return {true, 0}; }
}
static void near(mc::Ctx &ctx, double got, double want, double scale, const char *key, const std::string &w) {
  if (!(std::fabs(got - want) <= 1e-12 * scale + 1e-300)) ctx.fail(key, mc::fmt("%s: got %.12g MHz, expected %.12g MHz", w.c_str(), got, want));
}

MC_SCENARIO(P04, single_terms, "8 systems x bands -2..12 and 2 far values x 7 coefficients x 3 observable types, as term, observable and per-system lookup") {
  int s = ctx.choose(8); int bi = ctx.choose(17); int b = bi == 15 ? 255 : bi == 16 ? -48 : bi - 2;
  static const double K[] = {1.0, -1.0, 2.546, -1.546, 0.0, 1e-3, 154.0}; double k = K[ctx.choose(7)];
  static const OBSERVABLE_TYPE T[] = {OBSERVABLE_TYPE::carrier_phase, OBSERVABLE_TYPE::pseudorange, OBSERVABLE_TYPE::any};
  OBSERVABLE_TYPE t = T[ctx.choose(3)];
  ObservationCode c(t, b, ObservationAttribute('C'));
  std::string w = mc::fmt("%c band %d coefficient %g", ref::SYS[s], b, k);
  ctx.note(w); ctx.site("frequency " + w);
  bool good = zero_sys(s) || known_band(ref::SYS[s], b);
  GnssObservable o(SYSV[s], c, k); __ObsPart p(SYSV[s], c, k);
  Out a = outcome([&] { return o.frequency(); }), q = outcome([&] { return p.frequency(); });
  ctx.step(2);
  ctx.eq(a.err, !good, "observable-error", w); ctx.eq(q.err, !good, "term-error", w);
  if (good) { double x = k * nominal(s, b); near(ctx, a.v, x, std::fabs(x), "observable-value", w); near(ctx, q.v, x, std::fabs(x), "term-value", w); }
  ctx.state(w); ctx.outcome(good ? mc::fmt("%.6f", k * nominal(s, b)) : "error");
}

template <SATELLITE_SYSTEM S> static Out lookup(int b) { return outcome([&] { return satellite_system_traits<S>::band2frequency(b); }); }

MC_SCENARIO(P04, per_system_lookup, "6 systems with a band table x bands -2..12, repeated after a failing lookup") {
  static const char *Q = "GSECJI"; int i = ctx.choose(6), b = ctx.choose(15) - 2, pre = ctx.choose(2);
  auto f = [&](int band) { switch (i) {
    case 0: return lookup<SATELLITE_SYSTEM::gps>(band); case 1: return lookup<SATELLITE_SYSTEM::sbas>(band); case 2: return lookup<SATELLITE_SYSTEM::galileo>(band);
    case 3: return lookup<SATELLITE_SYSTEM::beidou>(band); case 4: return lookup<SATELLITE_SYSTEM::qzss>(band); default: return lookup<SATELLITE_SYSTEM::irnss>(band); } };
  if (pre) ctx.eq(f(4).err, true, "lookup-error", "band 4");
  Out r = f(b); bool good = known_band(Q[i], b); std::string w = mc::fmt("%c band %d", Q[i], b);
  ctx.note(w); ctx.step();
  ctx.eq(r.err, !good, "lookup-error", w); if (good) ctx.eq(r.v, ref::freq().at(Q[i]).at(b), "lookup-value", w);
  ctx.state(w); ctx.outcome(good ? mc::fmt("%.4f", r.v) : "error");
}

template <SATELLITE_SYSTEM S> static void table(mc::Ctx &ctx, char l) {
  const auto &m = satellite_system_traits<S>::frequency_map; const auto &r = ref::freq().at(l);
  ctx.eq(m.size(), r.size(), "number-of-bands", std::string(1, l));
  for (auto &e : r) { ctx.check(m.count(e.first), "band-missing", mc::fmt("%c%d", l, e.first)); ctx.eq(m.at(e.first), e.second, "band-value", mc::fmt("%c%d", l, e.first)); ctx.step(); }
}
static std::set<char> chars(const std::string &s) { return std::set<char>(s.begin(), s.end()); }
template <SATELLITE_SYSTEM S> static void attrs(mc::Ctx &ctx, char l, const std::map<int, std::string> &r) {
  const auto &m = satellite_system_traits<S>::valid_atributes;
  ctx.eq(m.size(), r.size(), "number-of-attribute-bands", std::string(1, l));
  for (auto &e : r) {
    std::string w = mc::fmt("%c%d", l, e.first);
    ctx.check(m.count(e.first), "attribute-band-missing", w);
    for (int c = 1; c < 256; c++) ctx.eq(chars(m.at(e.first)).count((char)c), chars(e.second).count((char)c), "attribute", w + mc::fmt(" attribute '%c'", c));
    ctx.step();
  }
}

MC_SCENARIO(P04, tables, "all systems: the complete band and attribute tables, every band and every attribute character") {
  int i = ctx.choose(7), which = ctx.choose(2);
  typedef SATELLITE_SYSTEM Y;
  ctx.note("table ", "GRSECJI"[i], which ? " attributes" : " bands");
  if (!which) switch (i) {
    case 0: table<Y::gps>(ctx, 'G'); break; case 1: table<Y::glonass>(ctx, 'R'); break; case 2: table<Y::sbas>(ctx, 'S'); break; case 3: table<Y::galileo>(ctx, 'E'); break;
    case 4: table<Y::beidou>(ctx, 'C'); break; case 5: table<Y::qzss>(ctx, 'J'); break; default: table<Y::irnss>(ctx, 'I'); }
  else switch (i) {
    case 0: attrs<Y::gps>(ctx, 'G', {{1, "CSLXPWYMN?"}, {2, "CDSLXPWYMN?"}, {5, "IQX?"}}); break;
    case 1: attrs<Y::glonass>(ctx, 'R', {{1, "CP?"}, {2, "CP?"}, {3, "IQX?"}}); break;
    case 2: attrs<Y::sbas>(ctx, 'S', {{1, "C?"}, {5, "IQX?"}}); break;
    case 3: attrs<Y::galileo>(ctx, 'E', {{1, "ABCXZ?"}, {5, "IQX?"}, {6, "ABCXZ?"}, {7, "IQX?"}, {8, "IQX?"}}); break;
    case 4: attrs<Y::beidou>(ctx, 'C', {{1, "DPXSLZ?"}, {2, "IQX?"}, {5, "DPX?"}, {6, "IQXDPZ?"}, {7, "IQXDPZ?"}, {8, "DPX?"}}); break;
    case 5: attrs<Y::qzss>(ctx, 'J', {{1, "CSLXZ?"}, {2, "SLX?"}, {5, "IQX?"}, {6, "SLX?"}}); break;
    default: attrs<Y::irnss>(ctx, 'I', {{5, "ABCX?"}, {9, "ABCX?"}}); }
  ctx.state(mc::fmt("%d%d", i, which)); ctx.outcome(mc::fmt("%d", i));
}

MC_SCENARIO(P04, combinations, "all term sequences of 1-3 (thorough 1-4) terms over 9 (system, band) pairs, valid, zero and invalid, x 3 coefficients; asked twice, and after in-place edits") {
  static const struct { int s, b; } P[] = {{0, 1}, {0, 2}, {0, 5}, {3, 1}, {3, 7}, {4, 6}, {1, 1}, {7, 3}, {0, 7}};
  static const double K[] = {1.0, -1.0, 2.5457};
  int n = 1 + ctx.choose(ctx.thorough() ? 4 : 3); std::vector<int> ps; double want = 0, scale = 0; bool good = true;
  GnssObservable *o = nullptr; std::unique_ptr<GnssObservable> hold; std::string w;
  for (int i = 0; i < n; i++) {
    auto &p = P[ctx.choose(9)]; double k = K[ctx.choose(3)];
    ObservationCode c(OBSERVABLE_TYPE::carrier_phase, p.b, ObservationAttribute('C'));
    if (!o) { hold.reset(new GnssObservable(SYSV[p.s], c, k)); o = hold.get(); } else if (i & 1) o->add(SYSV[p.s], c, k); else o->add(GnssRawObservable(SYSV[p.s], c), k);
    if (!zero_sys(p.s) && !known_band(ref::SYS[p.s], p.b)) good = false;
    else { want += k * nominal(p.s, p.b); scale += std::fabs(k * nominal(p.s, p.b)); }
    w += mc::fmt("%+g*%c%d", k, ref::SYS[p.s], p.b);
    if (!good && !ctx.thorough() && i == 2) break;
  }
  ctx.note(w); ctx.site("frequency " + w);
  for (int k = 0; k < (good ? 2 : 1); k++) {
    Out r = outcome([&] { return o->frequency(); }); ctx.step();
    ctx.eq(r.err, !good, "observable-error", w); if (good) near(ctx, r.v, want, scale, "observable-value", w);
  }
  if (good) { // edit the last term in place: coefficient doubled
    auto &t = o->underlying_vector().back(); double extra = 0;
    int s = sys_index(t.type().satsys()); if (!zero_sys(s)) extra = t.__coef * nominal(s, t.type().band());
    t.__coef *= 2;
    near(ctx, o->frequency(), want + extra, scale + std::fabs(extra), "observable-value-after-edit", w); ctx.step();
  }
  ctx.state(w); ctx.outcome(good ? mc::fmt("%.3f", want) : "error");
}
MC_SCENARIO(P04, long_sums, "sums of 4..70 terms cycling through 3 of 7 (system, band) pairs, coefficients of changing sign; one term of an unknown band at every place, or none; asked again after removing it") {
  static const struct { int s, b; } P[] = {{0, 1}, {0, 2}, {3, 8}, {4, 6}, {1, 1}, {6, 9}, {7, 3}}; int n = 4 + ctx.choose(67), k[3] = {ctx.choose(7), ctx.choose(7), ctx.choose(7)}; double want = 0, scale = 0; std::unique_ptr<GnssObservable> o;
  for (int i = 0; i < n; i++) { auto &p = P[k[i % 3]]; double c = (i % 2 ? -1 : 1) * (1 + i * 0.25); ObservationCode code(OBSERVABLE_TYPE::carrier_phase, p.b, ObservationAttribute('C')); if (!o) o.reset(new GnssObservable(SYSV[p.s], code, c)); else o->add(SYSV[p.s], code, c); want += c * nominal(p.s, p.b); scale += std::fabs(c * nominal(p.s, p.b)); }
  std::string w = mc::fmt("%d terms %d %d %d", n, k[0], k[1], k[2]); ctx.note(w); Out r = outcome([&] { return o->frequency(); }); ctx.step(); ctx.eq(r.err, false, "observable-error", w); near(ctx, r.v, want, scale, "observable-value", w);
  auto &v = o->underlying_vector(); for (int i : {0, n / 2, n - 1}) { auto keep = v[i]; v[i] = __ObsPart(SATELLITE_SYSTEM::gps, ObservationCode(OBSERVABLE_TYPE::carrier_phase, 8, ObservationAttribute('C')), 0.0); ctx.eq(outcome([&] { return o->frequency(); }).err, true, "unknown-band-ignored", w + mc::fmt(" at %d", i)); v[i] = keep; near(ctx, o->frequency(), want, scale, "observable-value-restored", w); ctx.step(2); }
  ctx.state(w); ctx.outcome(mc::fmt("%.3f", want));
}
