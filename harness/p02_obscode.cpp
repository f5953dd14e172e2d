// MC-PROPERTIES: P02
#include "common.hpp"
#include "gnssobs.hpp"
using namespace ngpt;

static const char *TYPES = "CLDSIX";
static const OBSERVABLE_TYPE OT[7] = {OBSERVABLE_TYPE::pseudorange, OBSERVABLE_TYPE::carrier_phase, OBSERVABLE_TYPE::doppler,
    OBSERVABLE_TYPE::signal_strength, OBSERVABLE_TYPE::ionosphere_phase_delay, OBSERVABLE_TYPE::receiver_channel_number, OBSERVABLE_TYPE::any};

static int type_index(OBSERVABLE_TYPE t) { for (int i = 0; i < 7; i++) if (OT[i] == t) return i; return -1; }

struct M { int t; int band; char a; bool operator==(const M &o) const { return t == o.t && band == o.band && a == o.a; } };
static std::string show(const M &m) { return std::string(1, m.t < 6 ? TYPES[m.t] : '?') + std::to_string(m.band)[0] + m.a; }

/// every way of looking at a code must show the model's components
static void agree(mc::Ctx &ctx, ObservationCode &c, const M &m, const char *w) {
  const ObservationCode &k = c;
  ctx.eq(type_index(k.get<0>()), m.t, "type", w); ctx.eq(k.get<1>(), m.band, "band", w); ctx.eq(k.get<2>().as_char(), m.a, "attribute", w);
  ctx.eq(type_index(c.get<0>()), m.t, "type-ref", w); ctx.eq(c.get<1>(), m.band, "band-ref", w); ctx.eq(c.get<2>().as_char(), m.a, "attribute-ref", w);
  ctx.eq(k.band(), m.band, "band()", w); ctx.eq(c.band(), m.band, "band()&", w);
  auto [t, b, a] = k;
  ctx.eq(type_index(t), m.t, "binding-type", w); ctx.eq(b, m.band, "binding-band", w); ctx.eq(a.as_char(), m.a, "binding-attribute", w);
  if (m.band >= 0 && m.band <= 9) ctx.eq(mc::vis(k.to_string()), mc::vis(show(m)), "to_string", w);
  ctx.step(10);
}

/// 0 built, 1 refused with runtime_error, 2 other exception
static int build(const char *s, ObservationCode &c) {
  try { c = ObservationCode(s); return 0; } catch (const std::runtime_error &) { return 1; } catch (...) { return 2; }
}

MC_SCENARIO(P02, type_letters, "all 256 characters and all 7 observable types in both directions") {
  int c = ctx.choose(256), t = ctx.choose(7);
  int got;
  ctx.site("char_to_observabletype");
  try { got = type_index(char_to_observabletype((char)c)); } catch (const std::runtime_error &) { got = -5; } catch (...) { got = -6; }
  int want = -5; for (int i = 0; i < 6; i++) if ((char)c == TYPES[i]) want = i;
  ctx.eq(got, want, "char-to-type", mc::fmt("char 0x%02x", c));
  ctx.eq(observabletype_to_char(OT[t]), t < 6 ? TYPES[t] : '?', "type-to-char", mc::fmt("type %d", t));
  if (t < 6) ctx.eq(type_index(char_to_observabletype(observabletype_to_char(OT[t]))), t, "type-round-trip");
  ctx.step(3); ctx.state(mc::fmt("%d:%d:%d", c, got, t)); ctx.outcome(mc::fmt("%d", got));
}

MC_SCENARIO(P02, parse_print, "every type letter x band 0-9 x every attribute byte 1-255 or none, alone and with suffixes of 1-2 characters") {
  static const std::vector<std::string> suf = {"", " ", "X", "1C", "  ", "\t", "C1"};
  M m; m.t = ctx.choose(6); m.band = ctx.choose(10);
  int ai = ctx.choose(256);          // 0: text ends after the band
  std::string s; s += TYPES[m.t]; s += (char)('0' + m.band);
  if (ai) { s += (char)ai; s += ctx.pick(suf); }
  m.a = ai == 0 || ai == ' ' ? '?' : (char)ai;
  ctx.note("text ", mc::vis(s)); ctx.site("parse " + mc::vis(s));
  // text in an exactly sized heap block: reading past its end is caught
  std::vector<char> z(s.begin(), s.end()); z.push_back(0);
  ObservationCode c;
  ctx.eq(build(z.data(), c), 0, "valid-text-refused", mc::vis(s)); ctx.step();
  agree(ctx, c, m, "parsed");
  // parse(print(x)) == x
  ObservationCode d; std::string p = c.to_string();
  ctx.eq(build(p.c_str(), d), 0, "printed-text-refused", mc::vis(p));
  ctx.check(d == c && !(d != c), "parse-print-parse", mc::vis(p)); ctx.step();
  ctx.state(show(m)); ctx.outcome(mc::vis(p));
}

MC_SCENARIO(P02, invalid_text, "all texts of 0, 1 and 2 characters over all bytes (second byte from a set of 9 when the first is invalid; thorough: all bytes) whose length or first letter is invalid, and 3-character texts with an invalid first letter") {
  int n = ctx.choose(4); std::string s;
  if (n > 0) s += (char)(1 + ctx.choose(255));
  if (n > 1) { static const std::string B = "0159 ?LCz"; bool all = n == 2 && (ctx.thorough() || strchr(TYPES, s[0])); s += all ? (char)(1 + ctx.choose(255)) : B[ctx.choose(B.size())]; }
  if (n > 2) { static const std::string A = "C? X"; s += A[ctx.choose(A.size())]; }
  bool badlen = n < 2, badletter = n > 0 && !strchr(TYPES, s[0]);
  ctx.note("text ", mc::vis(s)); ctx.site("parse " + mc::vis(s));
  std::vector<char> z(s.begin(), s.end()); z.push_back(0);
  ObservationCode c(OBSERVABLE_TYPE::doppler, 7, ObservationAttribute('Q'));
  int r = build(z.data(), c); ctx.step();
  if (badlen || badletter) {
    ctx.eq(r, 1, "invalid-text-not-refused", mc::vis(s));
    agree(ctx, c, M{2, 7, 'Q'}, "target of a refused text");
  } else if (s[1] >= '0' && s[1] <= '9') ctx.eq(r, 0, "valid-text-refused", mc::vis(s));
  ctx.state(mc::vis(s)); ctx.outcome(mc::fmt("%d%d", n, r));
}

MC_SCENARIO(P02, equality, "all pairs of codes over 7 types x bands {0,1,2,9} x attributes {?,C,P,blank}") {
  static const int B[] = {0, 1, 2, 9}; static const char A[] = {'?', 'C', 'P', ' '};
  M x{ctx.choose(7), B[ctx.choose(4)], A[ctx.choose(4)]}, y{ctx.choose(7), B[ctx.choose(4)], A[ctx.choose(4)]};
  ObservationCode a(OT[x.t], x.band, ObservationAttribute(x.a)), b(OT[y.t], y.band, ObservationAttribute(y.a));
  ctx.note(show(x), " vs ", show(y));
  bool e = x == y;
  ctx.eq(a == b, e, "equal", show(x) + " == " + show(y)); ctx.eq(b == a, e, "equal-sym"); ctx.eq(a != b, !e, "unequal", show(x) + " != " + show(y));
  ctx.eq(a == a, true, "reflexive"); ctx.eq(ObservationAttribute(x.a) == ObservationAttribute(y.a), x.a == y.a, "attribute-equal");
  ctx.eq(ObservationAttribute(x.a) != ObservationAttribute(y.a), x.a != y.a, "attribute-unequal");
  ctx.step(6); ctx.state(show(x) + show(y)); ctx.outcome(e ? "eq" : "ne");
}

MC_SCENARIO(P02, component_changes, "all sequences of up to 4 (thorough 5) changes through every accessor, on default and parsed codes") {
  M m{6, 0, '?'}; ObservationCode c;
  switch (ctx.choose(4)) {
  case 1: c = ObservationCode("L5Q"); m = {1, 5, 'Q'}; break;
  case 2: c = ObservationCode(OBSERVABLE_TYPE::pseudorange); m = {0, 0, '?'}; break;
  case 3: c = ObservationCode(OBSERVABLE_TYPE::doppler, 3); m = {2, 3, '?'}; break;
  default: break;
  }
  agree(ctx, c, m, "initial");
  int depth = ctx.thorough() ? 5 : 4;
  ObservationCode saved = c; M ms = m;
  for (int i = 0; i < depth; i++) {
    int op = ctx.choose(10);
    ctx.note("op ", op); ctx.site(mc::fmt("op %d", op));
    switch (op) {
    case 0: c.band() = 8; m.band = 8; break;
    case 1: c.get<0>() = OBSERVABLE_TYPE::signal_strength; m.t = 3; break;
    case 2: c.get<1>() = 4; m.band = 4; break;
    case 3: c.get<2>() = ObservationAttribute('W'); m.a = 'W'; break;
    case 4: { auto &[t, b, a] = c; t = OBSERVABLE_TYPE::any; m.t = 6; (void)b; (void)a; break; }
    case 5: { auto &[t, b, a] = c; b = 1; a = ObservationAttribute(); m.band = 1; m.a = '?'; (void)t; break; }
    case 6: { auto [t, b, a] = c; t = OBSERVABLE_TYPE::doppler; b = 9; a = ObservationAttribute('Z'); (void)t; (void)b; (void)a; break; } // copies
    case 7: std::swap(c, saved); std::swap(m, ms); break;
    case 8: saved = c; ms = m; break;
    case 9: c = ObservationCode("S2P "); m = {3, 2, 'P'}; break;
    }
    agree(ctx, c, m, "after op"); agree(ctx, saved, ms, "other object");
    ctx.eq(c == saved, m == ms, "equality-after-op");
    ctx.state(show(m) + show(ms)); ctx.step();
  }
  ctx.outcome(show(m));
}
