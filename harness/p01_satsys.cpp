// MC-PROPERTIES: P01
#include "common.hpp"
#include "satsys.hpp"
using ngpt::SATELLITE_SYSTEM;
using ngpt::satellite_system_traits;

static const SATELLITE_SYSTEM ALL[8] = {
    SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas, SATELLITE_SYSTEM::galileo,
    SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss, SATELLITE_SYSTEM::irnss, SATELLITE_SYSTEM::mixed};

/// what the conversion of one character does: system index, -1 refused, -2 wrong exception
static int convert(char c) {
  try {
    SATELLITE_SYSTEM s = ngpt::char_to_satsys(c);
    for (int i = 0; i < 8; i++) if (s == ALL[i]) return i;
    return 100 + (int)s;
  } catch (const std::runtime_error &) { return -1; } catch (...) { return -2; }
}
static int expected(char c) {
  for (int i = 0; i < 8; i++) if (c == ref::SYS[i]) return i;
  return -1;
}

MC_SCENARIO(P01, every_character, "all 256 characters, each converted twice around every one of the 8 systems' conversions") {
  char c = (char)ctx.choose(256);
  int s = ctx.choose(8);
  ctx.note("char ", (int)(unsigned char)c, " system ", s);
  ctx.site("char_to_satsys/satsys_to_char");
  for (int k = 0; k < 2; k++) {
    int got = convert(c); ctx.step();
    ctx.eq(got, expected(c), "char-to-system", mc::fmt("character 0x%02x", (unsigned char)c));
    char l = ngpt::satsys_to_char(ALL[s]); ctx.step();
    ctx.eq(l, ref::SYS[s], "system-to-char", mc::fmt("system #%d", s));
  }
  ctx.state(mc::fmt("c%d>%d", (unsigned char)c, convert(c)));
  ctx.outcome(mc::fmt("%d", expected(c)));
}

MC_SCENARIO(P01, round_trips, "all 8 systems: letter, traits letter, and back; all pairs of systems are told apart") {
  int i = ctx.choose(8), j = ctx.choose(8);
  char a = ngpt::satsys_to_char(ALL[i]), b = ngpt::satsys_to_char(ALL[j]); ctx.step(2);
  ctx.note(i, "->", a, " ", j, "->", b);
  ctx.check((a == b) == (i == j), "letters-distinct", mc::fmt("systems %d and %d both/neither '%c'", i, j, a));
  ctx.eq(convert(a), i, "round-trip", "system -> letter -> system"); ctx.step();
  static const char T[8] = {
      satellite_system_traits<SATELLITE_SYSTEM::gps>::identifier, satellite_system_traits<SATELLITE_SYSTEM::glonass>::identifier,
      satellite_system_traits<SATELLITE_SYSTEM::sbas>::identifier, satellite_system_traits<SATELLITE_SYSTEM::galileo>::identifier,
      satellite_system_traits<SATELLITE_SYSTEM::beidou>::identifier, satellite_system_traits<SATELLITE_SYSTEM::qzss>::identifier,
      satellite_system_traits<SATELLITE_SYSTEM::irnss>::identifier, satellite_system_traits<SATELLITE_SYSTEM::mixed>::identifier};
  ctx.eq(T[i], ref::SYS[i], "traits-letter", mc::fmt("system #%d", i));
  ctx.state(mc::fmt("%d%d", i, j)); ctx.outcome(std::string(1, a));
}
