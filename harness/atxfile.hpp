// Reference model of ANTEX files: antenna blocks as data, written column by column; lookups by the definition.
#ifndef VERIF_ATXFILE_HPP
#define VERIF_ATXFILE_HPP
#include "common.hpp"
#include <memory>
#include <unistd.h>
#include "ggdatetime/dtcalendar.hpp"
#include "antex.hpp"
namespace atx {
using namespace ngpt;
inline SATELLITE_SYSTEM system(char c) { switch (c) { case 'G': return SATELLITE_SYSTEM::gps; case 'R': return SATELLITE_SYSTEM::glonass; case 'E': return SATELLITE_SYSTEM::galileo; case 'C': return SATELLITE_SYSTEM::beidou; case 'J': return SATELLITE_SYSTEM::qzss; case 'I': return SATELLITE_SYSTEM::irnss; default: return SATELLITE_SYSTEM::sbas; } }
inline void write(const std::string &path, const std::string &s) { FILE *f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); std::abort(); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
inline std::string line(const std::string &t, const std::string &label) { std::string l = t; l.resize(60, ' '); return l + label + "\n"; }
inline std::string trimmed(std::string s) { s.resize(s.find_last_not_of(" \0") + 1); return s; }
/// an epoch: date and second of day; order is that of the calendar
struct T { int y = 0, m = 0, d = 0, s = 0; bool operator<(const T &o) const { return std::tie(y, m, d, s) < std::tie(o.y, o.m, o.d, o.s); }
  datetime<seconds> dt() const { return datetime<seconds>(year(y), month(m), day_of_month(d), seconds(s)); }
  std::string str(const char *frac) const { return mc::fmt("%6d%6d%6d%6d%6d%5d.%s", y, m, d, s / 3600, s / 60 % 60, s % 60, frac); } };
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0)); }
inline T shift(T t, int s) { t.s += s; while (t.s >= 86400) { t.s -= 86400; if (++t.d > mdays(t.y, t.m)) { t.d = 1; if (++t.m > 12) { t.m = 1; t.y++; } } } while (t.s < 0) { t.s += 86400; if (--t.d < 1) { if (--t.m < 1) { t.m = 12; t.y--; } t.d = mdays(t.y, t.m); } } return t; }
struct Freq { char sys; int band; std::string n, e, u; bool rms = false; };
inline Freq freq(char s, int b, double v, bool rms = false) { return {s, b, mc::fmt("%.2f", v), mc::fmt("%.2f", -v / 2), mc::fmt("%.2f", v + 100.25), rms}; }
struct Block {
  std::string type;                 ///< 20 columns: antenna and radome, or satellite antenna type
  std::string serial;               ///< receiver
  char sys = 0; int prn = 0, svn = -1; std::string cospar; ///< satellite
  T from, until; std::vector<Freq> f; int dazi = 0; double zen2 = 90, dzen = 5; int extra = 0; bool rms_at_end = false; int rem[3] = {0, 0, 0}; ///< comment lines before VALID FROM, before VALID UNTIL, before the frequencies
  bool sat() const { return sys != 0; }
  std::string type20() const { std::string t = type; t.resize(20, ' '); if (!sat() && t.substr(16) == "    ") t.replace(16, 4, "NONE"); return t; }
  bool valid(const T &t) const { return !(t < from) && (!until.y || !(until < t)); }
  std::string str() const {
    std::string s = line("", "START OF ANTENNA"); std::string ty = type; ty.resize(20, ' ');
    s += line(ty + (sat() ? mc::fmt("%c%02d                 ", sys, prn) + (svn >= 0 ? mc::fmt("%c%03d      ", sys, svn) : "          ") + cospar : serial), "TYPE / SERIAL NO");
    s += line("ROBOT               Geo++ GmbH               5    15-JAN-08", "METH / BY / # / DATE"); s += line(mc::fmt("  %6.1f", (double)dazi), "DAZI"); s += line(mc::fmt("  %6.1f%6.1f%6.1f", 0.0, zen2, dzen), "ZEN1 / ZEN2 / DZEN"); s += line(mc::fmt("%6d", (int)f.size()), "# OF FREQUENCIES");
    if (extra & 4) s += line("A COMMENT BEFORE", "COMMENT");
    auto remarks = [&](int i) { for (int k = 0; k < rem[i]; k++) s += line(mc::fmt("%c%02d %05d  VALID UNTIL   G05", 'G', k % 90, k), "COMMENT"); };
    remarks(0); if (from.y) s += line(from.str("0000000"), "VALID FROM"); remarks(1); if (until.y) s += line(until.str("9999999"), "VALID UNTIL");
    if (extra & 1) s += line("IGS14_2038", "SINEX CODE"); if (extra & 2) { s += line("   G01 NOT A FREQUENCY", "COMMENT"); s += line("VALID FROM          2000     1     1     0     0  0", "COMMENT"); }
    remarks(2); std::string rms; for (auto &x : f) { std::string c = mc::fmt("   %c%02d", x.sys, x.band); s += line(c, "START OF FREQUENCY") + line(mc::fmt("%10s%10s%10s", x.n.c_str(), x.e.c_str(), x.u.c_str()), "NORTH / EAST / UP"); int nz = (int)(zen2 / dzen + 1.5); std::string g; for (int i = 0; i < nz; i++) g += mc::fmt("%8.2f", -0.25 * i); s += "   NOAZI" + g + "\n"; if (dazi) for (int a = 0; a <= 360; a += dazi) s += mc::fmt("%8.1f", (double)a) + g + "\n"; s += line(c, "END OF FREQUENCY");
      if (x.rms) { std::string q = line(c, "START OF FREQ RMS") + line("      9.91      9.92      9.93", "NORTH / EAST / UP") + "   NOAZI" + g + "\n" + line(c, "END OF FREQ RMS"); if (rms_at_end) rms += q; else s += q; } }
    return s + rms + line("", "END OF ANTENNA"); }
};
inline std::string header(char sys = 'M', const char *ver = "1.4", int comments = 1) { std::string s = line(mc::fmt("%8s            %c", ver, sys), "ANTEX VERSION / SYST") + line("A", "PCV TYPE / REFANT"); for (int i = 0; i < comments; i++) s += line("ALL ABOUT START OF ANTENNA", "COMMENT"); return s + line("", "END OF HEADER"); }
struct File { std::string head = header(); std::vector<Block> b; std::string str() const { std::string s = head; for (auto &x : b) s += x.str(); return s; } };
/// receiver query: type with radome, serial or none
struct Query { std::string type, serial; bool must = false; std::string type20() const { std::string t = type; t.resize(20, ' '); if (t.substr(16) == "    ") t.replace(16, 4, "NONE"); return t; } ReceiverAntenna make() const { ReceiverAntenna a(type.c_str()); if (!serial.empty()) a.set_serial_nr(serial.c_str()); return a; } };
inline bool matches(const Block &b, const Query &q, bool exact) { return !b.sat() && b.type20() == q.type20() && (exact ? !q.serial.empty() && trimmed(b.serial) == trimmed(q.serial) : trimmed(b.serial).empty()); }
/// index of the block the definition selects, or -1 - (1 no such model, 10 serial does not match), -100: only other serials of the model
inline int select(const std::vector<Block> &b, const Query &q) { int g = -1; for (size_t i = 0; i < b.size(); i++) if (matches(b[i], q, true)) return i; for (size_t i = 0; i < b.size(); i++) if (matches(b[i], q, false)) g = i; if (g >= 0) return q.must ? -11 : g; for (auto &x : b) if (!x.sat() && x.type20() == q.type20()) return -100; return -2; }
inline int select(const std::vector<Block> &b, char s, int prn, const T &t) { for (size_t i = 0; i < b.size(); i++) if (b[i].sat() && b[i].sys == s && b[i].prn == prn && b[i].valid(t)) return i; return -1; }
inline std::string show(AntennaPcoList &l) { std::ostringstream o; o.precision(17); for (auto &p : l.__vecref__()) { p.dummy_print(o); o << "; "; } return o.str(); }
inline std::string show(const Block &b) { std::ostringstream o; o.precision(17); for (auto &f : b.f) o << satsys_to_char(system(f.sys)) << "[" << ObservationCode(OBSERVABLE_TYPE::any, f.band).to_string() << "] " << std::strtod(f.n.c_str(), nullptr) << ", " << std::strtod(f.e.c_str(), nullptr) << ", " << std::strtod(f.u.c_str(), nullptr) << "; "; return o.str(); }
inline AntennaPcoList stale() { return AntennaPcoList(AntennaPco(ObservationCode(OBSERVABLE_TYPE::any, 9), SATELLITE_SYSTEM::irnss, 1, 2, 3)); }
inline void satinfo(mc::Ctx &ctx, Satellite &s, const Block &b, const std::string &w) {
  const Satellite &c = s; ctx.eq((int)c.system(), (int)system(b.sys), "satellite-system", w); ctx.eq(c.prn(), b.prn, "satellite-prn", w); ctx.eq(c.svn(), b.svn, "satellite-svn", w); ctx.eq(trimmed(std::string(s.cospar(), strnlen(s.cospar(), 10))), b.cospar, "satellite-cospar", w); std::string t = s.antenna().__underlying_char__(); ctx.eq(trimmed(t.substr(0, 20)), trimmed(b.type), "satellite-antenna", w); }
inline void ask(mc::Ctx &ctx, Antex &a, const std::vector<Block> &b, const Query &q, const std::string &w) {
  ctx.site("receiver"); ctx.step(); AntennaPcoList l = stale(); int st = q.must || (q.serial.size() + b.size()) % 2 ? a.get_antenna_pco(q.make(), l, q.must) : a.get_antenna_pco(q.make(), l), i = select(b, q); std::string d = w + ": [" + q.type20() + "] [" + q.serial + "]" + (q.must ? " must match" : ""); ctx.note(d, " -> ", st);
  if (i < 0) { if (st == 0) ctx.fail("found", d + ": " + show(l)); if (i != -100) ctx.eq(st, -1 - i, "status", d); else if (st <= 0) ctx.fail("status", d + mc::fmt(": %d", st)); ctx.eq(show(l), std::string(), "offsets-left", d); } else { if (st) ctx.fail("not-found", d + mc::fmt(": status %d, is block %d", st, i)); ctx.eq(show(l), show(b[i]), "offsets", d); } }
inline void ask(mc::Ctx &ctx, Antex &a, const std::vector<Block> &b, char s, int prn, const T &t, int how, const std::string &w) {
  ctx.step(); AntennaPcoList l = stale(); Satellite sv(SATELLITE_SYSTEM::irnss, 77); sv.svn() = 88; std::strcpy(sv.cospar(), "OLD"); int st, i = select(b, s, prn, t); std::string d = w + mc::fmt(": %c%02d at %d-%d-%d %d s", s, prn, t.y, t.m, t.d, t.s); datetime<seconds> at = t.dt();
  ctx.site("satellite"); if (how == 0) st = a.get_antenna_pco(prn, system(s), at, l, &sv); else if (how == 1) st = a.get_antenna_pco(prn, system(s), at, l); else st = a.get_satellite_info(prn, system(s), at, sv); ctx.note(d, " (", how, ") -> ", st);
  if (i < 0) { if (st <= 0) ctx.fail("found", d + mc::fmt(": status %d", st)); if (how < 2) ctx.eq(show(l), std::string(), "offsets-left", d); return; } if (st) ctx.fail("not-found", d + mc::fmt(": status %d, is block %d", st, i)); if (how < 2) ctx.eq(show(l), show(b[i]), "offsets", d); if (how != 1) satinfo(ctx, sv, b[i], d); }
} // namespace atx
#endif
