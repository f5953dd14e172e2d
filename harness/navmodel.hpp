// Reference model of navigation RINEX 3 files: blocks as data, written column by column.
#ifndef VERIF_NAVMODEL_HPP
#define VERIF_NAVMODEL_HPP
#include "common.hpp"
#include <fstream>
#include <memory>
#include <unistd.h>
#include "ggdatetime/dtcalendar.hpp"
#include "ggdatetime/datetime_read.hpp"
#include "ggdatetime/datetime_write.hpp"
#include "navrnx.hpp"
using namespace ngpt;
namespace nav {
/// plain calendar (counts days year by year; independent of the shim)
inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
inline void ymd(long mjd, int &y, int &m, int &d) { // from 1980-01-06 = MJD 44244
  long n = mjd - 44239; y = 1980; while (n >= 365 + leap(y)) { n -= 365 + leap(y); ++y; } m = 1; while (n >= mdays(y, m)) { n -= mdays(y, m); ++m; } d = n + 1;
}
inline long mjd(int y, int m, int d) { long n = 44239; for (int i = 1980; i < y; i++) n += 365 + leap(i); for (int i = 1; i < m; i++) n += mdays(y, i); return n + d - 1; }
inline std::string d19(double v, char e = 'D') { std::string s = mc::fmt("%19.12E", v); for (auto &c : s) if (c == 'E') c = e; return s; }
inline double num(std::string s) { for (auto &c : s) if (c == 'D' || c == 'd') c = 'E'; return std::strtod(s.c_str(), nullptr); }
inline SATELLITE_SYSTEM system(char c) { return SATELLITE_SYSTEM(std::strchr(ref::SYS, c) - ref::SYS); }
inline int nfields(char s) { return s == 'R' || s == 'S' ? 15 : s == 'E' || s == 'I' ? 28 : 29; }
/// field defined (i.e. broadcast) in a block of system s? (Galileo and BeiDou have a spare in line 6)
inline bool spare(char s, int i) { return (s == 'E' && i == 22) || (s == 'C' && (i == 20 || i == 22)) || (s == 'I' && (i == 20 || i == 22 || i == 26)); }
struct Blk {
  char sys = 'G'; int prn = 1; long day = 58484; int sod = 0; std::vector<std::string> f; bool blank_spare = false;
  explicit Blk(char s = 'G', int p = 1) : sys(s), prn(p) { for (int i = 0; i < nfields(s); i++) f.push_back(d19((i % 2 ? -1 : 1) * (1.25 + i) * std::pow(10, i % 7 - 3))); if (s == 'R') f[2] = d19(172800); else if (s != 'S') f[11] = d19(172800), f[21] = d19(2034 - (s == 'C' ? 1356 : 0)); }
  void set(int i, double v) { f[i] = d19(v); }
  double val(int i) const { return num(f[i]); }
  std::string first() const { int y, m, d; ymd(day, y, m, d); return mc::fmt("%c%02d %04d %02d %02d %02d %02d %02d", sys, prn, y, m, d, sod / 3600, sod / 60 % 60, sod % 60); }
  std::vector<std::string> lines() const {
    std::vector<std::string> l; std::string s = first(); for (int i = 0; i < 3; i++) s += f[i]; l.push_back(s);
    for (size_t i = 3; i < f.size(); i += 4) { s = "    "; for (size_t k = i; k < i + 4 && k < f.size(); k++) s += spare(sys, k) && (blank_spare || sys == 'E') ? std::string(19, ' ') : f[k]; l.push_back(s); }
    return l;
  }
  std::string text(bool last_nl = true) const { std::string t; for (auto &s : lines()) t += s + "\n"; if (!last_nl) t.pop_back(); return t; }
  std::string show() const { return first(); }
};
inline std::string header(char sys = 'M') {
  std::string h; auto add = [&](std::string a, const char *l) { a.resize(60, ' '); h += a + l + "\n"; };
  add(mc::fmt("     3.04           NAVIGATION DATA     %c", sys), "RINEX VERSION / TYPE"); add("verif               explorer            20190101 000000 UTC", "PGM / RUN BY / DATE");
  add("    18    18  1929     7", "LEAP SECONDS"); add("", "END OF HEADER"); return h;
}
inline void write(const std::string &path, const std::string &s) {
  FILE *f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); std::abort(); } fwrite(s.data(), 1, s.size(), f); fclose(f);
}
/// compare a decoded frame with the block written
inline void compare(mc::Ctx &ctx, NavDataFrame &fr, const Blk &b, const std::string &w) {
  ctx.eq((int)fr.system(), (int)system(b.sys), "system", w); ctx.eq(fr.prn(), b.prn, "prn", w);
  auto toc = std::as_const(fr).toc(); 
  ctx.eq(toc.mjd().as_underlying_type(), b.day, "toc-day", w); ctx.eq(toc.sec().as_underlying_type(), (long)b.sod, "toc-second", w);
  for (int i = 0; i < (int)b.f.size(); i++) {
    if (spare(b.sys, i)) continue;
    double v = b.val(i); if (b.sys == 'R' && (i == 3 || i == 4 || i == 5 || i == 7 || i == 8 || i == 9 || i == 11 || i == 12 || i == 13)) v *= 1e3;
    double g = std::as_const(fr).data(i);
    if (!(g == v || std::fabs(g - v) <= 4e-16 * std::fabs(v))) ctx.fail("field", w + mc::fmt(": field %d [%s] read as %.15g", i, b.f[i].c_str(), g));
  }
}
/// read one block from a file made of it; returns the status
inline int load(const std::string &path, const std::string &text, NavDataFrame &fr) { write(path, text); std::ifstream in(path.c_str()); return fr.set_from_rnx3(in); }
} // namespace nav
#endif
