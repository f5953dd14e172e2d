// Reference model of observation RINEX 3 files: header and epochs as data, written column by column.
#ifndef VERIF_OBSFILE_HPP
#define VERIF_OBSFILE_HPP
#include "obsmodel.hpp"
#include <fstream>
#include <memory>
#include <unistd.h>
#include "ggdatetime/dtcalendar.hpp"
#include "ggdatetime/datetime_read.hpp"
#include "ggdatetime/datetime_write.hpp"
#include "obsrnx.hpp"
namespace obs {
typedef std::map<SATELLITE_SYSTEM, std::vector<std::vector<std::pair<std::size_t, double>>>> ReadMap;
typedef std::vector<std::pair<Satellite, std::vector<double>>> EpochVec;
typedef std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> InMap;
inline SATELLITE_SYSTEM system(char c) { return SYSV[std::strchr(ref::SYS, c) - ref::SYS]; }
inline void write(const std::string &path, const std::string &s) { FILE *f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); std::abort(); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
/// the k-th of a list of different observation codes
inline std::string code(int k) { static const char T[] = "CLDS", B[] = "125678", A[] = "CPWXIQYMNSLABZED"; std::string s; s += T[k % 4]; k /= 4; s += B[k % 6]; k /= 6; s += A[k % 16]; return s; }
struct Line { std::string text, label; std::string str() const { std::string t = text; t.resize(60, ' '); return t + label; } };
inline Line first(char sys = 'M', const char *ver = "3.04") { return {mc::fmt("%9s           OBSERVATION DATA    %c", ver, sys), "RINEX VERSION / TYPE"}; }
inline std::vector<Line> types(char sys, const std::vector<std::string> &codes) {
  std::vector<Line> l; std::string t = mc::fmt("%c  %3d", sys, (int)codes.size()); size_t i = 0;
  do { for (int k = 0; k < 13 && i < codes.size(); k++, i++) t += " " + codes[i]; l.push_back({t, "SYS / # / OBS TYPES"}); t = "      "; } while (i < codes.size());
  return l;
}
inline std::string text(const std::vector<Line> &l) { std::string t; for (auto &x : l) t += x.str() + "\n"; return t; }
inline const std::string END() { return Line{"", "END OF HEADER"}.str() + "\n"; }
/// one field: 14 columns, loss of lock, signal strength
struct Cell { std::string v; char lli = ' ', ssi = ' '; bool missing() const { return v.find_first_not_of(' ') == std::string::npos; } std::string str() const { std::string t = v; if (t.size() < 14) t = std::string(14 - t.size(), ' ') + t; return t + lli + ssi; } };
inline Cell cell(double v, char l = ' ', char s = ' ') { return {mc::fmt("%14.3f", v), l, s}; }
struct Sat { char sys; int prn; std::vector<Cell> c; };
enum Trim { FULL, TRIMMED, NOFLAGS, PADDED };
struct Epoch {
  int y = 2019, m = 1, d = 1, hh = 0, mi = 0; std::string sec = "  0.0000000"; char flag = '0'; std::string off; std::vector<Sat> s; Trim trim = FULL;
  double sod() const { return hh * 3600.0 + mi * 60.0 + std::strtod(sec.c_str(), nullptr); }
  std::string str(bool nl = true) const {
    std::string t = mc::fmt("> %04d %02d %02d %02d %02d", y, m, d, hh, mi) + sec + "  " + flag + mc::fmt("%3d", (int)s.size()); if (!off.empty()) t += "      " + off; t += "\n";
    for (auto &x : s) { std::string l = mc::fmt("%c%02d", x.sys, x.prn); for (auto &c : x.c) l += c.str(); size_t n = l.find_last_not_of(' '); if (trim == TRIMMED) l.resize(n + 1); else if (trim == NOFLAGS) { while (l.size() > 3 && !x.c.empty() && l.size() == 3 + 16 * x.c.size()) l.resize(l.size() - 2); } else if (trim == PADDED) l += "   "; t += l + "\n"; }
    if (!nl) t.pop_back(); return t;
  }
};
/// days from MJD 0, counting years from 1980
inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
inline long mjd(int y, int m, int d) { long n = 44239; for (int i = 1980; i < y; i++) n += 365 + leap(i); for (int i = 1; i < m; i++) n += mdays(y, i); return n + d - 1; }
/// requested combination: (code, coefficient) terms of one system
struct Req { char sys; std::vector<std::pair<std::string, double>> t; GnssObservable make() const { GnssObservable o(system(sys), ObservationCode(t[0].first.c_str()), t[0].second); for (size_t i = 1; i < t.size(); i++) o.add(system(sys), ObservationCode(t[i].first.c_str()), t[i].second); return o; } };
inline InMap inmap(const std::vector<Req> &r) { InMap m; for (auto &x : r) m[system(x.sys)].push_back(x.make()); return m; }
typedef std::map<char, std::vector<std::string>> Types;
/// compare what was read with the epoch written
inline void compare(mc::Ctx &ctx, const Epoch &e, const Types &ty, const std::vector<Req> &rq, const EpochVec &v, int n, modified_julian_day md, double sod, const std::string &w) {
  ctx.eq(md.as_underlying_type(), mjd(e.y, e.m, e.d), "epoch-day", w); if (std::fabs(sod - e.sod()) > 1e-10) ctx.fail("epoch-second", w + mc::fmt(": %.9f, expected %.9f", sod, e.sod()));
  int k = 0; for (auto &s : e.s) {
    bool wanted = false; for (auto &r : rq) wanted |= r.sys == s.sys; if (!wanted) continue;
    std::string q = w + mc::fmt(": %c%02d", s.sys, s.prn); if (k >= n) ctx.fail("satellites", q + mc::fmt(": only %d read", n));
    ctx.eq((int)std::as_const(v[k].first).system(), (int)system(s.sys), "satellite-system", q); ctx.eq((int)std::as_const(v[k].first).prn(), s.prn, "satellite-prn", q);
    size_t j = 0; for (auto &r : rq) { if (r.sys != s.sys) continue; double want = 0, mag = 0; bool miss = false; auto &codes = ty.at(s.sys);
      for (auto &t : r.t) { size_t i = std::find(codes.begin(), codes.end(), t.first) - codes.begin(); if (i >= s.c.size() || s.c[i].missing()) { miss = true; continue; } double x = std::strtod(s.c[i].v.c_str(), nullptr) * t.second; want += x; mag += std::fabs(x); }
      double got = v[k].second.at(j); if (miss) want = RNXOBS_MISSING_VAL, mag = 0;
      if (!(std::fabs(got - want) <= (r.t.size() > 1 ? 1e-14 * mag : 4e-16 * std::fabs(want)))) { std::string term; for (auto &t : r.t) term += t.first + mc::fmt("*%g ", t.second); ctx.fail(miss ? "missing" : "value", q + " " + term + mc::fmt(": %.10f, expected %.10f", got, want)); }
      j++; }
    k++; }
  if (k != n) ctx.fail("satellites", w + mc::fmt(": %d read, expected %d", n, k));
}
} // namespace obs
#endif
