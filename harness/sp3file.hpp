// Reference model of SP3-c/d files: header and epochs as data, written column by column.
#ifndef VERIF_SP3FILE_HPP
#define VERIF_SP3FILE_HPP
#include "common.hpp"
#include <cmath>
#include <iostream>
#include <memory>
#include <unistd.h>
#include "ggdatetime/dtcalendar.hpp"
#include "ggdatetime/datetime_write.hpp"
#include "sp3c.hpp"
namespace sp3 {
using namespace ngpt;
inline SATELLITE_SYSTEM system(char c) { return char_to_satsys(c); }
inline void write(const std::string &path, const std::string &s) { FILE *f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); std::abort(); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
inline long mjd(int y, int m, int d) { long n = 44239; for (int i = 1980; i < y; i++) n += 365 + leap(i); for (int i = 1; i < m; i++) n += mdays(y, i); return n + d - 1; }
/// a point in time: day and microseconds
struct T { int y = 2019, m = 3, d = 31; long us = 0;
  long day() const { return mjd(y, m, d); }
  T plus(long dus) const { T t = *this; t.us += dus; while (t.us >= 86400000000L) { t.us -= 86400000000L; if (++t.d > mdays(t.y, t.m)) { t.d = 1; if (++t.m > 12) { t.m = 1; t.y++; } } } return t; }
  std::string str() const { return mc::fmt("%04d %2d %2d %2d %2d %2ld.%06ld00", y, m, d, (int)(us / 3600000000L), (int)(us / 60000000L % 60), us / 1000000L % 60, us % 1000000L); } };
struct Rec { char sys; int prn; std::string x, y, z, c; std::string tail; ///< columns 61-80
  std::string str(bool trim = true) const { std::string l = mc::fmt("P%c%02d%14s%14s%14s%14s", sys, prn, x.c_str(), y.c_str(), z.c_str(), c.c_str()) + tail; if (trim) l.resize(l.find_last_not_of(' ') + 1); return l; }
  bool set(int col, char f) const { return (int)tail.size() > col - 61 && tail[col - 61] == f; } };
/// standard deviations and flags: clock event, clock prediction, manoeuvre, orbit prediction
inline std::string tail(bool sd, int f) { std::string t = sd ? " 10 11 12 150" : "             "; t += ' '; t += f & 1 ? 'E' : ' '; t += f & 2 ? 'P' : ' '; t += "  "; t += f & 4 ? 'M' : ' '; t += f & 8 ? 'P' : ' '; return t; }
inline Rec rec(char s, int p, double v, int f = 0) { return {s, p, mc::fmt("%.6f", v), mc::fmt("%.6f", -v / 2), mc::fmt("%.6f", v + 1.25), mc::fmt("%.6f", v / 100), tail(true, f)}; }
struct Epoch { T t; std::vector<Rec> r; std::vector<std::string> after; ///< other lines after each record
  bool trim = true;
  std::string str() const { std::string s = "*  " + t.str() + "\n"; for (size_t i = 0; i < r.size(); i++) { s += r[i].str(trim) + "\n"; if (i < after.size()) s += after[i]; } return s; } };
struct File { char ver = 'c'; T start; int neph = 96; std::string used = "ORBIT", crd = "IGS14", type = "HLM", agency = " IGS", sys = "GPS"; long interval = 900000000L; std::vector<std::pair<char, int>> sats; std::vector<std::string> comments{"/* A COMMENT", "/* ANOTHER", "/* P", "/*"}; std::vector<Epoch> e; bool eof = true;
  std::string header() const {
    std::string h = mc::fmt("#%cP", ver) + start.str() + mc::fmt(" %7d %5s %5s %3s %4s\n", neph, used.c_str(), crd.c_str(), type.c_str(), agency.c_str()); long d = start.day() - 44244;
    h += mc::fmt("## %4ld %15.8f %14.8f %5ld %15s\n", d / 7, (d % 7) * 86400.0 + start.us / 1e6, interval / 1e6, start.day(), mc::fmt("%.13f", start.us / 86400e6).c_str());
    int lines = std::max<int>(5, (sats.size() + 16) / 17); for (int w = 0; w < 2; w++) for (int i = 0; i < lines; i++) { std::string l = w ? "++       " : i ? "+        " : mc::fmt("+  %3d   ", (int)sats.size()); for (int k = i * 17; k < i * 17 + 17; k++) l += k < (int)sats.size() ? w ? mc::fmt("%3d", 2 + k % 9) : mc::fmt("%c%02d", sats[k].first, sats[k].second) : "  0"; h += l + "\n"; }
    h += mc::fmt("%%c M  cc %3s ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n", sys.c_str()); h += "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"; h += "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n"; for (int i = 0; i < 2; i++) h += "%i    0    0    0    0      0      0      0      0         0\n"; for (auto &c : comments) h += c + "\n"; return h; }
  std::string str() const { std::string s = header(); for (auto &x : e) s += x.str(); if (eof) s += "EOF\n"; return s; } };
typedef std::vector<Sp3EpochSvRecord> Vec;
inline void compare(mc::Ctx &ctx, const Epoch &e, const datetime<microseconds> &t, const Vec &v, int n, const std::string &w) {
  if (t.mjd().as_underlying_type() != e.t.day() || t.sec().as_underlying_type() != e.t.us) ctx.fail("epoch-time", w + mc::fmt(": day %ld %ld us, written %ld %ld", (long)t.mjd().as_underlying_type(), (long)t.sec().as_underlying_type(), e.t.day(), e.t.us));
  ctx.eq(n, (int)e.r.size(), "records", w);
  for (int i = 0; i < n; i++) { const Rec &r = e.r[i]; std::string q = w + mc::fmt(": %c%02d", r.sys, r.prn); ctx.eq((int)v[i].s_, (int)system(r.sys), "system", q); ctx.eq(v[i].prn_, r.prn, "prn", q);
    const std::string *S[] = {&r.x, &r.y, &r.z, &r.c}; bool pos = false; for (int k = 0; k < 4; k++) { double x = std::strtod(S[k]->c_str(), nullptr), want = k < 3 ? x * 1e3 : x; if (k < 3) pos |= x == 0; if (!(std::fabs(v[i].vals_[k] - want) <= 4e-16 * std::fabs(want))) ctx.fail(k < 3 ? "position" : "clock", q + mc::fmt(": %d is %.9f, written %s", k, v[i].vals_[k], S[k]->c_str())); }
    auto fl = [&](Sp3Event ev, bool want, const char *key) { if (v[i].flag_.is_set(ev) != want) ctx.fail(key, q + " [" + r.str() + (want ? "]: not set" : "]: set")); };
    fl(Sp3Event::bad_abscent_position, pos, "flag-position"); fl(Sp3Event::bad_abscent_clock, std::strtod(r.c.c_str(), nullptr) >= 999999, "flag-clock"); fl(Sp3Event::clock_event, r.set(75, 'E'), "flag-clock-event"); fl(Sp3Event::clock_prediction, r.set(76, 'P'), "flag-clock-prediction"); fl(Sp3Event::maneuver, r.set(79, 'M'), "flag-manoeuvre"); fl(Sp3Event::orbit_prediction, r.set(80, 'P'), "flag-orbit-prediction"); }
}
/// reads all epochs; the last one may come with the end-of-file status
struct Sut { mc::Ctx &ctx; Sp3c r; Vec v; bool ended = false; Sut(mc::Ctx &c, const std::string &p) : ctx(c), r(p.c_str()), v(r.allocate_epoch_vector()) {}
  int next(datetime<microseconds> &t, int &n) { ctx.site("read"); ctx.step(); n = 99; int st = r.get_next_epoch(t, v, n); ctx.note("read -> ", st, " with ", n); return st; }
  void read(const Epoch &e, bool last, const std::string &w) { datetime<microseconds> t; int n; int st = next(t, n); if (st > 0 || (st < 0 && !last)) ctx.fail("read-status", w + mc::fmt(": status %d", st)); compare(ctx, e, t, v, n, w); }
  void end(const std::string &w) { datetime<microseconds> t; int n; int st = next(t, n); if (st >= 0) ctx.fail("end-status", w + mc::fmt(": status %d at the end", st)); if (n > 0) ctx.fail("end-records", w + mc::fmt(": %d records at the end", n)); } };
} // namespace sp3
#endif
