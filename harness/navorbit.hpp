// Reference orbits and clocks (long double, written from the ICD formulas; Kepler by Newton/bisection).
#ifndef VERIF_NAVORBIT_HPP
#define VERIF_NAVORBIT_HPP
#include "navmodel.hpp"
#include <cmath>
namespace nav {
typedef long double ld;
struct Const { ld mu, we, F; };
inline Const constants(char s) {
  const ld c = 299792458.0L;
  if (s == 'G') return {3.986005e14L, 7.2921151467e-5L, -4.442807633e-10L};
  if (s == 'E') return {3.986004418e14L, 7.2921151467e-5L, -4.442807309e-10L};
  return {3.986004418e14L, 7.2921150e-5L, -2 * sqrtl(3.986004418e14L) / (c * c)};
}
inline ld kepler(ld M, ld e) { ld E = M + e * sinl(M); for (int i = 0; i < 60; i++) { ld d = (E - e * sinl(E) - M) / (1 - e * cosl(E)); E -= d; if (fabsl(d) < 1e-19L) break; } return E; }
inline ld anomaly(const Blk &b, ld tk) { Const k = constants(b.sys); ld A = b.val(10) * (ld)b.val(10); ld n = sqrtl(k.mu / (A * A * A)) + b.val(5); return kepler(b.val(6) + n * tk, b.val(8)); }
/// ECEF position tk seconds after toe
inline void position(const Blk &b, ld tk, ld *x) {
  Const k = constants(b.sys); ld e = b.val(8), A = b.val(10) * (ld)b.val(10), E = anomaly(b, tk);
  ld v = atan2l(sqrtl(1 - e * e) * sinl(E), cosl(E) - e), f = v + b.val(17), s2 = sinl(2 * f), c2 = cosl(2 * f);
  ld u = f + b.val(9) * s2 + b.val(7) * c2, r = A * (1 - e * cosl(E)) + b.val(4) * s2 + b.val(16) * c2, i = b.val(15) + b.val(14) * s2 + b.val(12) * c2 + b.val(19) * tk;
  ld O = b.val(13) + (b.val(18) - k.we) * tk - k.we * b.val(11), xp = r * cosl(u), yp = r * sinl(u);
  x[0] = xp * cosl(O) - yp * cosl(i) * sinl(O); x[1] = xp * sinl(O) + yp * cosl(i) * cosl(O); x[2] = yp * sinl(i);
}
/// clock correction: dt seconds after toc, tk seconds after toe
inline ld clock(const Blk &b, ld dt, ld tk) { return b.val(0) + b.val(1) * dt + b.val(2) * dt * dt + constants(b.sys).F * b.val(8) * b.val(10) * sinl(anomaly(b, tk)); }
/// absolute seconds since MJD 0
struct Epoch { long mjd; long ns_hi; }; 
/// A Keplerian ephemeris of system s: toe = week (GPS count) and second of week
inline Blk ephemeris(char s, int prn, long week, long sow, double e, double M0, int harm) {
  Blk b(s, prn); for (auto &f : b.f) f = d19(0);
  b.day = 44244 + 7 * week + sow / 86400; b.sod = sow % 86400;
  b.set(0, -2.345678901234e-4); b.set(1, 3.456789012345e-12); b.set(2, 1.1e-18); b.set(3, 45);
  b.set(5, harm ? 4.567890123456e-9 : 0); b.set(6, M0); b.set(8, e); b.set(10, s == 'G' ? 5.153712345678e3 : s == 'E' ? 5.440612345678e3 : prn < 17 && prn > 5 && prn != 11 && prn != 12 && prn != 14 ? 6.493412345678e3 : 5.282612345678e3);
  if (harm == 1 || harm == 2) { b.set(4, -8.215625e1); b.set(7, -4.321098765432e-6); b.set(9, 7.654321098765e-6); b.set(12, -1.234567890123e-7); b.set(14, 2.109876543210e-7); b.set(16, 2.4834375e2); }
  if (harm == 2) { b.set(4, 1.0131e2); b.set(16, -1.77e2); b.set(7, 9.1e-6); b.set(9, -3.3e-6); b.set(12, 3.1e-7); b.set(14, -2.5e-7); }
  b.set(11, sow); b.set(13, harm == 2 ? 2.876543210987 : -1.234567890123); b.set(15, harm == 2 ? 0.9345678901234 : 0.9712345678901); b.set(17, harm == 2 ? -2.345678901234 : 0.765432109876);
  b.set(18, harm ? -8.123456789012e-9 : 0); b.set(19, harm ? (harm == 2 ? -3.4e-10 : 2.345678901234e-10) : 0); b.set(21, week - (s == 'C' ? 1356 : 0)); b.set(24, 0); if (s == 'G') b.set(28, 4); b.set(27, sow > 30 ? sow - 30 : 604770);
  return b;
}
template <class T> datetime<T> at(long mjd, long long ms) { // ms milliseconds after 0h of mjd (may be negative or more than a day)
  while (ms < 0) { ms += 86400000; mjd--; } while (ms >= 86400000) { ms -= 86400000; mjd++; }
  return datetime<T>(modified_julian_day(mjd), T(ms * (T::max_in_day / 86400) / 1000));
}
/// all observable content of a frame
inline std::string content(const NavDataFrame &f) {
  std::string s((const char *)nullptr, 0); auto add = [&](const void *p, size_t n) { s.append((const char *)p, n); };
  int a[2] = {(int)f.system(), f.prn()}; add(a, sizeof a); for (int i = 0; i < 31; i++) { double d = f.data(i); add(&d, 8); }
  auto c = f.toc(); auto e = f.toe<seconds>(); long t[4] = {c.mjd().as_underlying_type(), c.sec().as_underlying_type(), e.mjd().as_underlying_type(), e.sec().as_underlying_type()}; add(t, sizeof t); return s;
}
/// GLONASS equations of motion (ICD J.2.1), long double
inline void gderiv(const ld *x, const ld *a, ld *d) {
  const ld GM = 398600441.8e6L, AE = 6378136.0L, J2 = 1082625.75e-9L, W = 7.2921151467e-5L;
  ld r = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), g = -GM / (r * r * r), j = -1.5L * J2 * GM * AE * AE / powl(r, 5), z = x[2] * x[2] / (r * r);
  d[0] = x[3]; d[1] = x[4]; d[2] = x[5];
  d[3] = g * x[0] + j * x[0] * (1 - 5 * z) + W * W * x[0] + 2 * W * x[4] + a[0]; d[4] = g * x[1] + j * x[1] * (1 - 5 * z) + W * W * x[1] - 2 * W * x[3] + a[1]; d[5] = g * x[2] + j * x[2] * (3 - 5 * z) + a[2];
}
inline void gstep(ld *x, const ld *a, ld h) {
  ld k1[6], k2[6], k3[6], k4[6], y[6]; gderiv(x, a, k1); for (int i = 0; i < 6; i++) y[i] = x[i] + h / 2 * k1[i]; gderiv(y, a, k2); for (int i = 0; i < 6; i++) y[i] = x[i] + h / 2 * k2[i]; gderiv(y, a, k3);
  for (int i = 0; i < 6; i++) y[i] = x[i] + h * k3[i]; gderiv(y, a, k4); for (int i = 0; i < 6; i++) x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
}
/// GLONASS block: clock epoch and frame time
inline Blk glonass(int prn, long day, int sod, long tb_day, int tb_sod, int orbit) {
  static const double O[4][9] = { // km, km/s, km/s2
    {1.2213456789e4, -0.871234567, 9.313225746155e-10, 1.1234567891e4, 2.712345678, -2.793967723846e-9, 1.9212345678e4, -1.029876543, 0.0},
    {-2.2345678901e4, 0.451234567, -1.862645149231e-9, 5.234567890e3, 0.701234567, 1.862645149231e-9, -1.0987654321e4, -3.441234567, 9.313225746155e-10},
    {1.45e2, -3.123456789, 0.0, 2.5405678901e4, 0.012345678, 0.0, 1.234e3, 1.4321, 0.0},
    {6.512345678e3, 0.712345678, 2.793967723846e-9, -1.287654321e4, -2.412345678, -1.862645149231e-9, 2.1012345678e4, 1.601234567, -2.793967723846e-9}};
  Blk b('R', prn); b.day = day; b.sod = sod; b.set(0, -7.612345678901e-5); b.set(1, 1.818989403546e-12); long wd = (tb_day - 44244) % 7; b.set(2, wd * 86400.0 + tb_sod);
  for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) b.set(3 + 4 * k + j, O[orbit][3 * k + j]);
  b.set(6, 0); b.set(10, -4); b.set(14, 0); return b;
}
} // namespace nav
#endif
