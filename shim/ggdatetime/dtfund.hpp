// Stand-in for the ggdatetime library (not available here): fundamental types.
// Written from the uses in /repo and the public interface of ggdatetime; all
// arithmetic is exact integer arithmetic.
#ifndef SHIM_DTFUND_HPP
#define SHIM_DTFUND_HPP
#include <cassert>
#include <cmath>
#include <cstdint>
#include <limits>
#include <algorithm>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <ostream>
#include <vector>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
namespace ngpt {
constexpr double mjd0_jd{2400000.5e0};
constexpr double j2000_jd{2451545.0e0};
constexpr double j2000_mjd{51544.5e0};
constexpr long jan61980{44244L};
constexpr long jan11901{15385L};
constexpr double sec_per_day{86400.0e0};
constexpr double days_in_julian_year{365.25e0};

#define SHIM_INT_TYPE(name, under)                                             \
  class name {                                                                 \
    under v_{};                                                                \
  public:                                                                      \
    typedef under underlying_type;                                             \
    static constexpr bool is_dt_fundamental_type{true};                        \
    static constexpr bool is_of_sec_type{false};                               \
    constexpr name() noexcept = default;                                       \
    explicit constexpr name(under i) noexcept : v_(i) {}                       \
    constexpr under as_underlying_type() const noexcept { return v_; }         \
    constexpr under &operator()() noexcept { return v_; }                      \
    friend constexpr bool operator==(name a, name b) noexcept { return a.v_ == b.v_; } \
    friend constexpr bool operator!=(name a, name b) noexcept { return a.v_ != b.v_; } \
    friend constexpr bool operator<(name a, name b) noexcept { return a.v_ < b.v_; }   \
    friend constexpr bool operator<=(name a, name b) noexcept { return a.v_ <= b.v_; } \
    friend constexpr bool operator>(name a, name b) noexcept { return a.v_ > b.v_; }   \
    friend constexpr bool operator>=(name a, name b) noexcept { return a.v_ >= b.v_; } \
    friend constexpr name operator+(name a, name b) noexcept { return name(a.v_ + b.v_); } \
    friend constexpr name operator-(name a, name b) noexcept { return name(a.v_ - b.v_); } \
    name &operator+=(name a) noexcept { v_ += a.v_; return *this; }            \
    name &operator-=(name a) noexcept { v_ -= a.v_; return *this; }            \
    name &operator++() noexcept { ++v_; return *this; }                        \
    name operator++(int) noexcept { name t(*this); ++v_; return t; }           \
    name &operator--() noexcept { --v_; return *this; }                        \
    SHIM_BODY_##name                                                           \
  };
class day_of_month;
class month;
#define SHIM_BODY_year bool is_leap() const noexcept { return (v_ % 4 == 0 && v_ % 100 != 0) || v_ % 400 == 0; }
#define SHIM_BODY_month bool is_valid() const noexcept { return v_ > 0 && v_ < 13; }
#define SHIM_BODY_hours
#define SHIM_BODY_minutes
#define SHIM_BODY_gps_week
#define SHIM_BODY_day_of_year
SHIM_INT_TYPE(year, int)
SHIM_INT_TYPE(month, int)
SHIM_INT_TYPE(gps_week, long)
SHIM_INT_TYPE(day_of_year, int)
SHIM_INT_TYPE(hours, int)
SHIM_INT_TYPE(minutes, int)
namespace shim {
inline int days_in(int y, int m) noexcept {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && year(y).is_leap() ? 29 : d[m - 1];
}
// days from civil (proleptic Gregorian) to MJD
inline long cal2mjd(int y, int m, int d) noexcept {
  long yy = y - (m <= 2); long era = (yy >= 0 ? yy : yy - 399) / 400; long yoe = yy - era * 400;
  long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
inline void mjd2cal(long mjd, int &y, int &m, int &d) noexcept {
  long z = mjd - 40587 + 719468; long era = (z >= 0 ? z : z - 146096) / 146097; long doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long yy = yoe + era * 400; long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  long mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp + (mp < 10 ? 3 : -9); y = yy + (m <= 2);
}
} // namespace shim
#define SHIM_BODY_day_of_month bool is_valid(year y, month m) const noexcept { return m.is_valid() && v_ > 0 && v_ <= shim::days_in(y.as_underlying_type(), m.as_underlying_type()); }
SHIM_INT_TYPE(day_of_month, int)
#define SHIM_BODY_modified_julian_day                                          \
  modified_julian_day(year y, month m, day_of_month d) : v_(0) {               \
    if (!m.is_valid()) throw std::out_of_range("modified_julian_day: invalid month"); \
    v_ = shim::cal2mjd(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type()); } \
  modified_julian_day(year y, day_of_year d) noexcept : v_(shim::cal2mjd(y.as_underlying_type(), 1, 1) + d.as_underlying_type() - 1) {} \
  explicit modified_julian_day(gps_week w, long sow = 0) noexcept : v_(jan61980 + w.as_underlying_type() * 7 + sow / 86400) {} \
  constexpr double to_julian_day() const noexcept { return static_cast<double>(v_) + mjd0_jd; } \
  std::tuple<year, month, day_of_month> to_ymd() const noexcept { int y, m, d; shim::mjd2cal(v_, y, m, d); return std::make_tuple(year(y), month(m), day_of_month(d)); }
SHIM_INT_TYPE(modified_julian_day, long)

#define SHIM_SEC_TYPE(name, FACT)                                              \
  class name {                                                                 \
    long v_{0};                                                                \
  public:                                                                      \
    typedef long underlying_type;                                              \
    static constexpr bool is_dt_fundamental_type{true};                        \
    static constexpr bool is_of_sec_type{true};                                \
    static constexpr long max_in_day{86400L * FACT};                           \
    template <typename T = long> static constexpr T sec_factor() noexcept { return static_cast<T>(FACT); } \
    template <typename T = double> static constexpr T sec_ifactor() noexcept { return static_cast<T>(1) / static_cast<T>(FACT); } \
    constexpr name() noexcept = default;                                       \
    explicit constexpr name(long i) noexcept : v_(i) {}                        \
    explicit constexpr name(hours h, minutes m, name s) noexcept : v_(s.v_ + (h.as_underlying_type() * 3600L + m.as_underlying_type() * 60L) * FACT) {} \
    constexpr long as_underlying_type() const noexcept { return v_; }          \
    constexpr long &operator()() noexcept { return v_; }                       \
    constexpr double to_fractional_seconds() const noexcept { return static_cast<double>(v_) / FACT; } \
    constexpr double fractional_seconds() const noexcept { return to_fractional_seconds(); } \
    constexpr double fractional_days() const noexcept { return static_cast<double>(v_) / max_in_day; } \
    constexpr bool more_than_day() const noexcept { return v_ > max_in_day; }  \
    constexpr int remove_days() noexcept { int d = 0; while (v_ >= max_in_day) { v_ -= max_in_day; ++d; } while (v_ < 0) { v_ += max_in_day; --d; } return d; } \
    friend constexpr bool operator==(name a, name b) noexcept { return a.v_ == b.v_; } \
    friend constexpr bool operator!=(name a, name b) noexcept { return a.v_ != b.v_; } \
    friend constexpr bool operator<(name a, name b) noexcept { return a.v_ < b.v_; }   \
    friend constexpr bool operator<=(name a, name b) noexcept { return a.v_ <= b.v_; } \
    friend constexpr bool operator>(name a, name b) noexcept { return a.v_ > b.v_; }   \
    friend constexpr bool operator>=(name a, name b) noexcept { return a.v_ >= b.v_; } \
    friend constexpr name operator+(name a, name b) noexcept { return name(a.v_ + b.v_); } \
    friend constexpr name operator-(name a, name b) noexcept { return name(a.v_ - b.v_); } \
    constexpr name operator-() const noexcept { return name(-v_); }            \
    friend constexpr name operator/(name a, name b) noexcept { return name(a.v_ / b.v_); } \
    friend constexpr long operator%(name a, name b) noexcept { return a.v_ % b.v_; } \
    friend constexpr name operator*(name a, long b) noexcept { return name(a.v_ * b); } \
    friend constexpr name operator*(long b, name a) noexcept { return name(a.v_ * b); } \
    name &operator+=(name a) noexcept { v_ += a.v_; return *this; }            \
    name &operator-=(name a) noexcept { v_ -= a.v_; return *this; }            \
  };
SHIM_SEC_TYPE(seconds, 1L)
SHIM_SEC_TYPE(milliseconds, 1000L)
SHIM_SEC_TYPE(microseconds, 1000000L)

template <typename S, typename T> constexpr T cast_to(S s) noexcept {
  if constexpr (T::max_in_day >= S::max_in_day) return T(s.as_underlying_type() * (T::max_in_day / S::max_in_day));
  else return T(s.as_underlying_type() / (S::max_in_day / T::max_in_day));
}
} // namespace ngpt
#endif
