// Stand-in for ggdatetime/dtcalendar.hpp: datetime<T>
#ifndef SHIM_DTCALENDAR_HPP
#define SHIM_DTCALENDAR_HPP
#include "dtfund.hpp"
#include <cstring>
namespace ngpt {
/// ggdatetime cuts fractions of its resolution off; without the noise of the double
inline long detail_trunc(double v) noexcept { return static_cast<long>(std::floor(v + 5e-8)); }
template <typename S> class datetime_interval {
  modified_julian_day d_; S s_;
public:
  constexpr datetime_interval() noexcept = default;
  explicit constexpr datetime_interval(modified_julian_day d, S s) noexcept : d_(d), s_(s) {}
  constexpr modified_julian_day days() const noexcept { return d_; }
  constexpr S secs() const noexcept { return s_; }
  constexpr S sec() const noexcept { return s_; }
  constexpr S to_sec_type() const noexcept { return S(d_.as_underlying_type() * S::max_in_day + s_.as_underlying_type()); }
  constexpr double as_mjd() const noexcept { return d_.as_underlying_type() + s_.fractional_days(); }
};
template <typename S> class datetime {
  static_assert(S::is_of_sec_type, "");
  modified_julian_day d_{}; S s_{};
  void norm() noexcept {
    long v = s_.as_underlying_type(), q = v / S::max_in_day; v -= q * S::max_in_day; if (v < 0) { v += S::max_in_day; --q; }
    s_ = S(v); d_ = modified_julian_day(d_.as_underlying_type() + q);
  }
  __extension__ typedef __int128 wide;
public:
  typedef S sec_type;
  static datetime max() noexcept { return datetime(modified_julian_day(1000000000L), S(0)); }
  static datetime min() noexcept { return datetime(modified_julian_day(-1000000000L), S(0)); }
  static datetime now() { throw std::logic_error("datetime::now() is not available"); }
  datetime() noexcept : d_(jan11901), s_(0) {}
  explicit datetime(year y, month m, day_of_month d, S s) : d_(y, m, d), s_(s) { norm(); }
  explicit datetime(year y, month m, day_of_month d) : d_(y, m, d), s_(0) {}
  explicit datetime(year y, day_of_year d, S s) : d_(y, d), s_(s) { norm(); }
  explicit datetime(year y, month m, day_of_month d, hours h, minutes mi, S s) : d_(y, m, d), s_(h, mi, s) { norm(); }
  explicit datetime(year y, month m, day_of_month d, hours h, minutes mi, double fsec) : d_(y, m, d), s_(h, mi, S(detail_trunc(fsec * S::template sec_factor<double>()))) { norm(); }
  explicit datetime(year y, month m, day_of_month d, double fsec) : d_(y, m, d), s_(detail_trunc(fsec * S::template sec_factor<double>())) { norm(); }
  template <class T, class = std::enable_if_t<T::is_of_sec_type>> datetime(modified_julian_day d, T s) noexcept : d_(d), s_(ngpt::cast_to<T, S>(s)) { norm(); }
  explicit datetime(modified_julian_day d, hours h, minutes m, S s) noexcept : d_(d), s_(h, m, s) { norm(); }
  template <class T, class = std::enable_if_t<T::is_of_sec_type>> explicit datetime(gps_week w, T sow) noexcept : d_(jan61980 + w.as_underlying_type() * 7), s_(ngpt::cast_to<T, S>(sow)) { norm(); }
  modified_julian_day mjd() const noexcept { return d_; }
  modified_julian_day &mjd() noexcept { return d_; }
  S sec() const noexcept { return s_; }
  S &sec() noexcept { return s_; }
  template <class T> datetime<T> cast_to() const noexcept { return datetime<T>(d_, ngpt::cast_to<S, T>(s_)); }
  template <class T> T sec_as() const noexcept { return ngpt::cast_to<S, T>(s_); }
  double sec_as_double() const noexcept { return s_.to_fractional_seconds(); }
  template <class T, class = std::enable_if_t<T::is_of_sec_type>> void add_seconds(T t) noexcept { s_ += ngpt::cast_to<T, S>(t); norm(); }
  template <class T, class = std::enable_if_t<T::is_of_sec_type>> void remove_seconds(T t) noexcept { s_ -= ngpt::cast_to<T, S>(t); norm(); }
  void remove_days(modified_julian_day d) noexcept { d_ -= d; }
  void add_days(modified_julian_day d) noexcept { d_ += d; }
  datetime &operator+=(const datetime_interval<S> &i) noexcept { d_ += i.days(); s_ += i.secs(); norm(); return *this; }
  datetime &operator-=(const datetime_interval<S> &i) noexcept { d_ -= i.days(); s_ -= i.secs(); norm(); return *this; }
  datetime operator+(const datetime_interval<S> &i) const noexcept { datetime t(*this); t += i; return t; }
  datetime_interval<S> operator-(const datetime &b) const noexcept { return datetime_interval<S>(d_ - b.d_, s_ - b.s_); }
  datetime_interval<S> delta_date(const datetime &b) const noexcept { return *this - b; }
  S delta_sec(const datetime &b) const noexcept { return S((d_.as_underlying_type() - b.d_.as_underlying_type()) * S::max_in_day + s_.as_underlying_type() - b.s_.as_underlying_type()); }
  double as_mjd() const noexcept { return d_.as_underlying_type() + s_.fractional_days(); }
  double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  std::tuple<year, month, day_of_month> as_ymd() const noexcept { return d_.to_ymd(); }
  std::tuple<hours, minutes, S, long> as_hmsf() const noexcept {
    long f = S::template sec_factor<long>(), v = s_.as_underlying_type(); return std::make_tuple(hours(v / (3600 * f)), minutes(v / (60 * f) % 60), S(v / f % 60), v % f);
  }
  template <class T, class = std::enable_if_t<T::is_of_sec_type>> gps_week as_gps_wsow(T &sow) const noexcept {
    long days = d_.as_underlying_type() - jan61980, w = days / 7, r = days % 7; if (r < 0) { r += 7; --w; }
    sow = T(r * T::max_in_day + ngpt::cast_to<S, T>(s_).as_underlying_type()); return gps_week(w);
  }
  gps_week as_gps_wsow(long &sow) const noexcept { seconds s; gps_week w = as_gps_wsow(s); sow = s.as_underlying_type(); return w; }
  gps_week as_gps_wsow(double &sow) const noexcept { S s; gps_week w = as_gps_wsow(s); sow = s.to_fractional_seconds(); return w; }
  wide ticks() const noexcept { return ((wide)d_.as_underlying_type() * S::max_in_day + s_.as_underlying_type()) * (microseconds::max_in_day / S::max_in_day); }
};
#define SHIM_CMP(op) template <class A, class B> inline bool operator op(const datetime<A> &a, const datetime<B> &b) noexcept { return a.ticks() op b.ticks(); }
SHIM_CMP(==) SHIM_CMP(!=) SHIM_CMP(<) SHIM_CMP(<=) SHIM_CMP(>) SHIM_CMP(>=)
template <class S> inline S delta_sec(const datetime<S> &a, const datetime<S> &b) noexcept { return a.delta_sec(b); }
template <class A, class B, class R = std::conditional_t<(A::max_in_day >= B::max_in_day), A, B>, class = std::enable_if_t<!std::is_same<A, B>::value>>
inline R delta_sec(const datetime<A> &a, const datetime<B> &b) noexcept { return a.template cast_to<R>().delta_sec(b.template cast_to<R>()); }
template <class S> inline datetime_interval<S> delta_date(const datetime<S> &a, const datetime<S> &b) noexcept { return a - b; }
/// TAI-UTC (leap seconds) on a day
inline int dat(modified_julian_day mjd) noexcept {
  static const long d[][2] = {{41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15}, {43144, 16}, {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21}, {45516, 22}, {46247, 23}, {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30}, {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
  int r = 10; for (auto &e : d) if (mjd.as_underlying_type() >= e[0]) r = e[1]; return r;
}
} // namespace ngpt
#endif
