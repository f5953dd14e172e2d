// Stand-in for ggdatetime/datetime_write.hpp
#ifndef SHIM_DATETIME_WRITE_HPP
#define SHIM_DATETIME_WRITE_HPP
#include "dtcalendar.hpp"
#include <cstdio>
namespace ngpt {
template <typename T> inline std::string strftime_ymd_hms(const datetime<T> &t, char delim = ' ') {
  auto [y, m, d] = t.as_ymd(); auto [h, mi, s, f] = t.as_hmsf(); char b[96];
  int n = std::snprintf(b, sizeof b, "%04d/%02d/%02d%c%02d:%02d:%02ld", y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type(), delim, h.as_underlying_type(), mi.as_underlying_type(), s.as_underlying_type());
  if (T::max_in_day > 86400) { int w = T::max_in_day == milliseconds::max_in_day ? 3 : 6; std::snprintf(b + n, sizeof b - n, ".%0*ld", w, f); }
  return b;
}
template <typename T> inline std::string strftime_ymd_hmfs(const datetime<T> &t, char delim = ' ') { return strftime_ymd_hms(t, delim); }
} // namespace ngpt
#endif
