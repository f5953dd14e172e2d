// Stand-in for ggdatetime/datetime_read.hpp
#ifndef SHIM_DATETIME_READ_HPP
#define SHIM_DATETIME_READ_HPP
#include "dtcalendar.hpp"
#include <cerrno>
#include <cstdlib>
namespace ngpt {
/// "YYYY?MM?DD?HH?MM?SS[.ssss]"; throws when a number is missing or the date is not one
template <typename T> inline datetime<T> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  const char *s = str; char *e; int v[5]; const int saved = errno;
  for (int i = 0; i < 5; i++) {
    errno = 0; long n = std::strtol(s, &e, 10);
    if (errno || e == s || !*e || n > 100000 || n < -100000) { errno = saved; throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\" (argument #" + std::to_string(i + 1) + ")."); }
    v[i] = (int)std::labs(n); s = e + 1;
  }
  errno = 0; double sec = std::strtod(s, &e);
  if (errno || e == s || !(sec >= 0 && sec < 100)) { errno = saved; throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\" (argument #6)."); }
  errno = saved;
  if (stop) *stop = e;
  if (v[1] < 1 || v[1] > 12 || v[2] < 1 || v[2] > 31 || v[3] > 24 || v[4] > 60) throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\".");
  return datetime<T>(year(v[0]), month(v[1]), day_of_month(v[2]), hours(v[3]), minutes(v[4]), sec);
}
template <typename T> inline datetime<T> strptime_ymd(const char *str, char **stop = nullptr) {
  const char *s = str; char *e; int v[3];
  for (int i = 0; i < 3; i++) { long n = std::strtol(s, &e, 10); if (e == s) throw std::invalid_argument("Invalid date format: \"" + std::string(str) + "\"."); v[i] = (int)std::labs(n); s = *e ? e + 1 : e; }
  if (stop) *stop = e;
  return datetime<T>(year(v[0]), month(v[1]), day_of_month(v[2]), T(0));
}
} // namespace ngpt
#endif
