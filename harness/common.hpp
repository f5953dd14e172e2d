// Shared pieces of the reference models (independent of the code under test).
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "mc.hpp"
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
// needed by the project's own headers before they are included
#include <cassert>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <iostream>

namespace ref {
/// RINEX 3.04 system letters, in the order of the library's enumeration
inline const char *SYS = "GRSECJIM";
/// RINEX 3.04 carrier frequencies in MHz (table 4-10 and 5-x); GLONASS: channel 0
inline const std::map<char, std::map<int, double>> &freq() {
  static const std::map<char, std::map<int, double>> f = {
      {'G', {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}}},
      {'R', {{1, 1602.0}, {2, 1246.0}, {3, 1202.025}}},
      {'E', {{1, 1575.42}, {5, 1176.45}, {6, 1278.75}, {7, 1207.140}, {8, 1191.795}}},
      {'S', {{1, 1575.42}, {5, 1176.45}}},
      {'J', {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}, {6, 1278.75}}},
      {'C', {{1, 1575.42}, {2, 1561.098}, {5, 1176.45}, {6, 1268.52}, {7, 1207.140}, {8, 1191.795}}},
      {'I', {{5, 1176.45}, {9, 2492.028}}}};
  return f;
}
} // namespace ref
#endif
