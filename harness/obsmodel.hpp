#ifndef VERIF_OBSMODEL_HPP
#define VERIF_OBSMODEL_HPP
#include "common.hpp"
#include "gnssobsrv.hpp"
#include <algorithm>
using namespace ngpt;
static const SATELLITE_SYSTEM SYSV[8] = {SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas, SATELLITE_SYSTEM::galileo,
    SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss, SATELLITE_SYSTEM::irnss, SATELLITE_SYSTEM::mixed};
static inline int sys_index(SATELLITE_SYSTEM s) { for (int i = 0; i < 8; i++) if (SYSV[i] == s) return i; return -1; }
/// one term of the reference model
struct Term {
  int sys; std::string code; double coef;
  bool operator==(const Term &o) const { return sys == o.sys && code == o.code && coef == o.coef; }
  bool operator<(const Term &o) const { return std::tie(sys, code, coef) < std::tie(o.sys, o.code, o.coef); }
  std::string show() const { return std::string(1, ref::SYS[sys]) + "::" + code + "*" + mc::fmt("%f", coef); }
  GnssRawObservable raw() const { return GnssRawObservable(SYSV[sys], ObservationCode(code.c_str())); }
};
typedef std::vector<Term> Terms;
static inline std::string show(const Terms &t) { std::string s; for (auto &x : t) s += (s.empty() ? "" : "+") + x.show(); return s; }
static inline Term look(const __ObsPart &p) { return {sys_index(p.type().satsys()), p.type().code().to_string(), p.__coef}; }
static inline Terms look(const GnssObservable &o) { Terms t; for (auto &p : o.underlying_vector()) t.push_back(look(p)); return t; }
#endif
