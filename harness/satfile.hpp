// Reference model of Bernese SATELLIT files.
#ifndef VERIF_SATFILE_HPP
#define VERIF_SATFILE_HPP
#include "atxfile.hpp"
#include "bern_utils.hpp"
namespace bern {
using atx::T; using atx::shift; using ngpt::BernSatellit;
struct Entry { int prn = 0; std::string type = "MW", name; int svn = -1; T from, until; std::string ifrq; std::string signals; int keep = 1000;
  std::string str() const { std::string l = mc::fmt("%3d  %-4s  %-17s", prn, type.c_str(), name.c_str()); l.resize(28, ' '); l += svn >= 0 ? mc::fmt("%3d    001  ", svn) : "            "; l.resize(41, ' '); auto d = [](const T &t) { return t.y ? mc::fmt("%04d %02d %02d %02d %02d %02d", t.y, t.m, t.d, t.s / 3600, t.s / 60 % 60, t.s % 60) : std::string(19, ' '); }; l += d(from) + "  " + d(until); l.resize(86, ' '); l += "   0.0000    0.0000    1.9130      0.0000  0.0000  1.0000     0.0000  1.0000  0.0000    "; l.resize(171, ' '); l += "GLONASS-M        "; l.resize(193, ' '); l += ifrq; l.resize(199, ' '); l += signals; while (keep == 1000 && l.back() == ' ') l.pop_back(); if (keep < 1000 && (int)l.size() > keep) l.resize(keep); return l + "\n"; } };
static std::string head(int part1 = 3, const std::string &more = "                    14-MAR-19") {
  std::string s = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2" + more + "\n" + std::string(80, '-') + "\n\nPART 1: PHYSICAL SATELLITE PARAMETERS\n"; for (int i = 0; i < part1; i++) s += mc::fmt("%3d     0  719   701  MW  2001 12 01 00 00 00  2099 12 31 00 00 00    GLONASS %5d    %3d\n", 101, i, -7); s += "\n\nPART 2: ON-BOARD SENSORS\n------------------------\n";
  s += "                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)\nPRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>\n\n"; return s; }
static const char *TAIL = "\n\nPART 3: SATELLITE PROBLEMS\n101  MW   GLONASS          777    001  2000 01 01 00 00 00                                                                                                                                      GLONASS-M               5\n";
struct File { std::string h = head(), t = TAIL; std::vector<Entry> e; std::string str() const { std::string s = h; for (auto &x : e) s += x.str(); return s + t; } };
static int find(const std::vector<Entry> &e, int svn, const T &t) { for (size_t i = 0; i < e.size(); i++) if (e[i].type == "MW" && e[i].svn == svn && !(t < e[i].from) && (!e[i].until.y || t < e[i].until)) return i; return -1; }
static void ask(mc::Ctx &ctx, BernSatellit &b, const std::vector<Entry> &e, int svn, const T &t, const std::string &w) {
  int f = 9999, p = 8888, st = 0; ctx.step(); ctx.site("lookup"); std::string d = w + mc::fmt(": SVN %d at %d-%d-%d %d s", svn, t.y, t.m, t.d, t.s); try { st = b.get_frequency_channel(svn, t.dt(), f, p); } catch (std::exception &x) { ctx.fail("exception", d + ": " + x.what()); } int i = find(e, svn, t); ctx.note(d, " -> ", st, " channel ", f, " prn ", p); if (i < 0) { ctx.eq(st, -1, "status", d); return; } ctx.eq(st, 0, "not-found", d); ctx.eq(f, std::atoi(e[i].ifrq.c_str()), "channel", d); ctx.eq(p, e[i].prn, "prn", d); }
static std::string put(mc::Ctx &ctx, const std::string &s, const char *n = "/b") { std::string p = ctx.scratch() + n; atx::write(p, s); return p; }
} // namespace bern
#endif
