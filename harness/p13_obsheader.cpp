// MC-PROPERTIES: P13
#include "obsfile.hpp"
#include <iostream>
using namespace obs;
/// what the header says; fields as written, without trailing blanks
struct Head {
  char sys = 'M'; std::string ver = "3.04"; std::string marker, number, rnum, rtype, rver, anum, ant; std::string pos[3], ecc[3]; int clk = -1; std::string tfirst; Types ty; std::string order;
  bool has[8] = {}; // marker, number, receiver, antenna, position, eccentricity, clock, time
  std::vector<Line> line(int k) const {
    switch (k) {
    case 0: return {{marker, "MARKER NAME"}}; case 1: return {{number, "MARKER NUMBER"}};
    case 2: return {{mc::fmt("%-20s%-20s%-20s", rnum.c_str(), rtype.c_str(), rver.c_str()), "REC # / TYPE / VERS"}};
    case 3: return {{mc::fmt("%-20s%-20s", anum.c_str(), ant.c_str()), "ANT # / TYPE"}};
    case 4: return {{mc::fmt("%14s%14s%14s", pos[0].c_str(), pos[1].c_str(), pos[2].c_str()), "APPROX POSITION XYZ"}};
    case 5: return {{mc::fmt("%14s%14s%14s", ecc[0].c_str(), ecc[1].c_str(), ecc[2].c_str()), "ANTENNA: DELTA H/E/N"}};
    case 6: return {{mc::fmt("%6d", clk), "RCV CLOCK OFFS APPL"}};
    default: return {{tfirst, "TIME OF FIRST OBS"}};
    }
  }
  std::vector<Line> codes(char s) const { return types(s, ty.at(s)); }
  Line first() const { return obs::first(sys, ver.c_str()); }
};
static Head sample() {
  Head h; h.marker = "NOA 1"; h.number = "12602M 006"; h.rnum = "4521K 07312"; h.rtype = "LEICA GR25"; h.rver = "4.02/6.521"; h.anum = "09300012 B"; h.ant = "LEIAR25.R3      LEIT";
  h.pos[0] = "4606521.6740"; h.pos[1] = "-2029945.0012"; h.pos[2] = "3903625.0340"; h.ecc[0] = "0.0010"; h.ecc[1] = "-1.0000"; h.ecc[2] = "2.5000"; h.clk = 1; h.tfirst = "  2019     2    28    23    59   30.0000000     GPS";
  for (bool &b : h.has) b = true; h.ty['G'] = {"C1C", "L1C"}; return h;
}
static std::map<std::string, std::string> members(ObservationRnx &r, std::string &codes) {
  std::ostringstream o; o.precision(17); auto *old = std::cout.rdbuf(o.rdbuf()); auto p = std::cout.precision(17); r.print_members(); std::cout.precision(p); std::cout.rdbuf(old);
  std::istringstream i(o.str()); std::string l; std::map<std::string, std::string> m; while (std::getline(i, l)) { size_t c = l.find(':'); if (c == std::string::npos) { if (!l.empty()) codes += l + "\n"; continue; } std::string k = l.substr(0, c); k.resize(k.find_last_not_of(' ') + 1); m[k] = l.substr(c + 1); } return m;
}
static std::string trimmed(std::string s) { s.resize(s.find_last_not_of(' ') + 1); return s; }
static void verify(mc::Ctx &ctx, const Head &h, const std::string &text, const std::string &w) {
  std::string p = ctx.scratch() + "/h"; obs::write(p, text); ctx.site("open"); errno = ERANGE; std::string op; std::unique_ptr<ObservationRnx> r; { std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); try { r.reset(new ObservationRnx(p.c_str())); } catch (std::exception &e) { op = e.what(); } std::cout.rdbuf(old); } errno = 0; if (!r) ctx.fail("refused", w + ": " + op); ctx.step();
  ctx.site("members"); std::string codes; auto m = members(*r, codes);
  auto is = [&](const char *k, const std::string &want, const char *key) { if (!m.count(k) || trimmed(m[k]) != want) ctx.fail(key, w + ": [" + mc::vis(m[k]) + "], written [" + mc::vis(want) + "]"); };
  is("filename", p, "filename"); is("Satellite Sys", std::string(1, h.sys), "system"); if (std::fabs(std::strtod(m["Version"].c_str(), nullptr) - std::strtod(h.ver.c_str(), nullptr)) > 1e-6) ctx.fail("version", w + ": " + m["Version"]);
  is("Marker Name", h.has[0] ? h.marker : "", "marker-name"); is("Marker Number", h.has[1] ? h.number : "", "marker-number"); is("Receiver Sn", h.has[2] ? h.rnum : "", "receiver-number"); is("Receiver Type", h.has[2] ? h.rtype : "", "receiver-type");
  if (h.has[3]) { std::string a = h.ant; a.resize(20, ' '); if (a.substr(16) == "    ") a.replace(16, 4, "NONE"); std::string got = m["Antenna Type"]; got.resize(40, ' '); std::string s = h.anum; s.resize(20, ' '); if (got.substr(0, 20) != a) ctx.fail("antenna", w + ": [" + mc::vis(got) + "], written [" + a + "]"); if (trimmed(got.substr(20)) != trimmed(s)) ctx.fail("antenna-serial", w + ": [" + mc::vis(got) + "], written [" + s + "]"); is("Antenna Sn", h.anum.empty() ? "0" : "1", "antenna-serial"); }
  double P[3] = {r->x_approx(), r->y_approx(), r->z_approx()}, E[3] = {99, 99, 99}; if (sscanf(m["Eccentricity"].c_str(), "%lf, %lf, %lf", E, E + 1, E + 2) != 3) ctx.fail("eccentricity", w);
  for (int i = 0; i < 3; i++) { double want = h.has[4] ? std::strtod(h.pos[i].c_str(), nullptr) : 0; if (P[i] != want) ctx.fail("position", w + mc::fmt(": %d is %.6f, written %s", i, P[i], h.pos[i].c_str())); want = h.has[5] ? std::strtod(h.ecc[i].c_str(), nullptr) : 0; if (E[i] != want) ctx.fail("eccentricity", w + mc::fmt(": %d is %.6f, written %s", i, E[i], h.ecc[i].c_str())); }
  is("Rcv Clk Off", h.has[6] && h.clk == 1 ? "Yes" : "No", "clock-applied");
  if (h.has[7]) { int y, mo, d, hh, mi; double s; sscanf(h.tfirst.c_str(), "%d %d %d %d %d %lf", &y, &mo, &d, &hh, &mi, &s); auto t = r->time_of_first_obs(); double us = t.sec().as_underlying_type() * 1.0 - (hh * 3600e6 + mi * 60e6 + s * 1e6); if (t.mjd().as_underlying_type() != mjd(y, mo, d) || std::fabs(us) > 1.01) ctx.fail("first-observation", w + mc::fmt(": day %ld (%ld), off by %.1f us", (long)t.mjd().as_underlying_type(), mjd(y, mo, d), us)); }
  // codes: printed, and as column indexes of the read map
  std::map<char, std::string> want; int mx = 0; for (auto &t : h.ty) { std::string l(1, t.first); for (auto &c : t.second) l += " " + c; want[t.first] = l; mx = std::max<int>(mx, t.second.size()); } ctx.eq(r->max_obs(), mx, "max-obs", w);
  std::istringstream i(codes); std::string l; size_t n = 0; while (std::getline(i, l)) { l = trimmed(l); n++; if (!want.count(l[0]) || want[l[0]] != l) ctx.fail("codes", w + ": [" + l + "], written [" + want[l[0]] + "]"); } ctx.eq(n, want.size(), "systems", w);
  std::vector<Req> rq; for (auto &t : h.ty) for (auto &c : t.second) rq.push_back({t.first, {{c, 1}}}); ctx.site("map"); InMap im = inmap(rq); ReadMap rm = r->set_read_map(im); for (auto &t : h.ty) { auto &v = rm[obs::system(t.first)]; ctx.eq(v.size(), t.second.size(), "map-size", w); for (size_t k = 0; k < v.size(); k++) if (v[k].size() != 1 || v[k][0].first != k || v[k][0].second != 1) ctx.fail("map-column", w + mc::fmt(": %c code %zu", t.first, k)); }
  // the header ends where it ends: the epoch after it is read
  EpochVec v = r->initialize_epoch_vector(rm); int c = 9; modified_julian_day d(0); double sod = 0; int st = r->read_next_epoch(rm, v, c, d, sod); if (text.find("\n> ") != std::string::npos) { if (st || c != 0 || d.as_underlying_type() != 58484) ctx.fail("end-of-header", w + mc::fmt(": first epoch has status %d, %d satellites, day %ld", st, c, (long)d.as_underlying_type())); } else if (st >= 0) ctx.fail("end-of-header", w + mc::fmt(": status %d at the end", st));
  ctx.state(text);
}
static const char EPOCH[] = "> 2019 01 01 00 00  0.0000000  0  0\n";
static std::vector<std::string> some(int n, int from = 0) { std::vector<std::string> c; for (int i = 0; i < n; i++) c.push_back(code(from + i)); return c; }
MC_SCENARIO(P13, code_counts, "1-3 systems (every ordered choice of GRE...), the first with 1-60, 65, 66, 78, 79, 91, 99, 100, 117, 130 or 169 codes (thorough: every count to 180), the others with 1, 12, 13, 14, 26 or 27 x code lines with trailing blanks cut or followed by other header lines") {
  Head h = sample(); h.ty.clear(); static const int BIG[] = {65, 66, 78, 79, 91, 99, 100, 117, 130, 169}; int n = 1 + ctx.choose(ctx.thorough() ? 180 : 70); if (!ctx.thorough() && n > 60) n = BIG[n - 61]; int ns = 1 + ctx.choose(3), perm = ctx.choose(3); static const int N[] = {1, 12, 13, 14, 26, 27}; static const char S[] = "GRE"; std::string ord; for (int i = 0; i < ns; i++) { int k = i == 0 ? n : N[ctx.choose(6)]; char s = S[(perm + i) % 3]; h.ty[s] = some(k, i * 17); ord += s; }
  std::vector<Line> l{h.first()}; for (size_t i = 0; i < ord.size(); i++) { for (auto &x : h.codes(ord[i])) l.push_back(x); for (auto &x : h.line(i + n % 3)) l.push_back(x); } for (int k = 0; k < 8; k++) { h.has[k] = false; for (size_t i = 0; i < ord.size(); i++) if ((int)i + n % 3 == k) h.has[k] = true; }
  std::string w = mc::fmt("%s %d codes", ord.c_str(), n); verify(ctx, h, text(l) + END() + EPOCH, w); ctx.outcome(mc::fmt("%d %d", n, ns));
}
MC_SCENARIO(P13, presence, "every subset of the 8 optional header lines x code lines before, between and after them x followed by an epoch or not") {
  Head h = sample(); std::string w; for (int k = 0; k < 8; k++) { h.has[k] = ctx.flag(); w += h.has[k] ? '1' : '0'; } h.ty['R'] = some(14); int at = ctx.choose(3), ep = ctx.choose(2); std::vector<Line> l{h.first()}; auto cs = [&] { for (char s : {'G', 'R'}) for (auto &x : h.codes(s)) l.push_back(x); }; if (at == 0) cs(); for (int k = 0; k < 8; k++) { if (h.has[k]) for (auto &x : h.line(k)) l.push_back(x); if (at == 1 && k == 3) cs(); } if (at == 2) cs(); w += mc::fmt(" codes %d", at);
  verify(ctx, h, text(l) + END() + (ep ? EPOCH : ""), w); ctx.outcome(w);
}
MC_SCENARIO(P13, orders, "every order of 5 header groups out of 7 (each 3rd rotation) incl. code lines of 2 systems; a comment after each") {
  Head h = sample(); for (bool &b : h.has) b = false; h.ty.clear(); std::vector<int> left{0, 1, 2, 3, 4}; int rot = ctx.choose(4) * 3; bool com = ctx.flag(); std::vector<Line> l{h.first()}; std::string w; for (int i = 0; i < 5; i++) { int k = ctx.choose(left.size()), g = left[k]; left.erase(left.begin() + k); w += char('0' + g); g = (g + rot) % 10;
    if (g >= 8) { char s = g == 8 ? 'G' : 'C'; h.ty[s] = some(g == 8 ? 26 : 3); for (auto &x : h.codes(s)) l.push_back(x); } else { h.has[g] = true; for (auto &x : h.line(g)) l.push_back(x); } if (com) l.push_back({"MARKER NAME  13 C1C 4606521.6740     1 END OF HEADER", "COMMENT"}); }
  if (h.ty.empty()) { h.ty['E'] = some(13); for (auto &x : h.codes('E')) l.push_back(x); } verify(ctx, h, text(l) + END() + EPOCH, w + mc::fmt(" from %d%s", rot, com ? " with comments" : "")); ctx.outcome(w);
}
static std::string txt(int len, int kind) { std::string s; for (int i = 0; i < len; i++) s += "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789./_-+abcdefghijklmnopqrstuvwxyz"[i]; if (kind == 1 && len > 2) s[len / 2] = ' '; if (kind == 2 && len > 4) s[len - 2] = s[len - 3] = ' '; if (kind == 3) for (int i = 1; i + 1 < len; i += 2) s[i] = ' '; return s; }
MC_SCENARIO(P13, text_fields, "each text field (marker name and number, receiver number, type and version, antenna serial and type) at every length up to its width, without blanks, one blank, two blanks, or every second column blank; the other fields empty, short or full") {
  int f = ctx.choose(7); static const int W[] = {60, 20, 20, 20, 20, 20, 20}; int len = ctx.choose(W[f] + 1), kind = ctx.choose(4), other = ctx.choose(3); Head h = sample(); std::string *F[] = {&h.marker, &h.number, &h.rnum, &h.rtype, &h.rver, &h.anum, &h.ant}; for (int i = 0; i < 7; i++) if (i != f && other != 1) *F[i] = other ? txt(W[i], i % 2) : ""; *F[f] = txt(len, kind);
  std::vector<Line> l{h.first()}; for (int k = 0; k < 8; k++) for (auto &x : h.line(k)) l.push_back(x); for (auto &x : h.codes('G')) l.push_back(x); std::string w = mc::fmt("field %d length %d kind %d others %d", f, len, kind, other); verify(ctx, h, text(l) + END() + EPOCH, w); ctx.outcome(w);
}
MC_SCENARIO(P13, radomes, "antenna types of 1-16 columns x radome columns none, NONE, 4 letters, digits, first or last column blank, without the blank before it x serial none, 1, 19, 20 columns") {
  static const char *R[] = {"", "NONE", "SCIT", "1234", " CIT", "SCI ", "S"}; int n = 1 + ctx.choose(16), r = ctx.choose(7), s = ctx.choose(4); Head h = sample(); h.ant = txt(n, n % 3 == 0); h.ant.resize(16, ' '); h.ant = trimmed(h.ant + R[r]); static const int SL[] = {0, 1, 19, 20}; h.anum = txt(SL[s], 1); std::vector<Line> l{h.first()}; for (int k = 0; k < 8; k++) for (auto &x : h.line(k)) l.push_back(x); for (auto &x : h.codes('G')) l.push_back(x); std::string w = "[" + h.ant + "] [" + h.anum + "]"; verify(ctx, h, text(l) + END() + EPOCH, w); ctx.outcome(w);
}
MC_SCENARIO(P13, numbers, "position and eccentricity values: 9 formats of up to the full 14 columns in each of the 6 places (pairs), labels cut or padded to 80 columns; every version and system") {
  static const char *V[] = {"0.0000", "-0.0001", "4606521.6740", "-123456789.123", "1234567890.123", ".5", "12.", "-99999999.9999", "1e-3"}; static const char *VER[] = {"3.00", "3.01", "3.02", "3.03", "3.04", "3.05", "3"}; static const char SY[] = "MGRESCJI"; int a = ctx.choose(6), b = a < 5 ? a + 1 + ctx.choose(5 - a) : a, x = ctx.choose(9), y = ctx.choose(9), pad = ctx.choose(2); Head h = sample(); std::string *F[] = {&h.pos[0], &h.pos[1], &h.pos[2], &h.ecc[0], &h.ecc[1], &h.ecc[2]}; *F[a] = V[x]; *F[b] = V[y]; h.ver = VER[(x + y) % 7]; h.sys = SY[(x * 3 + y) % 8];
  std::vector<Line> l{h.first()}; for (int k = 0; k < 8; k++) for (auto &z : h.line(k)) l.push_back(z); for (auto &z : h.codes('G')) l.push_back(z); l.push_back({"", "END OF HEADER"}); if (pad) for (auto &z : l) z.label.resize(20, ' '); std::string w = mc::fmt("%d=%s %d=%s version %s system %c", a, V[x], b, V[y], h.ver.c_str(), h.sys); verify(ctx, h, text(l) + EPOCH, w); ctx.outcome(w);
}
MC_SCENARIO(P13, first_observation, "11 days at month, year and leap-day boundaries x 24 hours x 4 minutes x 6 seconds values x GPS/GLO/blank time system x clock line 0, 1 or absent") {
  static const int D[][3] = {{2019, 1, 1}, {2019, 12, 31}, {2020, 2, 28}, {2020, 2, 29}, {2020, 3, 1}, {2021, 2, 28}, {2000, 2, 29}, {2016, 12, 31}, {1999, 12, 31}, {2038, 1, 19}, {1980, 1, 6}}; static const char *S[] = {"0.0000000", "0.5000000", "9.0000000", "30.0000000", "59.9999990", "29.9990000"}; static const int M[] = {0, 9, 30, 59};
  int d = ctx.choose(11), hh = ctx.choose(24), m = M[ctx.choose(4)], s = ctx.choose(6), sy = (d + hh) % 3; Head h = sample(); h.clk = (hh + s) % 3 - 1; h.has[6] = h.clk >= 0; h.tfirst = mc::fmt("%6d%6d%6d%6d%6d%13s     %s", D[d][0], D[d][1], D[d][2], hh, m, S[s], sy == 0 ? "GPS" : sy == 1 ? "GLO" : "   ");
  std::vector<Line> l{h.first()}; for (int k = 0; k < 8; k++) if (h.has[k]) for (auto &z : h.line(k)) l.push_back(z); for (auto &z : h.codes('G')) l.push_back(z); verify(ctx, h, text(l) + END() + EPOCH, h.tfirst); ctx.outcome(h.tfirst);
}
/// opens or throws, nothing else
static int tryopen(mc::Ctx &ctx, const std::string &t) { std::string p = ctx.scratch() + "/d"; obs::write(p, t); ctx.site("open"); ctx.step(); std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); int r = 0; try { ObservationRnx x(p.c_str()); r = 1; } catch (std::runtime_error &) { } std::cout.rdbuf(old); errno = 0; return r; }
static std::string whole() { Head h = sample(); h.ty['E'] = some(15); std::vector<Line> l{h.first()}; for (int k = 0; k < 8; k++) { for (auto &z : h.line(k)) l.push_back(z); if (k == 3) for (char s : {'G', 'E'}) for (auto &z : h.codes(s)) l.push_back(z); } return text(l) + END(); }
MC_SCENARIO(P13, cut, "a header with every kind of line cut at every byte: refused with an exception, complete from the END OF HEADER label on") {
  std::string t = whole(); int n = ctx.choose(t.size() + 1); ctx.note(n); int r = tryopen(ctx, t.substr(0, n)); if (r != (n >= (int)t.size() - 1)) ctx.fail(r ? "accepted" : "refused", mc::fmt("%d of %zu bytes", n, t.size())); ctx.state(n); ctx.outcome(mc::fmt("%d", r));
}
MC_SCENARIO(P13, damaged, "every byte of that header replaced by each of 6 characters (blank, digit, letter, minus, line feed, NUL) or removed, or its line removed or doubled: read or refused with an exception, never ending the process") {
  std::string t = whole(); int n = ctx.choose(t.size()), k = ctx.choose(9); if (k < 6) t[n] = " 9Z-\n\0"[k]; else if (k == 6) t.erase(n, 1); else { size_t a = t.rfind('\n', n ? n - 1 : 0); a = a == std::string::npos || n == 0 ? 0 : a + 1; size_t b = t.find('\n', a) + 1; if ((size_t)n != a) return; std::string l = t.substr(a, b - a); if (k == 7) t.erase(a, b - a); else t.insert(b, l); } ctx.note(n, " ", k); int r = tryopen(ctx, t); ctx.state(mc::fmt("%d %d", n, k)); ctx.outcome(mc::fmt("%d %d", k, r));
}
MC_SCENARIO(P13, placed_serials, "antenna serial numbers of 1-20 columns put at every place of their 20 columns (right-justified, centred), with and without a blank inside, followed by 4 antenna types: stored as written") {
  int n = 1 + ctx.choose(20), at = ctx.choose(21 - n), kind = ctx.choose(2), a = ctx.choose(4); static const char *A[] = {"LEIAR25.R3      LEIT", "TRM59800.00     NONE", "A", "ASH700936D_M    SNOW"}; Head h = sample(); h.anum = std::string(at, ' ') + txt(n, kind); h.ant = A[a]; std::vector<Line> l{h.first()}; for (int k = 0; k < 8; k++) for (auto &x : h.line(k)) l.push_back(x); for (auto &x : h.codes('G')) l.push_back(x); std::string w = "[" + h.anum + "]"; verify(ctx, h, text(l) + END() + EPOCH, w); ctx.outcome(mc::fmt("%d %d", n, at)); }
MC_SCENARIO(P13, line_ends, "headers with every kind of line, each kind (or all) going on behind column 80 with 1-4 blanks, a carriage return after 0-3 blanks, or text; also with the end of its label cut") {
  int k = ctx.choose(12), b = ctx.choose(9); static const char *X[] = {" ", "  ", "   ", "    ", "\r", " \r", "  \r", "   \r", "ABCD"}; Head h = sample(); h.ty['R'] = some(30); std::vector<Line> l{h.first()}; auto put = [&](const std::vector<Line> &v) { for (auto x : v) l.push_back(x); }; std::vector<int> cls{0}; for (int i = 0; i < 8; i++) { put(h.line(i)); cls.resize(l.size(), i + 1); } put(h.codes('G')); put(h.codes('R')); cls.resize(l.size(), 9); l.push_back({"", "END OF HEADER"}); cls.push_back(10);
  for (size_t i = 0; i < l.size(); i++) if (k == 11 || cls[i] == k) { l[i].label.resize(20, ' '); l[i].label += X[b]; } std::string w = mc::fmt("lines %d [%s]", k, mc::vis(X[b]).c_str()); verify(ctx, h, text(l) + EPOCH, w); ctx.outcome(w); }
MC_SCENARIO(P13, unreadable_entries, "the complete header with one entry that cannot be read (version, file type, file system, position, eccentricities, observation types of an unknown system, without number, with an unknown, missing or cut code, with too few codes, of a system listed before, the clock line, the time of first observation), in every place of the header: refused with a runtime error; the intact header before and after it is read") {
  static const std::vector<std::pair<std::string, std::string>> B = {{"  4606521.6740              3903625.0340", "APPROX POSITION XYZ"}, {"  4606521.6740 -2029945.0012", "APPROX POSITION XYZ"}, {"           abc -2029945.0012  3903625.0340", "APPROX POSITION XYZ"}, {"  4606521.6740 -2029945.0012           N/A", "APPROX POSITION XYZ"}, {"        0.0010                      2.5000", "ANTENNA: DELTA H/E/N"}, {"       unknown       -1.0000        2.5000", "ANTENNA: DELTA H/E/N"}, {"        0.0010       -1.0000", "ANTENNA: DELTA H/E/N"},
    {"X    2 C1C L1C", "SYS / # / OBS TYPES"}, {"     2 C1C L1C", "SYS / # / OBS TYPES"}, {"G      C1C L1C", "SYS / # / OBS TYPES"}, {"G   xx C1C L1C", "SYS / # / OBS TYPES"}, {"G    2 C1C Q1C", "SYS / # / OBS TYPES"}, {"G    2 C1C", "SYS / # / OBS TYPES"}, {"G    3 C1C     L1C", "SYS / # / OBS TYPES"}, {"G    2", "SYS / # / OBS TYPES"}, {"G   14 C1C L1C D1C S1C C2W L2W D2W S2W C2L L2L D2L S2L C5Q", "SYS / # / OBS TYPES"}, {"R    2 C1C L1C", "SYS / # / OBS TYPES"},
    {"     2", "RCV CLOCK OFFS APPL"}, {"   yes", "RCV CLOCK OFFS APPL"}, {"", "RCV CLOCK OFFS APPL"}, {"    -1", "RCV CLOCK OFFS APPL"}, {"  2019    13    28    23    59   30.0000000     GPS", "TIME OF FIRST OBS"}, {"  2019     2   two    23    59   30.0000000     GPS", "TIME OF FIRST OBS"}, {"  2019     2    28", "TIME OF FIRST OBS"}, {"", "TIME OF FIRST OBS"}, {"  year     2    28    23    59   30.0000000     GPS", "TIME OF FIRST OBS"}};
  int k = ctx.choose(B.size() + 6), at = ctx.choose(3), order = ctx.choose(2); std::vector<Line> l{{"     3.04           OBSERVATION DATA    M: MIXED", "RINEX VERSION / TYPE"}};
  auto make = [&](int bad) { std::vector<Line> v; Line r0 = l[0]; int q = bad - (int)B.size(); static const char *F[] = {"                    OBSERVATION DATA    M: MIXED", "     x.04           OBSERVATION DATA    M: MIXED", "     3.04           NAVIGATION DATA     M: MIXED", "     3.04           METEOROLOGICAL DATA M: MIXED", "     3.04           OBSERVATION DATA    X", "     3.04           OBSERVATION DATA"}; if (q >= 0) r0 = {F[q], "RINEX VERSION / TYPE"}; v.push_back(r0); Head h = sample(); std::vector<std::vector<Line>> g; for (int i = 0; i < 8; i++) g.push_back(h.line(i)); Types ty; g.push_back(types('R', {"C1C", "L1C"})); g.push_back(types('E', some(15)));
    std::string lab = bad < 0 || q >= 0 ? "" : B[bad].second; std::vector<std::vector<Line>> o; for (auto &x : g) if (x[0].label != lab || lab == "SYS / # / OBS TYPES") o.push_back(x); if (order) std::reverse(o.begin(), o.end()); if (!lab.empty()) o.insert(lab[0] == 'S' && B[bad].first[0] == 'R' ? o.end() : at == 0 ? o.begin() : at == 1 ? o.begin() + o.size() / 2 : o.end(), {Line{B[bad].first, lab}}); for (auto &x : o) for (auto &y : x) v.push_back(y); return text(v) + END(); };
  std::string w = mc::fmt("entry %d, place %d, order %d: ", k, at, order) + (k < (int)B.size() ? B[k].first + " " + B[k].second : "first line"); ctx.note(w); if (!tryopen(ctx, make(-1))) ctx.fail("refused", w); if (tryopen(ctx, make(k))) ctx.fail("accepted", w); if (!tryopen(ctx, make(-1))) ctx.fail("refused", w + " (afterwards)"); ctx.state(w); ctx.outcome(mc::fmt("%d", k));
}
