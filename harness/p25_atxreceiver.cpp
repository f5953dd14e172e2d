// MC-PROPERTIES: P25
#include "atxfile.hpp"
using namespace atx;
static Block rx(const std::string &type, const std::string &serial, int i) { Block b; b.type = type; b.serial = serial; b.f = {freq('G', 1, 10 + i), freq('G', 2, 20 + i), freq('R', 1, -30 - i)}; b.f.resize(1 + i % 3); return b; }
static Block sv(int i) { Block b; b.type = i ? "GLONASS-M" : "BLOCK IIA"; b.sys = i ? 'R' : 'G'; b.prn = 1; b.svn = i ? 730 : 32; b.cospar = "1992-079A"; b.from = {1992, 11, 22, 0}; b.f = {freq(b.sys, 1, 279), freq(b.sys, 2, 278)}; return b; }
static const std::vector<Block> &kinds() {
  static const std::vector<Block> k = {rx("LEIAX1202GG     NONE", "", 1), rx("LEIAX1202GG     NONE", "08300501", 2), rx("LEIAX1202GG     NONE", "08300502", 3), rx("LEIAX1202GG     SCIT", "", 4), rx("LEIAX1202       NONE", "", 5), rx("TRM29659.00     SCIT", "0220172012", 6), rx("LEIAX1202GG     SCIT", "08300501", 7), sv(0), sv(1), rx("AOAD/M_T", "", 8)};
  return k;
}
static const std::vector<Query> &queries() {
  static std::vector<Query> q; if (q.empty()) for (const char *t : {"LEIAX1202GG     NONE", "LEIAX1202GG", "LEIAX1202GG     SCIT", "LEIAX1202       NONE", "TRM29659.00     SCIT", "TRM29659.00     NONE", "AOAD/M_T        NONE", "LEIAX12         NONE", "LEIAX1202GG     SCIS"}) for (const char *s : {"", "08300501", "08300502", "0830050", "083005011", "0220172012"}) for (int m = 0; m < (*s ? 2 : 1); m++) q.push_back({t, s, m == 1}); return q;
}
static std::string put(mc::Ctx &ctx, const File &f) { std::string p = ctx.scratch() + "/a"; atx::write(p, f.str()); return p; }
MC_SCENARIO(P25, blocks, "files of 0-3 (thorough 4) different antenna blocks out of 10 kinds (models, prefixes, radomes, serials, satellites) in every order x 84 queries (9 antennas x no or 5 serials x serial must match)") {
  const auto &k = kinds(); int n = ctx.choose(ctx.thorough() ? 5 : 4); std::vector<int> left, use; for (size_t i = 0; i < k.size(); i++) left.push_back(i); File f; std::string w; for (int i = 0; i < n; i++) { int c = ctx.choose(left.size()); f.b.push_back(k[left[c]]); w += char('a' + left[c]); left.erase(left.begin() + c); } std::string p = put(ctx, f); ctx.site("open"); Antex a(p.c_str()); for (auto &q : queries()) { ask(ctx, a, f.b, q, w); ctx.outcome(mc::fmt("%d", select(f.b, q))); } ctx.state(w);
}
MC_SCENARIO(P25, fresh_reader, "the same with a reader of its own for each query, 0-2 blocks, each query object with other names and serials before") {
  const auto &k = kinds(); int n = ctx.choose(3); std::vector<int> left; for (size_t i = 0; i < k.size(); i++) left.push_back(i); File f; std::string w; for (int i = 0; i < n; i++) { int c = ctx.choose(left.size()); f.b.push_back(k[left[c]]); w += char('a' + left[c]); left.erase(left.begin() + c); } std::string p = put(ctx, f); for (auto &q : queries()) { ctx.site("open"); Antex a(p.c_str()); ask(ctx, a, f.b, q, w); } ctx.state(w);
}
MC_SCENARIO(P25, serials, "blocks and queries with serials of 1-20 characters, equal or different in one place, with blanks inside, prefixes of each other") {
  int n = 1 + ctx.choose(20), m = 1 + ctx.choose(20), diff = ctx.choose(22), style = ctx.choose(3); auto ser = [&](int l) { std::string s; for (int i = 0; i < l; i++) s += style == 1 && i == l / 2 && i > 0 && i < l - 1 ? ' ' : style == 2 ? "CR2003-"[i % 7] : char('0' + (i * 7 + 3) % 10); return s; }; std::string a = ser(n), b = ser(m); if (diff > m) return; if (diff < m && b[diff] != ' ') b[diff] = 'z'; else if (diff < m) return; File f; Block x = rx("JAV_RINGANT_G3T JAVC", a, 1), y = rx("JAV_RINGANT_G3T JAVC", "", 2); int order = ctx.choose(3); if (order == 1) f.b.push_back(y); f.b.push_back(x); if (order == 2) f.b.push_back(y);
  std::string p = put(ctx, f), w = mc::fmt("serials [%s]", a.c_str()); Antex r(p.c_str()); for (int k = 0; k < 2; k++) ask(ctx, r, f.b, {"JAV_RINGANT_G3T JAVC", b, k == 1}, w); ctx.state(w + b + mc::fmt("%d", order)); ctx.outcome(a == b ? "same" : "other");
}
MC_SCENARIO(P25, names, "blocks with models of 1-15 characters, a blank radome or one of 1-4 characters, next to a block differing in one character of the model or radome, both orders") {
  int n = 1 + ctx.choose(15), r = ctx.choose(5), d = ctx.choose(19), o = ctx.choose(2), blank = ctx.choose(2); std::string m, t; for (int i = 0; i < n; i++) m += "LEIAT504GG_X.23"[i]; if (blank && n > 4) m[n - 2] = ' '; t = m; t.resize(16, ' '); t += std::string("SCIT").substr(0, r); std::string u = t; u.resize(20, ' '); if (d == 15) return; int at = d; if (at < 15 ? at >= n : at - 16 >= r) return; u[at] = u[at] == 'Q' ? 'R' : 'Q'; File f; Block x = rx(t, "", 1), y = rx(u, "", 3); f.b.push_back(o ? x : y); f.b.push_back(o ? y : x); std::string p = put(ctx, f), w = mc::fmt("[%s] [%s]", t.c_str(), u.c_str()); Antex a(p.c_str()); ask(ctx, a, f.b, {t, "", false}, w); ask(ctx, a, f.b, {u, "", false}, w); ask(ctx, a, f.b, {t, "123", false}, w); ask(ctx, a, f.b, {t, "123", true}, w); f.b.erase(f.b.begin()); p = put(ctx, f); Antex c(p.c_str()); ask(ctx, c, f.b, {t, "", false}, w); ask(ctx, c, f.b, {u, "", false}, w); ctx.state(w + mc::fmt("%d", o)); ctx.outcome(w);
}
MC_SCENARIO(P25, frequencies, "blocks of 0-12 frequencies of all systems x RMS sections after none, all, every second frequency, or all at the end x azimuth grids of step 0, 5, 30 x zenith grids of 2, 19, 40 values x optional lines; a further block before and behind") {
  static const char S[] = "GGGRREEECCJI"; static const int B[] = {1, 2, 5, 1, 2, 1, 5, 7, 2, 7, 6, 5}; int n = ctx.choose(13), rms = ctx.choose(4), dz = ctx.choose(3), g = ctx.choose(3), ex = ctx.choose(8); static const int A[] = {0, 5, 30}; static const double Z[] = {5, 90, 180}; Block b = rx("ASH701945C_M    SCIS", "", 0); b.f.clear(); for (int i = 0; i < n; i++) b.f.push_back(freq(S[i], B[i], 1.25 * i - 3, rms == 1 || rms == 3 || (rms == 2 && i % 2 == 0))); b.rms_at_end = rms == 3; b.dazi = A[dz]; b.zen2 = Z[g]; b.extra = ex; if (g == 2) b.zen2 = 195;
  File f; f.b = {rx("ASH701945C_M    NONE", "", 1), b, rx("ASH701945C_M    SCIT", "", 2)}; std::string p = put(ctx, f), w = mc::fmt("%d frequencies, RMS %d, azimuth %d, zenith %d, lines %d", n, rms, dz, g, ex); Antex a(p.c_str()); for (int i = 0; i < 3; i++) { if (i == 1 && n == 0) continue; ask(ctx, a, f.b, {f.b[i].type, "", false}, w); } ask(ctx, a, f.b, {"ASH701945C_M    OLGA", "", false}, w); ctx.state(w); ctx.outcome(mc::fmt("%d", n));
}
MC_SCENARIO(P25, values, "offsets of one frequency: 3 columns x 18 values each with every pair of neighbours, also filling their columns; codes of all systems x bands 1-9") {
  static const char *V[] = {"0.00", "-0.00", "1.16", "-1.16", "99999.99", "-99999.99", "-999999.99", "9999999.99", "123.456", ".5", "-.25", "1e3", "0.01", "-0.01", "33.3", "1000", "+7.5", "88.888888"}; int col = ctx.choose(3), i = ctx.choose(18), j = ctx.choose(18), c = ctx.choose(7), band = 1 + ctx.choose(9); if (ctx.thorough() ? 0 : (i + j + c + band + col) % 3) return; Block b = rx("TPSCR3_GGD      CONE", "", 0); Freq f = freq("GRECJIS"[c], band, 5); std::string *w[3] = {&f.n, &f.e, &f.u}; *w[col] = V[i]; *w[(col + 1) % 3] = V[j]; b.f = {f, freq('G', 2, 7)}; File a; a.b = {b}; std::string p = put(ctx, a), s = mc::fmt("%c%02d [%s][%s][%s]", f.sys, f.band, f.n.c_str(), f.e.c_str(), f.u.c_str()); Antex r(p.c_str()); ask(ctx, r, a.b, {b.type, "", false}, s); ctx.state(s); ctx.outcome(s);
}
MC_SCENARIO(P25, header, "headers: version 1.4 or 1.3, 6 systems, 0-40 comment lines (also ones that look like other lines) and of both lengths; then both blocks are found") {
  int v = ctx.choose(2), y = ctx.choose(7), c = ctx.choose(41), k = ctx.choose(3); File f; f.head = header("GREJCSM"[y], v ? "1.3" : "1.4", c); if (k == 1) { std::string x; for (char ch : f.head) { if (ch == '\n') x += "   "; x += ch; } f.head = x; } if (k == 2) { size_t e = f.head.find("PCV TYPE"); f.head.replace(e - 60, 60, std::string("A                   AOAD/M_T            CR00               ") + std::string(1, ' ')); } f.b = {kinds()[0], kinds()[1]}; std::string p = put(ctx, f), w = mc::fmt("header %d %d %d %d", v, y, c, k); errno = ERANGE; std::unique_ptr<Antex> a; ctx.site("open"); try { a.reset(new Antex(p.c_str())); } catch (std::exception &e) { errno = 0; ctx.fail("refused", w + ": " + e.what()); } errno = 0; ctx.eq(a->filename(), p, "filename", w); ask(ctx, *a, f.b, queries()[0], w); ask(ctx, *a, f.b, queries()[1], w); ask(ctx, *a, f.b, queries()[20], w); ctx.state(w); ctx.outcome(w);
}
MC_SCENARIO(P25, long_blocks, "a block of 1-32 frequencies with azimuth steps of 1, 2 or 5 degrees (up to 23000 lines, also with RMS sections) first, between or last; all 4 antennas, the long one by serial, and a missing one are looked up, forwards and backwards") {
  static const int N[] = {1, 2, 6, 12, 13, 14, 15, 16, 28, 32}, A[] = {1, 2, 5}; static const char S[] = "GGGRREEECCJI"; static const int B[] = {1, 2, 5, 1, 2, 1, 5, 7, 2, 7, 6, 5}; int n = N[ctx.choose(10)], da = A[ctx.choose(3)], at = ctx.choose(3), rms = ctx.choose(2), ser = ctx.choose(2); File f; for (int i = 0; i < 3; i++) { f.b.push_back(kinds()[i == 0 ? 3 : i == 1 ? 0 : 5]); f.b.back().zen2 = 5; } Block b = rx("ASH701945C_M    SCIS", ser ? "77" : "", 0); b.f.clear(); b.zen2 = 5; b.dazi = da; for (int i = 0; i < n; i++) b.f.push_back(freq(S[i % 12], B[i % 12] + (i / 12) % 3, 1.25 * i - 3, rms)); f.b.insert(f.b.begin() + at, b); std::string p = put(ctx, f), w = mc::fmt("%d frequencies, step %d, place %d, RMS %d, serial %d", n, da, at, rms, ser); Antex a(p.c_str());
  std::vector<Query> q; for (auto &x : f.b) q.push_back({x.type, x.serial, false}); q.push_back({b.type, "77", true}); q.push_back({b.type, "78", true}); q.push_back({"ASH701945C_M    OLGA", "", false}); q.push_back({f.b[3].type, "5", false}); for (auto &x : q) ask(ctx, a, f.b, x, w); for (size_t i = q.size(); i-- > 0;) ask(ctx, a, f.b, q[i], w + " back"); ctx.state(w); ctx.outcome(w);
}
/// every line longer than the 80 columns of the format: grids of any step, and blanks at the end
MC_SCENARIO(P25, wide_lines, "grid lines of 16 to 7216 characters (zenith steps 5, 2, 1, 0.5, 0.1 up to 5..90 degrees, every length around 512), without and with azimuth lines, in the block before, in or after the one looked for (receiver and satellite), lines filled with blanks up to 80..90, 200, 511..513 or 600 columns or not; all antennas and a missing one looked up, forwards and backwards") {
  static const double DZ[] = {5, 2, 1, 0.5, 0.1}, Z2[] = {5, 10, 31, 61, 61.5, 62, 62.5, 63, 90}; static const int W[] = {0, 80, 81, 82, 83, 84, 85, 86, 87, 90, 200, 511, 512, 513, 600}; double dz = DZ[ctx.choose(5)], z2 = Z2[ctx.choose(9)]; int at = ctx.choose(3), da = ctx.choose(3) * 60, wide = W[ctx.choose(15)], rms = da ? 1 : 0; if (wide && at != 1 && !ctx.thorough()) return;
  File f; f.b = {kinds()[0], kinds()[3], kinds()[5]}; for (auto &b : f.b) b.zen2 = 5; Block &b = f.b[at]; b.zen2 = z2; b.dzen = dz; b.dazi = da; for (auto &x : b.f) x.rms = rms; Block s; s.zen2 = at ? z2 : 5; s.dzen = at ? dz : 5; s.type = "BLOCK IIA"; s.sys = 'G'; s.prn = 3; s.svn = 33; s.cospar = "1996-019A"; s.from = {2000, 1, 1, 0}; s.until = {2009, 1, 1, 0}; s.f = {freq('G', 1, 10), freq('G', 2, 20, rms)}; f.b.insert(f.b.begin() + at, s); std::string t = f.str();
  if (wide) { std::string x; for (size_t i = 0, e; (e = t.find('\n', i)) != std::string::npos; i = e + 1) { std::string l = t.substr(i, e - i); if ((int)l.size() < wide) l.resize(wide, ' '); x += l + "\n"; } t = x; }
  std::string p = ctx.scratch() + "/wide", w = mc::fmt("step %g to %g, place %d, azimuth step %d, lines filled to %d", dz, z2, at, da, wide); atx::write(p, t); ctx.note(w); Antex a(p.c_str()); std::vector<Query> q; for (auto &x : f.b) if (!x.sat()) q.push_back({x.type, x.serial, false}); q.push_back({"ASH701945C_M    OLGA", "", false});
  for (auto &x : q) ask(ctx, a, f.b, x, w); ask(ctx, a, f.b, 'G', 3, T{2005, 1, 1, 0}, 0, w); ask(ctx, a, f.b, 'G', 3, T{2010, 1, 1, 0}, 0, w); ask(ctx, a, f.b, 'G', 3, T{2005, 1, 1, 0}, 2, w); for (size_t i = q.size(); i-- > 0;) ask(ctx, a, f.b, q[i], w + " back"); ctx.state(w); ctx.outcome(mc::fmt("%d", at)); }

MC_SCENARIO(P25, remarks, "receiver blocks with 1-4990 comment lines (17 counts) before the first frequency, first, between or last among others; all antennas looked up, forwards and backwards") {
  static const int N[] = {1, 2, 3, 5, 9, 10, 11, 12, 15, 19, 20, 21, 50, 99, 500, 1000, 4990}; int n = N[ctx.choose(17)], at = ctx.choose(3), ex = ctx.choose(4); Block b = rx("ASH701945C_M    SCIS", "", 2); b.extra = ex; b.rem[2] = n; File f; f.b = {kinds()[0], kinds()[6]}; f.b.insert(f.b.begin() + at, b); std::string p = put(ctx, f), w = mc::fmt("%d comment lines, block %d, lines %d", n, at, ex); Antex a(p.c_str()); for (int i = 0; i < 6; i++) { Block &x = f.b[i < 3 ? i : 5 - i]; ask(ctx, a, f.b, {x.type, x.serial, i % 2 == 1}, w); } ctx.state(w); ctx.outcome(mc::fmt("%d", n)); }
MC_SCENARIO(P25, placed_serials, "blocks whose serial of 1-20 characters begins in any of the 20 columns (down to one character in the last column), alone, before or behind the block without serial; asked for with the serial so placed, with another, and without: a block with a serial never serves as the one without") {
  int lead = ctx.choose(20), len = 1 + ctx.choose(20 - lead), order = ctx.choose(3); std::string ser = std::string(lead, ' '); for (int i = 0; i < len; i++) ser += "0CR7-X2#9"[(i + lead) % 9]; Block x = rx("TRM29659.00     SCIT", ser, 1), y = rx("TRM29659.00     SCIT", "", 2); File f; if (order == 1) f.b.push_back(y); f.b.push_back(x); if (order == 2) f.b.push_back(y); std::string p = put(ctx, f), w = mc::fmt("serial [%s] order %d", ser.c_str(), order); Antex a(p.c_str()); for (int m = 0; m < 2; m++) { ask(ctx, a, f.b, {x.type, ser, m == 1}, w); ask(ctx, a, f.b, {x.type, "NOSUCH", m == 1}, w); } ask(ctx, a, f.b, {x.type, "", false}, w); ask(ctx, a, f.b, {"TRM29659.00", "", false}, w); ctx.state(w); ctx.outcome(mc::fmt("%d", lead)); }
MC_SCENARIO(P25, large_files, "files of 10-2000 further blocks (40 kB to 3 MB) with a block without serial, one with the serial asked for, one with another serial and a satellite's first, in the middle or last of them in every arrangement; all looked up with and without must match, forwards and backwards") {
  static const int N[] = {10, 60, 400, 2000}; int n = N[ctx.choose(ctx.thorough() ? 4 : 3)], a0 = ctx.choose(3), a1 = ctx.choose(3), a2 = ctx.choose(3), ask_serial = ctx.choose(2); Block g = rx("LEIAX1202GG     SCIT", "", 1), s = rx("LEIAX1202GG     SCIT", "08300501", 2), o = rx("LEIAX1202GG     SCIT", "08300502", 0), v = sv(0); std::vector<Block> part[3]; part[a0].push_back(g); part[a1].push_back(s); part[a2].push_back(v); if (ask_serial) part[a2].push_back(o); File f; for (int k = 0; k < 3; k++) { for (auto &b : part[k]) f.b.push_back(b); if (k < 2) for (int i = 0; i < n / 2; i++) f.b.push_back(i % 5 == 4 ? sv(1) : rx(mc::fmt("FILL%04d%c       NONE", i, 'A' + k), i % 3 ? "" : "55", i)); }
  std::string p = put(ctx, f), w = mc::fmt("%d blocks, at %d %d %d %d", n, a0, a1, a2, ask_serial); ctx.note(w); Antex a(p.c_str()); std::vector<Query> q = {{g.type, "", false}, {g.type, "08300501", true}, {g.type, "08300501", false}, {g.type, "08300502", false}, {g.type, "9", false}, {g.type, "9", true}, {"LEIAX1202GG", "", false}, {"FILL0001A", "", false}}; T t{2000, 1, 1, 0}; for (auto &x : q) ask(ctx, a, f.b, x, w); ask(ctx, a, f.b, 'G', 1, t, 0, w); ask(ctx, a, f.b, 'G', 2, t, 1, w); for (size_t i = q.size(); i-- > 0;) ask(ctx, a, f.b, q[i], w + " back"); ctx.state(w); ctx.outcome(mc::fmt("%d", n)); }
MC_SCENARIO(P25, refused_headers, "headers with a version other than 1.3 and 1.4 (9), an unknown satellite system (12), relative values (type R or others), no END OF HEADER (then blocks or nothing) x 0-12 comment lines: refused; then a good file is read by the same reader") {
  int k = ctx.choose(4), c = ctx.choose(13); static const char *V[] = {"1.2", "1.5", "2.0", "0", "", "14", "x1.4", "1.0", "-1.4"}; static const char Y[] = "XAZ0-gm*BDHK", TY[] = "RBr*? a0"; std::string h = header('M', "1.4", c), bad = h, w; Block b = kinds()[0], d = kinds()[1]; int i = 0; if (k == 0) { i = ctx.choose(9); bad = header('M', V[i], c); } else if (k == 1) { i = ctx.choose(12); bad = header(Y[i], "1.4", c); } else if (k == 2) { i = ctx.choose(8); bad[h.find('\n') + 1] = TY[i]; } else { i = ctx.choose(3); bad = h.substr(0, h.rfind('\n', h.size() - 2) + 1); } w = mc::fmt("header %d %d, %d comments", k, i, c); if (k == 3 && i == 0) bad += ""; else bad += b.str(); if (i == 2) bad += d.str(); std::string p = ctx.scratch() + "/bad", q = ctx.scratch() + "/good"; atx::write(p, bad); atx::write(q, h + b.str() + d.str()); ctx.note(w);
  bool thrown = false; ctx.site("open"); try { Antex a(p.c_str()); } catch (std::runtime_error &) { thrown = true; } ctx.eq(thrown, true, "accepted", w); File f; f.b = {b, d}; Antex r(q.c_str()); ask(ctx, r, f.b, {b.type, "", false}, w); thrown = false; try { r.reset_to_file(p.c_str()); } catch (std::runtime_error &) { thrown = true; } ctx.eq(thrown, true, "accepted", w + " again"); r.reset_to_file(q.c_str()); ask(ctx, r, f.b, {b.type, "", false}, w); ask(ctx, r, f.b, {d.type, d.serial, true}, w); ctx.state(w); ctx.outcome(mc::fmt("%d", k)); }
