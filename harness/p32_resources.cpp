// MC-PROPERTIES: P32
#include "obsfile.hpp"
#include "navorbit.hpp"
#include "sp3file.hpp"
#include "satfile.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <set>
#include <fcntl.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void); // ASan
static int open_files(int max = 40) { int n = 0; for (int i = 0; i < max; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static std::string slurp(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return "(none)"; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static std::string bytes(const void *p, size_t n) { return std::string((const char *)p, n); }
/// A reader of one of the five kinds: what the k-th use gives, as bytes
struct Reader { virtual ~Reader() {} virtual std::string use(int k) = 0; virtual Reader *moved() = 0; virtual void take(Reader &r) = 0; };
struct Obs : Reader { ObservationRnx r; obs::ReadMap m; obs::EpochVec v; explicit Obs(const char *p) : r(p) { std::vector<obs::Req> q{{'G', {{"C1C", 1}}}, {'G', {{"C1C", 2}, {"L1C", -1}}}}; auto i = obs::inmap(q); m = r.set_read_map(i); v = r.initialize_epoch_vector(m); } Obs(Obs &o) : r(std::move(o.r)), m(std::move(o.m)), v(std::move(o.v)) {}
  Reader *moved() override { return new Obs(*this); } void take(Reader &x) override { Obs &o = (Obs &)x; r = std::move(o.r); m = o.m; v = o.v; }
  std::string use(int k) override { if (k % 4 == 3) r.rewind(); int n = -1; modified_julian_day d(1); double s = -1; int st = r.read_next_epoch(m, v, n, d, s); std::string o = bytes(&st, 4); if (!st) { o += bytes(&n, 4) + bytes(&s, 8); for (int i = 0; i < n; i++) for (double x : v[i].second) o += bytes(&x, 8); } return o; } };
struct Nav : Reader { NavigationRnx r; explicit Nav(const char *p) : r(p) {} Nav(Nav &o) : r(std::move(o.r)) {} Reader *moved() override { return new Nav(*this); } void take(Reader &x) override { r = std::move(((Nav &)x).r); }
  std::string use(int k) override { if (k % 4 == 3) r.rewind(); NavDataFrame f; int st = r.read_next_record(f); return bytes(&st, 4) + (st ? "" : nav::content(f)); } };
struct Sp3 : Reader { Sp3c r; sp3::Vec v; explicit Sp3(const char *p) : r(p), v(r.allocate_epoch_vector()) {} Sp3(Sp3 &o) : r(std::move(o.r)), v(std::move(o.v)) {} Reader *moved() override { return new Sp3(*this); } void take(Reader &x) override { Sp3 &o = (Sp3 &)x; r = std::move(o.r); v = o.v; }
  std::string use(int k) override { if (k % 4 == 3) r.rewind(); datetime<microseconds> t; int n = -1; int st = r.get_next_epoch(t, v, n); std::string o = bytes(&st, 4); if (n >= 0) { long us = t.sec().as_underlying_type(); o += bytes(&us, sizeof us); for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) o += bytes(&v[i].vals_[j], 8); } return o; } };
struct Atx : Reader { Antex r; explicit Atx(const char *p) : r(p) {} Atx(Atx &o) : r(std::move(o.r)) {} Reader *moved() override { return new Atx(*this); } void take(Reader &x) override { r = std::move(((Atx &)x).r); }
  std::string use(int k) override { AntennaPcoList l; int st = k % 3 == 0 ? r.get_antenna_pco(ReceiverAntenna("LEIAX1202GG     NONE"), l) : r.get_antenna_pco(k % 3 == 1 ? 3 : 4, SATELLITE_SYSTEM::gps, atx::T{2001, 1, 1, 0}.dt(), l); return bytes(&st, 4) + atx::show(l) + r.filename(); } };
struct Sat : Reader { BernSatellit r; explicit Sat(const char *p) : r(p) {} Sat(Sat &o) : r(std::move(o.r)) {} Reader *moved() override { return new Sat(*this); } void take(Reader &x) override { r = std::move(((Sat &)x).r); }
  std::string use(int k) override { int f = 99, p = 99, st = r.get_frequency_channel(719 + k % 3, atx::T{2009, 1, 1, 0}.dt(), f, p); return bytes(&st, 4) + (st ? "" : bytes(&f, 4) + bytes(&p, 4)); } };
static const char *NAME[] = {"obs", "nav", "sp3", "atx", "sat"};
static Reader *open(int k, const std::string &p) { switch (k) { case 0: return new Obs(p.c_str()); case 1: return new Nav(p.c_str()); case 2: return new Sp3(p.c_str()); case 3: return new Atx(p.c_str()); default: return new Sat(p.c_str()); } }
/// file of reader kind k: 0 and 1 good, 2 not there, 3 empty, 4 another kind of file, 5 header without end, 6 a directory, 7 cut in the body
static std::string text(int k, int v) {
  switch (k) {
  case 0: { std::string t = obs::text({obs::first()}) + obs::text(obs::types('G', {"C1C", "L1C"})) + obs::END(); for (int i = 0; i < 3; i++) { obs::Epoch e; e.mi = i; e.s = {{'G', 1 + v, {obs::cell(10 * i + v), obs::cell(3.5 * i)}}, {'G', 9, {obs::cell(7 + i + v), obs::cell(-4)}}}; t += e.str(); } return t; }
  case 1: { std::string t = nav::header(); for (int i = 0; i < 3; i++) { nav::Blk b("GRE"[i], 3 + i + v); b.sod = 900 * i; t += b.text(); } return t; }
  case 2: { sp3::File f; f.sats = {{'G', 1}, {'R', 2 + v}}; for (int i = 0; i < 3; i++) { sp3::Epoch e; e.t = f.start.plus(i * f.interval); e.r = {sp3::rec('G', 1, 1000 + i + v), sp3::rec('R', 2 + v, 2000 + i)}; f.e.push_back(e); } return f.str(); }
  case 3: { atx::File f; atx::Block r; r.zen2 = 5; r.type = "LEIAX1202GG     NONE"; r.f = {atx::freq('G', 1, 10 + v)}; atx::Block q; q.zen2 = 5; q.type = "BLOCK IIA"; q.sys = 'G'; q.prn = 3; q.svn = 33; q.cospar = "1996-019A"; q.from = {2000, 1, 1, 0}; q.f = {atx::freq('G', 1, 20 + v), atx::freq('G', 2, 30)}; f.b = {r, q}; return f.str(); }
  default: { bern::File f; f.h = bern::head(1); f.e = {{101, "MW", "GLONASS", 719, {2005, 12, 25, 0}, {2009, 9, 1, 0}, v ? "   1" : "  -3", "L1 L2"}, {102, "MW", "GLONASS", 720, {2008, 12, 25, 0}, {}, "  -7", ""}}; return f.str(); } }
}
static const char *END_[] = {"END OF HEADER", "END OF HEADER", "%c M", "END OF HEADER", "PART 2"};
static void put(const std::string &p, const std::string &s) { obs::write(p, s); }
static std::string path(mc::Ctx &ctx, int k, int f) { return f == 2 ? ctx.scratch() + "/nothing" : ctx.scratch() + mc::fmt("/%s%d", NAME[k], f); }
/// bytes each file was written with
static std::string written(int k, int f) { std::string t = text(k, f == 1); size_t h = t.find(END_[k]); switch (f) { case 3: return ""; case 4: return text((k + 1) % 5, 0); case 5: return t.substr(0, h); case 7: return t.substr(0, k == 4 ? t.find("720") + 1 : t.size() - t.size() / 4 - 3); default: return t; } }
static void files(mc::Ctx &ctx, int k) { for (int f = 0; f < 8; f++) if (f == 6) mkdir(path(ctx, k, f).c_str(), 0755); else if (f != 2 && access(path(ctx, k, f).c_str(), F_OK)) put(path(ctx, k, f), written(k, f)); }
/// what a reader that is never moved gives in each use; the first is "refused" if there is none
static std::vector<std::string> expected(mc::Ctx &ctx, int k, int f, int uses) { std::vector<std::string> v; try { std::unique_ptr<Reader> r(open(k, path(ctx, k, f))); for (int i = 0; i < uses; i++) v.push_back(r->use(i)); } catch (std::runtime_error &) { v.assign(1, "refused"); } return v; }
struct Slot { std::unique_ptr<Reader> r; int f = 0, n = 0; };
/// 14 operations on two slots
enum { NOPS = 14 };
static void run(mc::Ctx &ctx, int k, const std::vector<int> &ops, const std::vector<std::vector<std::string>> &want, int base, int unmoved) {
  Slot s[2]; auto use = [&](int i) { if (!s[i].r) return; ctx.step(); std::string g = s[i].r->use(s[i].n); bool ok = g == want[s[i].f][s[i].n]; s[i].n++; if (!ok) ctx.fail("result", mc::fmt("%s file %d use %d: not what a reader of its own gives", NAME[k], s[i].f, s[i].n)); };
  for (int o : ops) { ctx.step();
    if (o < 8) { s[0].r.reset(); bool refused = false; try { s[0].r.reset(open(k, path(ctx, k, o))); } catch (std::runtime_error &) { refused = true; } s[0].f = o; s[0].n = 0; if (refused != (want[o][0] == "refused")) ctx.fail("open", mc::fmt("%s file %d: %s", NAME[k], o, refused ? "refused" : "accepted")); }
    else if (o == 8) use(0); else if (o == 9) use(1);
    else if (o == 10) { if (s[0].r) { s[1].r.reset(s[0].r->moved()); s[1].f = s[0].f; s[1].n = s[0].n; s[0].r.reset(); } }
    else if (o == 11) { if (s[0].r && s[1].r && s[1].f != 6) { s[0].r->take(*s[1].r); s[0].f = s[1].f; s[0].n = s[1].n; s[1].r.reset(); } }
    else if (o == 12) std::swap(s[0], s[1]); else s[0].r.reset();
    int held = open_files() - base, live = !!s[0].r + !!s[1].r; if (held > live) ctx.fail("files-held", mc::fmt("%s: %d files open for %d readers after operation %d", NAME[k], held, live, o)); }
  for (int i = 0; i < 2; i++) { use(i); s[i].r.reset(); } (void)unmoved; if (open_files() != base) ctx.fail("files-held", mc::fmt("%s: files still open after all readers were destroyed", NAME[k]));
}
static void whole(mc::Ctx &ctx, int k, const std::vector<int> &ops, int uses, const std::string &w) {
  files(ctx, k); static std::vector<std::vector<std::string>> all[5]; auto &want = all[k]; ctx.site(NAME[k]); int base = open_files(); // once per process: what plain readers give
  if (want.empty()) { std::vector<std::vector<std::string>> x; for (int f = 0; f < 8; f++) x.push_back(expected(ctx, k, f, uses)); if (open_files() != base) ctx.fail("files-held", std::string(NAME[k]) + ": after plain use"); want = x; }
  for (int f = 0; f < 8; f++) if ((want[f][0] == "refused") != (f >= 2 && f <= 6)) ctx.fail("open", mc::fmt("%s: file %d is %s", NAME[k], f, f >= 2 && f <= 6 ? "accepted" : "refused"));
  size_t b[4]; for (int i = 0; i < 4; i++) { run(ctx, k, ops, want, base, 0); b[i] = __sanitizer_get_current_allocated_bytes(); }
  if (b[0] < b[1] && b[1] < b[2] && b[2] < b[3]) ctx.fail("memory-held", mc::fmt("%s: %zu more bytes after every run", NAME[k], b[3] - b[2]));
  static std::string wr[5][8]; for (int f : ops) if (f < 8 && f != 2 && f != 6 && slurp(path(ctx, k, f)) != (wr[k][f].empty() ? wr[k][f] = written(k, f) : wr[k][f])) ctx.fail("file-changed", mc::fmt("%s %d", NAME[k], f)); if (!access(path(ctx, k, 2).c_str(), F_OK)) ctx.fail("file-created", NAME[k]); ctx.state(w); }
MC_SCENARIO(P32, reader_histories, "5 reader classes x all sequences of 4 (thorough 5) of 14 operations on two readers: open each of 8 files (two good, absent, empty, of another kind, without end of header, a directory, cut off), read from either, move-construct, move-assign, swap, destroy; results, open files, memory over 4 repetitions, file contents") {
  int k = ctx.choose(5); std::vector<int> ops; std::string w = NAME[k]; for (int i = 0; i < (ctx.thorough() ? 5 : 4); i++) { int o = i == 0 ? ctx.choose(8) : ctx.choose(NOPS); ops.push_back(o); w += mc::fmt(" %d", o); } ctx.note(w); whole(ctx, k, ops, 12, w); ctx.outcome(NAME[k]); }
MC_SCENARIO(P32, long_use, "5 reader classes x good and cut file x every pattern of 6 of: read, move-construct, move to and fro by assignment over a reader of the other file; then 4 reads") {
  int k = ctx.choose(5), f = ctx.flag() ? 7 : 0; std::vector<int> ops{f}; std::string w = mc::fmt("%s %d:", NAME[k], f); for (int i = 0; i < 6; i++) { int o = ctx.choose(3); w += mc::fmt(" %d", o); if (o == 0) ops.push_back(8); else if (o == 1) { ops.push_back(10); ops.push_back(12); } else { ops.push_back(12); ops.push_back(1); ops.push_back(8); ops.push_back(11); } } for (int i = 0; i < 4; i++) ops.push_back(8); ctx.note(w); whole(ctx, k, ops, 12, w); ctx.outcome(NAME[k]); }
MC_SCENARIO(P32, many_readers, "5 reader classes x 8 files x 1..40 readers open at once (destroyed first to last or last to first), twice") {
  int k = ctx.choose(5), f = ctx.choose(8), rev = ctx.flag(); files(ctx, k); int base = open_files(256); ctx.site(NAME[k]); std::vector<std::string> want = expected(ctx, k, f, 2);
  for (int n = 1; n <= 40; n += 13) for (int t = 0; t < 2; t++) { std::vector<std::unique_ptr<Reader>> v; for (int i = 0; i < n; i++) { try { v.emplace_back(open(k, path(ctx, k, f))); if (want[0] == "refused") ctx.fail("open", mc::fmt("%s %d", NAME[k], f)); } catch (std::runtime_error &) { if (want[0] != "refused") ctx.fail("open", mc::fmt("%s %d", NAME[k], f)); } ctx.step(); }
    if (open_files(256) - base > (int)v.size()) ctx.fail("files-held", NAME[k]); for (auto &r : v) if (r->use(0) != want[0]) ctx.fail("result", NAME[k]); while (!v.empty()) { if (rev) v.pop_back(); else v.erase(v.begin()); } if (open_files(256) != base) ctx.fail("files-held", NAME[k]); }
  ctx.state(mc::fmt("%d%d%d", k, f, rev)); ctx.outcome(mc::fmt("%d%d", k, f)); }
/// names of everything in a directory
static std::string listing(const std::string &d) { std::set<std::string> n; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) n.insert(e->d_name); closedir(p); } std::string s; for (auto &x : n) s += x + "\n"; return s; }
/// a good file of kind k with c more header comments (entries for the satellite information) and n records
static std::string sized(int k, int c, int n) {
  auto with = [&](std::string t, const std::string &one) { size_t h = t.find("END OF HEADER"); h = t.rfind('\n', h) + 1; std::string x; for (int i = 0; i < c; i++) x += one; return t.insert(h, x); }; std::string rem = mc::fmt("%-60sCOMMENT\n", "A REMARK");
  switch (k) {
  case 0: { std::string t = with(obs::text({obs::first()}) + obs::text(obs::types('G', {"C1C", "L1C"})) + obs::END(), rem); for (int i = 0; i < n; i++) { obs::Epoch e; e.hh = i / 60 % 24; e.mi = i % 60; e.d += i / 1440; e.s = {{'G', 1, {obs::cell(10 + i), obs::cell(3.5)}}}; t += e.str(); } return t; }
  case 1: { std::string t = with(nav::header(), rem); for (int i = 0; i < n; i++) { nav::Blk b("GRE"[i % 3], 1 + i % 20); b.sod = 60 * (i % 1440); t += b.text(); } return t; }
  case 2: { sp3::File f; f.ver = 'd'; f.sats = {{'G', 1}}; for (int i = 0; i < c; i++) f.comments.push_back("/* A REMARK"); f.neph = n; for (int i = 0; i < n; i++) { sp3::Epoch e; e.t = f.start.plus(i * f.interval); e.r = {sp3::rec('G', 1, 1000 + i)}; f.e.push_back(e); } return f.str(); }
  case 3: { atx::File f; f.head = with(f.head, rem); for (int i = 0; i < n; i++) { atx::Block r; r.zen2 = 5; r.type = i < n - 1 ? mc::fmt("LEIAX%04d       NONE", i) : "LEIAX1202GG     NONE"; r.f = {atx::freq('G', 1, 10)}; f.b.push_back(r); } return f.str(); }
  default: { bern::File f; f.h = bern::head(1); for (int i = 0; i < c + n; i++) f.e.push_back({101, "MW", "GLONASS", i < c + n - 1 ? 100 + i % 600 : 719, {2005, 12, 25, 0}, {2009, 9, 1, 0}, "  -3", "L1 L2"}); return f.str(); } }
}
MC_SCENARIO(P32, sizes, "5 reader classes x 0, 1, 10, 41, 100, 300 or 900 more header comments x 1, 3, 20, 200 (thorough 1200) records: everything read, then again after rewinding, by a reader, by one moved to, and by a second; the directory they are in and the one they run in hold the same files with the same bytes afterwards, and no more files are open than readers exist") {
  static const int C[] = {0, 1, 10, 41, 100, 300, 900}, N[] = {1, 3, 20, 200, 1200}; int k = ctx.choose(5), c = C[ctx.choose(7)], n = N[ctx.choose(ctx.thorough() ? 5 : 4)]; ctx.site(NAME[k]); std::string w = mc::fmt("%s with %d comments and %d records", NAME[k], c, n); ctx.note(w);
  std::string d = ctx.scratch() + "/in", run = ctx.scratch() + "/run", p = d + "/file", t = sized(k, c, n); for (auto &x : {d, run}) { mkdir(x.c_str(), 0755); std::string l = listing(x); for (size_t i = 0, e; (e = l.find('\n', i)) != std::string::npos; i = e + 1) if (l[i] != '.') unlink((x + "/" + l.substr(i, e - i)).c_str()); } put(p, t); if (chdir(run.c_str())) std::abort(); std::string was = listing(d), was2 = listing(run); int base = open_files(); 
  { std::unique_ptr<Reader> r, q; try { r.reset(open(k, p)); q.reset(open(k, p)); } catch (std::exception &e) { ctx.fail("open", w + ": refused"); return; }
    for (int pass = 0; pass < 3; pass++) { if (pass == 1) { r.reset(r->moved()); } Reader &x = pass == 2 ? *q : *r; int got = 0; if (k < 3) { std::string u = pass == 1 ? x.use(3) : x.use(0); for (; !*(const int *)u.data() && got <= n; u = x.use(0)) { got++; ctx.step(); } if (k == 2 ? got + 1 != n || u.size() < 12 : got != n) ctx.fail("records", w + mc::fmt(": %d read", got)); } else for (int i = 0; i < 3; i++) { std::string u = x.use(i); ctx.step(); if (i == 0 && *(const int *)u.data()) ctx.fail("records", w + ": not found"); }
      if (open_files() - base > 2) ctx.fail("files-held", w); } }
  if (open_files() != base) ctx.fail("files-held", w + ": still open"); if (listing(d) != was) ctx.fail("file-created", w + ": next to it: " + mc::vis(listing(d))); if (listing(run) != was2) ctx.fail("file-created", w + ": in the working directory: " + mc::vis(listing(run))); if (slurp(p) != t) ctx.fail("file-changed", w); ctx.state(w); ctx.outcome(NAME[k]); }
