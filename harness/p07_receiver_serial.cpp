// MC-PROPERTIES: P07
#include "common.hpp"
#include "antenna.hpp"
#include <memory>
using namespace ngpt;

static const std::vector<std::string> MODEL = {"TRM41249.00     TZGD", "TRM41249.00     TZGE", "XRM41249.00     TZGD", "TRM41249.00", "TRM41249.00     NONE"};
static const std::vector<std::string> SERIAL = {"", " ", "123", "123 ", " 123", "12", "1 23", "12345678901234567890", "12345678901234567891", "12345678901234567890X",
                                                "                   1", "                    X", "123                Z"};
static std::string rt(std::string s) { s = s.substr(0, 20); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
// one exact-size heap copy of each serial and its padded-blank-free form
struct Q { std::unique_ptr<char[]> c; std::string r; };
static const std::vector<Q> &queries() {
  static const std::vector<Q> v = [] { std::vector<Q> v; for (auto &q : SERIAL) { Q x; x.c.reset(new char[q.size() + 1]); memcpy(x.c.get(), q.c_str(), q.size() + 1); x.r = rt(q); v.push_back(std::move(x)); } return v; }();
  return v;
}
struct M { std::string name, serial; bool has() const { return !rt(serial).empty(); } };
static M make_model(int i) { std::string n = MODEL[i].substr(0, 20); n.resize(20, ' '); if (n.substr(16) == "    ") n.replace(16, 4, "NONE"); return {n, ""}; }

static void verify1(mc::Ctx &ctx, const ReceiverAntenna &a, const M &m, const char *w) {
  const char *u = a.__underlying_char__();
  if (memcmp(u, m.name.data(), 20)) ctx.fail("model-changed", std::string(w) + ": [" + mc::vis(std::string(u, 20)) + "] expected [" + mc::vis(m.name) + "]");
  std::string s = rt(std::string(u + 20, strnlen(u + 20, 20)));
  if (s != rt(m.serial)) ctx.fail("serial-text", std::string(w) + ": [" + mc::vis(s) + "] expected [" + mc::vis(rt(m.serial)) + "]");
  if (strnlen(u, 41) > 40) ctx.fail("unterminated", w);
  if (a.has_serial() != m.has()) ctx.fail("has-serial", std::string(w) + " serial [" + mc::vis(m.serial) + "]");
  const std::string ms = rt(m.serial);
  for (auto &q : queries())
    if (a.compare_serial(q.c.get()) != (q.r == ms)) ctx.fail("compare-serial", std::string(w) + ": serial [" + mc::vis(m.serial) + "] against [" + mc::vis(q.c.get()) + "]");
  ctx.step(2 + SERIAL.size());
}
static void verify2(mc::Ctx &ctx, const ReceiverAntenna &a, const M &m, const ReceiverAntenna &b, const M &n, const char *w) {
  bool em = m.name == n.name, es = m.has() && n.has() && em && rt(m.serial) == rt(n.serial);
  std::string d; if (a.compare_model(b) != em || a.is_same(b) != es) d = std::string(w) + ": [" + mc::vis(m.name + "|" + m.serial) + "] and [" + mc::vis(n.name + "|" + n.serial) + "]";
  if (a.compare_model(b) != em) ctx.fail("compare-model", d);
  if (a.is_same(b) != es) ctx.fail("is-same", d);
  ctx.step(2);
}
static void all(mc::Ctx &ctx, const ReceiverAntenna &a, const M &m, const ReceiverAntenna &b, const M &n) {
  verify1(ctx, a, m, "a"); verify1(ctx, b, n, "b");
  verify2(ctx, a, m, b, n, "a,b"); verify2(ctx, b, n, a, m, "b,a"); verify2(ctx, a, m, a, m, "a,a"); verify2(ctx, b, n, b, n, "b,b");
}
static void set(ReceiverAntenna &a, const std::string &s) {
  std::unique_ptr<char[]> c(new char[s.size() + 1]); memcpy(c.get(), s.c_str(), s.size() + 1); a.set_serial_nr(c.get());
}

MC_SCENARIO(P07, histories, "all sequences of up to 3 (thorough 4) operations on two antennas: set one of 13 serials on either, copy either way, rebuild either from one of 3 models; all observers after every operation") {
  static const int F[] = {0, 'A'};
  int f = F[ctx.choose(2)];
  int i = ctx.choose(2);
  mc::Dirty<ReceiverAntenna> A(f), B(f); M m = make_model(i), n = make_model(0);
  ReceiverAntenna &a = A.make(MODEL[i].c_str()), &b = B.make(std::string(MODEL[0]));
  all(ctx, a, m, b, n);
  int depth = ctx.thorough() ? 4 : 3, NS = ctx.thorough() ? 10 : (int)SERIAL.size();
  for (int k = 0; k < depth; k++) {
    int op = ctx.choose(2 * NS + 6);
    if (op < 2 * NS) { bool w = op >= NS; auto &s = SERIAL[op % NS]; ctx.note(w ? "b" : "a", ".set_serial_nr(", mc::vis(s), ")"); set(w ? b : a, s); (w ? n : m).serial = s; }
    else switch (op - 2 * NS) {
      case 0: ctx.note("a = b"); a = b; m = n; break;
      case 1: ctx.note("b = copy of a"); b = ReceiverAntenna(a); n = m; break;
      default: { int q = op - 2 * NS - 2; ctx.note("a = ", MODEL[q]); a = ReceiverAntenna(MODEL[q].c_str()); m = make_model(q); }
      }
    all(ctx, a, m, b, n);
    ctx.state(m.name + m.serial + "|" + n.name + n.serial);
  }
  ctx.outcome(mc::fmt("%d%d%d%d", m.has(), n.has(), a.is_same(b), a.compare_model(b)));
}
MC_SCENARIO(P07, single_column, "for every column 1..40: two antennas differing in that column only, over every length of the serial") {
  std::string full = "ABCDEFGHIJKLMNO RSTUabcdefghijklmnopqrst";
  int p = ctx.choose(40), len = ctx.choose(21);
  std::string x = full.substr(0, 20), sx = full.substr(20, len), y = x, sy = sx;
  if (p < 20) y[p] = '#'; else if (p - 20 < len) sy[p - 20] = '#';
  ctx.note(x, "|", sx, "  and  ", y, "|", sy);
  ReceiverAntenna a(x.c_str()), b(y.c_str()); set(a, sx); set(b, sy);
  all(ctx, a, M{x, sx}, b, M{y, sy}); 
  ctx.eq(a.compare_serial(sy.c_str()), sx == sy, "compare-serial", "serial of every length"); ctx.eq(b.compare_serial(sx.c_str()), sx == sy, "compare-serial", "serial of every length");
  for (int l = 0; l <= 20; l++) ctx.eq(a.compare_serial(full.substr(20, l).c_str()), l == len, "compare-serial-prefix", "prefixes");
  ctx.state(x + sx + y + sy); ctx.outcome(mc::fmt("%d%d", a.is_same(b), a.compare_model(b)));
}
MC_SCENARIO(P07, every_byte, "every byte 1..255 at every serial column, alone and after text") {
  int p = ctx.choose(21), c = 1 + ctx.choose(255); bool alone = ctx.flag(); std::string s(p, alone ? ' ' : 'k'); s += (char)c;
  ReceiverAntenna a(MODEL[0].c_str()), b(MODEL[0].c_str()); set(a, s); set(b, s); M m = make_model(0); m.serial = s;
  all(ctx, a, m, b, m); ctx.check(a.compare_serial(s.c_str()), "compare-serial-self", mc::vis(s));
  ctx.state(s); ctx.outcome(mc::fmt("%d", m.has()));
}
MC_SCENARIO(P07, very_long, "serials and compared texts of 40 lengths around powers of two up to 70000: filled, blank, or with blanks then a letter after column 20; after a longer or shorter one") {
  static const std::vector<int> L = [] { std::vector<int> l; for (int p : {20, 32, 64, 128, 256, 512, 4096, 32768, 65536}) for (int d : {-1, 0, 1, 20}) l.push_back(p + d); l.push_back(70000); l.push_back(300); l.push_back(240); l.push_back(1000); return l; }();
  int n = ctx.pick(L), k = ctx.choose(4), pre = ctx.choose(4); std::string s(n, k == 0 ? 'q' : k == 1 ? ' ' : '7'); if (k == 2) { s.assign(n, ' '); s[n - 1] = 'X'; } if (k == 3 && n > 21) s.replace(3, n - 4, std::string(n - 4, ' '));
  ReceiverAntenna a(MODEL[0].c_str()), b(MODEL[0].c_str()); M m = make_model(0), o = m; if (pre) { o.serial = SERIAL[pre == 1 ? 2 : pre == 2 ? 7 : 5]; set(a, o.serial); set(b, o.serial); } set(a, s); m.serial = s; all(ctx, a, m, b, o);
  std::unique_ptr<char[]> c(new char[s.size() + 1]); memcpy(c.get(), s.c_str(), s.size() + 1); ctx.eq(a.compare_serial(c.get()), true, "compare-own", mc::fmt("length %d kind %d", n, k)); ctx.eq(b.compare_serial(c.get()), rt(s) == rt(o.serial), "compare-long", mc::fmt("length %d kind %d", n, k)); ctx.state(mc::fmt("%d %d %d", n, k, pre)); ctx.outcome(mc::fmt("%d%d", k, pre));
}
MC_SCENARIO(P07, relations, "all triples of antennas out of 5 models x 7 serials: both relations of every two, same-antenna transitive, also in vectors moved by growth and sorting") {
  auto one = [&](M &m) { int q = ctx.choose(5); m = make_model(q); static const int S[] = {0, 1, 2, 3, 5, 7, 9}; int s = S[ctx.choose(7)]; ReceiverAntenna a(MODEL[q].c_str()); if (s) { set(a, SERIAL[s]); m.serial = SERIAL[s]; } return a; }; M m[3]; std::vector<ReceiverAntenna> v; for (int i = 0; i < 3; i++) v.push_back(one(m[i]));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) verify2(ctx, v[i], m[i], v[j], m[j], "in vector"); if (v[0].is_same(v[1]) && v[1].is_same(v[2]) && !v[0].is_same(v[2])) ctx.fail("transitive", m[0].serial); std::swap(v[0], v[2]); verify2(ctx, v[0], m[2], v[1], m[1], "swapped"); v.erase(v.begin()); verify2(ctx, v[0], m[1], v[1], m[0], "after removal"); v[0] = v[0]; verify2(ctx, v[0], m[1], v[0], m[1], "self-assigned"); ctx.state(m[0].name + m[0].serial + m[1].name + m[1].serial); ctx.outcome(mc::fmt("%d%d", v[0].is_same(v[1]), v[0].compare_model(v[1])));
}
