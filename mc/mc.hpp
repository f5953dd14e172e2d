// Stateless, exhaustive explorer for sequential C++ code.
//
// A *scenario* is a function body(Ctx&) that drives the real library code and
// asks the explorer for every nondeterministic decision (operation, argument,
// environment answer, truncation point, interleaving ...) via Ctx::choose(n).
// The explorer runs the body once for every sequence of answers: depth-first,
// replaying the prefix each time, so that the whole bounded space is covered.
// Executions run in forked workers, so that a crash, an abort, a sanitizer
// report or a hang of the code under test is an observation about one
// execution (identified by its choice sequence), not the end of the check.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string key, msg; };

inline int capturing = 0; ///< work of the machinery itself: no stop of a thread here (output being collected, trace)
struct Quiet { Quiet() { ++capturing; } ~Quiet() { --capturing; } };

constexpr int MAXCH = 400;   // choice points per execution
constexpr int KEYLEN = 200;
constexpr int MSGLEN = 3000;

struct Cell {                // shared-memory image of one worker's execution
  volatile uint32_t len;
  uint16_t choice[MAXCH];
  uint16_t arity[MAXCH];
  char site[KEYLEN];
};

class Ctx {
public:
  // ---- for scenario bodies
  /// one of n alternatives (0..n-1); every alternative is explored
  int choose(int n);
  template <class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
  bool flag() { return choose(2) == 1; }
  /// one more transition (operation on the real code) of this execution
  void step(uint64_t n = 1) { transitions_ += n; }
  /// a state of the system (canonical text or number); counted once per value
  void state(const std::string &s);
  void state(uint64_t h);
  /// observed outcome, counted once per value (vacuity guard)
  void outcome(const std::string &s);
  /// where we are: names the operation in case the process dies in it
  void site(const std::string &s);
  /// describe the execution (only evaluated when a trace is wanted)
  bool tracing() const { return tracing_; }
  template <class... A> void note(const A &...a) {
    if (!tracing_) return;
    Quiet q;
    std::ostringstream o; o.precision(17);
    ((o << a), ...); trace_.push_back(o.str());
  }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { Quiet q; throw Violation{key, msg}; }
  void check(bool ok, const char *key, const std::string &msg = "") { if (!ok) fail(key, msg); }
  template <class A, class B>
  void eq(const A &got, const B &want, const char *key, const std::string &what) { eq(got, want, key, what.c_str()); }
  template <class A, class B>
  void eq(const A &got, const B &want, const char *key, const char *what = "") {
    if (!(got == want)) {
      Quiet q;
      std::ostringstream o; o.precision(17);
      o << what << ": got [" << got << "], expected [" << want << "]"; fail(key, o.str());
    }
  }
  bool thorough() const { return thorough_; }
  /// scratch directory of this worker (exists, is removed by the parent)
  const std::string &scratch() const { return scratch_; }

  // ---- for the engine
  std::vector<uint16_t> prefix_;
  uint32_t len_ = 0;
  uint16_t choice_[MAXCH], arity_[MAXCH];
  uint16_t want_arity_[MAXCH];
  uint32_t want_len_ = 0;
  bool tracing_ = false, thorough_ = false;
  std::vector<std::string> trace_;
  uint64_t transitions_ = 0;
  Cell *cell_ = nullptr;
  std::string scratch_;
};

struct Scenario {
  const char *property;
  const char *name;
  void (*body)(Ctx &);
  double timeout;       // seconds for one execution
  const char *bounds;   // what is enumerated, in words
};
std::vector<Scenario> &registry();
struct Reg { Reg(Scenario s) { registry().push_back(s); } };

// MC_SCENARIO(P01, name, "bounds") { ... ctx ... }
#define MC_SCENARIO(prop, nm, bounds)                                          \
  static void mc_body_##prop##_##nm(mc::Ctx &);                                \
  static mc::Reg mc_reg_##prop##_##nm({#prop, #nm, mc_body_##prop##_##nm, 8.0, bounds}); \
  static void mc_body_##prop##_##nm([[maybe_unused]] mc::Ctx &ctx)

// ---------------------------------------------------------------- utilities
inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  return h ? h : 1;
}
inline std::string vis(const std::string &s) { // printable form
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c >= 33 && c < 127 && c != '\\') o += (char)c;
    else if (c == ' ') o += '_';
    else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}
/// Construct T in memory that held `fill` in every byte before: the prior
/// content of memory is part of the environment the explorer decides.
template <class T> struct Dirty {
  alignas(T) unsigned char buf[sizeof(T)];
  T *p = nullptr;
  explicit Dirty(int fill) { std::memset(buf, fill, sizeof buf); asm volatile("" : : "r"(buf) : "memory"); }
  template <class... A> T &make(A &&...a) { p = ::new ((void *)buf) T(std::forward<A>(a)...); return *p; }
  Dirty(const Dirty &) = delete;
  ~Dirty() { if (p) p->~T(); }
};
/// Collects what is printed to C stdout while alive.
class CaptureStdout {
  char *buf_ = nullptr; size_t n_ = 0; FILE *old_; FILE *mem_;
  std::ostringstream cpp_; std::streambuf *cout_; // printed through either library
public:
  CaptureStdout() { ++capturing; fflush(stdout); old_ = stdout; mem_ = open_memstream(&buf_, &n_); stdout = mem_; cout_ = std::cout.rdbuf(cpp_.rdbuf()); }
  std::string stop() {
    if (mem_) { fflush(mem_); stdout = old_; fclose(mem_); mem_ = nullptr; std::cout.rdbuf(cout_); --capturing; }
    return std::string(buf_ ? buf_ : "", n_) + cpp_.str();
  }
  ~CaptureStdout() { stop(); free(buf_); }
};
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

} // namespace mc
#endif
