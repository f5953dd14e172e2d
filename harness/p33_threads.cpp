// MC-PROPERTIES: P33
// MC-FLAGS: -fno-builtin-strncmp -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -fno-builtin-sin -fno-builtin-cos
// MC-LIBFLAGS: -fsanitize-coverage=trace-pc
// MC-LINK: -Wl,--wrap=_ZNSi7getlineEPcl,--wrap=_ZNSi7getlineEPclc,--wrap=_ZNSi4peekEv,--wrap=_ZNSi5tellgEv,--wrap=_ZNSi5seekgESt4fposI11__mbstate_tE,--wrap=strtod,--wrap=strtof,--wrap=strtol,--wrap=__isoc23_strtol,--wrap=strncmp,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=sin,--wrap=cos,--wrap=sincos,--wrap=fmod,--wrap=atan2,--wrap=malloc,--wrap=_Znwm,--wrap=_ZdlPvm,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_once
#include "actors.hpp"
#include <pthread.h>
#include <semaphore.h>
/// Two real threads under a controlled scheduler: one runs at a time, and the running one can be stopped at every call
/// of the functions above (wrapped by the linker, for the library and everything else linked with it) and at the basic blocks of the library.
namespace sched {
static bool on = false; static long points[2], stop[2]; static bool done[2]; static sem_t go[2], fin; static thread_local int me = -1, locks = 0;
static void to(int t) { sem_post(&go[t]); while (sem_wait(&go[me])) ; }
static void point() { if (me < 0 || !on || locks || mc::capturing) return; if (points[me]++ != stop[me] || done[1 - me]) return; int e = errno; to(1 - me); errno = e; }
/// the basic blocks of the library's sources (compiler instrumentation): a point at the first VISITS executions of each by a thread
static int VISITS = 2; static struct { uintptr_t pc; long run; int n; } seen[2][8192]; static long run_no = 0;
static void block(uintptr_t pc) { if (me < 0 || !on || locks || mc::capturing) return; for (size_t h = (pc * 0x9E3779B97F4A7C15ull) >> 51;; h = (h + 1) & 8191) { auto &e = seen[me][h]; if (e.run != run_no) e = {pc, run_no, 0}; if (e.pc == pc) { if (e.n++ < VISITS) point(); return; } } }
struct Body { int id; std::function<void()> f; mc::Violation v; bool failed = false; };
static void run(Body &b) { while (sem_wait(&go[b.id])) ; me = b.id; try { b.f(); } catch (mc::Violation &v) { b.v = v; b.failed = true; } catch (std::exception &e) { b.v = {"exception", e.what()}; b.failed = true; } catch (...) { b.v = {"exception", "unknown"}; b.failed = true; } me = -1; done[b.id] = true; if (done[1 - b.id]) sem_post(&fin); else sem_post(&go[1 - b.id]); }
static Body *second; static sem_t work; static pid_t owner; // the second thread serves all executions of the process
static void *serve(void *) { for (;;) { while (sem_wait(&work)) ; run(*second); } }
/// run both to their ends, thread `first` first; thread i is stopped at its point at[i] (-1: never), the other goes on
static void both(mc::Ctx &, Body &a, Body &b, int first, long at0, long at1) {
  if (owner != getpid()) { owner = getpid(); sem_init(&work, 0, 0); pthread_t t; while (pthread_create(&t, nullptr, serve, nullptr)) usleep(1000); pthread_detach(t); }
  sem_init(&go[0], 0, 0); sem_init(&go[1], 0, 0); sem_init(&fin, 0, 0); stop[0] = at0; stop[1] = at1; points[0] = points[1] = 0; ++run_no; done[0] = done[1] = false; on = true; a.failed = b.failed = false; second = &b; sem_post(&work); sem_post(&go[first]); run(a); while (sem_wait(&fin)) ; on = false;
  if (a.failed) throw a.v; if (b.failed) throw b.v;
}
} // namespace sched
extern "C" {
void __sanitizer_cov_trace_pc() { sched::block((uintptr_t)__builtin_return_address(0)); }
#define WRAP(ret, name, decl, call) ret __real_##name decl; ret __wrap_##name decl { sched::point(); return __real_##name call; }
WRAP(std::istream &, _ZNSi7getlineEPcl, (std::istream & i, char *c, std::streamsize n), (i, c, n))
WRAP(std::istream &, _ZNSi7getlineEPclc, (std::istream & i, char *c, std::streamsize n, char d), (i, c, n, d))
WRAP(int, _ZNSi4peekEv, (std::istream & i), (i))
WRAP(std::istream &, _ZNSi5seekgESt4fposI11__mbstate_tE, (std::istream & i, std::streampos p), (i, p))
WRAP(std::streampos, _ZNSi5tellgEv, (std::istream & i), (i))
WRAP(double, strtod, (const char *s, char **e), (s, e))
WRAP(float, strtof, (const char *s, char **e), (s, e))
WRAP(long, strtol, (const char *s, char **e, int b), (s, e, b))
WRAP(long, __isoc23_strtol, (const char *s, char **e, int b), (s, e, b))
WRAP(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n))
WRAP(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n))
WRAP(void *, memmove, (void *a, const void *b, size_t n), (a, b, n))
WRAP(void *, memset, (void *a, int c, size_t n), (a, c, n))
WRAP(double, sin, (double x), (x))
WRAP(double, cos, (double x), (x))
WRAP(void, sincos, (double x, double *s, double *c), (x, s, c))
WRAP(double, fmod, (double x, double y), (x, y))
WRAP(double, atan2, (double y, double x), (y, x))
WRAP(void *, malloc, (size_t n), (n))
WRAP(void *, _Znwm, (size_t n), (n))
WRAP(void, _ZdlPvm, (void *p, size_t n), (p, n))
int __real___cxa_guard_acquire(void *); int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (r) ++sched::locks; return r; }
void __real___cxa_guard_release(void *); void __wrap___cxa_guard_release(void *g) { __real___cxa_guard_release(g); --sched::locks; }
void __real___cxa_guard_abort(void *); void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g); --sched::locks; }
int __real_pthread_mutex_lock(void *); int __wrap_pthread_mutex_lock(void *m) { int r = __real_pthread_mutex_lock(m); if (!r) ++sched::locks; return r; }
int __real_pthread_mutex_trylock(void *); int __wrap_pthread_mutex_trylock(void *m) { int r = __real_pthread_mutex_trylock(m); if (!r) ++sched::locks; return r; }
int __real_pthread_rwlock_rdlock(void *); int __wrap_pthread_rwlock_rdlock(void *m) { int r = __real_pthread_rwlock_rdlock(m); if (!r) ++sched::locks; return r; }
int __real_pthread_rwlock_wrlock(void *); int __wrap_pthread_rwlock_wrlock(void *m) { int r = __real_pthread_rwlock_wrlock(m); if (!r) ++sched::locks; return r; }
int __real_pthread_rwlock_unlock(void *); int __wrap_pthread_rwlock_unlock(void *m) { int r = __real_pthread_rwlock_unlock(m); if (!r) --sched::locks; return r; }
int __real_pthread_once(void *, void (*)()); int __wrap_pthread_once(void *o, void (*f)()) { ++sched::locks; int r = __real_pthread_once(o, f); --sched::locks; return r; }
int __real_pthread_mutex_unlock(void *); int __wrap_pthread_mutex_unlock(void *m) { int r = __real_pthread_mutex_unlock(m); if (!r) --sched::locks; return r; }
}
static void alone(mc::Ctx &ctx, int k, int v) { std::unique_ptr<Actor> a(actor(ctx, k, v)); for (int i = 0; i < LEN; i++) a->step(i); }
static void warm(mc::Ctx &ctx, int k, int v) { static std::set<int> w; if (w.insert(k * 2 + v).second) { alone(ctx, k, v); alone(ctx, k, v); } } // files written, constants initialised
static const int SLICE = 8;
/// one stop: object 0 is stopped at one point of all its calls, object 1 does everything (or what its first part left) in between
static void one_stop(mc::Ctx &ctx, int k0, int v0, int k1, int v1, int slices) {
  int part = ctx.choose(3), sl = ctx.choose(slices); warm(ctx, k0, v0); warm(ctx, k1, v1); long last = -1;
  for (long p = (long)sl * SLICE; p < (long)(sl + 1) * SLICE; p++) {
    std::unique_ptr<Actor> a(actor(ctx, k0, v0)), b(actor(ctx, k1, v1)); ctx.note(a->w, " stopped at point ", p, ", part ", part, " of ", b->w, " before it"); int pre = part == 0 ? 0 : part == 1 ? 1 : LEN - 2;
    sched::Body A{0, [&] { for (int i = 0; i < LEN; i++) a->step(i); }, {}}, B{1, [&] { for (int i = 0; i < LEN; i++) { if (i == pre && pre) sched::to(0); b->step(i); } }, {}};
    sched::both(ctx, A, B, pre ? 1 : 0, p, -1); last = sched::points[0]; ctx.state(mc::fmt("%d %d %d %d %d %ld", k0, v0, k1, v1, part, std::min(p, last))); if (p >= last) break; }
  ctx.outcome(mc::fmt("%d %d %ld", k0, k1, last));
}
static int slices(int k, int len) { static const int P[] = {200, 200, 300, 150, 800, 2100, 2500, 900, 500, 2300, 2450, 800, 150}; return P[k] * std::max(len - 1, 3) / 3 / SLICE + 1; }
MC_SCENARIO(P33, same_class, "two objects of each of 13 classes or readers (the same content or file, or different ones), each used by a thread of its own from creation through 2 (thorough 3) uses to destruction: the first is stopped at every single point of its work (every call of 21 runtime functions and the first two visits of every basic block of the library for lines, numbers, text, memory and angles), the second does all of its work, all but its creation, or only its last use and destruction in between") { LEN = ctx.thorough() ? 5 : 4; int k = ctx.choose(NK), v = ctx.choose(3); one_stop(ctx, k, v == 2, k, v == 1, slices(k, LEN)); }
MC_SCENARIO(P33, two_classes, "one object each of every two different classes out of 13, each in its thread: the first stopped at every point of its work, the second does all of its work in between") {
  LEN = ctx.thorough() ? 4 : 3; int k = ctx.choose(NK), j = ctx.choose(NK - 1); j += j >= k; int sl = ctx.choose(slices(k, LEN)); warm(ctx, k, 0); warm(ctx, j, 1); long last = -1;
  for (long p = (long)sl * SLICE; p < (long)(sl + 1) * SLICE; p++) { std::unique_ptr<Actor> a(actor(ctx, k, 0)), b(actor(ctx, j, 1)); ctx.note(a->w, " stopped at point ", p, " for ", b->w); sched::Body A{0, [&] { for (int i = 0; i < LEN; i++) a->step(i); }, {}}, B{1, [&] { for (int i = 0; i < LEN; i++) b->step(i); }, {}}; sched::both(ctx, A, B, 0, p, -1); last = sched::points[0]; ctx.state(mc::fmt("%d %d %ld", k, j, std::min(p, last))); if (p >= last) break; } ctx.outcome(mc::fmt("%d %d", k, j));
}
MC_SCENARIO(P33, two_stops, "two objects of each class, each in its thread, created, used once and destroyed: the first stopped at every 5th (thorough: every) point, the second started there and stopped in turn at every 40th (thorough: 8th) of its own, the first completes, then the second") {
  LEN = 3; int k = ctx.choose(NK), v = ctx.choose(2), sl = ctx.choose(slices(k, LEN)); warm(ctx, k, 0); warm(ctx, k, v); long last = -1; int sp = ctx.thorough() ? 1 : 5, sq = ctx.thorough() ? 8 : 40;
  for (long p = (long)sl * SLICE; p < (long)(sl + 1) * SLICE && (last < 0 || p < last); p++) if (p % sp == 0) for (long q = (p / sp * 7) % sq;; q += sq) { std::unique_ptr<Actor> a(actor(ctx, k, 0)), b(actor(ctx, k, v)); ctx.note(a->w, " stopped at point ", p, ", then ", b->w, " at its point ", q); sched::Body A{0, [&] { for (int i = 0; i < LEN; i++) a->step(i); }, {}}, B{1, [&] { for (int i = 0; i < LEN; i++) b->step(i); }, {}}; sched::both(ctx, A, B, 0, p, q); last = sched::points[0]; ctx.state(mc::fmt("%d %d %ld %ld", k, v, std::min(p, last), q)); if (p >= last || q >= sched::points[1]) break; } ctx.outcome(mc::fmt("%d %d", k, v));
}
