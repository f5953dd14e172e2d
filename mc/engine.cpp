// Explorer engine: see mc.hpp.  Usage:
//   harness --property P01 --tier quick|thorough --out RESULT.json --workers N --scratch DIR
//   harness --property P01 --replay SCENARIO c0,c1,c2,...    (one execution, traced)
#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

std::vector<Scenario> &registry() { static std::vector<Scenario> r; return r; }

std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct HashSet { // lock-free set of 64-bit hashes in shared memory
  static constexpr uint64_t CAP = 1ull << 23;
  std::atomic<uint64_t> count; std::atomic<uint64_t> full;
  std::atomic<uint64_t> slot[CAP];
  void add(uint64_t h) {
    if (!h) h = 1;
    uint64_t i = h & (CAP - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (CAP - 1)) {
      uint64_t v = slot[i].load(std::memory_order_relaxed);
      if (v == h) return;
      if (!v) {
        uint64_t e = 0;
        if (slot[i].compare_exchange_strong(e, h)) { count++; return; }
        if (e == h) return;
      }
    }
    full++;
  }
};

struct VSlot { std::atomic<int> state; int len; uint16_t choice[MAXCH]; char key[KEYLEN]; char msg[MSGLEN]; int kind; };
constexpr int NV = 256;
constexpr int NW = 16;
constexpr int NJ = 4096;
struct Job { int len; uint16_t choice[24]; };
struct Shared {
  Cell cell[NW];
  std::atomic<uint64_t> execs[NW];     // executions finished by worker (heartbeat)
  std::atomic<uint64_t> total, trans;
  std::atomic<uint64_t> vtotal;        // violating executions
  std::atomic<int> nextjob; int njobs;
  std::atomic<int> curjob[NW];
  std::atomic<int> nv;
  std::atomic<int> engine_error; char engine_msg[512];
  std::atomic<int> maxdepth, maxms;
  VSlot v[NV];
  Job job[NJ];
};
static Shared *S;
static HashSet *states, *outcomes;
static uint64_t outcome_salt = 0;   // outcomes are counted per scenario

void Ctx::state(uint64_t h) { if (states) states->add(h); }
void Ctx::state(const std::string &s) { if (states) states->add(hash64(s.data(), s.size())); }
void Ctx::outcome(const std::string &s) { if (outcomes) outcomes->add(hash64(s.data(), s.size(), 1469598103934665603ull ^ outcome_salt)); }
void Ctx::site(const std::string &s) {
  Quiet q;
  if (cell_) { size_t n = std::min(s.size(), (size_t)KEYLEN - 1); memcpy(cell_->site, s.data(), n); cell_->site[n] = 0; }
  if (tracing_) trace_.push_back("> " + s);
}
struct EngineError { std::string msg; };

int Ctx::choose(int n) {
  if (n < 1 || n > 65535) throw EngineError{fmt("choose(%d)", n)};
  uint32_t i = len_;
  if (i >= MAXCH) throw EngineError{"too many choice points in one execution"};
  if (i < want_len_ && want_arity_[i] && want_arity_[i] != n)
    throw EngineError{fmt("replay divergence at choice %u: arity %d, recorded %d", i, n, want_arity_[i])};
  int c = i < prefix_.size() ? prefix_[i] : 0;
  if (c >= n) throw EngineError{fmt("choice %u out of range (%d of %d)", i, c, n)};
  choice_[i] = c; arity_[i] = n;
  if (cell_) { cell_->choice[i] = c; cell_->arity[i] = n; cell_->len = i + 1; }
  len_ = i + 1;
  return c;
}

enum { OK = 0, VIOL = 1, ENGINE = 2 };

static int run_once(const Scenario &sc, Ctx &c, Violation &v, std::string &err) {
  c.len_ = 0; c.trace_.clear();
  if (c.cell_) { c.cell_->len = 0; c.cell_->site[0] = 0; }
  try { sc.body(c); return OK; }
  catch (Violation &x) { v = x; return VIOL; }
  catch (EngineError &e) { err = e.msg; return ENGINE; }
  catch (std::exception &e) { v.key = "unexpected-exception"; v.msg = std::string("exception escaped: ") + e.what(); return VIOL; }
  catch (...) { v.key = "unexpected-exception"; v.msg = "unknown exception escaped"; return VIOL; }
}

static void record(const uint16_t *ch, int len, const std::string &key, const std::string &msg, int kind) {
  S->vtotal++;
  int n = S->nv.load();
  for (int i = 0; i < std::min(n, NV); i++)
    if (S->v[i].state.load() == 2 && !strncmp(S->v[i].key, key.c_str(), KEYLEN - 1)) return; // one per key
  int k = S->nv++;
  if (k >= NV) return;
  VSlot &s = S->v[k];
  s.len = len; memcpy(s.choice, ch, len * sizeof(uint16_t));
  snprintf(s.key, KEYLEN, "%s", key.c_str()); snprintf(s.msg, MSGLEN, "%s", msg.c_str()); s.kind = kind;
  s.state = 2;
}

static void quiet(const char *errfile) {
  int d = open("/dev/null", O_WRONLY); dup2(d, 1);
  int e = errfile ? open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600) : d;
  dup2(e, 2);
}

// advance c.prefix_ to the next choice sequence in DFS order below `base`
static bool next_seq(std::vector<uint16_t> &p, const uint16_t *ch, const uint16_t *ar, int len, int base) {
  int i = len - 1;
  while (i >= base && ch[i] + 1 >= ar[i]) --i;
  if (i < base) return false;
  p.assign(ch, ch + i + 1); p[i]++;
  return true;
}

static int vlimit = 200;

static void worker(const Scenario &sc, int w, bool thorough, const std::string &scratch, int resume) {
  quiet(nullptr);
  Ctx c; c.thorough_ = thorough; c.cell_ = &S->cell[w]; c.scratch_ = scratch;
  std::vector<uint16_t> rch, rar; 
  int job = -1;
  if (resume) { // continue behind the execution that killed our predecessor
    job = S->curjob[w];
    rch.assign(S->cell[w].choice, S->cell[w].choice + S->cell[w].len);
    rar.assign(S->cell[w].arity, S->cell[w].arity + S->cell[w].len);
  }
  uint64_t lt = 0, le = 0;
  auto flush = [&] { S->total += le; S->trans += lt; le = lt = 0; };
  for (;;) {
    std::vector<uint16_t> p; int base;
    if (job >= 0) { // resumed
      base = S->job[job].len;
      if (!next_seq(p, rch.data(), rar.data(), rch.size(), base)) { job = -1; continue; }
      job = -1;
    } else {
      int j = S->nextjob++;
      if (j >= S->njobs) break;
      S->curjob[w] = j; base = S->job[j].len;
      p.assign(S->job[j].choice, S->job[j].choice + base);
    }
    c.want_len_ = 0;
    for (;;) {
      c.prefix_ = p; c.transitions_ = 0;
      Violation v; std::string err;
      const double e0 = now();
      int r = run_once(sc, c, v, err);
      if (int ms = (int)((now() - e0) * 1e3); ms > S->maxms) S->maxms = ms;
      if (r == ENGINE) { flush(); snprintf(S->engine_msg, 512, "%s", err.c_str()); S->engine_error = 1; _exit(3); }
      le++; lt += c.transitions_;
      S->execs[w]++;
      if ((int)c.len_ > S->maxdepth) S->maxdepth = c.len_;
      if (r == VIOL) record(c.choice_, c.len_, v.key, v.msg, 0);
      if ((le & 255) == 0) { flush(); if (S->engine_error) _exit(3); }
      if ((int)S->nv >= vlimit || S->vtotal > 2000000) { flush(); _exit(0); }
      memcpy(c.want_arity_, c.arity_, c.len_ * 2);
      uint32_t n = c.len_;
      if (!next_seq(p, c.choice_, c.arity_, n, base)) break;
      c.want_len_ = p.size();
    }
  }
  flush();
  _exit(0);
}

// expand the top of the choice tree into jobs (in a child: the body may crash)
static bool make_jobs(const Scenario &sc, bool thorough, const std::string &scratch, int target) {
  S->njobs = 0;
  pid_t pid = fork();
  if (!pid) {
    quiet(nullptr);
    std::vector<std::vector<uint16_t>> q{{}}; 
    std::vector<std::vector<uint16_t>> done;
    Ctx c; c.thorough_ = thorough; c.cell_ = &S->cell[0]; c.scratch_ = scratch;
    size_t h = 0; int runs = 0;
    while (h < q.size() && (int)(q.size() - h + done.size()) < target && runs < 400) {
      auto p = q[h++];
      if (p.size() >= 20) { done.push_back(p); continue; }
      c.prefix_ = p; Violation v; std::string err; c.want_len_ = 0; ++runs;
      // publish a usable job list before every risky execution
      int n = 0;
      auto put = [&](const std::vector<uint16_t> &x) { if (n < NJ) { S->job[n].len = x.size(); memcpy(S->job[n].choice, x.data(), x.size() * 2); n++; } };
      for (auto &d : done) put(d);
      put(p); for (size_t k = h; k < q.size(); k++) put(q[k]);
      S->njobs = n;
      if (n >= NJ) break;
      int r = run_once(sc, c, v, err);
      if (r == ENGINE) { snprintf(S->engine_msg, 512, "%s", err.c_str()); S->engine_error = 1; _exit(3); }
      if (c.len_ <= p.size()) { done.push_back(p); continue; }
      int a = c.arity_[p.size()];
      if ((int)(q.size() - h + done.size()) + a > NJ - 8) { done.push_back(p); continue; }
      for (int i = 0; i < a; i++) { auto x = p; x.push_back(i); q.push_back(x); }
      n = 0; for (auto &d : done) put(d); for (size_t k = h; k < q.size(); k++) put(q[k]);
      S->njobs = n;
    }
    int n = 0;
    auto put = [&](const std::vector<uint16_t> &x) { if (n < NJ) { S->job[n].len = x.size(); memcpy(S->job[n].choice, x.data(), x.size() * 2); n++; } };
    for (auto &d : done) put(d); for (size_t k = h; k < q.size(); k++) put(q[k]);
    S->njobs = n;
    _exit(0);
  }
  double t0 = now(); int st;
  for (;;) { // a crash or hang in here just leaves the jobs published so far
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > 20) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(500);
  }
  if (S->njobs < 1) { S->njobs = 1; S->job[0].len = 0; }
  return true;
}

struct ReplayResult { std::string kind; std::string key, msg; std::vector<std::string> trace; };

static std::string slurp(const std::string &f, size_t max = 20000) {
  std::string o; FILE *p = fopen(f.c_str(), "r"); if (!p) return o;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0 && o.size() < max) o.append(b, n);
  fclose(p); return o;
}
static std::string errsummary(const std::string &e) {
  std::string s; size_t p = e.find("SUMMARY:");
  if (p != std::string::npos) s = e.substr(p, e.find('\n', p) - p);
  else if ((p = e.find("runtime error:")) != std::string::npos) { size_t b = e.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; s = e.substr(b, e.find('\n', p) - b); }
  else if ((p = e.find("terminate called")) != std::string::npos) s = e.substr(p, 300);
  else if ((p = e.find("Assertion")) != std::string::npos) { size_t b = e.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; s = e.substr(b, e.find('\n', p) - b); }
  else s = e.substr(0, 300);
  return s;
}

// run one choice sequence alone in a fresh process
static ReplayResult replay(const Scenario &sc, const std::vector<uint16_t> &ch, bool thorough, const std::string &scratch, double timeout, bool trace) {
  ReplayResult R;
  std::string rf = scratch + "/replay.out", ef = scratch + "/replay.err";
  unlink(rf.c_str());
  static Cell *cell = nullptr;
  if (!cell) cell = (Cell *)mmap(nullptr, sizeof(Cell), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)cell, 0, sizeof *cell);
  pid_t pid = fork();
  if (!pid) {
    quiet(ef.c_str());
    Ctx c; c.thorough_ = thorough; c.scratch_ = scratch + "/r"; mkdir(c.scratch_.c_str(), 0700); c.prefix_ = ch; c.tracing_ = trace; c.cell_ = cell;
    Violation v; std::string err;
    int r = run_once(sc, c, v, err);
    FILE *f = fopen(rf.c_str(), "w");
    auto put = [&](const std::string &s) { std::string t = s; for (auto &x : t) if (x == '\n') x = '\x01'; fprintf(f, "%s\n", t.c_str()); };
    put(r == OK ? "ok" : r == VIOL ? "violation" : "engine"); put(r == ENGINE ? "engine" : v.key); put(r == ENGINE ? err : v.msg);
    for (auto &t : c.trace_) put(t);
    fclose(f); _exit(0);
  }
  double t0 = now(); int st = 0; bool hang = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(200);
  }
  std::string site = cell->site;
  std::string e = slurp(ef);
  if (hang) { R.kind = "violation"; R.key = "hang@" + site; R.msg = fmt("no end after %.0f s in: %s", timeout, site.c_str()); return R; }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    R.kind = "violation"; R.key = "crash@" + site;
    R.msg = (WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st))) + " in: " + site + " | " + errsummary(e);
    return R;
  }
  FILE *f = fopen(rf.c_str(), "r"); std::vector<std::string> L; std::string cur; int k;
  if (f) { while ((k = fgetc(f)) != EOF) { if (k == '\n') { L.push_back(cur); cur.clear(); } else cur += k == 1 ? '\n' : (char)k; } fclose(f); }
  if (L.size() < 3) { R.kind = "engine"; R.msg = "no replay result"; return R; }
  R.kind = L[0]; R.key = L[1]; R.msg = L[2]; R.trace.assign(L.begin() + 3, L.end());
  return R;
}

// Depth-first over the whole tree in one fresh process, up to the first
// violation: reproduces violations that need the executions before them
// (state leaking from one execution into the next).
static ReplayResult history(const Scenario &sc, bool thorough, const std::string &scratch, double timeout, uint64_t &index, std::vector<uint16_t> &choices) {
  ReplayResult R; R.kind = "ok";
  struct Out { uint64_t index; int len; uint16_t ch[MAXCH]; char key[KEYLEN], msg[MSGLEN]; int viol; };
  Out *o = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (!pid) {
    quiet(nullptr);
    Ctx c; c.thorough_ = thorough; c.scratch_ = scratch + "/h"; mkdir(c.scratch_.c_str(), 0700);
    std::vector<uint16_t> p;
    for (;;) {
      c.prefix_ = p; Violation v; std::string err;
      int r = run_once(sc, c, v, err);
      o->index++;
      if (r == ENGINE) _exit(3);
      if (r == VIOL) { o->len = c.len_; memcpy(o->ch, c.choice_, c.len_ * 2); snprintf(o->key, KEYLEN, "%s", v.key.c_str()); snprintf(o->msg, MSGLEN, "%s", v.msg.c_str()); o->viol = 1; _exit(0); }
      if (!next_seq(p, c.choice_, c.arity_, c.len_, 0)) _exit(0);
    }
  }
  double t0 = now(); int st;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(500);
  }
  index = o->index;
  if (o->viol) { R.kind = "violation"; R.key = o->key; R.msg = o->msg; choices.assign(o->ch, o->ch + o->len); }
  munmap(o, sizeof(Out));
  return R;
}

static std::string js(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string jchoices(const std::vector<uint16_t> &c) { std::string o = "["; for (size_t i = 0; i < c.size(); i++) o += (i ? "," : "") + std::to_string(c[i]); return o + "]"; }

} // namespace mc

using namespace mc;

int main(int argc, char **argv) {
  std::string prop, tier = "quick", out, scratch, rsc, rch, only; int W = 8; bool rep = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--out") out = nx();
    else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--scratch") scratch = nx();
    else if (a == "--only") only = nx();
    else if (a == "--history") { rep = true; rsc = nx(); rch = "H"; }
    else if (a == "--replay") { rep = true; rsc = nx(); rch = nx(); }
  }
  W = std::max(1, std::min(W, NW));
  bool th = tier == "thorough";
  if (scratch.empty()) { fprintf(stderr, "--scratch needed\n"); return 2; }
  mkdir(scratch.c_str(), 0700);
  if (rep) {
    for (auto &sc : registry()) if (prop == sc.property && rsc == sc.name) {
      if (rch == "H") {
        uint64_t i = 0; std::vector<uint16_t> c; auto H = history(sc, th, scratch, 300, i, c);
        printf("%s key=%s\n%s\nexecution %llu, choices %s\n", H.kind.c_str(), H.key.c_str(), H.msg.c_str(), (unsigned long long)i, jchoices(c).c_str());
        return H.kind == "ok" ? 0 : 1;
      }
      std::vector<uint16_t> ch; std::stringstream ss(rch); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) ch.push_back(atoi(t.c_str()));
      auto R = replay(sc, ch, th, scratch, sc.timeout * 4, true);
      for (auto &t : R.trace) printf("  %s\n", t.c_str());
      printf("%s key=%s\n%s\n", R.kind.c_str(), R.key.c_str(), R.msg.c_str());
      return R.kind == "ok" ? 0 : 1;
    }
    fprintf(stderr, "no such scenario\n"); return 2;
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  states = (HashSet *)mmap(nullptr, sizeof(HashSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  outcomes = (HashSet *)mmap(nullptr, sizeof(HashSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || states == MAP_FAILED || outcomes == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); return 2; }
  std::string J = "{\"property\":" + js(prop) + ",\"tier\":" + js(tier) + ",\"scenarios\":[";
  bool first = true, any = false, hung_before = false; int rc = 0; const double began = now();
  for (auto &sc : registry()) {
    if (prop != sc.property) continue;
    if (!only.empty() && only != sc.name) continue;
    if (hung_before && now() - began > 120) { fprintf(stderr, "%s: not run, the code hangs (see the scenarios before)\n", sc.name); continue; }
    any = true; double t0 = now();
    outcome_salt = hash64(sc.name, strlen(sc.name));
    uint64_t st0 = states->count, oc0 = outcomes->count;
    memset((void *)S, 0, sizeof(Shared) - sizeof(S->job));
    make_jobs(sc, th, scratch, W * 12);
    std::vector<pid_t> pid(W); std::vector<uint64_t> last(W, 0); std::vector<double> lastt(W, now());
    auto start = [&](int w, int resume) {
      std::string sd = scratch + "/w" + std::to_string(w); mkdir(sd.c_str(), 0700);
      pid_t p = fork(); if (!p) { worker(sc, w, th, sd, resume); _exit(0); }
      pid[w] = p; lastt[w] = now(); last[w] = S->execs[w];
    };
    if (!S->engine_error) for (int w = 0; w < W; w++) start(w, 0); else for (auto &p : pid) p = 0;
    int live = S->engine_error ? 0 : W, crashes = 0; uint64_t inconclusive = 0;
    std::map<std::string, int> crashkeys; bool giveup = false;
    auto handle_death = [&](int w, bool hung) {
      // identify the execution, re-run it alone, record, resume behind it
      std::vector<uint16_t> ch(S->cell[w].choice, S->cell[w].choice + S->cell[w].len);
      S->total++;
      if ((int)crashes < 24) {
        auto R = replay(sc, ch, th, scratch, hung ? sc.timeout * 3 : sc.timeout * 3, true);
        if (R.kind == "violation") record(ch.data(), ch.size(), R.key, R.msg, 1);
        else if (R.kind == "engine") { S->engine_error = 1; snprintf(S->engine_msg, 512, "%s", R.msg.c_str()); }
        else inconclusive++;
      } 
      if (++crashes > 24 || (hung && !inconclusive)) giveup = true;   // one confirmed hang is enough
      int curdone = S->curjob[w]; (void)curdone;
    };
    while (live) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
        if (w < W) {
          if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) { live--; pid[w] = 0; }
          else { handle_death(w, false); if (giveup || S->engine_error) { live--; pid[w] = 0; } else start(w, 1); }
        }
        continue;
      }
      double t = now();
      for (int w = 0; w < W; w++) if (pid[w]) {
        if (S->execs[w] != last[w]) { last[w] = S->execs[w]; lastt[w] = t; }
        else if (t - lastt[w] > sc.timeout) {
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          handle_death(w, true);
          if (giveup || S->engine_error) { live--; pid[w] = 0; } else start(w, 1);
        }
      }
      if (S->nv > 0 && t - began > (th ? 1200 : 300)) giveup = true;   // broken and slow: enough is known
      if (giveup) for (int w = 0; w < W; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; live--; }
      usleep(300);
    }
    // shortest first; confirm every recorded violation by replaying it alone, twice
    std::vector<int> ord; int nv = std::min((int)S->nv, NV);
    for (int i = 0; i < nv; i++) if (S->v[i].state == 2) ord.push_back(i);
    std::sort(ord.begin(), ord.end(), [](int a, int b) { return S->v[a].len < S->v[b].len; });
    std::string V; std::set<std::string> seen; int shown = 0; bool hist_tried = false;
    for (int i : ord) {
      VSlot &v = S->v[i];
      if (seen.count(v.key)) continue;
      seen.insert(v.key);
      if (shown >= 64) break;
      std::vector<uint16_t> ch(v.choice, v.choice + v.len);
      double to = sc.timeout * 3;
      auto A = replay(sc, ch, th, scratch, to, true);
      bool conf = A.kind == "violation";
      if (conf && strncmp(A.key.c_str(), "hang@", 5)) { auto B = replay(sc, ch, th, scratch, to, true); conf = B.kind == "violation" && B.key == A.key; }
      if (!conf && !hist_tried && strncmp(v.key, "crash@", 6) && strncmp(v.key, "hang@", 5)) {
        hist_tried = true; uint64_t i1 = 0, i2 = 0; std::vector<uint16_t> c1, c2;
        auto H1 = history(sc, th, scratch, 60, i1, c1);
        if (H1.kind == "violation") {
          auto H2 = history(sc, th, scratch, 90, i2, c2);
          if (H2.kind == "violation" && i1 == i2 && c1 == c2 && H1.key == H2.key) {
            V += std::string(shown ? "," : "") + "{\"key\":" + js(H1.key) + ",\"msg\":" + js(H1.msg + fmt(" [depends on the executions before it: execution %llu of the depth-first order]", (unsigned long long)i1)) + ",\"confirmed\":true,\"history\":" + std::to_string(i1) + ",\"choices\":" + jchoices(c1) + ",\"trace\":[]}";
            shown++; seen.insert(H1.key);
          }
        }
      }
      std::string T = "["; for (size_t k = 0; k < A.trace.size(); k++) T += (k ? "," : "") + js(A.trace[k]); T += "]";
      V += std::string(shown ? "," : "") + "{\"key\":" + js(conf ? A.key : std::string(v.key)) + ",\"msg\":" + js(conf ? A.msg : std::string(v.msg)) + ",\"confirmed\":" + (conf ? "true" : "false") + ",\"choices\":" + jchoices(ch) + ",\"trace\":" + T + "}";
      shown++;
    }
    // samples: a few executions of this scenario, traced
    std::string SM; int ns = 0;
    if (giveup) hung_before = true;
    if (!S->engine_error && !giveup) for (int q : {0, S->njobs / 2, S->njobs - 1}) {
      std::vector<uint16_t> ch(S->job[q].choice, S->job[q].choice + S->job[q].len);
      auto A = replay(sc, ch, th, scratch, sc.timeout * 3, true);
      std::string T = "["; for (size_t k = 0; k < A.trace.size() && k < 40; k++) T += (k ? "," : "") + js(A.trace[k]); T += "]";
      SM += std::string(ns++ ? "," : "") + "{\"choices\":" + jchoices(ch) + ",\"trace\":" + T + ",\"result\":" + js(A.kind) + "}";
      if (S->njobs == 1) break;
    }
    J += std::string(first ? "" : ",") + "{\"name\":" + js(sc.name) + ",\"bounds\":" + js(sc.bounds) +
         ",\"executions\":" + std::to_string(S->total.load()) + ",\"transitions\":" + std::to_string(S->trans.load()) +
         ",\"states\":" + std::to_string(states->count - st0) + ",\"outcomes\":" + std::to_string(outcomes->count - oc0) +
         ",\"max_depth\":" + std::to_string(S->maxdepth.load()) + ",\"jobs\":" + std::to_string(S->njobs) +
         ",\"violating_executions\":" + std::to_string(S->vtotal.load()) + ",\"deaths\":" + std::to_string(crashes) +
         ",\"inconclusive\":" + std::to_string(inconclusive) + ",\"gave_up\":" + (giveup || S->nv >= vlimit ? "true" : "false") +
         ",\"max_ms\":" + std::to_string(S->maxms.load()) + ",\"set_overflow\":" + std::to_string(states->full + outcomes->full) +
         ",\"wall\":" + fmt("%.3f", now() - t0) + ",\"violations\":[" + V + "],\"samples\":[" + SM + "]" +
         ",\"engine_error\":" + js(S->engine_error ? S->engine_msg : "") + "}";
    if (S->engine_error) { fprintf(stderr, "engine error in %s: %s\n", sc.name, S->engine_msg); rc = 2; }
    first = false;
  }
  J += "]}";
  if (!any) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
  FILE *f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
  fputs(J.c_str(), f); fputc('\n', f); fclose(f);
  return rc;
}
