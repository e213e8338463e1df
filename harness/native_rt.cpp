// Native side of the harness primitives: replays one counterexample (file named by VF_INPUTS: "name value" per line) against the
// real code compiled by a real compiler.  Exit 1 + "REPLAY-VIOLATION id" when the violation shows, 0 when it does not,
// 77 when the inputs do not satisfy the harness assumptions.
#include "vf.h"
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ucontext.h>
static void say(const char *a, const char *b);
static std::map<std::string, uint64_t> &in() { static std::map<std::string, uint64_t> m; return m; }
static std::map<std::string, int> &cnt() { static std::map<std::string, int> m; return m; }
static void say(const char *a, const char *b) { std::string t = std::string(a) + " " + b + "\n"; if (write(1, t.data(), t.size()) < 0) {} }
static void load() { static bool done; if (done) return; done = true; const char *f = getenv("VF_INPUTS"); if (!f) return; int fd = ::open(f, O_RDONLY); if (fd < 0) return; std::string t; char b[4096]; ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) t.append(b, (size_t)k);
  size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); size_t q = t.rfind(' ', e); if (q != std::string::npos && q > p) in()[t.substr(p, q - p)] = strtoull(t.c_str() + q + 1, nullptr, 10); p = e + 1; } }
static uint64_t value(const char *name) { load(); int k = cnt()[name]++; std::string b = std::string(name) + "#" + std::to_string(k); auto it = in().find(b); uint64_t v = it == in().end() ? 0 : it->second; if (getenv("VF_SHOW")) say(b.c_str(), std::to_string(v).c_str()); return v; }
static const char *stepId = "steps";
static void onAlarm(int) { say("REPLAY-VIOLATION", stepId); _exit(1); }
static void onSegv(int s) { say("REPLAY-VIOLATION", s == SIGABRT ? "abort" : s == SIGFPE ? "ub" : "memory"); _exit(1); }

// ---------------------------------------------------------------- threads: coroutines driven by the recorded schedule.
// Entry k of the schedule says which thread runs (sched#k) and how many of its memory accesses it completes (run#k; 0xffffffff: until it
// gives up control itself).  The instrumented code calls vf_before ahead of every memory access.
struct Co { ucontext_t ctx; void (*fn)(void *); void *arg; bool daemon; int status; bool waiting; char *stk; };
static Co co[8]; static int nco = 1, cur = 0; static bool sched; static ucontext_t mainCtx; static int crashEn, crashed; static unsigned long stepNo, left_; static bool inf_;
static void toSched() { swapcontext(&co[cur].ctx, &mainCtx); }
static void coMain() { co[cur].fn(co[cur].arg); co[cur].status = 1; co[cur].waiting = false; toSched(); abort(); }
extern "C" {
void vf_before(const void *, const void *) { if (!sched || !cur || inf_) return; if (!left_) toSched(); if (!inf_) left_--; }
void vf_after_write(const void *, int) {}
static uint64_t vaBuf[32]; void vf_va_set(int i, uint64_t v) { vaBuf[i & 31] = v; } uint64_t vf_va(int i) { return vaBuf[i & 31]; }
uint64_t vf_sym(const char *name, int bits) { uint64_t v = value(name); return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
int64_t vf_range(const char *name, int64_t lo, int64_t hi) { if (lo == hi) return lo; uint64_t v = value((std::string(name) + "@" + std::to_string((uint64_t)hi - (uint64_t)lo)).c_str()); if (v > (uint64_t)hi - (uint64_t)lo) v = 0; return (int64_t)((uint64_t)lo + v); }
void vf_sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)value(name); }
void vf_assume(bool c) { if (!c) { say("REPLAY-ASSUME", ""); _exit(77); } }
void vf_check(bool c, const char *id) { if (!c) { say("REPLAY-VIOLATION", id); _exit(1); } }
void vf_cover(const char *) {}
void vf_observe(const char *name, uint64_t x) { say("OBS", (std::string(name) + " " + std::to_string(x)).c_str()); }
void vf_merge_open() {} void vf_merge_close() {}
void vf_step_limit(uint64_t n, const char *id) { stepId = id; signal(SIGALRM, onAlarm); alarm(n ? 10 : 0); }
int vf_thread(void (*fn)(void *), void *arg, int daemon) { Co &c = co[nco]; c.fn = fn; c.arg = arg; c.daemon = daemon; c.status = 0; c.stk = (char *)malloc(1 << 20); getcontext(&c.ctx); c.ctx.uc_stack.ss_sp = c.stk; c.ctx.uc_stack.ss_size = 1 << 20; c.ctx.uc_link = nullptr; makecontext(&c.ctx, coMain, 0); return nco++; }
void vf_run_threads() {
  load(); sched = true; int idle = 0, last = 0;
  for (;;) { stepNo++; bool all = true; for (int t = 1; t < nco; t++) if (co[t].status != 1 && !(co[t].daemon && co[t].waiting)) all = false;
    std::string k = std::to_string(stepNo); auto it = in().find("sched#" + k), ir = in().find("run#" + k); int t;
    bool cr = crashEn && ir != in().end() && ir->second == 0xfffffffeUL; if (all && !cr && (it == in().end() || it->second == 0)) break;
    if (it == in().end() || (it->second == 0 && !crashEn)) { // the recorded schedule ended: the threads take turns; when all only wait, nothing proceeds any more
      for (t = last % (nco - 1) + 1; co[t].status == 1; t = t % (nco - 1) + 1) {}
      if (co[t].waiting ? ++idle > 4 * nco : (idle = 0)) { say("REPLAY-VIOLATION", "progress"); _exit(1); } }
    else if ((t = (int)it->second) == 0) { crashed = 1; for (int q = 1; q < nco; q++) { co[q].status = 1; co[q].waiting = false; } break; }
    if (getenv("VF_SHOW")) say(("sched#" + k).c_str(), std::to_string(t).c_str());
    if (t >= nco) { say("REPLAY-DIVERGED", k.c_str()); _exit(78); }
    if (co[t].status == 1) { if (all && !cr) break; continue; } // it finished earlier than recorded: any schedule is a real one, what counts is whether the check fails
    last = t; inf_ = ir == in().end() || ir->second == 0xffffffffUL; left_ = inf_ ? 0 : ir->second; co[t].waiting = false; cur = t; swapcontext(&mainCtx, &co[t].ctx); if (!co[t].waiting) idle = 0; cur = 0; }
  sched = false; cur = 0; }
void vf_key(const void *, size_t) {} void vf_visible(const void *, size_t) {} void vf_invisible(const void *, size_t) {}
void vf_yield() { if (sched && cur) toSched(); }
void vf_wait() { if (sched && cur) { co[cur].waiting = true; toSched(); } }
void vf_atomic(int) {}
int vf_tid() { return cur; }
int vf_crash_enable(int on) { int r = crashed; crashEn = on; return r; }
uint64_t vf_concretize(uint64_t x) { return x; }
void vf_debug(const char *n, uint64_t x) { if (getenv("VF_SHOW")) say(n, std::to_string(x).c_str()); }
int vf_symbolic() { return 0; } int vf_may(bool c) { return c; } void vf_end() { _exit(0); }
}

int main(int argc, char **argv) { void (*entry)() = argc > 1 ? (void (*)())dlsym(RTLD_DEFAULT, argv[1]) : nullptr; if (!entry) { say("no entry", argc > 1 ? argv[1] : ""); _exit(70); }
#if !defined(__SANITIZE_ADDRESS__) 
  signal(SIGSEGV, onSegv); signal(SIGBUS, onSegv);
#endif
  signal(SIGABRT, onSegv); signal(SIGFPE, onSegv); signal(SIGALRM, onAlarm); alarm(20);
  entry(); _exit(0); }
