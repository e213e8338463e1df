// fnsym: bounded symbolic execution of LLVM IR with state merging and symbolic scheduling.
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <cxxabi.h>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <regex>
#include <sys/resource.h>
using namespace llvm;

static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const llvm::Function *, Fn *> fns; static std::vector<Fn *> fnByIdx;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr; static std::unordered_map<const llvm::Function *, uint64_t> faddr; static std::unordered_map<uint64_t, llvm::Function *> fnAt;
static std::vector<State *> ready;
static uint64_t nStates = 0, nForks = 0, nMerges = 0, nInstr = 0, nPaths = 0, nChecks = 0, nChecksTriv = 0, nAssumeCut = 0, nTrans = 0, nSchedStates = 0, maxLevel = 0, nBoundCut = 0;
static std::map<std::string, uint64_t> checkHits, checkSolver; static std::set<std::string> covers; static std::set<std::string> fnSeen;
static std::vector<std::string> inconclusive; static std::map<std::string, std::string> coverModels;
static unsigned optMaxViol = 3; static double optTime = 600; static int optPreempt = -1; static bool optUB = true; static bool optNSW = false; static uint64_t optMaxVisits = 200000; static int optMaxLevel = 400; static std::vector<std::string> optIgnore; static bool optDebug = false; static bool optUninit = true; static bool optBfs = false;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct Violation { std::string id, kind, msg, stack; std::vector<std::pair<std::string, uint64_t>> vals; };
struct Witness { std::vector<std::pair<std::string, uint64_t>> vals, obs; }; static std::vector<Witness> wits; static uint64_t nEnds; static unsigned optWit = 4;
static std::vector<Violation> viols; static std::set<std::string> violKeys;
[[noreturn]] static void fatal(const std::string &m); 
static std::string demangle(const std::string &s) { int st; char *d = abi::__cxa_demangle(s.c_str(), 0, 0, &st); std::string r = st == 0 && d ? d : s; free(d); return r; }
struct EngineError { std::string m; };
[[noreturn]] static void fatal(const std::string &m) { throw EngineError{m}; }

// ------------------------------------------------------------------ path condition
static bool addPC(State &s, E c) { if (c->isC()) return c->v; if (c->k == K::And && c->w == 1) { return addPC(s, c->ops[0]) && addPC(s, c->ops[1]); } if (s.pcset.insert(c->id)) s.pc.push_back(c); return true; }
static std::vector<E> slice(const State &s, E target) {
  std::vector<E> out; std::unordered_set<uint32_t> have; for (auto x : symsOf(target)) have.insert(x);
  std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { auto &sy = symsOf(s.pc[i]); bool hit = sy.empty(); for (auto x : sy) if (have.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (auto x : sy) have.insert(x); } } }
  for (size_t i = 0; i < s.pc.size(); i++) if (used[i]) out.push_back(s.pc[i]);
  return out;
}
static Evaluator EV; static const Model *evM = nullptr; static uint64_t evState = ~0ULL;
static uint64_t evalIn(State &s, E e) { if (e->isC()) return e->v; EV.reset(&s.model); return EV.eval(e); }
// satisfiable(pc && c)? on SAT, m receives the model (overlay of s.model)
static Res feasible(State &s, E c, Model *m, bool important = false) {
  if (c->isC()) { if (m) *m = s.model; return c->v ? Res::SAT : Res::UNSAT; }
  if (s.pcset.count(mkNot(c)->id)) return Res::UNSAT;
  auto q = slice(s, c); q.push_back(c); Model mm;
  double left = (optTime - elapsed()) * 1000; if (left < 500) fatal("time budget exhausted"); Res r = solveQuery(q, &mm, std::min<unsigned>(g_timeoutMs, (unsigned)left + 1000), important);
  if (r == Res::SAT && m) { *m = s.model; for (auto &kv : mm.vals) m->vals[kv.first] = kv.second; }
  return r;
}

// ------------------------------------------------------------------ states
static std::map<int, int> handlerLive; static std::map<int, std::vector<State *>> handlerPaused; static int nextHandler = 1;
static State *forkState(State &s) { State *n = new State(s); n->id = nStates++; nForks++; for (int h : n->mergeStack) handlerLive[h]++; return n; }
static void releaseHandlers(int h);
static void endState(State &s, bool countPath = true) { if (s.dead) return; s.dead = true; if (countPath) nPaths++; auto ms = s.mergeStack; for (int h : ms) { handlerLive[h]--; } for (int i = (int)ms.size() - 1; i >= 0; i--) releaseHandlers(ms[i]); }
static void witness(State &s) { // a complete path: its model is replayed natively to validate the encoding
  if (s.dead || !optWit) return; nEnds++; uint64_t slot = wits.size(); if (slot >= optWit) { uint64_t x = nEnds * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; slot = x % nEnds; if (slot >= optWit) return; } else wits.emplace_back();
  Witness w; for (auto &si : g_syms) { uint32_t id2 = &si - &g_syms[0]; if (si.internal) continue; auto it = s.model.vals.find(id2); w.vals.push_back({si.name, it != s.model.vals.end() ? it->second : (si.ranged ? si.lo : 0)}); }
  for (size_t k = 0; k < s.runs.size(); k++) w.vals.push_back({"run#" + std::to_string(k + 1), evalIn(s, s.runs[k])});
  for (auto &o : s.obs) w.obs.push_back({o.first, evalIn(s, o.second)}); wits[slot] = w; }
static std::string stackTrace(State &s) { std::string r; auto &t = s.th[s.cur]; for (int i = (int)t.st.size() - 1; i >= 0 && i >= (int)t.st.size() - 12; i--) { if (!r.empty()) r += " <- "; r += t.st[i].f->dname.substr(0, 90); } return r; }
static void violation(State &s, const std::string &id, const std::string &kind, const std::string &msg, const Model &m) {
  std::string st = stackTrace(s); std::string key = id + "|" + kind + "|" + (s.th[s.cur].st.empty() ? "" : s.th[s.cur].st.back().f->name);
  if (!violKeys.insert(key).second) return;
  Violation v{id, kind, msg, st, {}};
  for (auto &si : g_syms) { uint32_t id2 = &si - &g_syms[0]; auto it = m.vals.find(id2); uint64_t val = it != m.vals.end() ? it->second : (si.ranged ? si.lo : 0); v.vals.push_back({si.name, val}); }
  { Evaluator ev; ev.reset(&m); for (size_t k = 0; k < s.runs.size(); k++) v.vals.push_back({"run#" + std::to_string(k + 1), ev.eval(s.runs[k])}); }
  viols.push_back(v); fprintf(stderr, "VIOLATION %s [%s] %s\n   at %s\n", id.c_str(), kind.c_str(), msg.c_str(), st.c_str());
}

// ------------------------------------------------------------------ memory
static ObjP newObj(uint64_t base, uint64_t size, const std::string &name, Fill f, uint8_t kind) { auto o = std::make_shared<Obj>(); o->base = base; o->size = size; o->name = name; o->fill = f; o->kind = kind; o->ch.resize((size + CH - 1) / CH); return o; }
static Obj *writable(State &s, int idx) { auto &p = s.mem.v[idx]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static Chunk *wchunk(Obj *o, uint64_t off) { auto &c = o->ch[off / CH]; if (!c) { c = std::make_shared<Chunk>(); if (o->fill == FUninit && optUninit) { /* lazily symbolic */ c->s.reset(new E[CH]); for (unsigned i = 0; i < CH; i++) c->s[i] = (E)1; } } else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c); return c.get(); }
static E byteTab[256];
static inline E cbyte(uint8_t b) { return byteTab[b]; }
static E uninitSym(const Obj *o, uint64_t off) { char b[160]; snprintf(b, 160, "uninit:%s@%llx+%llu", o->name.c_str(), (unsigned long long)o->base, (unsigned long long)off); return mkSym(b, 8, false, 0, 0, true); }
static E baseByte(const Obj *o, uint64_t off) { // below the update list
  auto &c = o->ch[off / CH]; if (!c) { if (o->fill == FUninit && optUninit) return uninitSym(o, off); return byteTab[0]; }
  if (c->s) { E e = c->s[off % CH]; if (e == (E)1) return uninitSym(o, off); if (e) return e; } return cbyte(c->c[off % CH]); }
static void setBaseByte(Obj *o, uint64_t off, E v) { Chunk *c = wchunk(o, off); unsigned i = off % CH; if (v->isC()) { c->c[i] = (uint8_t)v->v; if (c->s) c->s[i] = nullptr; } else { if (!c->s) { c->s.reset(new E[CH]); memset(c->s.get(), 0, sizeof(E) * CH); } c->s[i] = v; } }
static E readByteFrom(const Obj *o, uint64_t off, Upd *start) {
  std::vector<std::pair<E, E>> chain; E r = nullptr; E offC = nullptr;
  for (Upd *u = start; u; u = u->next.get()) {
    if (off < u->lo || off > u->hi) continue;
    E g = u->guard; if (!u->off->isC()) { if (!offC) offC = mkC(off, 64); E q = mkEq(offC, u->off); g = g ? mkAnd1(g, q) : q; }
    if (!g) { r = u->val; break; } if (g->isC()) { if (g->v) { r = u->val; break; } continue; }
    chain.push_back({g, u->val});
  }
  if (!r) r = baseByte(o, off);
  for (int i = (int)chain.size() - 1; i >= 0; i--) r = mkIte(chain[i].first, chain[i].second, r);
  return r;
}
static E readByteC(const Obj *o, uint64_t off) { if (!o->upd || off < o->ulo || off > o->uhi) return baseByte(o, off); return readByteFrom(o, off, o->upd.get()); }
static E selectTree(const std::vector<std::pair<uint64_t, E>> &c, E off, size_t l, size_t h) { if (l == h) return c[l].second; size_t m = (l + h + 1) / 2; E a = selectTree(c, off, l, m - 1), b = selectTree(c, off, m, h); if (a == b) return a; return mkIte(mkCmp(K::Ult, off, mkC(c[m].first, 64)), a, b); }
static uint64_t strideOf(E e) { switch (e->k) { case K::Const: return e->v; case K::Shl: if (e->ops[1]->isC() && e->ops[1]->v < 32) return std::max<uint64_t>(1, strideOf(e->ops[0])) << e->ops[1]->v; return 1; case K::Mul: if (e->ops[0]->isC() && e->ops[0]->v < (1ULL << 32)) return e->ops[0]->v; return 1; case K::Add: { uint64_t a = strideOf(e->ops[0]), b = strideOf(e->ops[1]); while (b) { uint64_t t = a % b; a = b; b = t; } return a; } case K::Ite: { uint64_t a = strideOf(e->ops[1]), b = strideOf(e->ops[2]); while (b) { uint64_t t = a % b; a = b; b = t; } return a; } case K::ZExt: return strideOf(e->ops[0]); default: return 1; } }
static void iteLeaves(E e, std::set<uint64_t> &out, bool &ok, int depth = 0) { if (!ok) return; if (e->isC()) { out.insert(e->v); if (out.size() > 64) ok = false; return; } if (e->k == K::Ite && depth < 40) { iteLeaves(e->ops[1], out, ok, depth + 1); iteLeaves(e->ops[2], out, ok, depth + 1); return; } ok = false; }
static void rangeOf(State &s, E off, uint64_t max, uint64_t &lo, uint64_t &hi) { // off in [0,max] is known
  lo = off->lo; hi = std::min(off->hi, max); if (off->lo > max) lo = 0; if (hi - lo <= 128) return;
  uint64_t oc; E orest; splitAdd(off, oc, orest); auto it = orest ? s.rng.find(orest->id) : s.rng.end();
  struct Save { State &s; E rest; uint64_t c; uint64_t &lo, &hi; ~Save() { if (rest) s.rng[rest->id] = {(int64_t)(lo - c), (int64_t)(hi - c), s.pc.size()}; } } save{s, orest, oc, lo, hi};
  if (it != s.rng.end()) { int64_t l = it->second.lo + (int64_t)oc, h = it->second.hi + (int64_t)oc; if (l > (int64_t)lo) lo = l; if (h < (int64_t)hi && h >= (int64_t)lo) hi = h; if (it->second.pcn == s.pc.size()) return; 
    bool lt = false, ht = false; uint64_t v0 = evalIn(s, off); lt = v0 == lo || feasible(s, mkEq(mkC(lo, 64), off), nullptr) == Res::SAT; ht = v0 == hi || feasible(s, mkEq(mkC(hi, 64), off), nullptr) == Res::SAT; if (lt && ht) return; }
  // tighten with the solver
  uint64_t v = evalIn(s, off); uint64_t a = lo, b = std::min(v, hi); 
  while (a < b) { uint64_t m = a + (b - a) / 2; Model mm; Res r = feasible(s, mkCmp(K::Ule, off, mkC(m, 64)), &mm); if (r == Res::UNSAT) a = m + 1; else if (r == Res::SAT) { EV.reset(&mm); uint64_t x = EV.eval(off); b = std::min(m, x); } else { a = lo; break; } }
  uint64_t nlo = a; a = std::max(v, nlo); b = hi; if (a > hi) a = nlo;
  while (a < b) { uint64_t m = a + (b - a + 1) / 2; Model mm; Res r = feasible(s, mkCmp(K::Ule, mkC(m, 64), off), &mm); if (r == Res::UNSAT) b = m - 1; else if (r == Res::SAT) { EV.reset(&mm); uint64_t x = EV.eval(off); a = std::max(m, std::min(x, hi)); } else { b = hi; break; } }
  lo = nlo; hi = b;
}
static void candidates(State &s, E off, uint64_t max, std::vector<uint64_t> &out, bool &exact, uint64_t &lo, uint64_t &hi) {
  std::set<uint64_t> leaves; bool ok = true; iteLeaves(off, leaves, ok); 
  if (ok) { for (auto x : leaves) if (x <= max) out.push_back(x); exact = true; lo = out.empty() ? 0 : out.front(); hi = out.empty() ? 0 : out.back(); return; }
  rangeOf(s, off, max, lo, hi); uint64_t c; E rest; splitAdd(off, c, rest); uint64_t st = rest ? strideOf(rest) : 1; if (!st) st = 1;
  // off = c + st*k : align lo (modular arithmetic wraps; only trust when no wrap is possible)
  if (st > 1 && rest && rest->hi <= ~0ULL - c) { uint64_t r = c % st; while (lo % st != r) lo++; }
  else if (st > 1 && (st & (st - 1)) == 0) { uint64_t r = c % st; while (lo % st != r) lo++; } else st = 1;
  exact = (hi - lo) / st + 1 <= 4096; if (exact) for (uint64_t x = lo; x <= hi; x += st) out.push_back(x);
}
static E readWordC(const Obj *o, uint64_t off, unsigned n) {
  // fast path: concrete bytes
  if (off / CH == (off + n - 1) / CH && (!o->upd || off > o->uhi || off + n - 1 < o->ulo)) {
    auto &c = o->ch[off / CH]; if (!c && (o->fill == FZero || !optUninit)) return mkC(0, n * 8);
    if (c && !c->s) { uint64_t v = 0; memcpy(&v, c->c + off % CH, n); return mkC(v, n * 8); }
  }
  std::vector<E> b(n); for (unsigned i = 0; i < n; i++) b[i] = readByteC(o, off + i); return joinBytes(b.data(), n);
}
static E readSymOff(State &s, const Obj *o, E off, unsigned n) {
  // updates at the same expression plus a constant are decided syntactically: an exact hit ends the search, a miss is skipped
  if (o->upd) {
    std::vector<E> bytes; std::vector<Upd *> from; bool moved = false;
    for (unsigned i = 0; i < n; i++) { E bo = mkAddC(off, i); E got = nullptr; uint64_t cb; E rb; splitAdd(bo, cb, rb); Upd *u = o->upd.get();
      for (; u; u = u->next.get()) { uint64_t cu; E ru; splitAdd(u->off, cu, ru); if (ru == rb && cu == cb) { if (u->guard) break; got = u->val; break; } if (ru == rb && cu != cb) continue; if (u->lo > bo->hi || u->hi < bo->lo) continue; break; }
      bytes.push_back(got); from.push_back(u); if (got || u != o->upd.get()) moved = true; }
    if (moved) { std::vector<uint64_t> cand; bool exact = false; uint64_t lo, hi; bool need = false; for (auto b : bytes) if (!b) need = true;
      if (need) { candidates(s, off, o->size - n, cand, exact, lo, hi); if (!exact) fatal("symbolic read over too large a range in " + o->name + " off=" + exprStr(off)); }
      for (unsigned i = 0; i < n; i++) { E &b = bytes[i];
        if (!b) { if (cand.empty()) b = mkC(0, 8); else { std::vector<std::pair<uint64_t, E>> v; bool same = true; for (auto c : cand) { v.push_back({c, readByteFrom(o, c + i, from[i])}); if (v.back().second != v[0].second) same = false; } b = same ? v[0].second : selectTree(v, off, 0, v.size() - 1); } }
        }
      return joinBytes(bytes.data(), n); }
  }
  std::vector<uint64_t> cand; bool exact; uint64_t lo, hi; candidates(s, off, o->size - n, cand, exact, lo, hi);
  if (!exact) fatal("symbolic read over too large a range in " + o->name + " off=" + exprStr(off));
  if (cand.empty()) return mkC(0, n * 8);
  std::vector<std::pair<uint64_t, E>> v; bool allc = true;
  // updates that may alias by expression: resolve below via concrete candidates (chain over list per candidate)
  for (auto c : cand) { E e = readWordC(o, c, n); if (!e->isC()) allc = false; v.push_back({c, e}); }
  if (allc && v.size() > 4) { // table over index
    uint64_t st = v[1].first - v[0].first; bool reg = true; for (size_t i = 1; i < v.size(); i++) if (v[i].first - v[i - 1].first != st) reg = false;
    if (reg) { std::vector<uint64_t> t; for (auto &p : v) t.push_back(p.second->v); E idx = mkBin(K::Sub, off, mkC(v[0].first, 64)); if (st > 1) idx = mkBin(K::UDiv, idx, mkC(st, 64)); 
      // narrow the index
      return mkTable(idx, t, n * 8); }
  }
  return selectTree(v, off, 0, v.size() - 1);
}
static void writeByteAt(State &s, Obj *o, uint64_t off, E v) {
  if (o->upd && off >= o->ulo && off <= o->uhi) { auto u = std::make_shared<Upd>(); u->next = o->upd; u->off = mkC(off, 64); u->lo = u->hi = off; u->val = v; u->guard = nullptr; u->depth = o->upd->depth + 1; o->upd = u; return; }
  setBaseByte(o, off, v);
}
static void writeWordC(State &s, Obj *o, uint64_t off, E v, unsigned n) {
  if (v->isC() && n <= 8 && off / CH == (off + n - 1) / CH && (!o->upd || off > o->uhi || off + n - 1 < o->ulo)) {
    Chunk *c = wchunk(o, off); memcpy(c->c + off % CH, &v->v, n); if (c->s) for (unsigned i = 0; i < n; i++) c->s[off % CH + i] = nullptr; return; }
  for (unsigned i = 0; i < n; i++) writeByteAt(s, o, off + i, mkRawByte(v, i));
}
static void writeSymOff(State &s, Obj *o, E off, E v, unsigned n, E guard) {
  std::vector<uint64_t> cand; bool exact = false; uint64_t lo, hi; candidates(s, off, o->size - n, cand, exact, lo, hi);
  if (exact && cand.size() <= 24) {
    for (auto c : cand) { E old = readWordC(o, c, n); E g = mkEq(mkC(c, 64), off); if (guard) g = mkAnd1(guard, g); E nv = mkIte(g, v, old); if (nv != old) writeWordC(s, o, c, nv, n); }
    return; }
  for (unsigned i = 0; i < n; i++) { auto u = std::make_shared<Upd>(); u->next = o->upd; u->off = mkAddC(off, i); u->lo = lo + i; u->hi = hi + i; u->val = mkRawByte(v, i); u->guard = guard; u->depth = o->upd ? o->upd->depth + 1 : 1; o->upd = u; o->ulo = std::min(o->ulo, u->lo); o->uhi = std::max(o->uhi, u->hi); }
}

struct Resolved { State *s; int obj; E off; };
static void terminateViolation(State &s, const std::string &id, const std::string &kind, const std::string &msg, const Model &m) { violation(s, id, kind, msg, m); }
// Resolves an address for an n-byte access in s (s itself becomes the first alternative). Violating parts are reported and cut.
// returns false when s is dead.
static std::vector<State *> *extraOut; // forked siblings re-execute the current instruction
static bool resolve(State &s, E addr, uint64_t n, bool wr, int &oi, E &off, const char *what) {
  if (n == 0) n = 1;
  if (addr->isC()) {
    int i = s.mem.find(addr->v);
    if (i >= 0) { Obj *o = s.mem.v[i].get(); if (addr->v - o->base + n <= o->size && !o->freed) { if (wr && o->ro) { violation(s, "memory", "write-const", "write to constant " + o->name, s.model); endState(s); return false; } oi = i; off = mkC(addr->v - o->base, 64); return true; }
      char b[256]; snprintf(b, 256, "%s of %llu bytes at %s+%lld (size %llu)%s", what, (unsigned long long)n, o->name.c_str(), (long long)(addr->v - o->base), (unsigned long long)o->size, o->freed ? " after free" : ""); violation(s, "memory", addr->v < 4096 ? "null" : "oob", addr->v < 4096 ? "null dereference" : b, s.model); }
    else violation(s, "memory", addr->v < 4096 ? "null" : "oob", "access to unmapped address", s.model);
    endState(s); return false;
  }
  uint64_t a = evalIn(s, addr); int i = s.mem.find(a); Obj *o = i >= 0 ? s.mem.v[i].get() : nullptr;
  if (!o || a - o->base + n > o->size || o->freed) {
    char b[256]; snprintf(b, 256, "%s of %llu bytes near %s%+lld", what, (unsigned long long)n, o ? o->name.c_str() : "null", (long long)(a - (o ? o->base : 0))); violation(s, "memory", a < 4096 ? "null" : "oob", b, s.model);
    // continue with the feasible in-bounds part, if any (object of the constant base)
    uint64_t c; E rest; splitAdd(addr, c, rest); int j = s.mem.find(c); if (j < 0) j = i; 
    if (j >= 0) { Obj *p = s.mem.v[j].get(); E f = mkBin(K::Sub, addr, mkC(p->base, 64)); if (p->size >= n && !p->freed) { E inb = mkCmp(K::Ule, f, mkC(p->size - n, 64)); Model m; if (feasible(s, inb, &m) == Res::SAT) { addPC(s, inb); s.model = m; oi = j; off = f; return true; } } }
    endState(s); return false; }
  E f = mkBin(K::Sub, addr, mkC(o->base, 64)); E inb = mkCmp(K::Ule, f, mkC(o->size - n, 64));
  if (!inb->isC()) {
    Model m; Res r = feasible(s, mkNot(inb), &m);
    if (r == Res::SAT) {
      EV.reset(&m); uint64_t a2 = EV.eval(addr); int j = s.mem.find(a2); Obj *o2 = j >= 0 ? s.mem.v[j].get() : nullptr;
      if (o2 && a2 - o2->base + n <= o2->size && !o2->freed && (addr->k == K::Ite || j != i)) { // other object: fork, sibling re-executes
        State *t = forkState(s); addPC(*t, mkNot(inb)); t->model = m; extraOut->push_back(t); }
      else { char b[256]; snprintf(b, 256, "%s of %llu bytes at %s%+lld (size %llu)", what, (unsigned long long)n, o->name.c_str(), (long long)(a2 - o->base), (unsigned long long)o->size); violation(s, "memory", a2 < 4096 ? "null" : "oob", b, m); }
      addPC(s, inb);
    } else if (r == Res::UNK) { inconclusive.push_back("bounds of " + o->name); addPC(s, inb); }
  }
  if (wr && o->ro) { violation(s, "memory", "write-const", "write to constant " + o->name, s.model); endState(s); return false; }
  oi = i; off = f; return true;
}
static bool loadVal(State &s, E addr, unsigned n, E &out) { int oi; E off; if (!resolve(s, addr, n, false, oi, off, "read")) return false; const Obj *o = s.mem.v[oi].get(); if (off->isC()) out = readWordC(o, off->v, n); else { ObjP keep = s.mem.v[oi]; out = readSymOff(s, keep.get(), off, n); } return true; }
static bool storeVal(State &s, E addr, E v, unsigned n, E guard = nullptr) { int oi; E off; if (!resolve(s, addr, n, true, oi, off, "write")) return false; Obj *o = writable(s, oi); if (off->isC() && !guard) writeWordC(s, o, off->v, v, n); else if (off->isC()) { E old = readWordC(o, off->v, n); writeWordC(s, o, off->v, mkIte(guard, v, old), n); } else writeSymOff(s, o, off, v, n, guard); return true; }

// ------------------------------------------------------------------ decoding
static uint64_t gTop = 0x10000000ULL; static const uint64_t STACK0 = 0x7f0000000000ULL, STACKSZ = 0x10000000ULL, HEAP0 = 0x500000000000ULL; static uint64_t fTop = 0x400000ULL;
static State *S0;
static E constE(const Constant *c);
static uint64_t fnAddr(llvm::Function *f) { auto it = faddr.find(f); if (it != faddr.end()) return it->second; uint64_t a = fTop; fTop += 16; faddr[f] = a; fnAt[a] = f; return a; }
static void initGlobal(Obj *o, uint64_t off, const Constant *c);
static std::vector<ObjP> pendingGlobals;
static uint64_t globalAddr(const GlobalVariable *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()) : 8; if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 256);
  uint64_t al = 64; gTop = (gTop + al - 1) / al * al; uint64_t a = gTop; gTop += sz + 64; gaddr[g] = a;
  ObjP o = newObj(a, std::max<uint64_t>(sz, 1), g->getName().str(), FZero, 0);
  if (g->hasInitializer()) initGlobal(o.get(), 0, g->getInitializer());
  if (g->isConstant()) o->ro = true; { std::string dn = demangle(o->name); o->priv = dn.find("FNLog") == std::string::npos && dn.find("UDPHandler") == std::string::npos; } // harness and library globals
  pendingGlobals.push_back(o); return a;
}
// library globals that can change and are not thread local: every access of harness threads is a place to switch
static void visibleGlobals(State &s);
static void flushGlobals(State &s) { if (pendingGlobals.empty()) return; for (auto &o : pendingGlobals) { s.mem.insert(o); } pendingGlobals.clear(); }
static void visibleGlobals(State &s) { for (auto &g : M->globals()) { if (g.isConstant() || g.isThreadLocal() || !g.hasInitializer()) continue; llvm::StringRef n = g.getName(); if (n.starts_with("_ZGV") || !(n.contains("FNLog") || n.contains("UDPHandler") || n.contains("FileHandler"))) continue; uint64_t a = globalAddr(&g), sz = DL->getTypeAllocSize(g.getValueType()); bool has = false; for (auto &p : s.vis) has |= p.first == a; if (!has && sz <= 4096) s.vis.push_back({a, a + sz}); } flushGlobals(s); }
static std::vector<ObjP> allGlobals;
static void initGlobal(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) { uint64_t v; if (cd->getElementType()->isIntegerTy()) v = cd->getElementAsInteger(i); else v = cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); writeWordC(*S0, o, off + i * es, mkC(v, es * 8), es); } return; }
  E e = constE(c); unsigned n = DL->getTypeStoreSize(t); if (e->w < n * 8) e = mkZExt(e, n * 8); writeWordC(*S0, o, off, e, n);
}
static unsigned widthOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static E constE(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { // wide
      if (ci->getValue().isZero() || ci->getBitWidth() <= 128) { APInt v = ci->getValue(); return mkConcat(mkC(v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64), v.getBitWidth() - 64), mkC(v.extractBitsAsZExtValue(64, 0), 64)); } fatal("wide const"); } return mkC(ci->getZExtValue(), ci->getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return mkC(0, 64);
  if (auto *cf = dyn_cast<ConstantFP>(c)) { unsigned w = widthOf(cf->getType()); if (!w) { fatal("const fp type"); } return mkC(cf->getValueAPF().bitcastToAPInt().getZExtValue(), w); }
  if (auto *g = dyn_cast<GlobalVariable>(c)) return mkC(globalAddr(g), 64);
  if (auto *f = dyn_cast<llvm::Function>(c)) return mkC(fnAddr(const_cast<llvm::Function *>(f)), 64);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constE(ga->getAliasee());
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type *t = c->getType(); if (t->isStructTy()) { std::vector<E> v; for (unsigned i = 0; i < t->getStructNumElements(); i++) v.push_back(constE(c->getAggregateElement(i))); return mkTuple(v); }
    if (t->isArrayTy()) { std::vector<E> v; for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.push_back(constE(c->getAggregateElement(i))); return mkTuple(v); }
    unsigned w = widthOf(t); if (!w) fatal("undef type"); return mkC(0, w); }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { std::vector<E> v; for (unsigned i = 0; i < cs->getNumOperands(); i++) v.push_back(constE(cs->getOperand(i))); return mkTuple(v); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep"); return mkAddC(constE(ce->getOperand(0)), off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constE(ce->getOperand(0));
    case Instruction::PtrToInt: { E e = constE(ce->getOperand(0)); unsigned w = widthOf(ce->getType()); return w < 64 ? mkExtract(e, 0, w) : e; }
    case Instruction::IntToPtr: { E e = constE(ce->getOperand(0)); return e->w < 64 ? mkZExt(e, 64) : mkExtract(e, 0, 64); }
    case Instruction::Sub: return mkBin(K::Sub, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    case Instruction::Add: return mkBin(K::Add, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    case Instruction::Trunc: return mkExtract(constE(ce->getOperand(0)), 0, widthOf(ce->getType()));
    case Instruction::ICmp: { E a = constE(ce->getOperand(0)), b = constE(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); default: fatal("const icmp"); } }
    default: { std::string t; raw_string_ostream os(t); ce->print(os); fatal("constant expression " + t); } }
  }
  std::string t; raw_string_ostream os(t); c->print(os); fatal("constant " + t);
}
enum Ext { X_NONE, X_OBSERVE, X_NOP0, X_RET0, X_MALLOC, X_CALLOC, X_FREE, X_MEMCPY, X_MEMSET, X_ABORT, X_UBTRAP, X_THROW, X_SYM, X_RANGE, X_SYMBYTES, X_ASSUME, X_CHECK, X_COVER, X_MOPEN, X_MCLOSE, X_STEPLIM, X_THREAD, X_RUNTHREADS, X_VISIBLE, X_KEY, X_INVISIBLE, X_YIELD, X_WAIT, X_CONCRETIZE, X_DEBUG, X_ISSYM, X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_ABS, X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_OVF, X_FABS, X_FTRUNC, X_FFLOOR, X_FCEIL, X_FRINT, X_FROUND, X_EXPECT, X_STACKSAVE, X_TLADDR, X_GUARDACQ, X_GUARDREL, X_OBJSIZE, X_ISFPCLASS, X_COPYSIGN, X_RET1STARG, X_SADDSAT, X_TID, X_CRASHEN, X_ATOMIC, X_END, X_FSH, X_ALIGNEDNEW, X_IGNORE, X_FMULADD, X_FEASIBLE, X_FMINMAX, X_FILLUNINIT, X_VA };
static std::map<std::string, int> extTab;
static void initExt() {
  auto a = [&](int x, std::initializer_list<const char *> l) { for (auto n : l) extTab[n] = x; };
  a(X_MALLOC, {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}); a(X_CALLOC, {"calloc"}); a(X_ALIGNEDNEW, {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"});
  a(X_FREE, {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"});
  a(X_ABORT, {"abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "__cxa_rethrow", "_Unwind_Resume"});
  a(X_THROW, {"__cxa_throw"});
  a(X_SYM, {"vf_sym"}); a(X_RANGE, {"vf_range"}); a(X_SYMBYTES, {"vf_sym_bytes"}); a(X_ASSUME, {"vf_assume"}); a(X_CHECK, {"vf_check"}); a(X_COVER, {"vf_cover"}); a(X_OBSERVE, {"vf_observe"}); a(X_MOPEN, {"vf_merge_open"}); a(X_MCLOSE, {"vf_merge_close"}); a(X_STEPLIM, {"vf_step_limit"}); a(X_THREAD, {"vf_thread"}); a(X_RUNTHREADS, {"vf_run_threads"}); a(X_VISIBLE, {"vf_visible"}); a(X_KEY, {"vf_key"}); a(X_INVISIBLE, {"vf_invisible"}); a(X_YIELD, {"vf_yield"}); a(X_WAIT, {"vf_wait"}); a(X_CONCRETIZE, {"vf_concretize"}); a(X_DEBUG, {"vf_debug"}); a(X_ISSYM, {"vf_symbolic"}); a(X_TID, {"vf_tid"}); a(X_CRASHEN, {"vf_crash_enable"}); a(X_END, {"vf_end"}); a(X_ATOMIC, {"vf_atomic"}); a(X_FEASIBLE, {"vf_may"}); a(X_FILLUNINIT, {"vf_uninit"}); a(X_VA, {"vf_va"});
  a(X_NOP0, {"__cxa_atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "printf", "puts", "putchar", "fprintf", "vprintf", "fflush_unlocked", "pthread_mutexattr_init"});
  a(X_GUARDACQ, {"__cxa_guard_acquire"}); a(X_GUARDREL, {"__cxa_guard_release"}); a(X_NOP0, {"__cxa_guard_abort", "__cxa_end_catch"}); a(X_RET1STARG, {"__cxa_begin_catch"});
}
static int extFor(llvm::Function *f) {
  StringRef n = f->getName();
  if (f->isIntrinsic()) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return X_MEMCPY; case Intrinsic::memset: return X_MEMSET;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return X_IGNORE;
    case Intrinsic::stacksave: return X_RET0; case Intrinsic::is_constant: return X_RET0; case Intrinsic::eh_typeid_for: return X_RET0;
    case Intrinsic::ctlz: return X_CTLZ; case Intrinsic::cttz: return X_CTTZ; case Intrinsic::ctpop: return X_CTPOP; case Intrinsic::bswap: return X_BSWAP; case Intrinsic::abs: return X_ABS; case Intrinsic::umin: return X_UMIN; case Intrinsic::umax: return X_UMAX; case Intrinsic::smin: return X_SMIN; case Intrinsic::smax: return X_SMAX;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: return X_OVF;
    case Intrinsic::fabs: return X_FABS; case Intrinsic::trunc: return X_FTRUNC; case Intrinsic::floor: return X_FFLOOR; case Intrinsic::ceil: return X_FCEIL; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return X_FRINT; case Intrinsic::round: return X_FROUND;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return X_EXPECT; case Intrinsic::threadlocal_address: return X_TLADDR; case Intrinsic::objectsize: return X_OBJSIZE; case Intrinsic::is_fpclass: return X_ISFPCLASS; case Intrinsic::copysign: return X_COPYSIGN; case Intrinsic::fshl: case Intrinsic::fshr: return X_FSH; case Intrinsic::fmuladd: return X_FMULADD; case Intrinsic::ubsantrap: return X_UBTRAP; case Intrinsic::trap: return X_ABORT;
    default: break; }
    return X_NONE; }
  auto it = extTab.find(n.str()); if (it != extTab.end()) return it->second;
  if (n.starts_with("_ZSt") && n.contains("__throw_")) return X_THROW;
  if (n == "__gxx_personality_v0") return X_IGNORE;
  for (auto &p : optIgnore) if (std::regex_search(n.str(), std::regex(p))) return X_NOP0;
  return X_NONE;
}
static Fn *getFn(llvm::Function *F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  Fn *f = new Fn; fns[F] = f; f->F = F; f->name = F->getName().str(); f->dname = demangle(f->name); f->repo = f->dname.find("FNLog::") != std::string::npos || f->dname.find("UDPHandler") != std::string::npos; f->idx = fnByIdx.size(); fnByIdx.push_back(f);
  DenseMap<const Value *, int> slot; int ns = 0;
  for (auto &a : F->args()) { slot[&a] = ns; f->argSlots.push_back(ns++); }
  std::map<BasicBlock *, int> &bid = f->bbid; int nb = 0;
  for (auto &b : *F) { bid[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = ns++; }
  f->nslots = ns;
  DominatorTree DT(*F);
  auto op = [&](Value *v) -> Op { if (auto *c = dyn_cast<Constant>(v)) return Op{-1, constE(c)}; if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return Op{-1, nullptr}; return Op{slot[v], nullptr}; };
  for (auto &b : *F) {
    BB bb; bb.first = f->ins.size();
    bool lh = false; for (auto *p : predecessors(&b)) if (DT.isReachableFromEntry(p) && DT.dominates(&b, p)) lh = true;
    for (auto &i : b) {
      DI d; d.I = &i; d.opc = i.getOpcode(); if (!i.getType()->isVoidTy()) d.dst = slot[&i]; d.w = widthOf(i.getType());
      if (i.isEHPad()) { d.opc = Instruction::Unreachable; f->ins.push_back(d); break; }
      switch (i.getOpcode()) {
      case Instruction::PHI: bb.phis.push_back(f->ins.size()); { auto &p = cast<PHINode>(i); for (unsigned k = 0; k < p.getNumIncomingValues(); k++) { d.ops.push_back(op(p.getIncomingValue(k))); d.cases.push_back({(uint64_t)bid[p.getIncomingBlock(k)], 0}); } } break;
      case Instruction::Br: { auto &br = cast<BranchInst>(i); if (br.isConditional()) { d.ops.push_back(op(br.getCondition())); d.bb0 = bid[br.getSuccessor(0)]; d.bb1 = bid[br.getSuccessor(1)]; } else d.bb0 = bid[br.getSuccessor(0)]; break; }
      case Instruction::Switch: { auto &sw = cast<SwitchInst>(i); d.ops.push_back(op(sw.getCondition())); d.bb0 = bid[sw.getDefaultDest()]; for (auto c : sw.cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bid[c.getCaseSuccessor()]}); break; }
      case Instruction::Alloca: { auto &al = cast<AllocaInst>(i); d.off = DL->getTypeAllocSize(al.getAllocatedType()); d.ops.push_back(op(al.getArraySize())); d.w2 = std::max<unsigned>(al.getAlign().value(), 1); break; }
      case Instruction::GetElementPtr: {
        auto &g = cast<GetElementPtrInst>(i); d.ops.push_back(op(g.getPointerOperand()));
        Type *curTy = g.getSourceElementType(), *nextTy = curTy; bool firstIdx = true;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, curTy = nextTy, firstIdx = false) {
          Value *idx = gi.getOperand(); nextTy = gi.getIndexedType();
          if (auto *st = gi.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType()); uint64_t lim = 0; if (!firstIdx) if (auto *at = dyn_cast<ArrayType>(curTy)) lim = at->getNumElements();
          if (auto *ci = dyn_cast<ConstantInt>(idx)) { d.off += es * (uint64_t)ci->getSExtValue(); continue; }
          d.sc.push_back({es, (int)d.ops.size()}); d.lim.push_back(lim > 1 ? lim : 0); d.ops.push_back(op(idx)); }
        // is the result dereferenced directly?
        for (auto *u : g.users()) { if (isa<LoadInst>(u)) d.flag = true; if (auto *si = dyn_cast<StoreInst>(u)) if (si->getPointerOperand() == &g) d.flag = true; }
        break; }
      case Instruction::Call: {
        auto &c = cast<CallInst>(i); for (auto &a : c.args()) d.ops.push_back(op(a.get()));
        Value *cv = c.getCalledOperand()->stripPointerCasts();
        if (isa<InlineAsm>(cv)) { d.ext = X_IGNORE; break; }
        if (auto *cf = dyn_cast<llvm::Function>(cv)) {
          llvm::Function *wf = M->getFunction("__wrap_" + cf->getName().str());
          if (wf && !wf->isDeclaration() && F != wf) cf = wf;
          if (cf->getName().starts_with("__real_")) { auto *rf = M->getFunction(cf->getName().substr(7)); if (rf) cf = rf; }
          d.callee = cf; if (cf->isDeclaration()) d.ext = extFor(cf); else { auto it2 = extTab.find(cf->getName().str()); if (it2 != extTab.end() ) d.ext = it2->second; for (auto &p : optIgnore) if (cf->getName() != "main" && std::regex_search(cf->getName().str(), std::regex(p))) d.ext = X_NOP0; } }
        else d.ops.push_back(op(cv));
        break; }
      case Instruction::ExtractValue: d.ops.push_back(op(i.getOperand(0))); for (unsigned k : cast<ExtractValueInst>(i).indices()) d.cases.push_back({k, 0}); break;
      case Instruction::InsertValue: d.ops.push_back(op(i.getOperand(0))); d.ops.push_back(op(i.getOperand(1))); for (unsigned k : cast<InsertValueInst>(i).indices()) d.cases.push_back({k, 0}); break;
      case Instruction::Load: d.ops.push_back(op(i.getOperand(0))); d.w2 = DL->getTypeStoreSize(i.getType()); d.vol = cast<LoadInst>(i).isAtomic(); break;
      case Instruction::Store: d.ops.push_back(op(i.getOperand(0))); d.ops.push_back(op(i.getOperand(1))); d.w2 = DL->getTypeStoreSize(i.getOperand(0)->getType()); d.vol = cast<StoreInst>(i).isAtomic(); break;
      case Instruction::ICmp: case Instruction::FCmp: d.sub = cast<CmpInst>(i).getPredicate(); d.ops.push_back(op(i.getOperand(0))); d.ops.push_back(op(i.getOperand(1))); break;
      case Instruction::AtomicRMW: d.sub = cast<AtomicRMWInst>(i).getOperation(); for (auto &o : i.operands()) d.ops.push_back(op(o.get())); break;
      default: for (auto &o : i.operands()) d.ops.push_back(op(o.get())); break; }
      if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) d.nsw = ob->hasNoSignedWrap();
      f->ins.push_back(d);
      if (d.opc == Instruction::Call && (d.ext == X_ABORT || d.ext == X_UBTRAP || d.ext == X_THROW)) { /* keep following unreachable */ }
    }
    bb.last = f->ins.size(); if (lh) f->ins[bb.first].loophead = true; f->bbs.push_back(bb);
  }
  return f;
}

// ------------------------------------------------------------------ merging
static bool sameShape(State &a, State &b) {
  if (a.th.size() != b.th.size() || a.cur != b.cur || a.sched != b.sched || a.mergeStack != b.mergeStack) return false;
  for (size_t t = 0; t < a.th.size(); t++) { auto &x = a.th[t], &y = b.th[t]; if (x.st.size() != y.st.size() || x.status != y.status || x.atYield != y.atYield || x.justWrote != y.justWrote) return false;
    for (size_t i = 0; i < x.st.size(); i++) if (x.st[i].f != y.st[i].f || x.st[i].pc != y.st[i].pc || x.st[i].bb != y.st[i].bb || x.st[i].sp != y.st[i].sp) return false; }
  return true;
}
static E ptrIte(E g, E a, E b) { return mkIte(g, a, b); }
static bool mergeWords = false;
static bool mergeObj(ObjP &out, const ObjP &a, const ObjP &b, E gA, E gB) {
  if (a->size != b->size || a->freed != b->freed) return false;
  auto o = std::make_shared<Obj>(*a);
  for (size_t c = 0; c < o->ch.size(); c++) {
    if (a->ch[c] == b->ch[c]) continue;
    uint64_t n = std::min<uint64_t>(CH, a->size - c * CH); if (a->ch[c] && b->ch[c] && !a->ch[c]->s && !b->ch[c]->s && !memcmp(a->ch[c]->c, b->ch[c]->c, n)) continue;
    auto rawEq = [&](uint64_t q) { auto &p = a->ch[c], &r = b->ch[c]; if (!p || !r) return false; E x = p->s ? p->s[q] : nullptr, y = r->s ? r->s[q] : nullptr; return x == y && (x || p->c[q] == r->c[q]); };
    if (!mergeWords) { for (uint64_t i = 0; i < n; i++) { E x = baseByte(a.get(), c * CH + i), y = baseByte(b.get(), c * CH + i); if (x != y) setBaseByte(o.get(), c * CH + i, mkIte(gA, x, y)); } continue; }
    for (uint64_t i = 0; i < n;) { // whole words stay whole words
      E x[8], y[8]; uint64_t k = std::min<uint64_t>(n - i, 8); { bool eq = true; for (uint64_t q = 0; q < k && eq; q++) eq = rawEq(i + q); if (eq) { i += k; continue; } } int d0 = 0, d1 = 0; for (uint64_t q = 0; q < k; q++) { x[q] = baseByte(a.get(), c * CH + i + q); y[q] = baseByte(b.get(), c * CH + i + q); if (x[q] != y[q]) (q < 4 ? d0 : d1)++; }
      auto part = [&](uint64_t f, uint64_t m) { int nd = 0; uint64_t lastd = 0; for (uint64_t q = f; q < f + m; q++) if (x[q] != y[q]) { nd++; lastd = q; }
        if (!nd) return; if (nd == 1 && x[lastd]->k != K::Extract && y[lastd]->k != K::Extract && m < 4) { setBaseByte(o.get(), c * CH + i + lastd, mkIte(gA, x[lastd], y[lastd])); return; }
        E v = mkIte(gA, joinBytes(x + f, m), joinBytes(y + f, m)); for (uint64_t q = 0; q < m; q++) setBaseByte(o.get(), c * CH + i + f + q, mkRawByte(v, q)); };
      if (k == 8 && d0 && d1) part(0, 8); else if (k >= 4) { part(0, 4); if (k > 4) part(4, k - 4); } else part(0, k);
      i += k; }
  }
  if (a->upd != b->upd) { // common suffix
    std::vector<Upd *> la, lb; UpdP pa = a->upd, pb = b->upd; std::vector<UpdP> onlyA, onlyB;
    while (pa != pb) { unsigned da = pa ? pa->depth : 0, db = pb ? pb->depth : 0; if (da >= db && pa) { onlyA.push_back(pa); pa = pa->next; } else if (pb) { onlyB.push_back(pb); pb = pb->next; } }
    UpdP cur = pa;
    auto add = [&](UpdP u, E g) { auto n = std::make_shared<Upd>(*u); n->next = cur; n->guard = u->guard ? mkAnd1(u->guard, g) : g; n->depth = cur ? cur->depth + 1 : 1; cur = n; };
    for (int i = (int)onlyB.size() - 1; i >= 0; i--) add(onlyB[i], mkNot(gA)); for (int i = (int)onlyA.size() - 1; i >= 0; i--) add(onlyA[i], gA);
    o->upd = cur; o->ulo = std::min(a->ulo, b->ulo); o->uhi = std::max(a->uhi, b->uhi);
  }
  out = o; return true;
}
static bool tryMerge(State &a, State &b) { // merge b into a
  if (!sameShape(a, b) || a.obs.size() != b.obs.size() || a.runs.size() != b.runs.size()) return false; mergeWords = a.sched;
  std::vector<E> common, oa, ob; for (E e : a.pc) (b.pcset.count(e->id) ? common : oa).push_back(e); for (E e : b.pc) if (!a.pcset.count(e->id)) ob.push_back(e);
  E gA = mkB(true), gB = mkB(true); for (E e : oa) gA = mkAnd1(gA, e); for (E e : ob) gB = mkAnd1(gB, e);
  // memory
  std::vector<ObjP> nm; auto &va = a.mem.v, &vb = b.mem.v; size_t i = 0, j = 0;
  // ITE condition: prefer the simpler guard
  bool swapG = ob.size() < oa.size(); E g = swapG ? mkNot(gB) : gA; 
  while (i < va.size() || j < vb.size()) {
    if (j >= vb.size() || (i < va.size() && va[i]->base < vb[j]->base)) { nm.push_back(va[i++]); continue; }
    if (i >= va.size() || vb[j]->base < va[i]->base) { nm.push_back(vb[j++]); continue; }
    if (va[i] == vb[j]) nm.push_back(va[i]); else { ObjP o; if (!mergeObj(o, va[i], vb[j], g, nullptr)) return false; nm.push_back(o); }
    i++; j++; }
  for (size_t t = 0; t < a.runs.size(); t++) a.runs[t] = mkIte(g, a.runs[t], b.runs[t]);
  for (size_t t = 0; t < a.obs.size(); t++) a.obs[t].second = mkIte(g, a.obs[t].second, b.obs[t].second);
  for (size_t t = 0; t < a.th.size(); t++) { auto &x = a.th[t], &y = b.th[t]; x.sp = std::max(x.sp, y.sp); if (x.ev != y.ev || x.evBase != y.evBase) { auto tot = [](Thread &q) { E c = mkC(q.ev, 32); return q.evBase ? mkBin(K::Add, c, q.evBase) : c; }; E e = mkIte(g, tot(x), tot(y)); x.ev = 0; x.evBase = e; } for (auto &kv : y.tls) x.tls.insert(kv);
    for (size_t k = 0; k < x.st.size(); k++) { auto &ra = x.st[k].regs; auto &rb = y.st[k].regs; for (size_t r = 0; r < ra.size(); r++) { if (ra[r] == rb[r]) continue; if (!ra[r]) ra[r] = rb[r]; else if (!rb[r]) continue; else if (ra[r]->w == rb[r]->w && (ra[r]->k == K::Tuple) == (rb[r]->k == K::Tuple)) ra[r] = mkIte(g, ra[r], rb[r]); else return false; }
      for (size_t q = 0; q < x.st[k].loopc.size(); q++) x.st[k].loopc[q] = std::max(x.st[k].loopc[q], y.st[k].loopc[q]); } }
  a.mem.v.swap(nm); a.rng.clear(); a.pc.clear(); a.pcset.clear(); for (E e : common) addPC(a, e); addPC(a, mkOr1(gA, gB));
  a.heapTop = std::max(a.heapTop, b.heapTop); a.steps = std::max(a.steps, b.steps);
  for (auto &kv : b.symCount) { auto &v = a.symCount[kv.first]; v = std::max(v, kv.second); }
  for (auto &c : b.covers) a.covers.insert(c); a.preempt = std::min(a.preempt, b.preempt); nMerges++; return true;
}
static void mergeGroup(std::vector<State *> &v) { // merges in place
  std::vector<State *> out;
  for (auto *s : v) { bool m = false; for (auto *t : out) if (tryMerge(*t, *s)) { m = true; break; } if (m) { for (int h : s->mergeStack) handlerLive[h]--; delete s; } else out.push_back(s); }
  v.swap(out);
}
static void releaseHandlers(int h) {
  auto &p = handlerPaused[h]; if (p.empty() || (int)p.size() < handlerLive[h]) return;
  std::vector<State *> v; v.swap(p); mergeGroup(v); for (auto *s : v) { s->mergeStack.pop_back(); handlerLive[h]--; ready.push_back(s); } }

// ---- which accesses are scheduling points.  Every access of a thread that runs beside others is recorded per 4-byte word; an access is
// a scheduling point when another thread conflicts with it on that word: always for atomic, volatile and declared words, and for other
// memory when the thread has published something (a conflicting write to such a word) since its last scheduling point.  The sets are
// found by iteration: the exploration starts over with the larger sets until nothing new is recorded.
struct RW { uint16_t r = 0, w = 0; };
static std::unordered_map<uint64_t, RW> accF, accN; static bool accDirty = false; static uint64_t nConfl = 0, nSymAddr = 0; static bool accPassed = false; static int nRounds = 0; static double dirtySince = 0;
static bool inList(const std::vector<std::pair<uint64_t, uint64_t>> &l, uint64_t a) { for (auto &p : l) if (a >= p.first && a < p.second) return true; return false; }
static bool onStk(uint64_t a) { return a >= STACK0 && a < STACK0 + STACKSZ * 64; }
// conflict of this access with the other threads; records it
static bool conflicts(State &s, uint64_t a, uint64_t n, bool wr, bool strong) {
  if (!strong) { int i = s.mem.find(a); if (i < 0) return false; Obj *o = s.mem.v[i].get(); if (o->ro || o->priv) return false; }
  int alive = 0; for (size_t q = 1; q < s.th.size(); q++) if (s.th[q].status != 1) alive++; bool crash = s.crashFn == 1 && wr; if (alive < 2 && !crash) return false;
  uint16_t me = 1u << s.cur, oth = ~me; bool c = false; for (size_t q = 1; q < s.th.size(); q++) if (s.th[q].status == 1) oth &= ~(1u << q);
  for (uint64_t g = a >> 2; g <= (a + (n ? n : 1) - 1) >> 2; g++) {
    RW &x = accN[g]; uint16_t &m = wr ? x.w : x.r; if (alive >= 2 && !(m & me)) { m |= me; uint16_t all = x.r | x.w; if (x.w && (all & (all - 1)) ) { if (!accDirty) dirtySince = elapsed(); accDirty = true; } }
    auto it = accF.find(g); if (it != accF.end() && ((it->second.w & oth) || (wr && (it->second.r & oth)))) c = true; }
  return c || crash; }
static bool wantsYield(State &s, E addr, uint64_t n, bool wr, bool atom) { uint64_t a = evalIn(s, addr); if (onStk(a) || inList(s.invis, a)) return false; bool strong = atom || inList(s.vis, a); bool c = conflicts(s, a, n, wr, strong); return c && (strong || s.th[s.cur].justWrote); }
// must the current thread yield before this access?  kind: 0 plain read 1 plain write 2 atomic read 3 atomic write
static bool needYield(State &s, E addr, uint64_t n, int kind, E addr2 = nullptr) {
  if (!s.sched || !s.cur) return false; Thread &t = s.th[s.cur]; bool at = t.atYield; t.atYield = false;
  if (!addr->isC() || (addr2 && !addr2->isC())) nSymAddr++;
  bool y = wantsYield(s, addr, n, kind & 1, kind >= 2); if (addr2 && wantsYield(s, addr2, n, false, false)) y = true;
  if (y && !at && !t.atomicSec) { t.atYield = true; return true; }
  if (y) t.justWrote = false; t.ev++; accPassed = true; return false;
}
static void wakeAll(State &s) { for (size_t q = 1; q < s.th.size(); q++) if ((int)q != s.cur && s.th[q].status == 2) s.th[q].status = 0; }
static void afterAccess(State &s, E addr, uint64_t n, int kind) { // after a write
  if (!s.sched || !s.cur) return; uint64_t a = evalIn(s, addr); if (onStk(a) || inList(s.invis, a)) return; bool strong = kind >= 2 || inList(s.vis, a); bool any = false; for (size_t q = 1; q < s.th.size(); q++) any |= s.th[q].status == 2;
  if (!strong && !any && !s.repolled) return; bool c = conflicts(s, a, n, true, strong); if (c && strong) s.th[s.cur].justWrote = true;
  if (strong) s.repolled = false; if (strong && any) wakeAll(s); else if (any || s.repolled) { uint16_t oth = ~(1u << s.cur); for (uint64_t g = a >> 2; g <= (a + (n ? n : 1) - 1) >> 2; g++) { auto it = accN.find(g); if (it != accN.end() && (it->second.r & oth)) { wakeAll(s); s.repolled = false; break; } } } }


// ------------------------------------------------------------------ scheduling of harness threads
static std::map<int, std::vector<State *>> levels; static std::vector<State *> finals;
// registers that are still read at or after instruction pc (the rest are dropped, so that states differing only in dead values are equal)
static const std::vector<bool> &liveAt(Fn *f, int pc) {
  auto it = f->live.find(pc); if (it != f->live.end()) return it->second;
  auto back = [&](std::vector<bool> &v, int from, int to) { for (int k = from; k > to; k--) { DI &d = f->ins[k - 1]; if (d.dst >= 0) v[d.dst] = false; if (d.opc == Instruction::PHI) continue; for (auto &o : d.ops) if (!o.c && o.slot >= 0) v[o.slot] = true; } };
  if (f->liveOut.empty()) {
    f->liveOut.assign(f->bbs.size(), std::vector<bool>(f->nslots, false));
    std::vector<std::vector<int>> succ(f->bbs.size()); for (auto &kv : f->bbid) { for (auto *q : successors(kv.first)) { auto i2 = f->bbid.find(q); if (i2 != f->bbid.end()) succ[kv.second].push_back(i2->second); } }
    for (bool ch = true; ch;) { ch = false;
      for (int b = (int)f->bbs.size() - 1; b >= 0; b--) { std::vector<bool> v = f->liveOut[b];
        for (int q : succ[b]) { std::vector<bool> w = f->liveOut[q]; back(w, f->bbs[q].last, f->bbs[q].first); for (int p : f->bbs[q].phis) { DI &d = f->ins[p]; for (size_t k = 0; k < d.cases.size(); k++) if ((int)d.cases[k].first == b && !d.ops[k].c && d.ops[k].slot >= 0) w[d.ops[k].slot] = true; } for (int k = 0; k < f->nslots; k++) if (w[k] && !v[k]) { v[k] = true; } }
        if (v != f->liveOut[b]) { f->liveOut[b] = v; ch = true; } } } }
  int b = 0; while (b + 1 < (int)f->bbs.size() && f->bbs[b + 1].first <= pc) b++;
  std::vector<bool> v = f->liveOut[b]; back(v, f->bbs[b].last, pc); return f->live[pc] = v; }
static void dropDead(State &s) { for (auto &t : s.th) for (size_t k = 0; k < t.st.size(); k++) { Frame &f = t.st[k]; bool top = k + 1 == t.st.size(); const auto &l = liveAt(f.f, top ? f.pc : f.pc + 1); int rs = top ? -1 : t.st[k + 1].retSlot; for (int r = 0; r < f.f->nslots; r++) if (f.regs[r] && (!l[r] || r == rs)) f.regs[r] = nullptr; } }
// states are joined only when they agree on everything that steers the schedule: positions of the threads, their live registers, the shared
// words and the words the harness names with vf_key; all other memory is joined with if-then-else
static std::string schedKey(State &s) { std::string k; auto add = [&](E e) { uint32_t id = e ? e->id : 0; k.append((const char *)&id, 4); };
  for (auto &t : s.th) { k += (char)('0' + t.status); k += t.atYield ? 'y' : 'n'; k += t.justWrote ? 'w' : '-'; for (auto &f : t.st) { k.append((const char *)&f.f->idx, 4); k.append((const char *)&f.pc, 4); for (size_t r = 0; r < f.regs.size(); r++) if (f.regs[r]) { uint16_t q = r; k.append((const char *)&q, 2); add(f.regs[r]); } } k += '|'; }
  for (auto *w : {&s.vis, &s.keyed}) for (auto &p : *w) { int i = s.mem.find(p.first); if (i < 0) continue; Obj *o = s.mem.v[i].get(); for (uint64_t a = p.first; a < p.second && a - o->base < o->size; a++) add(baseByte(o, a - o->base)); if (o->upd) k.append((const char *)&o->upd, 8); }
  k += s.repolled ? 'r' : '-'; if (optPreempt >= 0) { k.append((const char *)&s.preempt, 4); k.append((const char *)&s.lastRun, 4); } return k; }
static void suspend(State *s, bool counted = false) { s->schedStep++; if (s->schedStep > 1) { Thread &t = s->th[s->cur]; E c = mkC(counted ? t.ev : !s->cur && s->crashFn == 2 ? 0xfffffffeULL : 0xffffffffULL, 32); /* 0xfffffffe: a crash, not an end */ if (counted && t.evBase) c = mkBin(K::Add, c, t.evBase); s->runs.push_back(c); } for (auto &t : s->th) { t.ev = 0; t.evBase = nullptr; } dropDead(*s); levels[s->schedStep].push_back(s); }
static void expandSched(State *s) {
  nSchedStates++; int k = s->schedStep; maxLevel = std::max<uint64_t>(maxLevel, k);
  std::vector<int> en; bool allDone = true, anyWait = false; int nth = s->th.size() - 1;
  for (int t = 1; t <= nth; t++) { auto &T = s->th[t]; if (T.status == 0) { en.push_back(t); allDone = false; } else if (T.status == 2 && !T.daemon) { allDone = false; anyWait = true; } }
  // sleeps are timed: when everybody sleeps, all of them look once more before this counts as the end or as being stuck
  if (en.empty() && !s->repolled) { bool some = false; for (int t = 1; t <= nth; t++) if (s->th[t].status == 2) { s->th[t].status = 0; en.push_back(t); some = true; if (!s->th[t].daemon) allDone = false; } s->repolled = some; if (some) allDone = false; }
  // daemons that are still runnable keep the system going
  if (allDone) { s->sched = false; s->cur = 0; finals.push_back(s); return; }
  if (en.empty()) { (void)anyWait; s->cur = 1; for (int t = 1; t <= nth; t++) if (s->th[t].status == 2 && !s->th[t].daemon) s->cur = t; violation(*s, "progress", "stuck", "all threads wait and none can proceed", s->model); endState(*s); delete s; return; }
  if (k >= optMaxLevel) { nBoundCut++; endState(*s); delete s; return; }
  char nm[32]; snprintf(nm, 32, "sched#%d", k); E sv = mkSym(nm, 8, true, 0, 7); if (nth > 7) fatal("more than 7 threads");
  std::vector<int> ch; bool lastEn = std::find(en.begin(), en.end(), s->lastRun) != en.end();
  for (int t : en) { if (optPreempt >= 0 && lastEn && t != s->lastRun && s->preempt >= optPreempt) continue; ch.push_back(t); }
  if (s->crashFn == 1) ch.push_back(0);
  for (int t : ch) {
    State *n = forkState(*s); nTrans++; addPC(*n, mkEq(mkC(t, 8), sv)); n->model.vals[(uint32_t)sv->v] = t;
    if (t == 0) { n->sched = false; n->cur = 0; n->crashFn = 2; for (size_t q = 1; q < n->th.size(); q++) { n->th[q].st.clear(); n->th[q].status = 1; n->th[q].atYield = false; n->th[q].justWrote = false; } finals.push_back(n); continue; }
    if (optPreempt >= 0 && lastEn && t != s->lastRun) n->preempt++;
    n->lastRun = t; n->cur = t; ready.push_back(n); }
  endState(*s, false); delete s;
}
static std::vector<State *> roots; static bool inPhase = false; static uint64_t rootCut = 0; static double phaseStart = 0;
static bool schedPump() { // called when ready is empty
  while (ready.empty()) {
    if (!levels.empty() && !inPhase) { inPhase = true; phaseStart = elapsed(); rootCut = nBoundCut; for (auto &kv : levels) for (auto *s : kv.second) { if (!s->mergeStack.empty()) fatal("threads started inside a merge"); roots.push_back(forkState(*s)); } }
    if (inPhase && accDirty && (levels.empty() || elapsed() - dirtySince > 0.3 + 0.1 * (elapsed() - phaseStart))) { // new conflicts: start over
      for (auto &kv : levels) for (auto *s : kv.second) { endState(*s, false); delete s; } levels.clear(); for (auto *s : finals) { endState(*s, false); delete s; } finals.clear(); accF = accN; nConfl = 0; for (auto &kv : accF) { uint16_t al = kv.second.r | kv.second.w; if (kv.second.w && (al & (al - 1))) nConfl++; } accDirty = false; nRounds++; nBoundCut = rootCut; maxLevel = 0; phaseStart = elapsed();
      if (getenv("FNSYM_LEVELS")) fprintf(stderr, "round %d\n", nRounds); for (auto *s : roots) levels[s->schedStep].push_back(forkState(*s)); }
    if (levels.empty() && inPhase) { inPhase = false; for (auto *s : roots) { endState(*s, false); delete s; } roots.clear(); accF.clear(); accN.clear(); accDirty = false; }
    if (!levels.empty()) {
      auto it = levels.begin(); std::vector<State *> v; v.swap(it->second); levels.erase(it);
      std::map<std::string, std::vector<State *>> g; for (auto *s : v) g[schedKey(*s)].push_back(s);
      size_t before = v.size(), after = 0; for (auto &kv : g) { mergeGroup(kv.second); after += kv.second.size(); for (auto *s : kv.second) expandSched(s); }
      if (getenv("FNSYM_LEVELS")) fprintf(stderr, "level %d: %zu states, %zu after merging, %.1f s, %zu queries\n", (int)maxLevel, before, after, elapsed(), (size_t)g_ss.queries);
      continue; }
    if (!finals.empty()) { std::vector<State *> v; v.swap(finals); std::vector<State *> c, n; for (auto *s : v) (s->crashFn == 2 ? c : n).push_back(s);
      // after the threads ended only the main thread's shape matters
      for (auto *s : n) for (size_t q = 1; q < s->th.size(); q++) { s->th[q].st.clear(); s->th[q].status = 1; s->th[q].atYield = s->th[q].justWrote = false; }
      for (auto *vv : {&c, &n}) { std::map<std::string, std::vector<State *>> g; for (auto *s : *vv) { s->lastRun = -1; s->preempt = s->crashFn == 2 && optPreempt > 0 ? optPreempt : 0; s->repolled = false; g[schedKey(*s)].push_back(s); } for (auto &kv : g) { mergeGroup(kv.second); for (auto *s : kv.second) ready.push_back(s); } } continue; }
    return false; }
  return true;
}
// ------------------------------------------------------------------ interpretation
static inline E val(Frame &f, const Op &o) { return o.c ? o.c : f.regs[o.slot]; }
static std::string cstr(State &s, E p) { std::string r; if (!p->isC()) return "?"; int i = s.mem.find(p->v); if (i < 0) return "?"; Obj *o = s.mem.v[i].get(); for (uint64_t k = p->v - o->base; k < o->size; k++) { E b = readByteC(o, k); if (!b->isC() || !b->v) break; r += (char)b->v; } return r; }
static void pushFrame(State &s, Fn *f, const std::vector<E> &args, int retSlot) {
  if (!f->seen) { f->seen = true; fnSeen.insert(f->name); } Thread &t = s.th[s.cur]; if (t.st.size() > 400) { violation(s, "memory", "stack", "call depth", s.model); endState(s); return; }
  t.st.emplace_back(); Frame &fr = t.st.back(); fr.f = f; fr.pc = f->bbs[0].first; fr.bb = 0; fr.prevbb = -1; fr.regs.assign(f->nslots, nullptr); fr.sp = t.sp; fr.retSlot = retSlot; fr.loopc.assign(f->bbs.size(), 0);
  for (size_t i = 0; i < f->argSlots.size() && i < args.size(); i++) fr.regs[f->argSlots[i]] = args[i];
  for (size_t i = f->argSlots.size(); i < args.size(); i++) fr.va.push_back(args[i]);
}
static void popAllocas(State &s, uint64_t from, uint64_t to) { // remove stack objects in [from,to)
  if (from == to) return; auto &v = s.mem.v; int i = s.mem.find(from - 1) + 1; int j = i; while (j < (int)v.size() && v[j]->base < to) j++; if (i < j) v.erase(v.begin() + i, v.begin() + j); }
static void jump(State &s, Frame &f, int bb) {
  int prev = f.bb; f.prevbb = prev; f.bb = bb; BB &b = f.f->bbs[bb]; f.pc = b.first;
  if (!b.phis.empty()) { std::vector<E> nv; for (int p : b.phis) { DI &d = f.f->ins[p]; E e = nullptr; for (size_t k = 0; k < d.cases.size(); k++) if ((int)d.cases[k].first == prev) { e = val(f, d.ops[k]); break; } nv.push_back(e); } for (size_t k = 0; k < b.phis.size(); k++) f.regs[f.f->ins[b.phis[k]].dst] = nv[k]; f.pc = b.phis.back() + 1; }
  if (f.f->ins[b.first].loophead && (uint64_t)++f.loopc[bb] > optMaxVisits) { inconclusive.push_back("loop bound in " + f.f->dname); nBoundCut++; endState(s); }
}
// fork on a condition. returns -1 dead, else 1/0 for s; sibling (if any) put in sib
static int branchOn(State &s, E c, State *&sib) {
  sib = nullptr; if (c->isC()) return (int)c->v;
  if (s.pcset.count(c->id)) return 1; E nc = mkNot(c); if (s.pcset.count(nc->id)) return 0;
  bool v = evalIn(s, c); Model m; if (getenv("FNSYM_BRANCH")) { auto &fr = s.th[s.cur].st.back(); fprintf(stderr, "branch t%d %s pc %d\n", s.cur, fr.f->dname.substr(0, 60).c_str(), fr.pc); } Res r = feasible(s, v ? nc : c, &m); if (elapsed() > optTime) fatal("time budget exhausted");
  if (r == Res::UNSAT) return v; // implied
  if (r == Res::UNK) { inconclusive.push_back("branch in " + s.th[s.cur].st.back().f->dname); return v; }
  sib = forkState(s); sib->model = m; addPC(*sib, v ? nc : c); addPC(s, v ? c : nc); return v;
}
static void doCheck(State &s, E c, const std::string &id, const std::string &kind, const std::string &msg) {
  nChecks++; checkHits[id]++; if (c->isC()) { if (c->v) { nChecksTriv++; return; } violation(s, id, kind, msg, s.model); endState(s); return; }
  checkSolver[id]++; E nc = mkNot(c); Model m;
  if (s.pcset.count(c->id)) { nChecksTriv++; return; }
  if (!evalIn(s, c)) { violation(s, id, kind, msg, s.model); Res r = feasible(s, c, &m); if (r == Res::SAT) { s.model = m; addPC(s, c); } else endState(s); return; }
  Res r = feasible(s, nc, &m, true);
  if (r == Res::SAT) { violation(s, id, kind, msg, m); addPC(s, c); }
  else if (r == Res::UNK) { inconclusive.push_back("check " + id); }
}
static void ubCheck(State &s, E c, const char *kind, const std::string &msg) { if (!optUB) return; if (c->isC() && c->v) return; doCheck(s, c, "ub", kind, msg); }
// on this path e == v: registers that hold e (or the narrower value e extends) become the constant
static void substRegs(State &s, E e, uint64_t v) { std::vector<std::pair<E, E>> m; for (E x = e;;) { m.push_back({x, mkC(v, x->w)}); if (x->k == K::ZExt || x->k == K::SExt) x = x->ops[0]; else break; }
  for (auto &f : s.th[s.cur].st) for (auto &r : f.regs) for (auto &p : m) if (r == p.first) { r = p.second; break; } }
static void forkConcretize(State &s, E e, std::vector<State *> &extra, uint64_t limit = 4096) { // s gets one value; siblings re-execute
  if (e->isC()) return; uint64_t v = evalIn(s, e); E c = mkEq(mkC(v, e->w), e); State *sib = nullptr; int r = branchOn(s, c, sib); (void)r; if (sib) extra.push_back(sib); (void)limit; substRegs(s, e, v); }
static bool memTransfer(State &s, E dst, E src, uint64_t n) { // constant length
  if (n == 0) return true; int so, doo; E soff, doff;
  if (!resolve(s, src, n, false, so, soff, "memcpy read")) return false; 
  if (!resolve(s, dst, n, true, doo, doff, "memcpy write")) return false;
  std::vector<E> tmp(n); const Obj *o = s.mem.v[so].get();
  if (soff->isC()) for (uint64_t i = 0; i < n; i++) tmp[i] = readByteC(o, soff->v + i); else { ObjP keep = s.mem.v[so]; for (uint64_t i = 0; i < n; i++) tmp[i] = readSymOff(s, keep.get(), mkAddC(soff, i), 1); }
  Obj *w = writable(s, doo); if (doff->isC()) { for (uint64_t i = 0; i < n; i++) writeByteAt(s, w, doff->v + i, tmp[i]); } else for (uint64_t i = 0; i < n; i++) writeSymOff(s, w, mkAddC(doff, i), tmp[i], 1, nullptr);
  return true; }

static std::vector<std::string> optMergeFn; // functions whose paths are joined when they return
static bool mergesAtReturn(Fn *f) { if (f->mergeFn < 0) { f->mergeFn = 0; for (auto &p : optMergeFn) if (std::regex_search(f->dname, std::regex(p))) f->mergeFn = 1; } return f->mergeFn == 1; }
static void runState(State *sp) {
  State &s = *sp; std::vector<State *> extra; extraOut = &extra;
  while (!s.dead) {
    Thread &T = s.th[s.cur];
    if (T.st.empty()) { endState(s); break; }
    Frame &f = T.st.back(); DI &d = f.f->ins[f.pc]; nInstr++; s.steps++;
    if (s.stepLimit && s.steps > s.stepLimit) { violation(s, s.stepLimitId, "hang", "step limit exceeded: no termination within the bound", s.model); endState(s); break; }
    if ((nInstr & 0xffff) == 0 && elapsed() > optTime) { fatal("time budget exhausted"); }
    int pc0 = f.pc; extra.clear(); accPassed = false; bool advance = true; bool suspended = false;
    auto R = [&](E e) { f.regs[d.dst] = e; };
    auto V = [&](int i) { E e = val(f, d.ops[i]); if (!e) fatal("undefined register in " + f.f->dname); return e; };
    switch (d.opc) {
    case Instruction::Ret: {
      E rv = d.ops.empty() ? nullptr : V(0); int rs = f.retSlot, mh = f.mergeH; popAllocas(s, f.sp, T.sp); T.sp = f.sp; T.st.pop_back(); advance = false;
      if (T.st.empty()) { if (s.sched && s.cur != 0) { T.status = 1; T.atYield = T.justWrote = false; for (size_t q = 1; q < s.th.size(); q++) if (s.th[q].status == 2) s.th[q].status = 0; suspend(sp); return; } witness(s); endState(s); break; }
      if (rs >= 0 && rv) T.st.back().regs[rs] = rv; T.st.back().pc++;
      if (mh >= 0) { if (s.mergeStack.empty() || s.mergeStack.back() != mh) fatal("merge scopes cross"); handlerPaused[mh].push_back(sp); releaseHandlers(mh); return; }
      break; }
    case Instruction::Br: advance = false;
      if (d.ops.empty()) { jump(s, f, d.bb0); break; }
      { State *sib; int v = branchOn(s, V(0), sib); if (sib) { Frame &g = sib->th[sib->cur].st.back(); jump(*sib, g, v ? d.bb1 : d.bb0); if (!sib->dead) ready.push_back(sib); else delete sib; } jump(s, f, v ? d.bb0 : d.bb1); }
      break;
    case Instruction::Switch: { advance = false; E c = V(0); if (c->isC()) { int t = d.bb0; for (auto &k : d.cases) if (k.first == c->v) { t = k.second; break; } jump(s, f, t); break; }
        // group by target
        std::map<int, E> tgt; E any = mkB(false); for (auto &k : d.cases) { E q = mkEq(mkC(k.first, c->w), c); auto it = tgt.find(k.second); if (it == tgt.end()) tgt[k.second] = q; else it->second = mkOr1(it->second, q); any = mkOr1(any, q); }
        E def = mkNot(any); { auto it = tgt.find(d.bb0); if (it == tgt.end()) tgt[d.bb0] = def; else it->second = mkOr1(it->second, def); }
        int mine = -1; std::vector<std::pair<int, State *>> sibs;
        for (auto &kv : tgt) { if (mine < 0 && evalIn(s, kv.second)) { mine = kv.first; continue; } Model m; Res r = feasible(s, kv.second, &m); if (r == Res::SAT) { State *n = forkState(s); n->model = m; addPC(*n, kv.second); sibs.push_back({kv.first, n}); } else if (r == Res::UNK) inconclusive.push_back("switch in " + f.f->dname); }
        for (auto &p : sibs) { jump(*p.second, p.second->th[p.second->cur].st.back(), p.first); if (p.second->dead) delete p.second; else ready.push_back(p.second); }
        addPC(s, tgt[mine]); jump(s, f, mine); break; }
    case Instruction::Unreachable: advance = false; violation(s, "ub", "unreachable", "unreachable executed", s.model); endState(s); break;
    case Instruction::Resume: advance = false; endState(s); break;
    case Instruction::PHI: break; // done in jump
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: { E a = V(0), b = V(1); K k = d.opc == Instruction::Add ? K::Add : d.opc == Instruction::Sub ? K::Sub : K::Mul;
        if (optNSW && d.nsw && a->w <= 32) { E wa = mkSExt(a, 64), wb = mkSExt(b, 64); E r = mkBin(k, wa, wb); ubCheck(s, mkEq(mkSExt(mkExtract(r, 0, a->w), 64), r), "signed-overflow", "signed overflow"); if (s.dead) break; }
        R(mkBin(k, a, b)); break; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E a = V(0), b = V(1); ubCheck(s, mkNot(mkEq(b, mkC(0, b->w))), "div0", "division by zero"); if (s.dead) break; R(mkBin(d.opc == Instruction::UDiv ? K::UDiv : d.opc == Instruction::SDiv ? K::SDiv : d.opc == Instruction::URem ? K::URem : K::SRem, a, b)); break; }
    case Instruction::And: R(mkBin(K::And, V(0), V(1))); break; case Instruction::Or: R(mkBin(K::Or, V(0), V(1))); break; case Instruction::Xor: R(mkBin(K::Xor, V(0), V(1))); break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { E a = V(0), b = V(1); R(mkBin(d.opc == Instruction::Shl ? K::Shl : d.opc == Instruction::LShr ? K::LShr : K::AShr, a, b)); break; }
    case Instruction::FAdd: R(mkF(K::FAdd, d.w, V(0), V(1))); break; case Instruction::FSub: R(mkF(K::FSub, d.w, V(0), V(1))); break; case Instruction::FMul: R(mkF(K::FMul, d.w, V(0), V(1))); break; case Instruction::FDiv: R(mkF(K::FDiv, d.w, V(0), V(1))); break; case Instruction::FRem: R(mkF(K::FRem, d.w, V(0), V(1))); break; case Instruction::FNeg: R(mkF(K::FNeg, d.w, V(0))); break;
    case Instruction::Alloca: { E n = V(0); if (!n->isC()) fatal("symbolic alloca"); uint64_t sz = std::max<uint64_t>(d.off * n->v, 1); T.sp = (T.sp + d.w2 - 1) / d.w2 * d.w2; uint64_t a = T.sp; T.sp += sz + 16; s.mem.insert(newObj(a, sz, f.f->dname.substr(0, 40) + ":" + d.I->getName().str(), FUninit, 1)); R(mkC(a, 64)); break; }
    case Instruction::GetElementPtr: { E b = mkAddC(V(0), d.off); for (size_t i = 0; i < d.sc.size(); i++) { E x = V(d.sc[i].second); if (x->w < 64) x = mkSExt(x, 64); if (d.lim[i] && !x->isC()) { uint64_t L = d.lim[i]; E ok = mkCmp(K::Ule, x, mkC(d.flag ? L - 1 : L, 64)); ubCheck(s, ok, "index", "array index out of bounds"); if (s.dead) break; } else if (d.lim[i] && x->isC() && x->v > d.lim[i] - (d.flag ? 1 : 0)) { ubCheck(s, mkB(false), "index", "array index out of bounds"); if (s.dead) break; }
          b = mkBin(K::Add, b, mkBin(K::Mul, mkC(d.sc[i].first, 64), x)); } if (!s.dead) R(b); break; }
    case Instruction::Trunc: R(mkExtract(V(0), 0, d.w)); break; case Instruction::ZExt: R(mkZExt(V(0), d.w)); break; case Instruction::SExt: R(mkSExt(V(0), d.w)); break;
    case Instruction::FPTrunc: R(mkF(K::FPRound, d.w, V(0))); break; case Instruction::FPExt: R(mkF(K::FPExt, d.w, V(0))); break;
    case Instruction::FPToUI: R(mkF(K::FPToUI, d.w, V(0))); break; case Instruction::FPToSI: R(mkF(K::FPToSI, d.w, V(0))); break; case Instruction::UIToFP: R(mkF(K::UIToFP, d.w, V(0))); break; case Instruction::SIToFP: R(mkF(K::SIToFP, d.w, V(0))); break;
    case Instruction::PtrToInt: { E e = V(0); R(d.w < 64 ? mkExtract(e, 0, d.w) : e); break; } case Instruction::IntToPtr: { E e = V(0); R(e->w < 64 ? mkZExt(e, 64) : e); break; } case Instruction::BitCast: case Instruction::Freeze: R(V(0)); break;
    case Instruction::ICmp: { E a = V(0), b = V(1), r; switch (d.sub) { case CmpInst::ICMP_EQ: r = mkEq(a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break; case CmpInst::ICMP_ULT: r = mkCmp(K::Ult, a, b); break; case CmpInst::ICMP_ULE: r = mkCmp(K::Ule, a, b); break; case CmpInst::ICMP_UGT: r = mkCmp(K::Ult, b, a); break; case CmpInst::ICMP_UGE: r = mkCmp(K::Ule, b, a); break; case CmpInst::ICMP_SLT: r = mkCmp(K::Slt, a, b); break; case CmpInst::ICMP_SLE: r = mkCmp(K::Sle, a, b); break; case CmpInst::ICMP_SGT: r = mkCmp(K::Slt, b, a); break; default: r = mkCmp(K::Sle, b, a); break; } R(r); break; }
    case Instruction::FCmp: { E a = V(0), b = V(1); E un = mkF(K::FUno, 1, a, b); auto eq = [&] { return mkF(K::FEq, 1, a, b); }; auto lt = [&](E x, E y) { return mkF(K::FLt, 1, x, y); }; auto le = [&](E x, E y) { return mkF(K::FLe, 1, x, y); }; E r;
        switch (d.sub) { case CmpInst::FCMP_FALSE: r = mkB(false); break; case CmpInst::FCMP_TRUE: r = mkB(true); break; case CmpInst::FCMP_OEQ: r = eq(); break; case CmpInst::FCMP_OGT: r = lt(b, a); break; case CmpInst::FCMP_OGE: r = le(b, a); break; case CmpInst::FCMP_OLT: r = lt(a, b); break; case CmpInst::FCMP_OLE: r = le(a, b); break; case CmpInst::FCMP_ONE: r = mkAnd1(mkNot(un), mkNot(eq())); break; case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = mkOr1(un, eq()); break; case CmpInst::FCMP_UGT: r = mkOr1(un, lt(b, a)); break; case CmpInst::FCMP_UGE: r = mkOr1(un, le(b, a)); break; case CmpInst::FCMP_ULT: r = mkOr1(un, lt(a, b)); break; case CmpInst::FCMP_ULE: r = mkOr1(un, le(a, b)); break; default: r = mkNot(eq()); break; } R(r); break; }
    case Instruction::Select: { E c = V(0); R(c->isC() ? (c->v ? V(1) : V(2)) : mkIte(c, V(1), V(2))); break; }
    case Instruction::ExtractValue: { E e = V(0); for (auto &k : d.cases) e = e->ops[k.first]; R(e); break; }
    case Instruction::InsertValue: { std::function<E(E, E, size_t)> ins = [&](E agg, E v, size_t i) -> E { if (i == d.cases.size()) return v; std::vector<E> o(agg->ops, agg->ops + agg->nops); o[d.cases[i].first] = ins(o[d.cases[i].first], v, i + 1); return mkTuple(o); }; R(ins(V(0), V(1), 0)); break; }
    case Instruction::Fence: break;
    case Instruction::Load: { E a = V(0); if (needYield(s, a, d.w2, d.vol ? 2 : 0)) { suspend(sp, true); suspended = true; break; } E r; 
        if (d.I->getType()->isStructTy() || d.I->getType()->isArrayTy()) { fatal("aggregate load in " + f.f->dname); }
        if (loadVal(s, a, d.w2, r)) { if (r->w > d.w) r = mkExtract(r, 0, d.w); R(r); } break; }
    case Instruction::Store: { E a = V(1); if (needYield(s, a, d.w2, d.vol ? 3 : 1)) { suspend(sp, true); suspended = true; break; } E v = V(0); if (v->k == K::Tuple) fatal("aggregate store in " + f.f->dname); if (v->w < d.w2 * 8) v = mkZExt(v, d.w2 * 8); if (storeVal(s, a, v, d.w2)) afterAccess(s, a, d.w2, d.vol ? 3 : 1); break; }
    case Instruction::AtomicRMW: { E a = V(0); if (needYield(s, a, V(1)->w / 8, 3)) { suspend(sp, true); suspended = true; break; } E v = V(1), old; unsigned n = v->w / 8; if (!loadVal(s, a, n, old)) break; E nv; switch (d.sub) { case AtomicRMWInst::Add: nv = mkBin(K::Add, old, v); break; case AtomicRMWInst::Sub: nv = mkBin(K::Sub, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = mkBin(K::Or, old, v); break; case AtomicRMWInst::And: nv = mkBin(K::And, old, v); break; case AtomicRMWInst::Xor: nv = mkBin(K::Xor, old, v); break; default: fatal("atomicrmw op"); } if (!storeVal(s, a, nv, n)) break; R(old); afterAccess(s, a, n, 3); break; }
    case Instruction::AtomicCmpXchg: { E a = V(0); if (needYield(s, a, V(1)->w / 8, 3)) { suspend(sp, true); suspended = true; break; } E cmp = V(1), nv = V(2), old; unsigned n = cmp->w / 8; if (!loadVal(s, a, n, old)) break; E ok = mkEq(cmp, old);
        // decide the outcome here so that control stays aligned with the schedule
        State *sib; int v = branchOn(s, ok, sib); if (sib) { for (auto *x : extra) (void)x; ready.push_back(sib); if (accPassed) { auto &xt = sib->th[sib->cur]; xt.atYield = true; xt.ev--; } }
        R(mkTuple({old, mkB(v)})); if (v) { if (!storeVal(s, a, nv, n)) break; afterAccess(s, a, n, 3); } break; }
    case Instruction::Call: {
      std::vector<E> args; llvm::Function *cf = d.callee; int ext = d.ext; size_t na = d.ops.size();
      if (!cf && ext < 0) { E fp = V(na - 1); na--; if (!fp->isC()) { forkConcretize(s, fp, extra); fp = mkC(evalIn(s, fp), 64); } auto it = fnAt.find(fp->v); if (it == fnAt.end()) { violation(s, "memory", "null", "call through a bad function pointer", s.model); endState(s); break; } cf = it->second; auto *wf = M->getFunction("__wrap_" + cf->getName().str()); if (wf && !wf->isDeclaration()) cf = wf; ext = cf->isDeclaration() ? extFor(cf) : -1; }
      if (ext < 0) { for (size_t i = 0; i < na; i++) args.push_back(V(i)); for (auto *x : extra) ready.push_back(x); extra.clear(); pushFrame(s, getFn(cf), args, d.dst); flushGlobals(s); advance = false; if (!optMergeFn.empty() && !s.sched && mergesAtReturn(getFn(cf))) { int h = nextHandler++; handlerLive[h] = 1; s.mergeStack.push_back(h); s.th[s.cur].st.back().mergeH = h; } break; }
      auto A = [&](int i) { return V(i); }; E r = nullptr;
      switch (ext) {
      case X_NONE: fatal("unmodelled external function " + cf->getName().str() + " called from " + stackTrace(s));
      case X_IGNORE: r = d.dst >= 0 && d.w ? mkC(0, d.w) : nullptr; break;
      case X_NOP0: case X_RET0: if (d.dst >= 0) r = d.w ? mkC(0, d.w) : nullptr; break;
      case X_RET1STARG: case X_EXPECT: r = A(0); break;
      case X_ALIGNEDNEW: case X_MALLOC: case X_CALLOC: { E n = A(0); if (ext == X_CALLOC) n = mkBin(K::Mul, n, A(1)); if (!n->isC()) { forkConcretize(s, n, extra); n = mkC(evalIn(s, n), 64); } if (n->v > (1ULL << 28)) { violation(s, "memory", "alloc", "absurd allocation size", s.model); endState(s); break; } s.heapTop = (s.heapTop + 63) & ~63ULL; uint64_t a = s.heapTop; s.heapTop += n->v + 64; s.mem.insert(newObj(a, std::max<uint64_t>(n->v, 1), "heap" + std::to_string(n->v), ext == X_CALLOC ? FZero : FUninit, 2)); r = mkC(a, 64); break; }
      case X_FREE: { E p = A(0); if (!p->isC()) { forkConcretize(s, p, extra); p = mkC(evalIn(s, p), 64); } if (p->v == 0) break; int i = s.mem.find(p->v); if (i < 0 || s.mem.v[i]->base != p->v || s.mem.v[i]->kind != 2 || s.mem.v[i]->freed) { violation(s, "memory", "free", "invalid free", s.model); endState(s); break; } Obj *o = writable(s, i); o->freed = true; o->ch.clear(); o->ch.resize((o->size + CH - 1) / CH); o->upd = nullptr; break; }
      case X_MEMCPY: { if (s.sched && needYield(s, A(0), A(2)->isC() ? A(2)->v : evalIn(s, A(2)), 1, A(1))) { suspend(sp, true); suspended = true; break; } E n = A(2); if (n->w < 64) n = mkZExt(n, 64); if (n->isC()) { memTransfer(s, A(0), A(1), n->v); break; }
          // symbolic length: guarded bytes when small, else one length per path
          if (n->hi <= 1024 && !A(0)->isC() ) { }
          forkConcretize(s, n, extra); memTransfer(s, A(0), A(1), evalIn(s, n)); break; }
      case X_MEMSET: { if (s.sched && needYield(s, A(0), A(2)->isC() ? A(2)->v : evalIn(s, A(2)), 1)) { suspend(sp, true); suspended = true; break; } E n = A(2); if (n->w < 64) n = mkZExt(n, 64); if (!n->isC()) { forkConcretize(s, n, extra); n = mkC(evalIn(s, n), 64); } if (n->v == 0) break; int oi; E off; if (!resolve(s, A(0), n->v, true, oi, off, "memset")) break; E v = A(1); if (v->w > 8) v = mkExtract(v, 0, 8); Obj *o = writable(s, oi);
          if (off->isC()) { uint64_t p = off->v, e = p + n->v; while (p < e) { if (v->isC() && p % CH == 0 && e - p >= CH && !(o->upd && p + CH > o->ulo && p <= o->uhi)) { auto c = std::make_shared<Chunk>(); memset(c->c, (int)v->v, CH); o->ch[p / CH] = (v->v == 0 && o->fill == FZero) ? nullptr : c; p += CH; } else { writeByteAt(s, o, p, v); p++; } } }
          else for (uint64_t i = 0; i < n->v; i++) writeSymOff(s, o, mkAddC(off, i), v, 1, nullptr); break; }
      case X_UBTRAP: violation(s, "ub", "shift", "shift amount not below the width", s.model); endState(s); break;
      case X_ABORT: case X_THROW: violation(s, "abort", ext == X_THROW ? "exception" : "abort", (cf ? cf->getName().str() : "") + " called", s.model); endState(s); break;
      case X_SYM: { std::string nm = cstr(s, A(0)); int k = s.symCount[nm]++; unsigned w = (unsigned)A(1)->v; E e = mkSym(nm + "#" + std::to_string(k), w); r = w < 64 ? mkZExt(e, 64) : e; break; }
      case X_RANGE: { std::string nm = cstr(s, A(0)); int64_t lo = (int64_t)A(1)->v, hi = (int64_t)A(2)->v; if (!A(1)->isC() || !A(2)->isC()) fatal("vf_range needs constant bounds"); if (lo == hi) { r = mkC((uint64_t)lo, 64); break; }
          uint64_t span = (uint64_t)hi - (uint64_t)lo; nm += "@" + std::to_string(span); int k = s.symCount[nm]++; unsigned w = 64 - __builtin_clzll(span); if (w < 64) w = w <= 1 ? 1 : w; E e = mkSym(nm + "#" + std::to_string(k), w, true, 0, span); r = mkAddC(w < 64 ? mkZExt(e, 64) : e, (uint64_t)lo); break; }
      case X_SYMBYTES: { std::string nm = cstr(s, A(2)); if (!A(1)->isC()) fatal("vf_sym_bytes size"); uint64_t n = A(1)->v; int oi; E off; if (!resolve(s, A(0), n, true, oi, off, "vf_sym_bytes")) break; Obj *o = writable(s, oi); for (uint64_t i = 0; i < n; i++) { int k = s.symCount[nm]++; writeByteAt(s, o, off->v + i, mkSym(nm + "#" + std::to_string(k), 8)); } break; }
      case X_ASSUME: { E c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkC(0, c->w))); if (c->isC()) { if (!c->v) { nAssumeCut++; endState(s, false); } break; } if (evalIn(s, c)) { addPC(s, c); break; } Model m; Res q = feasible(s, c, &m); if (q == Res::SAT) { s.model = m; addPC(s, c); } else { if (q == Res::UNK) inconclusive.push_back("assume"); nAssumeCut++; endState(s, false); } break; }
      case X_CHECK: { E c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkC(0, c->w))); std::string id = cstr(s, A(1)); doCheck(s, c, id, "check", "assertion '" + id + "' fails"); break; }
      case X_FEASIBLE: { E c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkC(0, c->w))); if (c->isC()) { r = mkC(c->v, 32); break; } Model m; r = mkC(evalIn(s, c) || feasible(s, c, &m) == Res::SAT, 32); break; }
      case X_COVER: { std::string id = cstr(s, A(0)); covers.insert(id); break; }
      case X_MOPEN: { int h = nextHandler++; handlerLive[h] = 1; s.mergeStack.push_back(h); break; }
      case X_MCLOSE: { if (s.mergeStack.empty()) fatal("merge close"); int h = s.mergeStack.back(); f.pc++; handlerPaused[h].push_back(sp); releaseHandlers(h); return; }
      case X_STEPLIM: s.stepLimit = A(0)->v ? s.steps + A(0)->v : 0; s.stepLimitId = cstr(s, A(1)); break;
      case X_THREAD: { Thread t; t.daemon = A(2)->v != 0; t.sp = STACK0 + STACKSZ * s.th.size(); auto it = fnAt.find(A(0)->v); if (it == fnAt.end()) fatal("vf_thread fn"); int cur = s.cur; E arg = A(1); s.th.push_back(t); s.cur = s.th.size() - 1; pushFrame(s, getFn(it->second), {arg}, -1); s.cur = cur; r = mkC(s.th.size() - 1, 32); 
          // vector may have moved
          { Frame &f2 = s.th[s.cur].st.back(); if (d.dst >= 0) f2.regs[d.dst] = r; f2.pc++; } flushGlobals(s); goto next; }
      case X_RUNTHREADS: { visibleGlobals(s); s.sched = true; f.pc++; if (d.dst >= 0) f.regs[d.dst] = mkC(0, 32); suspend(sp); return; }
      case X_KEY: s.keyed.push_back({A(0)->v, A(0)->v + A(1)->v}); break;
      case X_INVISIBLE: s.invis.push_back({A(0)->v, A(0)->v + A(1)->v}); break;
      case X_VISIBLE: s.vis.push_back({A(0)->v, A(0)->v + A(1)->v}); break;
      case X_YIELD: if (s.sched) { if (T.atYield) { T.atYield = false; } else { T.atYield = true; suspend(sp); suspended = true; } } break;
      case X_WAIT: if (s.sched) { if (T.atYield) { T.atYield = false; } else { T.atYield = true; T.justWrote = false; T.status = 2; suspend(sp); suspended = true; } } break;
      case X_CONCRETIZE: { E e = A(0); if (!e->isC()) { forkConcretize(s, e, extra); r = mkC(evalIn(s, e), e->w); } else r = e; break; }
      case X_DEBUG: { fprintf(stderr, "[debug s%llu] %s = %s\n", (unsigned long long)s.id, cstr(s, A(0)).c_str(), exprStr(A(1), 12).c_str()); break; }
      case X_ISSYM: r = mkC(1, 32); break; case X_TID: r = mkC(s.cur, 32); break;
      case X_ATOMIC: s.th[s.cur].atomicSec = A(0)->v != 0; break;
      case X_CRASHEN: { r = mkC(s.crashFn == 2, 32); if (A(0)->isC() && A(0)->v) s.crashFn = 1; else if (s.crashFn == 1) s.crashFn = 0; break; }
      case X_END: witness(s); endState(s); break;
      case X_OBSERVE: s.obs.push_back({cstr(s, A(0)), A(1)}); break;
      case X_FILLUNINIT: { break; }
      case X_VA: { E i = A(0); if (!i->isC()) fatal("vf_va index"); if (i->v >= f.va.size()) { violation(s, "ub", "varargs", "too few variadic arguments", s.model); endState(s); break; } r = f.va[i->v]; if (r->w < 64) r = mkSExt(r, 64); break; }
      case X_CTLZ: case X_CTTZ: { E x = A(0); unsigned w = x->w; if (A(1)->isC() && A(1)->v) { ubCheck(s, mkNot(mkEq(x, mkC(0, w))), "clz0", "count of zero bits of 0 is undefined"); if (s.dead) break; }
          E q = mkC(w, w); if (ext == X_CTLZ) { for (unsigned i = 0; i < w; i++) q = mkIte(mkEq(mkC(1, 1), mkExtract(x, i, 1)), mkC(w - 1 - i, w), q); } else { for (int i = w - 1; i >= 0; i--) q = mkIte(mkEq(mkC(1, 1), mkExtract(x, i, 1)), mkC(i, w), q); } 
          if (ext == X_CTLZ && w > 1) { // threshold chain is easier to decide than a bit chain
            q = mkC(w, w); for (unsigned i = 0; i < w; i++) q = mkIte(mkCmp(K::Ule, mkC(1ULL << i, w), x), mkC(w - 1 - i, w), q); }
          r = q; break; }
      case X_CTPOP: { E x = A(0); E q = mkC(0, x->w); for (unsigned i = 0; i < x->w; i++) q = mkBin(K::Add, q, mkZExt(mkExtract(x, i, 1), x->w)); r = q; break; }
      case X_BSWAP: { E x = A(0); E q = mkExtract(x, 0, 8); for (unsigned i = 8; i < x->w; i += 8) q = mkConcat(q, mkExtract(x, i, 8)); r = q; break; }
      case X_ABS: { E x = A(0); r = mkIte(mkCmp(K::Slt, x, mkC(0, x->w)), mkBin(K::Sub, mkC(0, x->w), x), x); break; }
      case X_UMIN: r = mkIte(mkCmp(K::Ult, A(0), A(1)), A(0), A(1)); break; case X_UMAX: r = mkIte(mkCmp(K::Ult, A(0), A(1)), A(1), A(0)); break; case X_SMIN: r = mkIte(mkCmp(K::Slt, A(0), A(1)), A(0), A(1)); break; case X_SMAX: r = mkIte(mkCmp(K::Slt, A(0), A(1)), A(1), A(0)); break;
      case X_OVF: { E a = A(0), b = A(1); unsigned w = a->w; E res, of; switch (cf->getIntrinsicID()) { case Intrinsic::uadd_with_overflow: res = mkBin(K::Add, a, b); of = mkCmp(K::Ult, res, a); break; case Intrinsic::usub_with_overflow: res = mkBin(K::Sub, a, b); of = mkCmp(K::Ult, a, b); break; case Intrinsic::sadd_with_overflow: { res = mkBin(K::Add, a, b); E z = mkC(0, w); E sa = mkCmp(K::Slt, a, z), sb = mkCmp(K::Slt, b, z), sr = mkCmp(K::Slt, res, z); of = mkAnd1(mkEq(sa, sb), mkNot(mkEq(sa, sr))); break; } case Intrinsic::ssub_with_overflow: { res = mkBin(K::Sub, a, b); E z = mkC(0, w); E sa = mkCmp(K::Slt, a, z), sb = mkCmp(K::Slt, b, z), sr = mkCmp(K::Slt, res, z); of = mkAnd1(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr))); break; } default: { res = mkBin(K::Mul, a, b); if (w > 32) { if (cf->getIntrinsicID() == Intrinsic::umul_with_overflow) { of = mkNot(mkOr1(mkEq(a, mkC(0, w)), mkEq(mkBin(K::UDiv, res, mkIte(mkEq(a, mkC(0, w)), mkC(1, w), a)), b))); } else fatal("smul overflow 64"); } else { bool us = cf->getIntrinsicID() == Intrinsic::umul_with_overflow; E wa = us ? mkZExt(a, 64) : mkSExt(a, 64), wb = us ? mkZExt(b, 64) : mkSExt(b, 64); E p = mkBin(K::Mul, wa, wb); of = mkNot(mkEq(p, us ? mkZExt(res, 64) : mkSExt(res, 64))); } } } r = mkTuple({res, of}); break; }
      case X_FABS: r = mkF(K::FAbs, d.w, A(0)); break; case X_FTRUNC: r = mkF(K::FTrunc, d.w, A(0)); break; case X_FFLOOR: r = mkF(K::FRint, d.w, A(0), nullptr, 1); break; case X_FCEIL: r = mkF(K::FRint, d.w, A(0), nullptr, 2); break; case X_FRINT: r = mkF(K::FRint, d.w, A(0), nullptr, 0); break; case X_FROUND: r = mkF(K::FRint, d.w, A(0), nullptr, 3); break; case X_FMULADD: r = mkF(K::FAdd, d.w, mkF(K::FMul, d.w, A(0), A(1)), A(2)); break;
      case X_TLADDR: { E g = A(0); if (s.cur == 0) { r = g; break; } auto *gv = dyn_cast<GlobalVariable>(cast<CallInst>(d.I)->getArgOperand(0)); if (!gv) fatal("tls"); auto it = T.tls.find(gv); if (it != T.tls.end()) { r = mkC(it->second, 64); break; }
          int i = s.mem.find(g->v); uint64_t sz = s.mem.v[i]->size; uint64_t a = STACK0 + STACKSZ * s.cur + STACKSZ / 2 + 4096 * T.tls.size() * 4; ObjP o = newObj(a, sz, gv->getName().str() + ":tls", FZero, 0); if (gv->hasInitializer()) initGlobal(o.get(), 0, gv->getInitializer()); s.mem.insert(o); T.tls[gv] = a; r = mkC(a, 64); break; }
      case X_GUARDACQ: { E b; if (!loadVal(s, A(0), 1, b)) break; if (!b->isC()) fatal("symbolic guard"); r = mkC(b->v ? 0 : 1, 32); break; }
      case X_GUARDREL: storeVal(s, A(0), mkC(1, 8), 1); break;
      case X_OBJSIZE: r = mkC(~0ULL, d.w); break;
      case X_ISFPCLASS: { E x = A(0); unsigned w = x->w; uint64_t m = A(1)->v; uint64_t eb = w == 64 ? 11 : 8, mb = w == 64 ? 52 : 23; E ex = mkExtract(x, mb, eb), ma = mkExtract(x, 0, mb), sg = mkEq(mkC(1, 1), mkExtract(x, w - 1, 1)); E e0 = mkEq(ex, mkC(0, eb)), e1 = mkEq(ex, mkC(maskw(eb), eb)), m0 = mkEq(ma, mkC(0, mb)), q = mkEq(mkC(1, 1), mkExtract(x, mb - 1, 1)); E ns = mkNot(sg), res = mkB(false); auto add = [&](unsigned bit, E c) { if (m & bit) res = mkOr1(res, c); };
          add(1, mkAnd1(e1, mkAnd1(mkNot(m0), mkNot(q)))); add(2, mkAnd1(e1, q)); E inf = mkAnd1(e1, m0), zero = mkAnd1(e0, m0), sub = mkAnd1(e0, mkNot(m0)), nor = mkAnd1(mkNot(e0), mkNot(e1)); add(4, mkAnd1(inf, sg)); add(8, mkAnd1(nor, sg)); add(16, mkAnd1(sub, sg)); add(32, mkAnd1(zero, sg)); add(64, mkAnd1(zero, ns)); add(128, mkAnd1(sub, ns)); add(256, mkAnd1(nor, ns)); add(512, mkAnd1(inf, ns)); r = res; break; }
      case X_COPYSIGN: { E a = A(0), b = A(1); unsigned w = a->w; r = mkBin(K::Or, mkBin(K::And, mkC(maskw(w - 1), w), a), mkBin(K::And, mkC(1ULL << (w - 1), w), b)); break; }
      case X_FSH: fatal("funnel shift");
      default: fatal("ext"); }
      if (!s.dead && !suspended && d.dst >= 0 && r) f.regs[d.dst] = r;
      break; }
    default: { std::string t; raw_string_ostream os(t); d.I->print(os); fatal("unsupported instruction " + t); } }
    // siblings created during this instruction re-execute it
    for (auto *x : extra) { if (accPassed && x->sched) { Thread &xt = x->th[x->cur]; xt.atYield = true; xt.ev--; } x->th[x->cur].st.back().pc = pc0; ready.push_back(x); }
    extra.clear();
    if (suspended) return;
    if (s.dead) break;
    if (advance) s.th[s.cur].st.back().pc++;
    next:;
  }
  delete sp;
}

// ------------------------------------------------------------------ instrumentation for native replay of schedules
#include <llvm/IR/IRBuilder.h>
static int instrument(const std::string &out) {
  LLVMContext &C = M->getContext(); auto *P = PointerType::get(C, 0); auto *V = Type::getVoidTy(C); auto *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C);
  auto bef = M->getOrInsertFunction("vf_before", V, P, P); auto aft = M->getOrInsertFunction("vf_after_write", V, P, I32); auto vas = M->getOrInsertFunction("vf_va_set", V, I32, I64);
  initExt();
  for (auto &F : *M) { if (F.isDeclaration() || extTab.count(F.getName().str())) continue; bool ign = false; for (auto &p : optIgnore) if (std::regex_search(F.getName().str(), std::regex(p))) ign = true; if (ign) continue; std::vector<Instruction *> v; for (auto &b : F) for (auto &i : b) v.push_back(&i);
    for (auto *i : v) { IRBuilder<> B(i); Value *nul = ConstantPointerNull::get(P);
      if (auto *l = dyn_cast<LoadInst>(i)) { B.CreateCall(bef, {l->getPointerOperand(), nul}); }
      else if (auto *s = dyn_cast<StoreInst>(i)) { B.CreateCall(bef, {s->getPointerOperand(), nul}); B.SetInsertPoint(i->getNextNode()); B.CreateCall(aft, {s->getPointerOperand(), ConstantInt::get(I32, 1)}); }
      else if (auto *r = dyn_cast<AtomicRMWInst>(i)) { B.CreateCall(bef, {r->getPointerOperand(), nul}); B.SetInsertPoint(i->getNextNode()); B.CreateCall(aft, {r->getPointerOperand(), ConstantInt::get(I32, 1)}); }
      else if (auto *x = dyn_cast<AtomicCmpXchgInst>(i)) { B.CreateCall(bef, {x->getPointerOperand(), nul}); B.SetInsertPoint(i->getNextNode()); B.CreateCall(aft, {x->getPointerOperand(), B.CreateZExt(B.CreateExtractValue(x, 1), I32)}); }
      else if (auto *c = dyn_cast<CallInst>(i)) { auto *cf = dyn_cast<llvm::Function>(c->getCalledOperand()->stripPointerCasts()); if (!cf) continue;
        if (auto *mi = dyn_cast<MemTransferInst>(c)) { B.CreateCall(bef, {mi->getRawDest(), mi->getRawSource()}); continue; } if (auto *ms = dyn_cast<MemSetInst>(c)) { B.CreateCall(bef, {ms->getRawDest(), nul}); continue; }
        if (cf->getName() == "memcpy" || cf->getName() == "memmove") { B.CreateCall(bef, {c->getArgOperand(0), c->getArgOperand(1)}); continue; } if (cf->getName() == "memset") { B.CreateCall(bef, {c->getArgOperand(0), nul}); continue; }
        if (cf->isVarArg()) { auto *wf = M->getFunction("__wrap_" + cf->getName().str()); if (!wf || wf->isDeclaration()) continue; unsigned n = cf->getFunctionType()->getNumParams(); for (unsigned k = n; k < c->arg_size(); k++) { Value *a = c->getArgOperand(k); if (a->getType()->isPointerTy()) a = B.CreatePtrToInt(a, I64); else if (a->getType()->isDoubleTy()) a = B.CreateBitCast(a, I64); else if (a->getType()->isIntegerTy()) a = B.CreateSExtOrTrunc(a, I64); else continue; B.CreateCall(vas, {ConstantInt::get(I32, k - n), a}); } } } } }
  std::error_code ec; raw_fd_ostream o(out, ec); M->print(o, nullptr); return 0; }

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now(); std::string file, entry, out, instr;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--merge-fn") optMergeFn.push_back(nx()); else if (a == "--out") out = nx(); else if (a == "--time") optTime = std::stod(nx()); else if (a == "--qtimeout") g_timeoutMs = std::stoi(nx()); else if (a == "--max-viol") optMaxViol = std::stoi(nx()); else if (a == "--preempt") optPreempt = std::stoi(nx()); else if (a == "--no-ub") optUB = false; else if (a == "--nsw") optNSW = true; else if (a == "--max-visits") optMaxVisits = std::stoull(nx()); else if (a == "--max-level") optMaxLevel = std::stoi(nx()); else if (a == "--ignore") optIgnore.push_back(nx()); else if (a == "--xcheck") g_xcheck = true; else if (a == "--debug") optDebug = true; else if (a == "--zero-uninit") optUninit = false; else if (a == "--bfs") optBfs = true; else if (a == "--witnesses") optWit = std::stoi(nx()); else if (a == "--instrument") instr = nx(); else if (a[0] == '-') { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; } else file = a; }
  LLVMContext C; SMDiagnostic err; M = parseIRFile(file, err, C); if (!M) { err.print("fnsym", errs()); return 3; } DL = &M->getDataLayout();
  if (!instr.empty()) { instrument(instr); fflush(stdout); _exit(0); }
  for (int i = 0; i < 256; i++) byteTab[i] = mkC(i, 8);
  solverInit(); initExt(); std::string error;
  try {
    State *s = new State; S0 = s; s->id = nStates++; s->heapTop = HEAP0; s->th.resize(1); s->th[0].sp = STACK0;
    llvm::Function *F = M->getFunction(entry); if (!F) fatal("no entry " + entry);
    for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; globalAddr(&g); } flushGlobals(*s);
    // constructors, then the entry (pushed in reverse order of execution)
    std::vector<llvm::Function *> ctors; if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t, llvm::Function *>> v; for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) ctors.push_back(p.second); }
    pushFrame(*s, getFn(F), {}, -1); flushGlobals(*s);
    for (int i = (int)ctors.size() - 1; i >= 0; i--) { pushFrame(*s, getFn(ctors[i]), {}, -1); s->th[0].st[s->th[0].st.size() - 2].pc--; flushGlobals(*s); }
    ready.push_back(s);
    while (true) { if (ready.empty() && !schedPump()) break; if (viols.size() >= optMaxViol) break; State *x; if (optBfs) { x = ready.front(); ready.erase(ready.begin()); } else { x = ready.back(); ready.pop_back(); } runState(x); }
    if (viols.empty()) for (auto &kv : handlerPaused) if (!kv.second.empty()) fatal("states left in a merge handler");
  } catch (EngineError &e) { error = e.m; fprintf(stderr, "ENGINE ERROR: %s\n", e.m.c_str()); }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::string j = "{\n"; char b[512];
  auto num = [&](const char *k, double v) { snprintf(b, 512, " \"%s\": %.6g,\n", k, v); j += b; }; auto inum = [&](const char *k, uint64_t v) { snprintf(b, 512, " \"%s\": %llu,\n", k, (unsigned long long)v); j += b; };
  j += " \"entry\": \"" + jesc(entry) + "\",\n \"error\": \"" + jesc(error) + "\",\n \"solver\": \"" + solverVersion() + "\",\n";
  inum("paths", nPaths); inum("states", nStates); inum("forks", nForks); inum("merges", nMerges); inum("instructions", nInstr); inum("sched_states", nSchedStates); inum("transitions", nTrans); inum("max_level", maxLevel); inum("rounds", nRounds); inum("conflict_words", nConfl); inum("sym_addr", nSymAddr); inum("bound_cut", nBoundCut); inum("assume_cut", nAssumeCut); inum("checks", nChecks); inum("checks_trivial", nChecksTriv); inum("queries", g_ss.queries); inum("q_sat", g_ss.sat); inum("q_unsat", g_ss.unsat); inum("q_unknown", g_ss.unk); inum("q_cached", g_ss.cacheHits); num("solver_s", g_ss.time); num("solver_max_s", g_ss.maxTime); num("wall_s", elapsed()); inum("exprs", g_nexpr); inum("xchecked", g_xchecked); inum("xdisagree", g_xdisagree); inum("xunknown", g_xunk); inum("rss_kb", ru.ru_maxrss); inum("syms", g_syms.size());
  j += " \"check_hits\": {"; bool fst = true; for (auto &kv : checkHits) { snprintf(b, 512, "%s\"%s\": [%llu,%llu]", fst ? "" : ", ", jesc(kv.first).c_str(), (unsigned long long)kv.second, (unsigned long long)checkSolver[kv.first]); j += b; fst = false; } j += "},\n";
  j += " \"covers\": ["; fst = true; for (auto &c : covers) { j += (fst ? "\"" : ", \"") + jesc(c) + "\""; fst = false; } j += "],\n";
  j += " \"functions\": ["; fst = true; for (auto &n : fnSeen) { llvm::Function *F = M->getFunction(n); if (!F || !getFn(F)->repo) continue; std::string dn = demangle(n); j += (fst ? "\"" : ", \"") + jesc(dn.substr(0, 140)) + "\""; fst = false; } j += "],\n";
  j += " \"inconclusive\": ["; fst = true; std::set<std::string> inc(inconclusive.begin(), inconclusive.end()); for (auto &n : inc) { j += (fst ? "\"" : ", \"") + jesc(n) + "\""; fst = false; } j += "],\n";
  auto vlist = [&](std::vector<std::pair<std::string, uint64_t>> &v) { bool f2 = true; for (auto &p : v) { snprintf(b, 512, "%s\"%s\": \"%llu\"", f2 ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second); j += b; f2 = false; } };
  j += " \"witnesses\": ["; fst = true; for (auto &w : wits) { j += fst ? "\n  {\"inputs\": {" : ",\n  {\"inputs\": {"; fst = false; vlist(w.vals); j += "}, \"obs\": {"; vlist(w.obs); j += "}}"; } j += "],\n";
  j += " \"violations\": ["; fst = true;
  for (auto &v : viols) { j += fst ? "\n" : ",\n"; fst = false; j += "  {\"id\": \"" + jesc(v.id) + "\", \"kind\": \"" + jesc(v.kind) + "\", \"msg\": \"" + jesc(v.msg) + "\", \"stack\": \"" + jesc(v.stack) + "\", \"inputs\": {"; bool f2 = true; for (auto &p : v.vals) { snprintf(b, 512, "%s\"%s\": \"%llu\"", f2 ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second); j += b; f2 = false; } j += "}}"; }
  j += "]\n}\n";
  if (!out.empty()) { std::ofstream o(out); o << j; } else printf("%s", j.c_str());
  fflush(stdout); fflush(stderr);
  _exit(error.empty() ? (viols.empty() ? 0 : 1) : 3);
}
