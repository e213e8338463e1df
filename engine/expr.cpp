#include "expr.h"
#include <cmath>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

std::vector<SymInfo> g_syms;
std::vector<TableInfo> g_tables;
uint64_t g_nexpr = 0;
static std::unordered_map<std::string, uint32_t> symByName;

// ---------- arena + hash table
static char *arena = nullptr; static size_t arenaLeft = 0;
static void *aalloc(size_t n) {
  n = (n + 7) & ~size_t(7);
  if (arenaLeft < n) { size_t sz = std::max<size_t>(n, 1 << 22); arena = (char *)malloc(sz); arenaLeft = sz; }
  void *p = arena; arena += n; arenaLeft -= n; return p;
}
static std::vector<Expr *> ht(1 << 20, nullptr); static size_t htN = 0;
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

static void rehash() {
  std::vector<Expr *> n(ht.size() * 2, nullptr);
  size_t m = n.size() - 1;
  for (Expr *e : ht) if (e) { size_t i = e->h & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
  ht.swap(n);
}
static void interval(Expr *e);
static E intern(K k, unsigned w, uint64_t v, const E *ops, unsigned n) {
  uint64_t h = mix(mix(mix(1469598103934665603ULL, (uint64_t)k), w), v);
  for (unsigned i = 0; i < n; i++) h = mix(h, ops[i]->h ^ ops[i]->id);
  size_t m = ht.size() - 1; size_t i = h & m;
  while (ht[i]) {
    Expr *e = ht[i];
    if (e->h == h && e->k == k && e->w == w && e->v == v && e->nops == n) {
      bool same = true; for (unsigned j = 0; j < n; j++) if (e->ops[j] != ops[j]) { same = false; break; }
      if (same) return e;
    }
    i = (i + 1) & m;
  }
  Expr *e = (Expr *)aalloc(sizeof(Expr));
  e->k = k; e->nops = n; e->w = w; e->v = v; e->h = h; e->id = (uint32_t)g_nexpr++;
  e->ops = n ? (const Expr **)aalloc(n * sizeof(E)) : nullptr;
  for (unsigned j = 0; j < n; j++) e->ops[j] = ops[j];
  interval(e);
  ht[i] = e; if (++htN * 2 > ht.size()) rehash();
  return e;
}
E mkRawByte(E v, unsigned i);
static E in1(K k, unsigned w, E a, uint64_t v = 0) { E o[1] = {a}; return intern(k, w, v, o, 1); }
static E in2(K k, unsigned w, E a, E b, uint64_t v = 0) { E o[2] = {a, b}; return intern(k, w, v, o, 2); }

static void interval(Expr *e) {
  unsigned w = e->w; uint64_t M = maskw(w); e->lo = 0; e->hi = M;
  if (w == 0 || w > 64) return;
  auto A = [&](int i) { return e->ops[i]; };
  switch (e->k) {
  case K::Const: e->lo = e->hi = e->v; break;
  case K::Sym: { auto &s = g_syms[e->v]; if (s.ranged) { e->lo = s.lo; e->hi = s.hi; } break; }
  case K::Add: { __uint128_t h = (__uint128_t)A(0)->hi + A(1)->hi; __uint128_t l = (__uint128_t)A(0)->lo + A(1)->lo;
    if (h <= M) { e->lo = (uint64_t)l; e->hi = (uint64_t)h; }
    else if (l > M) { l -= (__uint128_t)M + 1; h -= (__uint128_t)M + 1; if (h <= M) { e->lo = (uint64_t)l; e->hi = (uint64_t)h; } } break; }
  case K::Sub: if (A(0)->lo >= A(1)->hi) { e->lo = A(0)->lo - A(1)->hi; e->hi = A(0)->hi - A(1)->lo; } break;
  case K::Mul: { __uint128_t h = (__uint128_t)A(0)->hi * A(1)->hi; if (h <= M) { e->hi = (uint64_t)h; e->lo = A(0)->lo * A(1)->lo; } break; }
  case K::UDiv: if (A(1)->lo > 0) { e->lo = A(0)->lo / A(1)->hi; e->hi = A(0)->hi / A(1)->lo; } break;
  case K::URem: if (A(1)->lo > 0) { e->hi = std::min(A(0)->hi, A(1)->hi - 1); if (A(0)->hi < A(1)->lo) e->lo = A(0)->lo; } break;
  case K::And: e->hi = std::min(A(0)->hi, A(1)->hi); break;
  case K::Or: e->lo = std::max(A(0)->lo, A(1)->lo);
    { uint64_t h = A(0)->hi | A(1)->hi; int b = h ? 64 - __builtin_clzll(h) : 0; e->hi = b >= 64 ? M : std::min(M, maskw(b ? b : 1)); if (!h) e->hi = 0; } break;
  case K::Xor: { uint64_t h = A(0)->hi | A(1)->hi; int b = h ? 64 - __builtin_clzll(h) : 0; e->hi = !h ? 0 : std::min(M, maskw(b)); break; }
  case K::Shl: if (A(1)->isC() && A(1)->v < w) { __uint128_t h = (__uint128_t)A(0)->hi << A(1)->v; if (h <= M) { e->lo = A(0)->lo << A(1)->v; e->hi = (uint64_t)h; } } break;
  case K::LShr: if (A(1)->isC() && A(1)->v < w) { e->lo = A(0)->lo >> A(1)->v; e->hi = A(0)->hi >> A(1)->v; } else e->hi = A(0)->hi; break;
  case K::ZExt: e->lo = A(0)->lo; e->hi = A(0)->hi; break;
  case K::SExt: { unsigned ow = A(0)->w; if (A(0)->hi < (1ULL << (ow - 1))) { e->lo = A(0)->lo; e->hi = A(0)->hi; }
    else if (A(0)->lo >= (1ULL << (ow - 1))) { e->lo = (uint64_t)sx(A(0)->lo, ow) & M; e->hi = (uint64_t)sx(A(0)->hi, ow) & M; } break; }
  case K::Extract: if (e->v == 0 && A(0)->w <= 64 && A(0)->hi <= M) { e->lo = A(0)->lo; e->hi = A(0)->hi; }
    else if (A(0)->w <= 64) { uint64_t l = A(0)->lo >> e->v, h = A(0)->hi >> e->v; if (h <= M) { e->lo = l; e->hi = h; } } break;
  case K::Concat: if (w <= 64) { e->lo = (A(0)->lo << A(1)->w) | A(1)->lo; e->hi = (A(0)->hi << A(1)->w) | A(1)->hi; } break;
  case K::Ite: e->lo = std::min(A(1)->lo, A(2)->lo); e->hi = std::max(A(1)->hi, A(2)->hi); break;
  case K::Table: { auto &t = g_tables[e->v]; uint64_t l = ~0ULL, h = 0; for (uint64_t x : t.vals) { l = std::min(l, x); h = std::max(h, x); } e->lo = 0; e->hi = h; (void)l; break; }
  default: break;
  }
}

E mkC(uint64_t v, unsigned w) { v &= maskw(w); return intern(K::Const, w, v, nullptr, 0); }
E mkSym(const std::string &name, unsigned w, bool ranged, uint64_t lo, uint64_t hi, bool internal) {
  auto it = symByName.find(name);
  if (it != symByName.end()) {
    auto &s = g_syms[it->second];
    if (s.w == w && s.ranged == ranged && s.lo == lo && s.hi == hi) return s.e;
    // same name with another shape: distinct symbol
    std::string n2 = name + "'" ; return mkSym(n2, w, ranged, lo, hi, internal);
  }
  uint32_t id = g_syms.size();
  g_syms.push_back({name, w, lo, hi, ranged, nullptr, internal});
  symByName[name] = id;
  E e = intern(K::Sym, w, id, nullptr, 0);
  g_syms[id].e = e; return e;
}

static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
static uint64_t fromD(double d) { if (std::isnan(d)) return 0x7ff8000000000000ULL; uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fromF(float f) { if (std::isnan(f)) return 0x7fc00000; uint32_t v; memcpy(&v, &f, 4); return v; }

uint64_t evalConstOp(K k, unsigned w, unsigned ow, const uint64_t *o, uint64_t aux) {
  uint64_t M = maskw(w);
  switch (k) {
  case K::Add: return (o[0] + o[1]) & M;
  case K::Sub: return (o[0] - o[1]) & M;
  case K::Mul: return (o[0] * o[1]) & M;
  case K::UDiv: return o[1] ? o[0] / o[1] : M;
  case K::URem: return o[1] ? o[0] % o[1] : o[0];
  case K::SDiv: { int64_t a = sx(o[0], w), b = sx(o[1], w); if (b == 0) return (a < 0 ? 1 : M) & M; if (b == -1) return (0 - (uint64_t)a) & M; return (uint64_t)(a / b) & M; }
  case K::SRem: { int64_t a = sx(o[0], w), b = sx(o[1], w); if (b == 0) return o[0]; if (b == -1) return 0; return (uint64_t)(a % b) & M; }
  case K::And: return o[0] & o[1];
  case K::Or: return o[0] | o[1];
  case K::Xor: return o[0] ^ o[1];
  case K::Shl: return o[1] >= w ? 0 : (o[0] << o[1]) & M;
  case K::LShr: return o[1] >= w ? 0 : o[0] >> o[1];
  case K::AShr: return (uint64_t)(sx(o[0], w) >> (o[1] >= w ? w - 1 : o[1])) & M;
  case K::Eq: return o[0] == o[1];
  case K::Ult: return o[0] < o[1];
  case K::Ule: return o[0] <= o[1];
  case K::Slt: return sx(o[0], ow) < sx(o[1], ow);
  case K::Sle: return sx(o[0], ow) <= sx(o[1], ow);
  case K::Extract: return (o[0] >> aux) & M;
  case K::ZExt: return o[0];
  case K::SExt: return (uint64_t)sx(o[0], ow) & M;
  case K::FAdd: return w == 64 ? fromD(asD(o[0]) + asD(o[1])) : fromF(asF(o[0]) + asF(o[1]));
  case K::FSub: return w == 64 ? fromD(asD(o[0]) - asD(o[1])) : fromF(asF(o[0]) - asF(o[1]));
  case K::FMul: return w == 64 ? fromD(asD(o[0]) * asD(o[1])) : fromF(asF(o[0]) * asF(o[1]));
  case K::FDiv: return w == 64 ? fromD(asD(o[0]) / asD(o[1])) : fromF(asF(o[0]) / asF(o[1]));
  case K::FRem: return w == 64 ? fromD(std::fmod(asD(o[0]), asD(o[1]))) : fromF(std::fmod(asF(o[0]), asF(o[1])));
  case K::FNeg: return o[0] ^ (1ULL << (w - 1));
  case K::FAbs: return o[0] & ~(1ULL << (w - 1));
  case K::FTrunc: return w == 64 ? fromD(std::trunc(asD(o[0]))) : fromF(std::trunc(asF(o[0])));
  case K::FRint: { double d = w == 64 ? asD(o[0]) : asF(o[0]); double r = aux == 1 ? std::floor(d) : aux == 2 ? std::ceil(d) : aux == 3 ? std::round(d) : std::nearbyint(d); return w == 64 ? fromD(r) : fromF((float)r); }
  case K::FEq: return ow == 64 ? asD(o[0]) == asD(o[1]) : asF(o[0]) == asF(o[1]);
  case K::FLt: return ow == 64 ? asD(o[0]) < asD(o[1]) : asF(o[0]) < asF(o[1]);
  case K::FLe: return ow == 64 ? asD(o[0]) <= asD(o[1]) : asF(o[0]) <= asF(o[1]);
  case K::FUno: return ow == 64 ? (std::isnan(asD(o[0])) || std::isnan(asD(o[1]))) : (std::isnan(asF(o[0])) || std::isnan(asF(o[1])));
  case K::FPExt: return fromD((double)asF(o[0]));
  case K::FPRound: return fromF((float)asD(o[0]));
  case K::FPToSI: { double d = ow == 64 ? asD(o[0]) : asF(o[0]); if (!(d > -9.3e18 && d < 9.3e18)) return (1ULL << (w - 1)) & M; return (uint64_t)(int64_t)d & M; }
  case K::FPToUI: { double d = ow == 64 ? asD(o[0]) : asF(o[0]); if (!(d > -1.0 && d < 18446744073709551616.0)) return (1ULL << (w - 1)) & M; return (uint64_t)d & M; }
  case K::SIToFP: { int64_t a = sx(o[0], ow); return w == 64 ? fromD((double)a) : fromF((float)a); }
  case K::UIToFP: { uint64_t a = o[0]; return w == 64 ? fromD((double)a) : fromF((float)a); }
  default: fprintf(stderr, "evalConstOp kind %d\n", (int)k); abort();
  }
}

static bool iteConsts(E e, int depth) { // ITE tree with constant leaves
  if (e->isC()) return true;
  if (e->k != K::Ite || depth <= 0) return false;
  return iteConsts(e->ops[1], depth - 1) && iteConsts(e->ops[2], depth - 1);
}
E mkAddC(E a, uint64_t c) { return mkBin(K::Add, mkC(c, a->w), a); }
void splitAdd(E e, uint64_t &c, E &rest) {
  if (e->isC()) { c = e->v; rest = nullptr; return; }
  if (e->k == K::Add && e->ops[0]->isC()) { c = e->ops[0]->v; rest = e->ops[1]; return; }
  c = 0; rest = e;
}
static bool isNotOf(E a, E b) { // a == !b (width 1 or bitwise)
  if (a->k == K::Xor && a->ops[0]->isC() && a->ops[0]->v == maskw(a->w) && a->ops[1] == b) return true;
  if (b->k == K::Xor && b->ops[0]->isC() && b->ops[0]->v == maskw(b->w) && b->ops[1] == a) return true;
  return false;
}
E mkNot(E a) { return mkBin(K::Xor, mkC(maskw(a->w), a->w), a); }

static const int ITED = 12;
// a = c*q + r with r < c and no wrap around: splits a sum of constants, multiples of c and a small rest
static bool splitSum(E a, uint64_t c, E &q, E &r) {
  if (a->k != K::Add) return false; unsigned w = a->w; uint64_t M = maskw(w); std::vector<E> st{a}; std::vector<E> mul, rest; uint64_t k = 0; int n = 0;
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (++n > 24) return false; if (e->k == K::Add) { st.push_back(e->ops[0]); st.push_back(e->ops[1]); } else if (e->isC()) { if (e->v > M / 4 || k > M / 4) return false; k += e->v; } else if (e->k == K::Mul && e->ops[0]->isC() && e->ops[0]->v % c == 0 && e->ops[0]->v <= M / 2) mul.push_back(e); else rest.push_back(e); }
  if (mul.empty() && k < c) return false; __uint128_t hi = k, rh = k % c; for (E e : mul) hi += (__uint128_t)e->ops[0]->v * e->ops[1]->hi; for (E e : rest) { hi += e->hi; rh += e->hi; } if (hi > M || rh >= c) return false;
  q = mkC(k / c, w); r = mkC(k % c, w); for (E e : mul) q = mkBin(K::Add, q, mkBin(K::Mul, mkC(e->ops[0]->v / c, w), e->ops[1])); for (E e : rest) r = mkBin(K::Add, r, e); return true; }
E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %d %d kind %d\n", a->w, b->w, (int)k); abort(); }
  if (a->isC() && b->isC()) { uint64_t o[2] = {a->v, b->v}; return mkC(evalConstOp(k, w, w, o, 0), w); }
  uint64_t M = maskw(w);
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
  if (comm && (b->isC() || (!a->isC() && a->id > b->id))) std::swap(a, b);
  // push constants into ITE trees of constants
  if (a->isC() && b->k == K::Ite && iteConsts(b, ITED) ) return mkIte(b->ops[0], mkBin(k, a, b->ops[1]), mkBin(k, a, b->ops[2]));
  if (b->isC() && a->k == K::Ite && iteConsts(a, ITED) ) return mkIte(a->ops[0], mkBin(k, a->ops[1], b), mkBin(k, a->ops[2], b));
  switch (k) {
  case K::Add:
    if (a == b && w > 1 && !a->isC()) return mkBin(K::Shl, a, mkC(1, w));
    if (a->isC()) {
      if (a->v == 0) return b;
      if (b->k == K::Add && b->ops[0]->isC()) return mkBin(K::Add, mkC(a->v + b->ops[0]->v, w), b->ops[1]);
      if (b->k == K::Sub && b->ops[0]->isC()) return mkBin(K::Sub, mkC(a->v + b->ops[0]->v, w), b->ops[1]);
    } else {
      if (a->k == K::Add && a->ops[0]->isC()) return mkBin(K::Add, a->ops[0], mkBin(K::Add, a->ops[1], b));
      if (b->k == K::Add && b->ops[0]->isC()) return mkBin(K::Add, b->ops[0], mkBin(K::Add, a, b->ops[1]));
      if (a->k == K::Sub && a->ops[1] == b) return a->ops[0];
      if (b->k == K::Sub && b->ops[1] == a) return b->ops[0];
    }
    break;
  case K::Sub:
    if (a == b) return mkC(0, w);
    if (b->isC()) return mkBin(K::Add, mkC(0 - b->v, w), a);
    { uint64_t ca, cb; E ra, rb; splitAdd(a, ca, ra); splitAdd(b, cb, rb);
      if (ra && rb && ra == rb) return mkC(ca - cb, w);
      if (ra && rb && (ca || cb)) return mkBin(K::Add, mkC(ca - cb, w), mkBin(K::Sub, ra, rb));
      if (!ra && rb && cb) return mkBin(K::Sub, mkC(ca - cb, w), rb);
      if (a->k == K::Add && a->ops[0] == b) return a->ops[1];
      if (a->k == K::Add && a->ops[1] == b) return a->ops[0];
    }
    break;
  case K::Mul:
    if (a->isC()) {
      if (a->v == 0) return a;
      if (a->v == 1) return b;
      if (b->k == K::Mul && b->ops[0]->isC()) return mkBin(K::Mul, mkC(a->v * b->ops[0]->v, w), b->ops[1]);
      if (b->k == K::Add && b->ops[0]->isC()) return mkBin(K::Add, mkC(a->v * b->ops[0]->v, w), mkBin(K::Mul, a, b->ops[1]));
      if ((a->v & (a->v - 1)) == 0) return mkBin(K::Shl, b, mkC(__builtin_ctzll(a->v), w));
    }
    break;
  case K::UDiv:
    if (b->isC()) {
      if (b->v == 1) return a;
      if (b->v && (b->v & (b->v - 1)) == 0) return mkBin(K::LShr, a, mkC(__builtin_ctzll(b->v), w));
      if (b->v && a->hi < b->v) return mkC(0, w);
      if (b->v && a->lo / b->v == a->hi / b->v) return mkC(a->lo / b->v, w);
      if (b->v && a->k == K::UDiv && a->ops[1]->isC() && a->ops[1]->v) { __uint128_t t = (__uint128_t)a->ops[1]->v * b->v; if (t > M) return mkC(0, w); return mkBin(K::UDiv, a->ops[0], mkC((uint64_t)t, w)); }
      if (b->v && a->k == K::LShr && a->ops[1]->isC() && a->ops[1]->v < w) { __uint128_t t = (__uint128_t)b->v << a->ops[1]->v; if (t > M) return mkC(0, w); return mkBin(K::UDiv, a->ops[0], mkC((uint64_t)t, w)); }
      if (b->v && a->k == K::URem && a->ops[1]->isC() && a->ops[1]->v && a->ops[1]->v % b->v == 0) return mkBin(K::URem, mkBin(K::UDiv, a->ops[0], b), mkC(a->ops[1]->v / b->v, w));
      if (b->v && a->k == K::ZExt) { unsigned ow = a->ops[0]->w; if (b->v <= maskw(ow)) return mkZExt(mkBin(K::UDiv, a->ops[0], mkC(b->v, ow)), w); return mkC(0, w); }
      // (c*x + r) / c  with r < c and no overflow
      if (b->v) {
        E x = nullptr, r = nullptr; 
        auto isMul = [&](E t) { return t->k == K::Mul && t->ops[0]->isC() && t->ops[0]->v == b->v; };
        if (isMul(a)) { x = a; r = mkC(0, w); }
        else if (a->k == K::Add) { if (isMul(a->ops[0])) { x = a->ops[0]; r = a->ops[1]; } else if (isMul(a->ops[1])) { x = a->ops[1]; r = a->ops[0]; } }
        if (x && r->hi < b->v) { __uint128_t t = (__uint128_t)x->ops[1]->hi * b->v + r->hi; if (t <= M) return x->ops[1]; }
        E sq, sr; if (splitSum(a, b->v, sq, sr)) return sq;
      }
    }
    if (a->isC() && a->v == 0 && b->lo > 0) return a;
    break;
  case K::URem:
    if (b->isC()) {
      if (b->v == 1) return mkC(0, w);
      if (b->v && (b->v & (b->v - 1)) == 0) return mkBin(K::And, a, mkC(b->v - 1, w));
      if (b->v && a->hi < b->v) return a;
      if (b->v && a->lo / b->v == a->hi / b->v) return mkAddC(a, 0 - (a->lo / b->v) * b->v);
      if (b->v && a->k == K::URem && a->ops[1]->isC() && a->ops[1]->v && a->ops[1]->v % b->v == 0) return mkBin(K::URem, a->ops[0], b);
      if (b->v && a->k == K::ZExt) { unsigned ow = a->ops[0]->w; if (b->v <= maskw(ow)) return mkZExt(mkBin(K::URem, a->ops[0], mkC(b->v, ow)), w); return a; }
      if (b->v) {
        E x = nullptr, r = nullptr;
        auto isMul = [&](E t) { return t->k == K::Mul && t->ops[0]->isC() && t->ops[0]->v == b->v; };
        if (isMul(a)) { x = a; r = mkC(0, w); }
        else if (a->k == K::Add) { if (isMul(a->ops[0])) { x = a->ops[0]; r = a->ops[1]; } else if (isMul(a->ops[1])) { x = a->ops[1]; r = a->ops[0]; } }
        if (x && r->hi < b->v) { __uint128_t t = (__uint128_t)x->ops[1]->hi * b->v + r->hi; if (t <= M) return r; }
        E sq, sr; if (splitSum(a, b->v, sq, sr)) return sr;
      }
    }
    break;
  case K::SDiv:
    if (b->isC() && b->v == 1) return a;
    if (b->isC() && sx(b->v, w) > 0 && a->hi <= (M >> 1)) return mkBin(K::UDiv, a, b);
    break;
  case K::SRem:
    if (b->isC() && sx(b->v, w) > 0 && a->hi <= (M >> 1)) return mkBin(K::URem, a, b);
    break;
  case K::And:
    if (a == b) return a;
    if (a->isC()) {
      if (a->v == 0) return a;
      if (a->v == M) return b;
      if (b->k == K::And && b->ops[0]->isC()) return mkBin(K::And, mkC(a->v & b->ops[0]->v, w), b->ops[1]);
      if (w <= 64 && b->hi != M) { unsigned nb = b->hi ? 64 - __builtin_clzll(b->hi) : 0; uint64_t bm = maskw(nb ? nb : 1); if (b->hi == 0) bm = 0; if ((a->v & bm) == 0) return mkC(0, w); if ((a->v & bm) == bm) return b; }
      if (((a->v + 1) & a->v) == 0) { // low mask
        unsigned n = __builtin_popcountll(a->v);
        if (b->hi <= a->v) return b;
        return mkZExt(mkExtract(b, 0, n), w);
      }
    }
    if (w == 1) { if (isNotOf(a, b)) return mkC(0, 1);
      // absorption: a & (a|x), a & (a&x)
      for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
        if (y->k == K::Or && (y->ops[0] == x || y->ops[1] == x)) return x;
        if (y->k == K::And && (y->ops[0] == x || y->ops[1] == x)) return y;
        if (y->k == K::And && (isNotOf(y->ops[0], x) || isNotOf(y->ops[1], x))) return mkC(0, 1);
        if (y->k == K::Or && isNotOf(y->ops[0], x)) return mkBin(K::And, x, y->ops[1]);
        if (y->k == K::Or && isNotOf(y->ops[1], x)) return mkBin(K::And, x, y->ops[0]);
      } }
    break;
  case K::Or:
    if (a == b) return a;
    if (a->isC()) { if (a->v == 0) return b; if (a->v == M) return a;
      if (b->k == K::Or && b->ops[0]->isC()) return mkBin(K::Or, mkC(a->v | b->ops[0]->v, w), b->ops[1]); }
    if (w == 1) { if (isNotOf(a, b)) return mkC(1, 1);
      for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
        if (y->k == K::And && (y->ops[0] == x || y->ops[1] == x)) return x;
        if (y->k == K::Or && (y->ops[0] == x || y->ops[1] == x)) return y;
        if (y->k == K::And && isNotOf(y->ops[0], x)) return mkBin(K::Or, x, y->ops[1]);
        if (y->k == K::And && isNotOf(y->ops[1], x)) return mkBin(K::Or, x, y->ops[0]);
      }
      // (x & y) | (x & !y) -> x
      if (a->k == K::And && b->k == K::And) {
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
          if (a->ops[i] == b->ops[j]) {
            E p = a->ops[1 - i], q = b->ops[1 - j];
            if (isNotOf(p, q)) return a->ops[i];
            return mkBin(K::And, a->ops[i], mkBin(K::Or, p, q));
          }
      }
    }
    // disjoint bits: (zext lo) | (x << n) -> concat
    for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
      if (y->k == K::Shl && y->ops[1]->isC()) { unsigned n = y->ops[1]->v; if (n > 0 && n < w && x->hi <= maskw(n)) return mkConcat(mkExtract(y->ops[0], 0, w - n), mkExtract(x, 0, n)); } }
    break;
  case K::Xor:
    if (a == b) return mkC(0, w);
    if (a->isC()) { if (a->v == 0) return b;
      if (b->k == K::Xor && b->ops[0]->isC()) return mkBin(K::Xor, mkC(a->v ^ b->ops[0]->v, w), b->ops[1]);
      if (w == 1) { // negation of comparisons
        if (b->k == K::Ult) return mkCmp(K::Ule, b->ops[1], b->ops[0]);
        if (b->k == K::Ule) return mkCmp(K::Ult, b->ops[1], b->ops[0]);
        if (b->k == K::Slt) return mkCmp(K::Sle, b->ops[1], b->ops[0]);
        if (b->k == K::Sle) return mkCmp(K::Slt, b->ops[1], b->ops[0]);
      } }
    break;
  case K::Shl:
    if (b->isC()) { if (b->v == 0) return a; if (b->v >= w) return mkC(0, w);
      if (a->k == K::Shl && a->ops[1]->isC()) { uint64_t t = a->ops[1]->v + b->v; return t >= w ? mkC(0, w) : mkBin(K::Shl, a->ops[0], mkC(t, w)); } }
    if (a->isC() && a->v == 0) return a;
    break;
  case K::LShr:
    if (b->isC()) { if (b->v == 0) return a; if (b->v >= w) return mkC(0, w);
      return mkZExt(mkExtract(a, b->v, w - b->v), w); }
    if (a->isC() && a->v == 0) return a;
    break;
  case K::AShr:
    if (b->isC()) { if (b->v == 0) return a; if (b->v >= w) return mkBin(K::AShr, a, mkC(w - 1, w)); if (a->hi <= (M >> 1)) return mkBin(K::LShr, a, b); 
      return mkSExt(mkExtract(a, b->v, w - b->v), w); }
    break;
  default: break;
  }
  return in2(k, w, a, b);
}

E mkCmp(K k, E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkCmp width mismatch %d %d\n", a->w, b->w); abort(); }
  unsigned w = a->w; uint64_t M = maskw(w);
  if (a->isC() && b->isC()) { uint64_t o[2] = {a->v, b->v}; return mkC(evalConstOp(k, 1, w, o, 0), 1); }
  if (w <= 64) {
    if (a->isC() && b->k == K::Ite && iteConsts(b, ITED)) return mkIte(b->ops[0], mkCmp(k, a, b->ops[1]), mkCmp(k, a, b->ops[2]));
    if (b->isC() && a->k == K::Ite && iteConsts(a, ITED)) return mkIte(a->ops[0], mkCmp(k, a->ops[1], b), mkCmp(k, a->ops[2], b));
  }
  if (k == K::Eq) {
    if (a == b) return mkC(1, 1);
    if (b->isC() || (!a->isC() && a->id > b->id)) std::swap(a, b);
    if (w <= 64 && (a->lo > b->hi || b->lo > a->hi)) return mkC(0, 1);
    if (a->isC()) {
      if (w == 1) return a->v ? b : mkNot(b);
      if (w <= 64 && b->k == K::UDiv && b->ops[1]->isC() && b->ops[1]->v > 1) { uint64_t c = b->ops[1]->v; E y = b->ops[0]; __uint128_t lo = (__uint128_t)a->v * c, hi = lo + c; if (lo > M) return mkC(0, 1); E ge = mkCmp(K::Ule, mkC((uint64_t)lo, w), y); return hi > M ? ge : mkAnd1(ge, mkCmp(K::Ult, y, mkC((uint64_t)hi, w))); }
      if (b->k == K::Add && b->ops[0]->isC()) return mkCmp(K::Eq, mkC(a->v - b->ops[0]->v, w), b->ops[1]);
      if (b->k == K::Xor && b->ops[0]->isC()) return mkCmp(K::Eq, mkC(a->v ^ b->ops[0]->v, w), b->ops[1]);
      if (b->k == K::ZExt) { unsigned ow = b->ops[0]->w; if (a->v > maskw(ow)) return mkC(0, 1); return mkCmp(K::Eq, mkC(a->v, ow), b->ops[0]); }
      if (b->k == K::SExt) { unsigned ow = b->ops[0]->w; if (((uint64_t)sx(a->v & maskw(ow), ow) & M) != a->v) return mkC(0, 1); return mkCmp(K::Eq, mkC(a->v, ow), b->ops[0]); }
      if (b->k == K::Concat && w <= 64) { unsigned lw = b->ops[1]->w;
        return mkAnd1(mkCmp(K::Eq, mkC(a->v >> lw, b->ops[0]->w), b->ops[0]), mkCmp(K::Eq, mkC(a->v, lw), b->ops[1])); }
      if (b->k == K::Ite) { // one constant arm that cannot match
        E t = b->ops[1], f = b->ops[2];
        if (t->isC()) { if (t->v == a->v) return mkOr1(b->ops[0], mkCmp(K::Eq, a, f)); return mkAnd1(mkNot(b->ops[0]), mkCmp(K::Eq, a, f)); }
        if (f->isC()) { if (f->v == a->v) return mkOr1(mkNot(b->ops[0]), mkCmp(K::Eq, a, t)); return mkAnd1(b->ops[0], mkCmp(K::Eq, a, t)); }
      }
    } else {
      if (a->k == K::ZExt && b->k == K::ZExt && a->ops[0]->w == b->ops[0]->w) return mkCmp(K::Eq, a->ops[0], b->ops[0]);
      uint64_t ca, cb; E ra, rb; splitAdd(a, ca, ra); splitAdd(b, cb, rb);
      if (ra && rb && ra == rb) return mkB(ca == cb);
      if (a->k == K::Concat && b->k == K::Concat && a->ops[1]->w == b->ops[1]->w)
        return mkAnd1(mkCmp(K::Eq, a->ops[0], b->ops[0]), mkCmp(K::Eq, a->ops[1], b->ops[1]));
      if (w == 1) return mkNot(mkBin(K::Xor, a, b));
    }
    return in2(K::Eq, 1, a, b);
  }
  if (w <= 64 && (k == K::Eq || k == K::Ult || k == K::Ule)) { // quotients by constants against constants
    if (k == K::Eq && b->isC()) std::swap(a, b);
    auto dv = [&](E t) { return t->k == K::UDiv && t->ops[1]->isC() && t->ops[1]->v > 1; };
    if (a->isC() && dv(b)) { uint64_t c = b->ops[1]->v; E y = b->ops[0]; __uint128_t lo = (__uint128_t)a->v * c, hi = lo + c; // a <= y/c <=> lo <= y ; y/c <= a <=> y < hi
      E ge = lo > M ? mkC(0, 1) : mkCmp(K::Ule, mkC((uint64_t)lo, w), y); E le = hi > M ? mkC(1, 1) : mkCmp(K::Ult, y, mkC((uint64_t)hi, w)); 
      if (k == K::Ule) return ge; if (k == K::Ult) return mkNot(le); return mkAnd1(ge, le); }
    if (b->isC() && dv(a)) { uint64_t c = a->ops[1]->v; E y = a->ops[0]; __uint128_t lo = (__uint128_t)b->v * c, hi = lo + c;
      if (k == K::Ult) return lo > M ? mkC(1, 1) : mkCmp(K::Ult, y, mkC((uint64_t)lo, w)); return hi > M ? mkC(1, 1) : mkCmp(K::Ult, y, mkC((uint64_t)hi, w)); } }
  if (k == K::Ult) {
    if (a == b) return mkC(0, 1);
    if (a->hi < b->lo) return mkC(1, 1);
    if (a->lo >= b->hi) return mkC(0, 1);
    if (b->isC() && b->v == 1) return mkCmp(K::Eq, mkC(0, w), a);
    if (a->isC() && a->v == 0) return mkNot(mkCmp(K::Eq, mkC(0, w), b));
  } else if (k == K::Ule) {
    if (a == b) return mkC(1, 1);
    if (a->hi <= b->lo) return mkC(1, 1);
    if (a->lo > b->hi) return mkC(0, 1);
    if (b->isC() && b->v == 0) return mkCmp(K::Eq, b, a);
  } else {
    bool an = a->hi <= (M >> 1), bn = b->hi <= (M >> 1), am = a->lo > (M >> 1), bm = b->lo > (M >> 1);
    if (a == b) return mkB(k == K::Sle);
    if ((an && bn) || (am && bm)) return mkCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
    if (an && bm) return mkC(0, 1);
    if (am && bn) return mkC(1, 1);
    if (a->k == K::SExt && b->k == K::SExt && a->ops[0]->w == b->ops[0]->w) return mkCmp(k, a->ops[0], b->ops[0]);
    if (a->isC() && b->k == K::SExt) { unsigned ow = b->ops[0]->w; int64_t c = sx(a->v, w), mn = sx(1ULL << (ow - 1), ow), mx = (int64_t)(maskw(ow) >> 1);
      if (c < mn) return mkC(1, 1); if (c > mx) return mkC(0, 1); return mkCmp(k, mkC((uint64_t)c, ow), b->ops[0]); }
    if (b->isC() && a->k == K::SExt) { unsigned ow = a->ops[0]->w; int64_t c = sx(b->v, w), mn = sx(1ULL << (ow - 1), ow), mx = (int64_t)(maskw(ow) >> 1);
      if (c < mn) return mkC(0, 1); if (c > mx) return mkC(1, 1); return mkCmp(k, a->ops[0], mkC((uint64_t)c, ow)); }
  }
  if ((k == K::Ult || k == K::Ule)) {
    if (a->k == K::ZExt && b->k == K::ZExt && a->ops[0]->w == b->ops[0]->w) return mkCmp(k, a->ops[0], b->ops[0]);
    if (a->isC() && b->k == K::ZExt) { unsigned ow = b->ops[0]->w; if (a->v <= maskw(ow)) return mkCmp(k, mkC(a->v, ow), b->ops[0]); return mkC(0, 1); }
    if (b->isC() && a->k == K::ZExt) { unsigned ow = a->ops[0]->w; if (b->v <= maskw(ow)) return mkCmp(k, a->ops[0], mkC(b->v, ow)); return mkC(1, 1); }
  }
  return in2(k, 1, a, b);
}

E mkIte(E c, E a, E b) {
  if (c->isC()) return c->v ? a : b;
  if (a == b) return a;
  if (a->w != b->w) { fprintf(stderr, "mkIte width mismatch %d %d\n", a->w, b->w); abort(); }
  if (a->k == K::Tuple && b->k == K::Tuple) { std::vector<E> v; for (unsigned i = 0; i < a->nops; i++) v.push_back(mkIte(c, a->ops[i], b->ops[i])); return mkTuple(v); }
  if (c->k == K::Xor && c->ops[0]->isC()) { E t = c->ops[1]; return mkIte(t, b, a); }
  if (a->w == 1) {
    if (a->isC()) return a->v ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (b->isC()) return b->v ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
    if (a == c) return mkOr1(c, b);
    if (b == c) return mkAnd1(c, a);
  }
  while (a->k == K::Ite && a->ops[0] == c) a = a->ops[1];
  while (b->k == K::Ite && b->ops[0] == c) b = b->ops[2];
  if (a == b) return a;
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->k == K::Ite && b->ops[1] == a) return mkIte(mkOr1(c, b->ops[0]), a, b->ops[2]);
  if (b->k == K::Ite && b->ops[2] == a) return mkIte(mkOr1(c, mkNot(b->ops[0])), a, b->ops[1]);
  if (a->k == K::Ite && a->ops[2] == b) return mkIte(mkAnd1(c, a->ops[0]), a->ops[1], b);
  if (a->k == K::Ite && a->ops[1] == b) return mkIte(mkAnd1(c, mkNot(a->ops[0])), a->ops[2], b);
  E o[3] = {c, a, b}; return intern(K::Ite, a->w, 0, o, 3);
}

E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (off + w > a->w) { fprintf(stderr, "mkExtract range %u+%u of %u\n", off, w, a->w); abort(); }
  if (a->isC()) return mkC(a->v >> off, w);
  switch (a->k) {
  case K::Extract: return mkExtract(a->ops[0], a->v + off, w);
  case K::Concat: { unsigned lw = a->ops[1]->w;
    if (off + w <= lw) return mkExtract(a->ops[1], off, w);
    if (off >= lw) return mkExtract(a->ops[0], off - lw, w);
    return mkConcat(mkExtract(a->ops[0], 0, off + w - lw), mkExtract(a->ops[1], off, lw - off)); }
  case K::ZExt: { unsigned ow = a->ops[0]->w;
    if (off >= ow) return mkC(0, w);
    if (off + w <= ow) return mkExtract(a->ops[0], off, w);
    return mkZExt(mkExtract(a->ops[0], off, ow - off), w); }
  case K::SExt: { unsigned ow = a->ops[0]->w;
    if (off + w <= ow) return mkExtract(a->ops[0], off, w);
    if (off < ow) return mkSExt(mkExtract(a->ops[0], off, ow - off), w);
    break; }
  case K::Ite: if (iteConsts(a, ITED) || a->ops[1]->isC() || a->ops[2]->isC() || a->ops[1]->k == K::Concat || a->ops[2]->k == K::Concat || a->ops[1]->k == K::ZExt || a->ops[2]->k == K::ZExt)
      return mkIte(a->ops[0], mkExtract(a->ops[1], off, w), mkExtract(a->ops[2], off, w));
    break;
  case K::And: case K::Or: case K::Xor:
    if (a->ops[0]->isC()) return mkBin(a->k, mkExtract(a->ops[0], off, w), mkExtract(a->ops[1], off, w));
    break;
  case K::Add: case K::Mul:
    if (off == 0 && (a->ops[0]->isC())) return mkBin(a->k, mkExtract(a->ops[0], 0, w), mkExtract(a->ops[1], 0, w));
    break;
  case K::Table: { // narrow table
    std::vector<uint64_t> v = g_tables[a->v].vals; for (auto &x : v) x = (x >> off) & maskw(w); return mkTable(a->ops[0], v, w); }
  case K::Shl: if (a->ops[1]->isC()) { unsigned n = a->ops[1]->v; if (off >= n) return mkExtract(a->ops[0], off - n, w); if (off + w <= n) return mkC(0, w); } break;
  default: break;
  }
  if (a->w <= 64 && off > 0 && (a->hi >> off) == 0) return mkC(0, w);
  return in1(K::Extract, w, a, off);
}
// One byte of v kept as a plain Extract node so that reading the whole word back yields v itself (memory only; normalise with mkByte's reader).
E mkRawByte(E v, unsigned i) {
  switch (v->k) {
  case K::ZExt: if ((i + 1) * 8 <= v->ops[0]->w) return mkRawByte(v->ops[0], i); return mkExtract(v, i * 8, 8);
  case K::Const: case K::Concat: case K::SExt: case K::Extract: case K::Sym: case K::Table: return mkExtract(v, i * 8, 8);
  default: if (v->w == 8) return v; return in1(K::Extract, 8, v, i * 8); } }
E joinBytes(const E *b, unsigned n) {
  if (n == 1) return b[0]->k == K::Extract ? mkExtract(b[0]->ops[0], b[0]->v, 8) : b[0];
  if (b[0]->k == K::Extract) { E x = b[0]->ops[0]; unsigned o = b[0]->v, k = 1; while (k < n && b[k]->k == K::Extract && b[k]->ops[0] == x && b[k]->v == o + 8 * k) k++; 
    if (k > 1 && o == 0 && k * 8 == x->w) { if (k == n) return x; bool z = true; for (unsigned i = k; i < n; i++) if (!(b[i]->isC() && b[i]->v == 0)) z = false; if (z) return mkZExt(x, n * 8); } }
  if (b[0]->k == K::Ite) { E c = b[0]->ops[0]; bool ok = true; for (unsigned i = 0; i < n; i++) if (!(b[i]->isC() || (b[i]->k == K::Ite && b[i]->ops[0] == c))) ok = false;
    if (ok) { E x[16], y[16]; if (n <= 16) { for (unsigned i = 0; i < n; i++) { x[i] = b[i]->isC() ? b[i] : b[i]->ops[1]; y[i] = b[i]->isC() ? b[i] : b[i]->ops[2]; } return mkIte(c, joinBytes(x, n), joinBytes(y, n)); } } }
  E r = joinBytes(b, 1); for (unsigned i = 1; i < n; i++) r = mkConcat(joinBytes(b + i, 1), r); return r; }
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w <= 64 && hi->isC() && lo->isC()) return mkC((hi->v << lo->w) | lo->v, w);
  if (hi->isC() && hi->v == 0 ) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->ops[0] == lo->ops[0] && hi->v == lo->v + lo->w) return mkExtract(hi->ops[0], lo->v, w);
  if (hi->k == K::Extract && lo->k == K::Concat && lo->ops[0]->k == K::Extract && lo->ops[0]->ops[0] == hi->ops[0] && hi->v == lo->ops[0]->v + lo->ops[0]->w)
    return mkConcat(mkExtract(hi->ops[0], lo->ops[0]->v, hi->w + lo->ops[0]->w), lo->ops[1]);
  if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->ops[0], lo), w);
  // hi = extract of top bits of x, lo == low part not expressed as extract
  if (hi->k == K::Extract && hi->ops[0]->w == w && hi->v == lo->w && mkExtract(hi->ops[0], 0, lo->w) == lo) return hi->ops[0];
  if (hi->k == K::Ite && lo->k == K::Ite && hi->ops[0] == lo->ops[0])
    return mkIte(hi->ops[0], mkConcat(hi->ops[1], lo->ops[1]), mkConcat(hi->ops[2], lo->ops[2]));
  if (w <= 64 && hi->k == K::Ite && lo->isC() && iteConsts(hi, ITED)) return mkIte(hi->ops[0], mkConcat(hi->ops[1], lo), mkConcat(hi->ops[2], lo));
  if (w <= 64 && lo->k == K::Ite && hi->isC() && iteConsts(lo, ITED)) return mkIte(lo->ops[0], mkConcat(hi, lo->ops[1]), mkConcat(hi, lo->ops[2]));
  if (hi->k == K::Concat) return mkConcat(hi->ops[0], mkConcat(hi->ops[1], lo)); // right-assoc
  return in2(K::Concat, w, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) { fprintf(stderr, "mkZExt\n"); abort(); }
  if (a->isC() && w <= 64) return mkC(a->v, w);
  if (a->k == K::ZExt) return mkZExt(a->ops[0], w);
  if (a->k == K::Ite && iteConsts(a, ITED)) return mkIte(a->ops[0], mkZExt(a->ops[1], w), mkZExt(a->ops[2], w));
  if (a->k == K::Extract && a->v == 0 && a->ops[0]->w == w && w <= 64 && a->ops[0]->hi <= maskw(a->w)) return a->ops[0];
  if (a->k == K::Add && a->w <= 64 && w <= 64 && a->ops[0]->isC() && a->ops[0]->v + a->ops[1]->hi >= a->ops[0]->v && a->ops[0]->v + a->ops[1]->hi <= maskw(a->w)) return mkBin(K::Add, mkC(a->ops[0]->v, w), mkZExt(a->ops[1], w));
  return in1(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) { fprintf(stderr, "mkSExt\n"); abort(); }
  if (a->isC() && w <= 64) return mkC((uint64_t)sx(a->v, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->ops[0], w);
  if (a->k == K::ZExt) return mkZExt(a->ops[0], w);
  if (a->w <= 64 && a->hi <= (maskw(a->w) >> 1)) return mkZExt(a, w);
  if (a->k == K::Ite && iteConsts(a, ITED)) return mkIte(a->ops[0], mkSExt(a->ops[1], w), mkSExt(a->ops[2], w));
  return in1(K::SExt, w, a);
}
static std::unordered_map<std::string, uint32_t> tabIdx;
E mkTable(E idx, const std::vector<uint64_t> &vals, unsigned w) {
  if (idx->isC()) return mkC(idx->v < vals.size() ? vals[idx->v] : 0, w);
  bool same = true; for (auto x : vals) if (x != vals[0]) { same = false; break; }
  if (same && !vals.empty()) return mkC(vals[0], w);
  if (w <= 64 && idx->w <= 64 && idx->hi < vals.size() && idx->hi >= 19) { // digit tables are arithmetic
    static const uint64_t pd[4][2] = {{1, 0}, {10, 0}, {1, 10}, {10, 10}};
    for (auto &q : pd) { bool ok = true; for (uint64_t i = 0; i <= idx->hi && ok; i++) { uint64_t t = i / q[0]; if (q[1]) t %= q[1]; ok = vals[i] == ((vals[0] + t) & maskw(w)); } if (!ok) continue;
      E t = mkBin(K::UDiv, idx, mkC(q[0], idx->w)); if (q[1]) t = mkBin(K::URem, t, mkC(q[1], idx->w)); t = idx->w < w ? mkZExt(t, w) : mkExtract(t, 0, w); return mkAddC(t, vals[0]); } }
  std::string key((const char *)vals.data(), vals.size() * 8); key += (char)w;
  uint32_t id; auto it = tabIdx.find(key);
  if (it == tabIdx.end()) { id = g_tables.size(); g_tables.push_back({vals, w}); tabIdx[key] = id; } else id = it->second;
  if (idx->k == K::Ite && iteConsts(idx, ITED)) return mkIte(idx->ops[0], mkTable(idx->ops[1], vals, w), mkTable(idx->ops[2], vals, w));
  return in1(K::Table, w, idx, id);
}
// A floating point term whose exponent is known is (-1)^sgn * mag * 2^s with an integer mag: conversions and comparisons on it
// become bit-vector arithmetic.  Every step below is exact; the multiplication rounds to nearest even explicitly.
struct Fx { bool ok; E sgn, mag; int s; };
static std::unordered_map<uint32_t, Fx> fxMemo;
static E fbit(E e, unsigned off, unsigned w) { if (e->k == K::Or || e->k == K::And || e->k == K::Xor) return mkBin(e->k, fbit(e->ops[0], off, w), fbit(e->ops[1], off, w)); if (e->k == K::Extract) return fbit(e->ops[0], off + e->v, w);
  if (e->k == K::ZExt) { unsigned ow = e->ops[0]->w; if (off >= ow) return mkC(0, w); if (off + w <= ow) return fbit(e->ops[0], off, w); return mkZExt(fbit(e->ops[0], off, ow - off), w); } return mkExtract(e, off, w); }
static bool isFop(E e) { switch (e->k) { case K::FAdd: case K::FSub: case K::FMul: case K::FTrunc: case K::FPExt: case K::UIToFP: case K::SIToFP: case K::FRint: return true; default: return false; } }
static bool fxOf(E e, Fx &r) {
  auto it = fxMemo.find(e->id); if (it != fxMemo.end()) { r = it->second; return r.ok; }
  unsigned w = e->w; r.ok = false; if (w != 64 && w != 32) return false; unsigned MB = w == 64 ? 52 : 23, EB = w == 64 ? 11 : 8; int bias = w == 64 ? 1023 : 127; Fx a, b;
  auto C = [](uint64_t v) { return mkC(v, 64); }; E zero1 = mkC(0, 1);
  auto done = [&](E sgn, E mag, int s) { r.ok = true; r.sgn = sgn; r.mag = mag; r.s = s; };
  if (e->k == K::FTrunc && fxOf(e->ops[0], a)) { if (a.s >= 0) done(a.sgn, a.mag, a.s); else if (a.s > -64) done(a.sgn, mkBin(K::And, C(~0ULL << -a.s), a.mag), a.s); else done(a.sgn, C(0), 0); }
  else if (e->k == K::FSub && fxOf(e->ops[0], a) && fxOf(e->ops[1], b)) {
    if (e->ops[1]->k == K::FTrunc && e->ops[1]->ops[0] == e->ops[0] && a.sgn->isC() && a.sgn->v == 0) { if (a.s >= 0) done(zero1, C(0), 0); else if (a.s > -64) done(zero1, mkBin(K::And, C(maskw(-a.s)), a.mag), a.s); else done(zero1, a.mag, a.s); } }
  else if (e->k == K::FMul && w == 64 && (e->ops[0]->isC() || e->ops[1]->isC()) && fxOf(e->ops[0], a) && fxOf(e->ops[1], b)) {
    if (a.mag->isC()) std::swap(a, b);
    if (b.mag->isC() && b.mag->v) { uint64_t c = b.mag->v; int s = a.s + b.s; int z = __builtin_ctzll(c); c >>= z; s += z;
      unsigned __int128 top = (unsigned __int128)a.mag->hi * c; if (top < ((unsigned __int128)1 << 63) && s > -1000 && s < 900) { E p = mkBin(K::Mul, C(c), a.mag), q = p; uint64_t T = (uint64_t)top;
        for (unsigned t = 1; 53 + t - 1 < 64 && (T >> (53 + t - 1)); t++) { E lsb = mkZExt(mkExtract(p, t, 1), 64); E rr = mkBin(K::And, C(~0ULL << t), mkBin(K::Add, C((1ULL << (t - 1)) - 1), mkBin(K::Add, p, lsb))); q = mkIte(mkCmp(K::Ule, C(1ULL << (53 + t - 1)), p), rr, q); }
        done(mkBin(K::Xor, a.sgn, b.sgn), q, s); } } }
  else if (e->k == K::FPExt && fxOf(e->ops[0], a)) r = a, r.ok = true;
  else if (e->k == K::UIToFP && e->ops[0]->w <= 64 && e->ops[0]->hi <= maskw(MB + 1)) done(zero1, mkZExt(e->ops[0], 64), 0);
  else if (e->k == K::SIToFP && e->ops[0]->w <= 64 && e->ops[0]->hi <= maskw(MB + 1) && e->ops[0]->hi < (1ULL << (e->ops[0]->w - 1))) done(zero1, mkZExt(e->ops[0], 64), 0);
  else if (!isFop(e)) {
    if (e->k == K::ZExt && e->ops[0]->w == w - 1 && e->ops[0]->k == K::Extract && e->ops[0]->v == 0 && isFop(e->ops[0]->ops[0]) && e->ops[0]->ops[0]->w == w) { if (fxOf(e->ops[0]->ops[0], a)) done(zero1, a.mag, a.s); }
    else { E ex = fbit(e, MB, EB); if (ex->isC() && ex->v != 0 && ex->v != maskw(EB)) { unsigned z = 0; while (z + 1 < MB) { E l = fbit(e, z, 1); if (l->isC() && l->v == 0) z++; else break; }
        done(fbit(e, MB + EB, 1), mkBin(K::Or, C(1ULL << (MB - z)), mkZExt(fbit(e, z, MB - z), 64)), (int)ex->v - bias - (int)MB + (int)z); }
      else if (e->isC() && (e->v & maskw(w - 1)) == 0) done(fbit(e, w - 1, 1), C(0), 0); } }
  if (r.ok && (r.mag->w != 64 || r.sgn->w != 1)) { fprintf(stderr, "fxOf width\n"); abort(); }
  fxMemo[e->id] = r; return r.ok; }
// |a| compared with |b|: lt = (|a| < |b|), eq = (|a| == |b|); false when the scales cannot be aligned within 64 bits
static bool fxMag(const Fx &a, const Fx &b, E &lt, E &eq) {
  if (a.mag->isC() && a.mag->v == 0) { E z = mkC(0, 64); eq = mkEq(b.mag, z); lt = mkNot(eq); return true; }
  if (b.mag->isC() && b.mag->v == 0) { eq = mkEq(a.mag, mkC(0, 64)); lt = mkC(0, 1); return true; }
  int d = a.s - b.s; if (d == 0) { lt = mkCmp(K::Ult, a.mag, b.mag); eq = mkEq(a.mag, b.mag); return true; }
  const Fx &x = d > 0 ? a : b, &y = d > 0 ? b : a; int k = d > 0 ? d : -d; // x is the coarser one: compare x.mag << k with y.mag
  E xl, xe; // |x| < |y|, |x| == |y|
  if (k < 64 && (x.mag->hi >> (64 - k)) == 0) { E m = mkBin(K::Shl, x.mag, mkC(k, 64)); xl = mkCmp(K::Ult, m, y.mag); xe = mkEq(m, y.mag); }
  else { // x.mag < ceil(y / 2^k), exact when the low bits of y vanish
    E q = k < 64 ? mkBin(K::LShr, y.mag, mkC(k, 64)) : mkC(0, 64), low = k < 64 ? mkEq(mkBin(K::And, mkC(maskw(k), 64), y.mag), mkC(0, 64)) : mkEq(y.mag, mkC(0, 64));
    xe = mkAnd1(low, mkEq(x.mag, q)); xl = mkOr1(mkCmp(K::Ult, x.mag, q), mkAnd1(mkNot(low), mkEq(x.mag, q))); }
  if (d > 0) { lt = xl; eq = xe; } else { eq = xe; lt = mkNot(mkOr1(xl, xe)); } return true; }
static E fxFold(K k, unsigned w, E a, E b) {
  Fx x, y;
  switch (k) {
  case K::FPToUI: case K::FPToSI: { if (!fxOf(a, x)) return nullptr; if (k == K::FPToUI && !(x.sgn->isC() && x.sgn->v == 0)) return nullptr; E m;
    if (x.s >= 0) { if (x.s > 63 || (x.mag->hi >> (63 - x.s)) != 0) return nullptr; m = mkBin(K::Shl, x.mag, mkC(x.s, 64)); } else m = x.s > -64 ? mkBin(K::LShr, x.mag, mkC(-x.s, 64)) : mkC(0, 64);
    if (w > 64 || m->hi > maskw(w) >> (k == K::FPToSI)) return nullptr; m = mkExtract(m, 0, w); return k == K::FPToSI ? mkIte(x.sgn, mkBin(K::Sub, mkC(0, w), m), m) : m; }
  case K::FUno: { auto num = [&](E e, Fx &f) { if (fxOf(e, f)) return true; if (!e->isC()) return false; uint64_t ab = e->v & maskw(e->w - 1); return ab <= (e->w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL); }; return num(a, x) && num(b, y) ? mkC(0, 1) : nullptr; }
  case K::FEq: case K::FLt: case K::FLe: {
    if ((a->isC() && b->isC()) || a->w != b->w) return nullptr; uint64_t inf = a->w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL, ninf = inf | 1ULL << (a->w - 1);
    if (a->isC() && (a->v == inf || a->v == ninf) && fxOf(b, y)) return mkC(k != K::FEq && a->v == ninf, 1);
    if (b->isC() && (b->v == inf || b->v == ninf) && fxOf(a, x)) return mkC(k != K::FEq && b->v == inf, 1);
    E lt, eq; if (!fxOf(a, x) || !fxOf(b, y) || !fxMag(x, y, lt, eq)) return nullptr; E Z = mkC(0, 64); E bothZero = mkAnd1(mkEq(x.mag, Z), mkEq(y.mag, Z)); E ss = mkEq(x.sgn, y.sgn); E e = mkOr1(bothZero, mkAnd1(ss, eq)); if (k == K::FEq) return e;
    E l = mkAnd1(mkNot(bothZero), mkIte(x.sgn, mkOr1(mkNot(y.sgn), mkAnd1(mkNot(lt), mkNot(eq))), mkAnd1(mkNot(y.sgn), lt))); return k == K::FLt ? l : mkOr1(l, e); }
  default: return nullptr; } }
E mkF(K k, unsigned w, E a, E b, uint64_t aux) {
  if (a->isC() && (!b || b->isC())) { uint64_t o[2] = {a->v, b ? b->v : 0}; return mkC(evalConstOp(k, w, a->w, o, aux), w); }
  if (k == K::FNeg) return mkBin(K::Xor, mkC(1ULL << (w - 1), w), a);
  if (k == K::FAbs) return mkBin(K::And, mkC(maskw(w - 1), w), a);
  if (a->k == K::Ite && iteConsts(a, 3) && (!b || b->isC())) return mkIte(a->ops[0], mkF(k, w, a->ops[1], b, aux), mkF(k, w, a->ops[2], b, aux));
  if (E r = fxFold(k, w, a, b)) return r;
  if (b) return in2(k, w, a, b, aux);
  return in1(k, w, a, aux);
}
E mkTuple(const std::vector<E> &v) { return intern(K::Tuple, 0, 0, v.data(), v.size()); }
E mkUndef(unsigned w) { return mkC(0, w); }

uint64_t Evaluator::eval(E e) {
  if (e->isC()) return e->v;
  if (e->id >= stamp.size()) { size_t n = std::max<size_t>(g_nexpr + 1024, stamp.size() * 2); stamp.resize(n, 0); val.resize(n); }
  if (stamp[e->id] == cur) return val[e->id];
  // iterative post-order
  std::vector<E> st; st.push_back(e);
  while (!st.empty()) {
    E x = st.back();
    if (x->isC() || stamp[x->id] == cur) { st.pop_back(); continue; }
    uint64_t r;
    if (x->k == K::Sym) { auto it = m->vals.find((uint32_t)x->v); r = it != m->vals.end() ? it->second : (g_syms[x->v].ranged ? g_syms[x->v].lo : 0); }
    else {
      if (x->k == K::Ite) {
        E c = x->ops[0]; if (!c->isC() && stamp[c->id] != cur) { st.push_back(c); continue; }
        uint64_t cv = c->isC() ? c->v : val[c->id]; E y = cv ? x->ops[1] : x->ops[2];
        if (!y->isC() && stamp[y->id] != cur) { st.push_back(y); continue; }
        r = y->isC() ? y->v : val[y->id];
      } else {
        bool ready = true;
        for (unsigned i = 0; i < x->nops; i++) { E c = x->ops[i]; if (!c->isC() && stamp[c->id] != cur) { st.push_back(c); ready = false; } }
        if (!ready) continue;
        uint64_t o[2] = {0, 0};
        for (unsigned i = 0; i < x->nops && i < 2; i++) o[i] = x->ops[i]->isC() ? x->ops[i]->v : val[x->ops[i]->id];
        if (x->k == K::Concat) r = x->w <= 64 ? ((o[0] << x->ops[1]->w) | o[1]) : 0;
        else if (x->k == K::Table) { auto &t = g_tables[x->v].vals; r = o[0] < t.size() ? t[o[0]] : 0; }
        else if (x->k == K::Tuple) r = 0;
        else if (x->k == K::Extract && x->ops[0]->w > 64) { // wide concat: evaluate through structure
          E y = mkExtract(x->ops[0], x->v, x->w); if (y != x && y->id < stamp.size()) { if (!y->isC() && stamp[y->id] != cur) { st.push_back(y); continue; } r = y->isC() ? y->v : val[y->id]; } else r = 0; }
        else r = evalConstOp(x->k, x->w, x->ops[0]->w, o, x->v);
      }
    }
    val[x->id] = r & maskw(x->w ? x->w : 64); stamp[x->id] = cur; st.pop_back();
    if (g_nexpr + 16 >= stamp.size()) { stamp.resize(g_nexpr + 4096, 0); val.resize(g_nexpr + 4096); }
  }
  return val[e->id];
}

static std::unordered_map<uint32_t, std::vector<uint32_t> *> symCache;
const std::vector<uint32_t> &symsOf(E e) {
  auto it = symCache.find(e->id); if (it != symCache.end()) return *it->second;
  // iterative DFS
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (symCache.count(x->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < x->nops; i++) if (!x->ops[i]->isC() && !symCache.count(x->ops[i]->id)) { st.push_back(x->ops[i]); ready = false; }
    if (!ready) continue;
    auto *v = new std::vector<uint32_t>();
    if (x->k == K::Sym) v->push_back(x->v);
    else {
      std::vector<uint32_t> *only = nullptr; int cnt = 0;
      for (unsigned i = 0; i < x->nops; i++) if (!x->ops[i]->isC()) { auto *c = symCache[x->ops[i]->id]; if (c->empty()) continue; if (!only) { only = c; cnt = 1; } else if (c != only && *c != *only) cnt = 2; }
      if (cnt == 1) { delete v; v = only; }
      else if (cnt == 2) { for (unsigned i = 0; i < x->nops; i++) if (!x->ops[i]->isC()) { auto *c = symCache[x->ops[i]->id]; v->insert(v->end(), c->begin(), c->end()); } std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    }
    symCache[x->id] = v; st.pop_back();
  }
  return *symCache[e->id];
}
static const char *KN[] = {"C","Sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","table","fadd","fsub","fmul","fdiv","frem","fneg","fabs","ftrunc","frint","feq","flt","fle","funo","fpext","fpround","fptosi","fptoui","sitofp","uitofp","tuple","undef"};
std::string exprStr(E e, int d) {
  char b[64];
  if (e->isC()) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->v, e->w); return b; }
  if (e->k == K::Sym) return g_syms[e->v].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + KN[(int)e->k];
  if (e->k == K::Extract) { snprintf(b, 64, "[%llu+%u]", (unsigned long long)e->v, e->w); s += b; }
  for (unsigned i = 0; i < e->nops; i++) s += " " + exprStr(e->ops[i], d - 1);
  return s + ")";
}
