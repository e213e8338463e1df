// Random cross-check of the expression simplifier: a term built through the simplifying constructors must evaluate to the same
// value as the unsimplified operation, and the contextual simplifier must preserve the conjunction.  Exit 0 = agreed.
#include "expr.h"
#include <random>
#include <cstdio>
bool ctxSimplifyForTest(std::vector<E> &cs);
static std::mt19937_64 R(12345);
struct T { E e; uint64_t v[4]; };
int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 4000; uint64_t n = 0, bad = 0;
  for (int r = 0; r < rounds && bad < 10; r++) {
    std::vector<T> pool; Model m[4]; 
    for (int i = 0; i < 3; i++) { unsigned ws[] = {1, 8, 16, 32, 64, 8, 32, 64}; unsigned w = ws[R() % 8]; char nm[32]; snprintf(nm, 32, "t%d_%d", r, i); bool rg = R() % 3 == 0 && w > 1; uint64_t lo = 0, hi = maskw(w); if (rg) { lo = R() % 200; hi = lo + R() % 55; lo &= maskw(w); hi &= maskw(w); if (lo > hi) std::swap(lo, hi); }
      E s = mkSym(nm, w, rg, lo, hi); T t; t.e = s; for (int k = 0; k < 4; k++) { uint64_t v = R() >> (R() % 64); v &= maskw(w); if (rg) v = lo + v % (hi - lo + 1); t.v[k] = v; m[k].vals[(uint32_t)s->v] = v; } pool.push_back(t); }
    static const uint64_t cs[] = {0, 1, 2, 3, 7, 8, 10, 100, 1000, 48, 255, 256, 60, 3600, 10000, 86400};
    for (int step = 0; step < 40; step++) {
      auto pick = [&]() -> T & { return pool[R() % 3 == 0 ? R() % pool.size() : pool.size() - 1 - R() % std::min<size_t>(pool.size(), 4)]; };
      T a = pick(), b; unsigned w = a.e->w; if (w == 0 || w > 64) continue;
      auto konst = [&](unsigned w) { T t; uint64_t v = R() % 4 ? cs[R() % 16] : R(); if (R() % 8 == 0) v = 0 - v; v &= maskw(w); t.e = mkC(v, w); for (auto &x : t.v) x = v; return t; };
      if (R() % 2) b = konst(w); else { b = pick(); if (b.e->w > w) { for (auto &x : b.v) x &= maskw(w); b.e = mkExtract(b.e, 0, w); } else if (b.e->w < w) b.e = mkZExt(b.e, w); }
      if (R() % 4 == 0) std::swap(a, b);
      T t; int op = R() % 22; 
      static const K bins[] = {K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::And, K::Or, K::Xor, K::Shl, K::LShr, K::AShr}; static const K cmps[] = {K::Eq, K::Ult, K::Ule, K::Slt, K::Sle};
      if (op < 13) { if (w == 1 && (op >= 3 && op <= 6)) continue; if (w == 1 && op >= 10) continue; t.e = mkBin(bins[op], a.e, b.e); for (int k = 0; k < 4; k++) { uint64_t o[2] = {a.v[k], b.v[k]}; t.v[k] = evalConstOp(bins[op], w, w, o, 0); } }
      else if (op < 18) { if (w == 1 && op > 13) continue; t.e = mkCmp(cmps[op - 13], a.e, b.e); for (int k = 0; k < 4; k++) { uint64_t o[2] = {a.v[k], b.v[k]}; t.v[k] = evalConstOp(cmps[op - 13], 1, w, o, 0); } }
      else if (op == 18) { unsigned nw = w <= 32 ? (w < 8 ? 8 : w * 2) : 64; if (nw <= w) continue; bool sx_ = R() % 2; t.e = sx_ ? mkSExt(a.e, nw) : mkZExt(a.e, nw); for (int k = 0; k < 4; k++) t.v[k] = sx_ ? (uint64_t)sx(a.v[k], w) & maskw(nw) : a.v[k]; }
      else if (op == 19) { if (w < 8) continue; unsigned nw = 1 + R() % w, off = R() % (w - nw + 1); t.e = mkExtract(a.e, off, nw); for (int k = 0; k < 4; k++) t.v[k] = (a.v[k] >> off) & maskw(nw); }
      else if (op == 20) { T &c = pick(); if (c.e->w != 1) continue; t.e = mkIte(c.e, a.e, b.e); for (int k = 0; k < 4; k++) t.v[k] = c.v[k] ? a.v[k] : b.v[k]; }
      else { if (R() % 2 && w <= 32 && b.e->w + w <= 64) { t.e = mkConcat(a.e, b.e); for (int k = 0; k < 4; k++) t.v[k] = (a.v[k] << b.e->w) | b.v[k]; }
        else { std::vector<uint64_t> tab; int kind = R() % 4; size_t sz = 20 + R() % 180; for (size_t i = 0; i < sz; i++) tab.push_back(kind == 0 ? R() % 256 : kind == 1 ? '0' + i / 10 : kind == 2 ? '0' + i % 10 : '0' + i / 10 % 10); E idx = mkBin(K::URem, a.e, mkC(std::min<uint64_t>(sz, maskw(w)), w)); t.e = mkTable(idx, tab, 8); for (auto &x : tab) x &= 255; for (int k = 0; k < 4; k++) t.v[k] = tab[a.v[k] % std::min<uint64_t>(sz, maskw(w))]; } }
      Evaluator ev; for (int k = 0; k < 4; k++) { ev.reset(&m[k]); uint64_t g = ev.eval(t.e); n++; if (g != (t.v[k] & maskw(t.e->w)) || (t.e->w <= 64 && (g < t.e->lo || g > t.e->hi))) { printf("MISMATCH op=%d w=%u want=%llx got=%llx lo=%llx hi=%llx %s\n", op, t.e->w, (unsigned long long)t.v[k], (unsigned long long)g, (unsigned long long)t.e->lo, (unsigned long long)t.e->hi, exprStr(t.e, 5).c_str()); bad++; break; } }
      pool.push_back(t);
    }
    std::vector<E> conj; for (auto &t : pool) if (t.e->w == 1 && !t.e->isC() && conj.size() < 6) conj.push_back(R() % 2 ? t.e : mkNot(t.e));
    for (auto &t : pool) if (t.e->w > 1 && t.e->w <= 64 && !t.e->isC() && R() % 6 == 0) { uint64_t v = t.v[0]; conj.push_back(mkCmp(K::Ule, t.e, mkC(v + (R() % 3 ? R() % 50 : 0) > maskw(t.e->w) ? maskw(t.e->w) : v + R() % 5, t.e->w))); }
    for (int k = 0; k < 4; k++) { // keep the conjuncts true under model k and compare
      Evaluator ev; ev.reset(&m[k]); std::vector<E> c; for (E x : conj) c.push_back(ev.eval(x) || R() % 8 == 0 ? x : mkNot(x)); std::vector<E> d; for (E x : c) if (!x->isC()) d.push_back(x); auto o = d; bool ok = ctxSimplifyForTest(d);
      for (int q = 0; q < 4; q++) { Evaluator e2; e2.reset(&m[q]); bool all = true, all2 = ok; for (E x : o) all = all && e2.eval(x); if (ok) for (E x : d) all2 = all2 && e2.eval(x); n++; if (all != all2) { printf("CTX MISMATCH %d %d\n", all, all2); bad++; } } }
  }
  // floating point terms with a known exponent: every fold must agree with IEEE arithmetic
  for (int r = 0; r < rounds * 4 && bad < 10; r++) {
    char nm[32]; snprintf(nm, 32, "f%d", r); bool dbl = R() % 3 != 0; unsigned w = dbl ? 64 : 32, MB = dbl ? 52 : 23; int bias = dbl ? 1023 : 127; int ex = (int)(R() % 90) - 25;
    unsigned nb = 1 + R() % MB; E m = mkSym(nm, nb); snprintf(nm, 32, "s%d", r); E s = mkSym(nm, 1); E x = mkBin(K::Or, mkBin(K::Or, mkBin(K::Shl, mkZExt(m, w), mkC(MB - nb, w)), mkBin(K::Shl, mkZExt(s, w), mkC(w - 1, w))), mkC((uint64_t)(ex + bias) << MB, w));
    Model md; uint64_t mv = R() & maskw(nb); int kind = R() % 4; if (kind == 0) mv = 0; if (kind == 1) mv = maskw(nb); md.vals[(uint32_t)m->v] = mv; uint64_t sv = R() & 1; md.vals[(uint32_t)s->v] = sv; double v; { uint64_t bits = mv << (MB - nb) | sv << (w - 1) | (uint64_t)(ex + bias) << MB; if (dbl) memcpy(&v, &bits, 8); else { uint32_t b32 = bits; float f; memcpy(&f, &b32, 4); v = f; } }
    Evaluator ev; ev.reset(&md); auto chk = [&](const char *what, E e, uint64_t want) { n++; uint64_t g = ev.eval(e); if (g != want) { printf("FP MISMATCH %s v=%.20g want=%llx got=%llx\n", what, v, (unsigned long long)want, (unsigned long long)g); bad++; } };
    auto D = [](double d) { uint64_t b; memcpy(&b, &d, 8); return b; };
    if (!dbl) x = mkF(K::FPExt, 64, x); double a = __builtin_fabs(v), t = __builtin_trunc(a), f = a - t; E fa = mkF(K::FAbs, 64, x), ft = mkF(K::FTrunc, 64, fa), ff = mkF(K::FSub, 64, fa, ft);
    double ks[] = {10000, 1, 3, 1e8, 0.1, 1024}; double kk = ks[R() % 6]; E fm = mkF(K::FMul, 64, ff, mkC(D(kk), 64)); if (a < 1.8e19) chk("toui", mkF(K::FPToUI, 64, fa), (uint64_t)a); if (a < 1.8e19) chk("trunc", mkF(K::FPToUI, 64, ft), (uint64_t)t); chk("frac", mkF(K::FPToUI, 64, fm), (uint64_t)(f * kk)); if (a < 2e9) { chk("si32", mkF(K::FPToSI, 32, x), (uint64_t)(uint32_t)(int)v); chk("fullmul", mkF(K::FPToUI, 64, mkF(K::FMul, 64, fa, mkC(D(kk), 64))), (uint64_t)(a * kk)); }
    if (a * kk < 9e18) chk("si64", mkF(K::FPToSI, 64, mkF(K::FMul, 64, x, mkC(D(kk), 64))), (uint64_t)(long long)(v * kk));
    double cs2[] = {0, 0.0001, 1, 0.5, 1e18, 1152921504606846975.0, -1, __builtin_inf(), -__builtin_inf(), 2.2250738585072014e-308, v, -v, t, 3e-300}; double c = cs2[R() % 14]; E cc = mkC(D(c), 64);
    for (int q = 0; q < 2; q++) { E y = q ? fa : x; double yv = q ? a : v; chk("lt", mkF(K::FLt, 1, y, cc), yv < c); chk("le", mkF(K::FLe, 1, y, cc), yv <= c); chk("gt", mkF(K::FLt, 1, cc, y), c < yv); chk("ge", mkF(K::FLe, 1, cc, y), c <= yv); chk("eq", mkF(K::FEq, 1, y, cc), yv == c); chk("uno", mkF(K::FUno, 1, y, cc), 0); }
    chk("ltself", mkF(K::FLt, 1, ft, fa), t < a); chk("fraclt", mkF(K::FLt, 1, ff, mkC(D(0.25), 64)), f < 0.25);
  }
  printf("selftest: %llu comparisons, %llu mismatches\n", (unsigned long long)n, (unsigned long long)bad); return bad ? 1 : 0;
}
