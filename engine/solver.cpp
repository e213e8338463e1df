#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>

SolverStats g_ss; unsigned g_timeoutMs = 60000; bool g_xcheck = false; uint64_t g_xchecked = 0, g_xdisagree = 0, g_xunk = 0;
static Z3_context ctx = nullptr;
static std::vector<Z3_ast> cache; static std::vector<uint32_t> cstamp; static uint32_t curStamp = 0; static uint64_t sinceReset = 0;
static bool g_hasFP, g_err;
static void onErr(Z3_context c, Z3_error_code e) { g_err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static void reset() {
  if (ctx) Z3_del_context(ctx);
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  curStamp++; sinceReset = 0;
}
void solverInit() { reset(); }
const char *solverVersion() { static char b[64]; unsigned a, bb, c, d; Z3_get_version(&a, &bb, &c, &d); snprintf(b, 64, "z3 %u.%u.%u", a, bb, c); return b; }

static Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
static Z3_ast toFP(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, bv, fpSort(w)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
// width-1 expressions are translated as z3 Bool; others as bit-vectors
static Z3_ast get(E e) { return cache[e->id]; }
static bool isBool(E e) { return e->w == 1; }
static Z3_ast asBV(E e) { return isBool(e) ? b2bv(get(e)) : get(e); }
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast tableTree(Z3_ast idx, unsigned iw, const std::vector<uint64_t> &v, unsigned w, size_t l, size_t h) {
  bool same = true; for (size_t i = l + 1; i <= h; i++) if (v[i] != v[l]) { same = false; break; }
  if (same) return w == 1 ? (v[l] ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(v[l], w);
  size_t m = (l + h + 1) / 2;
  return Z3_mk_ite(ctx, Z3_mk_bvult(ctx, idx, num(m, iw)), tableTree(idx, iw, v, w, l, m - 1), tableTree(idx, iw, v, w, m, h));
}
// NaN has several bit patterns: an FP result is turned into bits through a fresh constant
static std::vector<Z3_ast> side; 
static Z3_ast fpToBits(Z3_ast f, unsigned w) {
  // z3 has an (unspecified-NaN) to_ieee_bv; canonicalise NaN to the quiet NaN the evaluator uses
  Z3_ast bits = Z3_mk_fpa_to_ieee_bv(ctx, f);
  return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), num(w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL, w), bits);
}
static Z3_ast conv1(E x) {
  unsigned w = x->w;
  auto A = [&](int i) { return get(x->ops[i]); };
  auto B = [&](int i) { return asBV(x->ops[i]); };
  auto F = [&](int i) { return toFP(B(i), x->ops[i]->w); };
  bool bl = isBool(x);
  Z3_ast two[2];
  switch (x->k) {
  case K::Const: return bl ? (x->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(x->v, w);
  case K::Sym: { auto &s = g_syms[x->v]; char nm[32]; snprintf(nm, 32, "v%llu", (unsigned long long)x->v); (void)s;
    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bl ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); }
  case K::Add: return bl ? Z3_mk_xor(ctx, A(0), A(1)) : Z3_mk_bvadd(ctx, A(0), A(1));
  case K::Sub: return bl ? Z3_mk_xor(ctx, A(0), A(1)) : Z3_mk_bvsub(ctx, A(0), A(1));
  case K::Mul: if (bl) { two[0] = A(0); two[1] = A(1); return Z3_mk_and(ctx, 2, two); } return Z3_mk_bvmul(ctx, A(0), A(1));
  case K::UDiv: return Z3_mk_bvudiv(ctx, A(0), A(1));
  case K::SDiv: return Z3_mk_bvsdiv(ctx, A(0), A(1));
  case K::URem: return Z3_mk_bvurem(ctx, A(0), A(1));
  case K::SRem: return Z3_mk_bvsrem(ctx, A(0), A(1));
  case K::And: if (bl) { two[0] = A(0); two[1] = A(1); return Z3_mk_and(ctx, 2, two); } return Z3_mk_bvand(ctx, A(0), A(1));
  case K::Or: if (bl) { two[0] = A(0); two[1] = A(1); return Z3_mk_or(ctx, 2, two); } return Z3_mk_bvor(ctx, A(0), A(1));
  case K::Xor: if (bl) { if (x->ops[0]->isC()) return x->ops[0]->v ? Z3_mk_not(ctx, A(1)) : A(1); return Z3_mk_xor(ctx, A(0), A(1)); } return Z3_mk_bvxor(ctx, A(0), A(1));
  case K::Shl: return Z3_mk_bvshl(ctx, A(0), A(1));
  case K::LShr: return Z3_mk_bvlshr(ctx, A(0), A(1));
  case K::AShr: return Z3_mk_bvashr(ctx, A(0), A(1));
  case K::Eq: return x->ops[0]->w == 1 ? Z3_mk_iff(ctx, A(0), A(1)) : Z3_mk_eq(ctx, A(0), A(1));
  case K::Ult: return Z3_mk_bvult(ctx, B(0), B(1));
  case K::Ule: return Z3_mk_bvule(ctx, B(0), B(1));
  case K::Slt: return Z3_mk_bvslt(ctx, B(0), B(1));
  case K::Sle: return Z3_mk_bvsle(ctx, B(0), B(1));
  case K::Concat: return Z3_mk_concat(ctx, B(0), B(1));
  case K::Extract: { Z3_ast r = Z3_mk_extract(ctx, x->v + w - 1, x->v, B(0)); return bl ? Z3_mk_eq(ctx, r, num(1, 1)) : r; }
  case K::ZExt: return Z3_mk_zero_ext(ctx, w - x->ops[0]->w, B(0));
  case K::SExt: return Z3_mk_sign_ext(ctx, w - x->ops[0]->w, B(0));
  case K::Ite: return Z3_mk_ite(ctx, A(0), A(1), A(2));
  case K::Table: { auto &t = g_tables[x->v]; unsigned iw = x->ops[0]->w; 
    size_t n = t.vals.size(); if (iw < 64 && n > (1ULL << iw)) n = 1ULL << iw;
    return tableTree(B(0), iw, t.vals, w, 0, n - 1); }
  case K::FAdd: g_hasFP = true; return fpToBits(Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), F(0), F(1)), w);
  case K::FSub: g_hasFP = true; return fpToBits(Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), F(0), F(1)), w);
  case K::FMul: g_hasFP = true; return fpToBits(Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), F(0), F(1)), w);
  case K::FDiv: g_hasFP = true; return fpToBits(Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), F(0), F(1)), w);
  case K::FTrunc: g_hasFP = true; return fpToBits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), F(0)), w);
  case K::FRint: g_hasFP = true; return fpToBits(Z3_mk_fpa_round_to_integral(ctx, x->v == 1 ? Z3_mk_fpa_rtn(ctx) : x->v == 2 ? Z3_mk_fpa_rtp(ctx) : x->v == 3 ? Z3_mk_fpa_rna(ctx) : Z3_mk_fpa_rne(ctx), F(0)), w);
  case K::FEq: g_hasFP = true; return Z3_mk_fpa_eq(ctx, F(0), F(1));
  case K::FLt: g_hasFP = true; return Z3_mk_fpa_lt(ctx, F(0), F(1));
  case K::FLe: g_hasFP = true; return Z3_mk_fpa_leq(ctx, F(0), F(1));
  case K::FUno: g_hasFP = true; two[0] = Z3_mk_fpa_is_nan(ctx, F(0)); two[1] = Z3_mk_fpa_is_nan(ctx, F(1)); return Z3_mk_or(ctx, 2, two);
  case K::FPExt: g_hasFP = true; return fpToBits(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), F(0), fpSort(64)), 64);
  case K::FPRound: g_hasFP = true; return fpToBits(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), F(0), fpSort(32)), 32);
  case K::FPToSI: g_hasFP = true; return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), F(0), w);
  case K::FPToUI: g_hasFP = true; return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), F(0), w);
  case K::SIToFP: g_hasFP = true; return fpToBits(Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), B(0), fpSort(w)), w);
  case K::UIToFP: g_hasFP = true; return fpToBits(Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), B(0), fpSort(w)), w);
  default: fprintf(stderr, "conv kind %d\n", (int)x->k); abort();
  }
}
static Z3_ast conv(E e) {
  if (g_nexpr + 1 >= cache.size()) { cache.resize(g_nexpr * 2 + 1024); cstamp.resize(g_nexpr * 2 + 1024, 0); }
  if (cstamp[e->id] == curStamp) return cache[e->id];
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (cstamp[x->id] == curStamp) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < x->nops; i++) if (cstamp[x->ops[i]->id] != curStamp) { st.push_back(x->ops[i]); ready = false; }
    if (!ready) continue;
    cache[x->id] = conv1(x); cstamp[x->id] = curStamp; sinceReset++;
    st.pop_back();
  }
  return cache[e->id];
}
static bool hasFP(E e) {
  static std::vector<int8_t> memo; if (memo.size() <= g_nexpr) memo.resize(g_nexpr * 2 + 1024, -1);
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); if (memo[x->id] >= 0) { st.pop_back(); continue; }
    bool ready = true, f = x->k >= K::FAdd && x->k <= K::UIToFP;
    for (unsigned i = 0; i < x->nops; i++) { if (memo[x->ops[i]->id] < 0) { st.push_back(x->ops[i]); ready = false; } else if (memo[x->ops[i]->id]) f = true; }
    if (!ready) continue; memo[x->id] = f; st.pop_back();
  }
  return memo[e->id] != 0;
}

struct CacheEnt { Res r; Model m; };
static std::unordered_map<std::string, CacheEnt> qcache;

static void collect(const std::vector<E> &cs, std::vector<uint32_t> &syms) {
  for (E c : cs) { auto &s = symsOf(c); syms.insert(syms.end(), s.begin(), s.end()); }
  std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
}
static void assertAll(Z3_solver s, const std::vector<E> &cs, const std::vector<uint32_t> &syms) {
  for (E c : cs) Z3_solver_assert(ctx, s, conv(c));
  for (uint32_t id : syms) { auto &si = g_syms[id]; if (!si.ranged) continue; Z3_ast a = conv(si.e); if (si.w == 1) continue;
    if (si.lo > 0) Z3_solver_assert(ctx, s, Z3_mk_bvuge(ctx, a, num(si.lo, si.w)));
    if (si.hi < maskw(si.w)) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, a, num(si.hi, si.w))); }
}
static Res runExternal(const std::string &smt, const char *cmd, unsigned tmo) {
  char path[] = "/tmp/fnsymXXXXXX"; int fd = mkstemp(path); if (fd < 0) return Res::UNK;
  FILE *f = fdopen(fd, "w"); fwrite(smt.data(), 1, smt.size(), f); fclose(f);
  char c[512]; snprintf(c, 512, "timeout %u %s %s 2>/dev/null", tmo / 1000 + 1, cmd, path);
  FILE *p = popen(c, "r"); char buf[256] = {0}; Res r = Res::UNK;
  if (p) { while (fgets(buf, 256, p)) { if (!strncmp(buf, "unsat", 5)) { r = Res::UNSAT; break; } if (!strncmp(buf, "sat", 3)) { r = Res::SAT; break; } if (!strncmp(buf, "(error", 6)) { r = Res::UNK; break; } } pclose(p); }
  unlink(path); return r;
}
std::string toSmt2(const std::vector<E> &cs) {
  std::vector<uint32_t> syms; collect(cs, syms);
  Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s); assertAll(s, cs, syms);
  std::string r = Z3_solver_to_string(ctx, s); Z3_solver_dec_ref(ctx, s);
  bool fp = false; for (E c : cs) fp |= hasFP(c);
  return std::string("(set-logic ") + (fp ? "QF_BVFP" : "QF_BV") + ")\n" + r + "\n(check-sat)\n";
}
// ---- context: intervals implied by the comparison conjuncts simplify the others (remainders of small quotients and the like)
struct Ctx {
  std::unordered_map<E, std::pair<uint64_t, uint64_t>> b, memo; std::unordered_map<E, E> re; bool conflict = false;
  void bound(E t, uint64_t lo, uint64_t hi) { auto it = b.find(t); if (it == b.end()) b[t] = {std::max(lo, t->lo), std::min(hi, t->hi)}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); } auto &r = b[t]; if (r.first > r.second) conflict = true; }
  // conjunct of the form const <=/< t, t <=/< const (possibly negated)
  bool learn(E c) { bool neg = false; if (c->k == K::Xor && c->w == 1 && c->ops[0]->isC() && c->ops[0]->v == 1) { neg = true; c = c->ops[1]; }
    if (c->k != K::Ult && c->k != K::Ule) return false; E x = c->ops[0], y = c->ops[1]; bool st = c->k == K::Ult; if (x->w > 64) return false;
    if (neg) { std::swap(x, y); st = !st; } uint64_t M = maskw(x->w);
    if (x->isC() && !y->isC()) { if (st && x->v == M) { conflict = true; return true; } bound(y, st ? x->v + 1 : x->v, M); return true; }
    if (y->isC() && !x->isC()) { if (st && y->v == 0) { conflict = true; return true; } bound(x, 0, st ? y->v - 1 : y->v); return true; }
    return false; }
  std::pair<uint64_t, uint64_t> iv(E e) { // of the original term
    if (e->isC()) return {e->v, e->v}; if (e->w > 64) return {0, ~0ULL}; auto it = memo.find(e); if (it != memo.end()) return it->second;
    uint64_t lo = e->lo, hi = e->hi; auto ib = b.find(e); if (ib != b.end()) { lo = std::max(lo, ib->second.first); hi = std::min(hi, ib->second.second); }
    if (e->k == K::UDiv && e->ops[1]->isC() && e->ops[1]->v) { auto p = iv(e->ops[0]); lo = std::max(lo, p.first / e->ops[1]->v); hi = std::min(hi, p.second / e->ops[1]->v); }
    else if (e->k == K::URem && e->ops[1]->isC() && e->ops[1]->v) { auto p = iv(e->ops[0]); hi = std::min(hi, p.second); if (p.second < e->ops[1]->v) lo = std::max(lo, p.first); }
    else if (e->k == K::ZExt) { auto p = iv(e->ops[0]); lo = std::max(lo, p.first); hi = std::min(hi, p.second); }
    else if (e->k == K::LShr && e->ops[1]->isC() && e->ops[1]->v < e->w) { auto p = iv(e->ops[0]); lo = std::max(lo, p.first >> e->ops[1]->v); hi = std::min(hi, p.second >> e->ops[1]->v); }
    else if (e->k == K::Add && e->ops[0]->isC()) { auto p = iv(e->ops[1]); uint64_t M = maskw(e->w), c = e->ops[0]->v; if (p.second <= M - c) { lo = std::max(lo, p.first + c); hi = std::min(hi, p.second + c); } else if (p.first > M - c) { lo = std::max(lo, (p.first + c) & M); hi = std::min(hi, (p.second + c) & M); } }
    if (lo > hi) { conflict = true; lo = hi; }
    return memo[e] = {lo, hi}; }
  E rw(E root) {
    std::vector<E> st{root};
    while (!st.empty()) { E e = st.back(); if (re.count(e)) { st.pop_back(); continue; } if (!e->nops) { auto p = iv(e); re[e] = e->w <= 64 && p.first == p.second ? mkC(p.first, e->w) : e; st.pop_back(); continue; }
      bool rdy = true; for (unsigned i = 0; i < e->nops; i++) if (!re.count(e->ops[i])) { st.push_back(e->ops[i]); rdy = false; } if (!rdy) continue; st.pop_back();
      E r = nullptr; if (e->w <= 64 && e->k < K::Table) { auto p = iv(e); if (p.first == p.second) r = mkC(p.first, e->w); }
      if (!r && e->k == K::URem && e->ops[1]->isC()) { auto p = iv(e->ops[0]); if (p.second < e->ops[1]->v) r = re[e->ops[0]]; }
      if (!r && (e->k == K::Ult || e->k == K::Ule || e->k == K::Eq) && e->ops[0]->w <= 64) { auto p = iv(e->ops[0]), q = iv(e->ops[1]); if (e->k == K::Ult) { if (p.second < q.first) r = mkB(true); else if (p.first >= q.second) r = mkB(false); } else if (e->k == K::Ule) { if (p.second <= q.first) r = mkB(true); else if (p.first > q.second) r = mkB(false); } else if (p.first > q.second || q.first > p.second) r = mkB(false); }
      if (!r) { bool ch = false; E o[3] = {nullptr, nullptr, nullptr}; for (unsigned i = 0; i < e->nops && i < 3; i++) { o[i] = re[e->ops[i]]; if (o[i] != e->ops[i]) ch = true; }
        if (!ch) r = e; else switch (e->k) {
          case K::Add: case K::Sub: case K::Mul: case K::UDiv: case K::SDiv: case K::URem: case K::SRem: case K::And: case K::Or: case K::Xor: case K::Shl: case K::LShr: case K::AShr: r = mkBin(e->k, o[0], o[1]); break;
          case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: r = mkCmp(e->k, o[0], o[1]); break;
          case K::Concat: r = mkConcat(o[0], o[1]); break; case K::Extract: r = mkExtract(o[0], e->v, e->w); break; case K::ZExt: r = mkZExt(o[0], e->w); break; case K::SExt: r = mkSExt(o[0], e->w); break; case K::Ite: r = mkIte(o[0], o[1], o[2]); break;
          case K::Table: r = mkTable(o[0], g_tables[e->v].vals, e->w); break;
          default: r = e; } }
      re[e] = r; }
    return re[root]; }
};
static bool hasDiv(E e) { static std::vector<int8_t> memo; if (memo.size() <= g_nexpr) memo.resize(g_nexpr * 2 + 1024, -1);
  std::vector<E> st{e}; while (!st.empty()) { E x = st.back(); if (memo[x->id] >= 0) { st.pop_back(); continue; } bool ready = true, f = x->k == K::UDiv || x->k == K::URem; for (unsigned i = 0; i < x->nops; i++) { if (memo[x->ops[i]->id] < 0) { st.push_back(x->ops[i]); ready = false; } else if (memo[x->ops[i]->id]) f = true; } if (!ready) continue; memo[x->id] = f; st.pop_back(); }
  return memo[e->id] != 0; }
static bool ctxSimplify(std::vector<E> &cs) { // false: unsatisfiable
  for (int round = 0; round < 3; round++) {
    Ctx c; std::vector<E> keep, rest; for (E e : cs) (c.learn(e) ? keep : rest).push_back(e); if (c.conflict) return false; if (keep.empty()) return true; bool ch = false;
    for (E &e : rest) { E n = c.rw(e); if (c.conflict) return false; if (n != e) { ch = true; e = n; } }
    // bounds on composite terms are themselves rewritten through bounds on their parts only when that leaves the learned term alone
    cs = keep; for (E e : rest) { std::vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->isC()) { if (!x->v) return false; continue; } if (x->k == K::And && x->w == 1) { st.push_back(x->ops[0]); st.push_back(x->ops[1]); continue; } cs.push_back(x); } }
    if (!ch) break; }
  return true; }
Res solveQuery(const std::vector<E> &cs0, Model *out, unsigned tmo, bool important) {
  std::vector<E> cs; for (E c : cs0) { if (c->isC()) { if (!c->v) return Res::UNSAT; continue; } cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (cs.empty()) return Res::SAT;
  std::string key; key.reserve(cs.size() * 4); for (E c : cs) key.append((const char *)&c->id, 4);
  auto it = qcache.find(key);
  if (it != qcache.end()) { g_ss.cacheHits++; if (it->second.r == Res::SAT && out) for (auto &kv : it->second.m.vals) out->vals[kv.first] = kv.second; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  std::vector<E> orig = cs; { bool dv = false; for (E c : cs) dv |= hasDiv(c);
    if (dv) { if (!ctxSimplify(cs)) { g_ss.queries++; g_ss.unsat++; qcache[key] = CacheEnt{Res::UNSAT, {}}; return Res::UNSAT; } if (cs.empty()) { /* every model */ } } }
  if (sinceReset > 400000) reset();
  std::vector<uint32_t> syms; collect(orig, syms);
  bool fp = false; for (E c : cs) fp |= hasFP(c);
  g_err = false;
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo); Z3_solver_set_params(ctx, s, p);
  assertAll(s, cs, syms);
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = g_err ? Res::UNK : r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNK;
  CacheEnt ce; 
  if (res == Res::SAT) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (uint32_t id : syms) {
      Z3_ast v; uint64_t val = 0;
      if (Z3_model_eval(ctx, m, conv(g_syms[id].e), true, &v)) {
        if (g_syms[id].w == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; else { uint64_t t = 0; if (Z3_get_numeral_uint64(ctx, v, &t)) val = t; }
      }
      ce.m.vals[id] = val;
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
  if (res == Res::UNK && getenv("FNSYM_DUMP")) { static int n = 0; char f[256]; snprintf(f, 256, "%s/unk%d.smt2", getenv("FNSYM_DUMP"), n++); FILE *o = fopen(f, "w"); std::string t = toSmt2(cs); fwrite(t.data(), 1, t.size(), o); fclose(o); }
  if (res == Res::UNK) { // second engine
    Res r2 = runExternal(toSmt2(cs), "cvc5 --bv-solver=bitblast", tmo);
    if (r2 == Res::UNSAT) res = r2;
  } else if (important && g_xcheck && res == Res::UNSAT) {
    Res r2 = runExternal(toSmt2(cs), "cvc5", 20000); g_xchecked++;
    if (r2 == Res::SAT) { g_xdisagree++; fprintf(stderr, "SOLVER DISAGREEMENT\n"); } else if (r2 == Res::UNK) g_xunk++;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++; g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
  if (res == Res::SAT) g_ss.sat++; else if (res == Res::UNSAT) g_ss.unsat++; else g_ss.unk++;
  // the model must satisfy the query under our own evaluator (guards the translation)
  if (res == Res::SAT) {
    static Evaluator ev; ev.reset(&ce.m);
    for (E c : orig) if (!ev.eval(c)) { fprintf(stderr, "MODEL MISMATCH %s\n", exprStr(c, 8).c_str()); res = Res::UNK; g_ss.unk++; break; }
  }
  ce.r = res;
  if (res == Res::SAT && out) for (auto &kv : ce.m.vals) out->vals[kv.first] = kv.second;
  if (res != Res::UNK) qcache[key] = ce;
  if (getenv("FNSYM_SLOW") && dt > atof(getenv("FNSYM_SLOW"))) { fprintf(stderr, "slow query %.2fs res=%d ncs=%zu\n", dt, (int)res, cs.size()); for (E c : cs) fprintf(stderr, "   %s\n", exprStr(c, 12).c_str()); }
  return res;
}
bool ctxSimplifyForTest(std::vector<E> &cs) { return ctxSimplify(cs); }
