// Hash-consed bit-vector / floating-point expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>

enum class K : uint8_t {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Concat, Extract, ZExt, SExt, Ite,
  Table,          // ops[0]=index ; aux = table id (entries are constants)
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FTrunc /*round toward zero to integral*/,
  FRint,          // aux = rounding mode 0 RNE 1 floor 2 ceil 3 RNA
  FEq, FLt, FLe, FUno,           // ordered compares, unordered test
  FPExt, FPRound,                // float<->double
  FPToSI, FPToUI, SIToFP, UIToFP,
  Tuple, Undef
};

struct Expr {
  K k; uint8_t nops; uint16_t w;      // w: width in bits (0 for Tuple)
  uint32_t id; uint64_t h;
  uint64_t v;                         // Const value, Sym id, Extract offset, Table id
  uint64_t lo, hi;                    // unsigned interval (w<=64)
  const Expr **ops;
  bool isC() const { return k == K::Const; }
};
typedef const Expr *E;

struct SymInfo { std::string name; unsigned w; uint64_t lo, hi; bool ranged; E e; bool internal; };
struct TableInfo { std::vector<uint64_t> vals; unsigned w; };

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); return (int64_t)((v ^ m) - m); }

extern std::vector<SymInfo> g_syms;
extern std::vector<TableInfo> g_tables;
extern uint64_t g_nexpr;

E mkC(uint64_t v, unsigned w);
static inline E mkB(bool b) { return mkC(b ? 1 : 0, 1); }
E mkSym(const std::string &name, unsigned w, bool ranged = false, uint64_t lo = 0, uint64_t hi = 0, bool internal = false);
E mkBin(K k, E a, E b);
E mkNot(E a);
E mkCmp(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkRawByte(E v, unsigned i);
E joinBytes(const E *b, unsigned n);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTable(E idx, const std::vector<uint64_t> &vals, unsigned w);
E mkF(K k, unsigned w, E a, E b = nullptr, uint64_t aux = 0);
E mkTuple(const std::vector<E> &v);
E mkUndef(unsigned w);
static inline E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }
static inline E mkEq(E a, E b) { return mkCmp(K::Eq, a, b); }
E mkAddC(E a, uint64_t c);

// split into (constant, rest) for address arithmetic; rest may be null
void splitAdd(E e, uint64_t &c, E &rest);

uint64_t evalConstOp(K k, unsigned w, unsigned opw, const uint64_t *o, uint64_t aux);

struct FlatVals { // small sorted map: copied with every fork
  typedef std::pair<uint32_t, uint64_t> P; std::vector<P> v;
  std::vector<P>::const_iterator begin() const { return v.begin(); } std::vector<P>::const_iterator end() const { return v.end(); }
  std::vector<P>::const_iterator find(uint32_t k) const { auto it = std::lower_bound(v.begin(), v.end(), k, [](const P &a, uint32_t b) { return a.first < b; }); return it != v.end() && it->first == k ? it : v.end(); }
  uint64_t &operator[](uint32_t k) { auto it = std::lower_bound(v.begin(), v.end(), k, [](const P &a, uint32_t b) { return a.first < b; }); if (it == v.end() || it->first != k) it = v.insert(it, P(k, 0)); return it->second; } };
struct FlatSet { std::vector<uint32_t> v; bool count(uint32_t k) const { return std::binary_search(v.begin(), v.end(), k); } bool insert(uint32_t k) { auto it = std::lower_bound(v.begin(), v.end(), k); if (it != v.end() && *it == k) return false; v.insert(it, k); return true; } void clear() { v.clear(); } };
struct Model {
  FlatVals vals; // sym id -> value
};
struct Evaluator {
  const Model *m;
  std::vector<uint64_t> val; std::vector<uint32_t> stamp; uint32_t cur = 0;
  void reset(const Model *mm) { m = mm; cur++; if (cur == 0) { stamp.assign(stamp.size(), 0); cur = 1; } }
  uint64_t eval(E e);
};
void collectSyms(E e, std::vector<uint32_t> &out);  // sorted unique, cached
const std::vector<uint32_t> &symsOf(E e);
std::string exprStr(E e, int depth = 6);
