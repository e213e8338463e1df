#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <set>
#include <map>
#include <unordered_set>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>

// ------------------------------------------------------------ memory
static const unsigned CH = 128;
struct Chunk { uint8_t c[CH]; std::unique_ptr<E[]> s; 
  Chunk() { memset(c, 0, CH); }
  Chunk(const Chunk &o) { memcpy(c, o.c, CH); if (o.s) { s.reset(new E[CH]); memcpy(s.get(), o.s.get(), sizeof(E) * CH); } } };
struct Upd { std::shared_ptr<Upd> next; E off; uint64_t lo, hi; E val; E guard; unsigned depth; }; // one byte
typedef std::shared_ptr<Upd> UpdP;
enum Fill { FZero, FUninit };
struct Obj {
  uint64_t base, size; std::string name; Fill fill; bool ro = false, freed = false, priv = false; uint8_t kind = 0; // 0 global 1 stack 2 heap
  std::vector<std::shared_ptr<Chunk>> ch; UpdP upd; uint64_t ulo = ~0ULL, uhi = 0;
};
typedef std::shared_ptr<Obj> ObjP;
struct MemMap { // sorted by base
  std::vector<ObjP> v;
  int find(uint64_t a) const { // index of the last object with base<=a
    size_t l = 0, h = v.size(); while (l < h) { size_t m = (l + h) / 2; if (v[m]->base <= a) l = m + 1; else h = m; } return (int)l - 1; }
  void insert(ObjP o) { if (v.empty() || v.back()->base < o->base) { v.push_back(o); return; } int i = find(o->base); v.insert(v.begin() + i + 1, o); }
};

// ------------------------------------------------------------ code
struct Op { int slot; E c; };
struct DI { // decoded instruction
  unsigned opc; int dst = -1; unsigned w = 0, w2 = 0; llvm::Instruction *I = nullptr; std::vector<Op> ops;
  uint64_t off = 0; std::vector<std::pair<uint64_t, int>> sc; // gep: scale, operand index
  std::vector<uint64_t> lim; // gep: array bound for scaled operand (0 none)
  llvm::Function *callee = nullptr; int ext = -1; int bb0 = -1, bb1 = -1; std::vector<std::pair<uint64_t, int>> cases;
  bool vol = false; unsigned sub = 0; bool nsw = false; bool flag = false; bool loophead = false;
};
struct BB { int first, last; std::vector<int> phis; };
struct Fn { llvm::Function *F; std::vector<DI> ins; std::vector<BB> bbs; int nslots; std::string name, dname; std::vector<int> argSlots; bool repo; bool seen = false; int mergeFn = -1; std::map<llvm::BasicBlock *, int> bbid; uint64_t idx; std::vector<std::vector<bool>> liveOut; std::map<int, std::vector<bool>> live; };
struct Frame { Fn *f; int pc; int bb, prevbb; std::vector<E> regs; uint64_t sp; int retSlot; std::vector<int> loopc; std::vector<E> va; int mergeH = -1; };
struct Thread { std::vector<Frame> st; uint64_t sp; int status = 0; /*0 ready 1 finished 2 waiting-for-change*/ bool daemon = false; bool atYield = false; bool justWrote = false, atomicSec = false; uint32_t ev = 0; E evBase = nullptr; std::map<const llvm::GlobalVariable *, uint64_t> tls; };

struct State {
  uint64_t id; std::vector<Thread> th; int cur = 0; MemMap mem; std::vector<E> pc; FlatSet pcset; Model model;
  uint64_t heapTop; std::map<std::string, int> symCount; uint64_t steps = 0; uint64_t stepLimit = 0; std::string stepLimitId; int depth = 0;
  std::vector<int> mergeStack; bool sched = false, repolled = false; int schedStep = 0; int preempt = 0; int lastRun = -1; bool dead = false;
  std::vector<std::pair<uint64_t, uint64_t>> vis, keyed, invis; std::vector<E> runs; std::set<std::string> covers; std::map<int, uint64_t> dyn; std::vector<std::string> notes; int crashFn = 0;
  struct Rng { int64_t lo, hi; size_t pcn; }; std::unordered_map<uint32_t, Rng> rng; // solver-proved range of an address's variable part, valid from path condition length pcn on
  std::vector<std::string> inputs; // names in order
  std::vector<std::pair<std::string, E>> obs; // vf_observe
};
