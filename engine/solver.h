#pragma once
#include "expr.h"
#include <map>
enum class Res { SAT, UNSAT, UNK };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unk = 0, cacheHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_timeoutMs;
extern bool g_xcheck;          // cross-check assertion queries with a second solver
extern uint64_t g_xchecked, g_xdisagree, g_xunk;
// is (and cs) satisfiable? (already sliced by the caller)
Res solveQuery(const std::vector<E> &cs, Model *out, unsigned timeoutMs, bool important = false);
std::string toSmt2(const std::vector<E> &cs);
void solverInit();
const char *solverVersion();
