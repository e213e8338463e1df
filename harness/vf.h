// Primitives shared by the symbolic engine (fnsym) and the native replay runtime (native_rt.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vf_sym(const char *name, int bits);                        // arbitrary value of that width
int64_t vf_range(const char *name, int64_t lo, int64_t hi);         // arbitrary value in [lo,hi]
void vf_sym_bytes(void *p, size_t n, const char *name);             // arbitrary bytes
void vf_assume(bool c);
void vf_check(bool c, const char *id);                              // the property
void vf_cover(const char *id);                                      // reachability witness
void vf_observe(const char *name, uint64_t x);                       // value compared between the symbolic model and the native run
void vf_merge_open(); void vf_merge_close();                        // paths between are joined into one state
void vf_step_limit(uint64_t n, const char *id);                     // more instructions than n = does not terminate
int vf_thread(void (*fn)(void *), void *arg, int daemon);           // declare a thread; runs once vf_run_threads is called
void vf_run_threads();                                              // explore every interleaving until the non-daemons end
void vf_visible(const void *p, size_t n);                           // accesses to it are scheduling points
void vf_key(const void *p, size_t n);                               // thread states are joined only if they agree on these words
void vf_invisible(const void *p, size_t n);                         // accesses to it never are scheduling points
void vf_yield(); void vf_wait();                                    // scheduling point / sleep until visible memory changes
void vf_atomic(int on);                                             // no other thread runs between vf_atomic(1) and vf_atomic(0)
int vf_tid(); int vf_crash_enable(int on);
uint64_t vf_concretize(uint64_t x);                                 // one path per value
void vf_debug(const char *name, uint64_t x);
int vf_symbolic(); int vf_may(bool c); void vf_end();
uint64_t vf_va(int i);                                              // i-th variadic argument of the calling function (engine only)
}
