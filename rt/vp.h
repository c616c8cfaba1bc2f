// Harness API. Under devsym the vp_* functions are built in; natively they come from vp_native.c.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vp_symbolic(void *p, size_t n, const char *name);          // n fresh symbolic bytes
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_observe(const char *name, uint64_t v);                  // compared against the native run
void vp_observe_buf(const char *name, const void *p, size_t n);
int vp_param(const char *name, int def);                        // concrete case parameter
void vp_reach(const char *label);                               // vacuity witness
void vp_cut(const char *msg);                                   // path outside the stated bound
void vp_check_init(const void *p, size_t n, const char *msg);   // bytes must not depend on uninitialised memory
uint64_t vp_concretize(uint64_t v);                             // fork over every feasible value
void vp_step_limit(uint64_t n);                                 // 0: off; otherwise exceeding it is a hang
int vp_same(const void *a, const void *b, size_t n);            // byte equality without forking
void vp_fresh(void *p, size_t n);                                // new heap block: arbitrary content (native: fill pattern)
int vp_ptr_valid(const void *p, size_t n);
#ifdef __cplusplus
}
#endif
