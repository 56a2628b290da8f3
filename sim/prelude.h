/* force-included before the library sources: the heap seam of tommytypes.h */
#ifndef SIM_PRELUDE_H
#define SIM_PRELUDE_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void* sim_malloc(size_t n);
void* sim_calloc(size_t n, size_t m);
void* sim_realloc(void* p, size_t n);
void sim_free(void* p);
void* sim_raw_malloc(size_t n);
void* sim_raw_calloc(size_t n, size_t m);
void* sim_raw_realloc(void* p, size_t n);
void sim_raw_free(void* p);
void sim_charge(size_t n); /* bulk work on n bytes takes time as well */
#ifdef __cplusplus
}
#endif
static __inline__ __attribute__((always_inline, unused)) void* sim_memset(void* p, int v, size_t n) { sim_charge(n); return __builtin_memset(p, v, n); }
static __inline__ __attribute__((always_inline, unused)) void* sim_memcpy(void* p, const void* q, size_t n) { sim_charge(n); return __builtin_memcpy(p, q, n); }
static __inline__ __attribute__((always_inline, unused)) void* sim_memmove(void* p, const void* q, size_t n) { sim_charge(n); return __builtin_memmove(p, q, n); }
#define memset sim_memset
#define memcpy sim_memcpy
#define memmove sim_memmove
#define tommy_malloc sim_malloc
#define tommy_calloc sim_calloc
#define tommy_realloc sim_realloc
#define tommy_free sim_free
/* heap calls that bypass the documented seam are caught as well */
#define malloc sim_raw_malloc
#define calloc sim_raw_calloc
#define realloc sim_raw_realloc
#define free sim_raw_free
#endif
