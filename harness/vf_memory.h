/* Tracking allocator: given to the library through its own OSQP_CUSTOM_MEMORY hook. */
#ifndef VF_MEMORY_H
#define VF_MEMORY_H
#include <stdlib.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t n);
void* vf_calloc(size_t k, size_t n);
void* vf_realloc(void* p, size_t n);
void  vf_free(void* p);
void* vf_blas_malloc(size_t n, int align);
void* vf_blas_calloc(size_t k, size_t n, int align);
void  vf_blas_free(void* p);

/* control / observation (harness side) */
void   vf_mem_fail_at(long k, int sticky); /* k-th allocation from now fails (1-based); 0 = never */
long   vf_mem_count(void);                 /* allocations asked for since the last fail_at() */
long   vf_mem_injected(void);              /* failures actually delivered since the last fail_at() */
long   vf_mem_live(void);                  /* blocks currently live */
long   vf_mem_badfree(void);               /* frees of pointers this allocator never gave out / wrong family */
const char* vf_mem_describe_live(void);
extern void (*vf_mem_hook)(void);          /* called for every allocation of the library, or NULL */
void   vf_mem_forget(void);                /* drop leak records (after they were reported) */
#ifdef __cplusplus
}
#endif
#ifndef VF_MEMORY_IMPL
#define c_malloc  vf_malloc
#define c_calloc  vf_calloc
#define c_realloc vf_realloc
#define c_free    vf_free
#endif
#endif
