/* Force-included in front of library sources in tracking builds: sends the MKL
   allocator through exact-size tracked blocks so that red zones, leak accounting and
   fault injection cover the vector and matrix storage too. */
#ifndef VF_LIBSHIM_H
#define VF_LIBSHIM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_blas_malloc(size_t n, int align);
void* vf_blas_calloc(size_t k, size_t n, int align);
void  vf_blas_free(void* p);
#ifdef __cplusplus
}
#endif
#if defined(VF_CLOCK)   /* the library reads a clock the monitor drives */
#include <time.h>
#include <sys/time.h>
#ifdef __cplusplus
extern "C" {
#endif
int vf_clock_gettime(int id, struct timespec* ts);
int vf_gettimeofday(struct timeval* tv, void* tz);
#ifdef __cplusplus
}
#endif
#define clock_gettime(id, ts) vf_clock_gettime((int)(id), (ts))
#define gettimeofday(tv, tz)  vf_gettimeofday((tv), (tz))
#endif
#if defined(VF_MKL)
#include "mkl.h"
#define mkl_malloc(n, a)    vf_blas_malloc((n), (a))
#define mkl_calloc(k, n, a) vf_blas_calloc((k), (n), (a))
#define mkl_free(p)         vf_blas_free(p)
#endif
#endif
