/* Force-included (-include) when the library's own sources are compiled for a
 * check: routes allocation and thread creation through the harness, so that use
 * can be measured, filled with a known pattern and made to fail.  With
 * VF_SCHED the pthread primitives go to the controlled scheduler too. */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <errno.h>
#include <pthread.h>
#include <sys/time.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t n);
void* vf_calloc(size_t a, size_t b);
void* vf_realloc(void* p, size_t n);
void  vf_free(void* p);
int   vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg);
FILE* vf_fopen(const char* name, const char* mode);   /* the processor description, see vf_env in alloc.h */
long  vf_sysconf(int name);
#ifdef VF_SCHED
int vs_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int vs_mutex_destroy(pthread_mutex_t*);
int vs_mutex_lock(pthread_mutex_t*);
int vs_mutex_trylock(pthread_mutex_t*);
int vs_mutex_unlock(pthread_mutex_t*);
int vs_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int vs_cond_destroy(pthread_cond_t*);
int vs_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int vs_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int vs_cond_signal(pthread_cond_t*);
int vs_cond_broadcast(pthread_cond_t*);
int vs_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int vs_join(pthread_t, void**);
void vs_point(void);
#endif
#ifdef __cplusplus
}
#endif
#ifndef VF_SHIM_IMPL
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define fopen vf_fopen
#define sysconf vf_sysconf
#ifdef VF_SCHED
#define pthread_mutex_init vs_mutex_init
#define pthread_mutex_destroy vs_mutex_destroy
#define pthread_mutex_lock vs_mutex_lock
#define pthread_mutex_trylock vs_mutex_trylock
#define pthread_mutex_unlock vs_mutex_unlock
#define pthread_cond_init vs_cond_init
#define pthread_cond_destroy vs_cond_destroy
#define pthread_cond_wait vs_cond_wait
#define pthread_cond_timedwait vs_cond_timedwait
#define pthread_cond_signal vs_cond_signal
#define pthread_cond_broadcast vs_cond_broadcast
#define pthread_create vs_create
#define pthread_join vs_join
#define __sync_fetch_and_add(p, v) (vs_point(), __sync_fetch_and_add(p, v))
#ifndef __cplusplus
#include <stdatomic.h>
#undef atomic_fetch_add
#define atomic_fetch_add(p, v) (vs_point(), atomic_fetch_add_explicit(p, v, memory_order_seq_cst))
#endif
#else
#define pthread_create vf_pthread_create
#endif
#endif
#endif
