// Declarations of the OpenMP runtime entry points used by the sources, for
// parsing only (clang here ships no omp.h).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
typedef struct { void* p; } omp_nest_lock_t;
typedef int omp_sched_t;
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
int omp_get_nested(void);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
int omp_test_lock(omp_lock_t*);
double omp_get_wtime(void);
double omp_get_wtick(void);
int omp_get_level(void);
#ifdef __cplusplus
}
#endif
