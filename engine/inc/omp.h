#pragma once
extern "C" { void omp_set_num_threads(int); int omp_get_num_threads(); int omp_get_max_threads(); int omp_get_thread_num(); int omp_get_num_procs(); double omp_get_wtime(); void omp_set_nested(int); void omp_set_dynamic(int);}
typedef struct { void* p; } omp_lock_t;
extern "C" { void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*);}
