/* Minimal OpenMP runtime declarations: only used for parsing. */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4]; } omp_lock_t;
typedef struct { unsigned char _x[16]; } omp_nest_lock_t;
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_thread_limit(void);
int omp_in_parallel(void);
int omp_get_num_procs(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
