/* Declarations of the OpenMP runtime used by hnco (parsing only). */
#ifndef HSA_OMP_H
#define HSA_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
