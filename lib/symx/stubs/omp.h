#pragma once
// OpenMP API declarations; the interpreter implements them.
extern "C" {
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
double omp_get_wtime(void);
}
