// Constant thread count, so that chunked code paths are analysed with several
// chunks. Pragmas stay disabled: chunks are visited one after the other.
#ifndef VERIF_OMP_H_
#define VERIF_OMP_H_
#ifndef VERIF_THREADS
#define VERIF_THREADS 3
#endif
inline int omp_get_max_threads() { return VERIF_THREADS; }
inline int omp_get_num_threads() { return VERIF_THREADS; }
inline int omp_get_thread_num() { return 0; }
inline void omp_set_num_threads(int) {}
#endif
