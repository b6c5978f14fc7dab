/* The C interface of the library seen through its own header, which only a C compiler may include. */
#ifndef C_SHIM_H
#define C_SHIM_H
#include "mpi.h"
#ifdef __cplusplus
extern "C" {
#endif
/* what: 0 stock 1 fftw 2 mkl */
int shim_backend(int what);
/* values: reorder, algorithm (as in PlanOpts: 1 alltoallv 2 p2p 3 p2p_plined, -1 anything else), pencils, gpu_aware */
int shim_defaults(int backend, int *values);
int shim_algorithm(int a);
int shim_create(int r2c, int backend, int const *il, int const *ih, int const *io, int const *ol, int const *oh, int const *oo, int dir, MPI_Comm comm, int const *values, void **plan);
int shim_destroy(void *plan);
int shim_size(void *plan, int what);   /* 0 inbox 1 outbox 2 workspace 3 backend 4 is_r2c */
void shim_tamper(void *plan, int backend);
void shim_call(void *plan, int forward, int dbl, int real_side, int buffered, void const *in, void *out, void *ws, int scale);
int shim_success(void);
#ifdef __cplusplus
}
#endif
#endif
