#include "heffte_c.h"
#include "c_shim.h"
/* the header names only the engines that are built in */
#ifndef Heffte_BACKEND_FFTW
#define Heffte_BACKEND_FFTW 1
#endif
#ifndef Heffte_BACKEND_MKL
#define Heffte_BACKEND_MKL 2
#endif
int shim_backend(int what){ return what == 0 ? Heffte_BACKEND_STOCK : (what == 1 ? Heffte_BACKEND_FFTW : Heffte_BACKEND_MKL); }
int shim_success(void){ return Heffte_SUCCESS; }
int shim_algorithm(int a){ return a == 1 ? Heffte_RESHAPE_ALGORITHM_ALLTOALLV : (a == 2 ? Heffte_RESHAPE_ALGORITHM_P2P : (a == 3 ? Heffte_RESHAPE_ALGORITHM_P2P_PLINED : a)); }
int shim_defaults(int backend, int *v){
    heffte_plan_options o; o.use_reorder = -7; o.algorithm = -7; o.use_pencils = -7; o.use_gpu_aware = -7;
    int e = heffte_set_default_options(backend, &o);
    v[0] = o.use_reorder; v[2] = o.use_pencils; v[3] = o.use_gpu_aware;
    v[1] = o.algorithm == Heffte_RESHAPE_ALGORITHM_ALLTOALLV ? 1 : (o.algorithm == Heffte_RESHAPE_ALGORITHM_P2P ? 2 : (o.algorithm == Heffte_RESHAPE_ALGORITHM_P2P_PLINED ? 3 : -1));
    return e;
}
int shim_create(int r2c, int backend, int const *il, int const *ih, int const *io, int const *ol, int const *oh, int const *oo, int dir, MPI_Comm comm, int const *v, void **plan){
    heffte_plan_options o; heffte_plan p = (heffte_plan) *plan; int e;
    if (v){ o.use_reorder = v[0]; o.algorithm = v[1]; o.use_pencils = v[2]; o.use_gpu_aware = v[3]; }
    if (r2c) e = heffte_plan_create_r2c(backend, il, ih, io, ol, oh, oo, dir, comm, v ? &o : NULL, &p);
    else e = heffte_plan_create(backend, il, ih, io, ol, oh, oo, comm, v ? &o : NULL, &p);
    *plan = p; return e;
}
int shim_destroy(void *plan){ return heffte_plan_destroy((heffte_plan) plan); }
int shim_size(void *plan, int what){
    heffte_plan p = (heffte_plan) plan;
    switch(what){ case 0: return heffte_size_inbox(p); case 1: return heffte_size_outbox(p); case 2: return heffte_size_workspace(p); case 3: return heffte_get_backend(p); default: return heffte_is_r2c(p); }
}
void shim_tamper(void *plan, int backend){ ((heffte_plan) plan)->backend_type = backend; }
void shim_call(void *plan, int forward, int dbl, int real_side, int buffered, void const *in, void *out, void *ws, int s){
    heffte_plan p = (heffte_plan) plan; int scale = s == 0 ? Heffte_SCALE_NONE : (s == 1 ? Heffte_SCALE_FULL : Heffte_SCALE_SYMMETRIC);
    if (forward){
        if (buffered){
            if (real_side){ if (dbl) heffte_forward_d2z_buffered(p, (double const*) in, out, ws, scale); else heffte_forward_s2c_buffered(p, (float const*) in, out, ws, scale); }
            else { if (dbl) heffte_forward_z2z_buffered(p, in, out, ws, scale); else heffte_forward_c2c_buffered(p, in, out, ws, scale); }
        }else{
            if (real_side){ if (dbl) heffte_forward_d2z(p, (double const*) in, out, scale); else heffte_forward_s2c(p, (float const*) in, out, scale); }
            else { if (dbl) heffte_forward_z2z(p, in, out, scale); else heffte_forward_c2c(p, in, out, scale); }
        }
    }else{
        if (buffered){
            if (real_side){ if (dbl) heffte_backward_z2d_buffered(p, in, (double*) out, ws, scale); else heffte_backward_c2s_buffered(p, in, (float*) out, ws, scale); }
            else { if (dbl) heffte_backward_z2z_buffered(p, in, out, ws, scale); else heffte_backward_c2c_buffered(p, in, out, ws, scale); }
        }else{
            if (real_side){ if (dbl) heffte_backward_z2d(p, in, (double*) out, scale); else heffte_backward_c2s(p, in, (float*) out, scale); }
            else { if (dbl) heffte_backward_z2z(p, in, out, scale); else heffte_backward_c2c(p, in, out, scale); }
        }
    }
}
