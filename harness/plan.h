// Type-erased access to the C++ transforms of the library.
#ifndef PLAN_H
#define PLAN_H
#include <memory>
#include <vector>
#include "mpi.h"
#include "oracle.h"

enum Kind { C2C = 0, R2C = 1, R2R = 2 };
enum Backend { STOCK = 0, FFTW = 1, MKL = 2 };

struct PlanOpts {
    int algorithm = 0;       // 0 alltoall, 1 alltoallv, 2 p2p, 3 p2p_plined
    bool pencils = true, reorder = true; int subranks = -1; bool use_default = false;
    std::vector<int> subcomm; // ranks of the sub-communicator, replaces subranks when not empty
    int late = -1;           // with a sub-communicator: use_num_subranks(late) after use_subcomm(), which must change nothing
    bool gpu_aware = true;   // must change nothing with the CPU engines
    int workers(int np) const{ if (not subcomm.empty()) return (int) subcomm.size(); return (subranks > 0 and subranks < np) ? subranks : np; }
};
struct PlanSpec {
    int kind = C2C, backend = STOCK, r2r = 0, r2c_dir = 0; bool wide = false; int ctor = 0; // 0 boxes, 1 the constructor of the Fortran interface, 2 with a stream, 3 make functions
    Box in, out; PlanOpts opts; MPI_Comm comm;
};
struct Call {
    bool forward = true, dbl = true;
    bool real_side = false;  // c2c only: real input (forward) or real output (backward)
    bool alien = false;      // the complex type of the backend library (or a user type) instead of std::complex
    int form = 0;            // 0 (in,out) 1 (in,out,ws) 2 (batch,in,out,ws) 3 (batch,in,out) 4 vector form
    int batch = 1, scale = 0;// 0 none 1 full 2 symmetric
    void const *in = nullptr; void *out = nullptr, *ws = nullptr;
    long vec_count = -1;     // number of entries in the input vector of form 4 (default: exact)
};
struct Plan {
    virtual ~Plan(){}
    virtual long size_inbox() const = 0;
    virtual long size_outbox() const = 0;
    virtual long size_workspace() const = 0;
    virtual long size_comm() const = 0;
    virtual double factor(int scale) const = 0;
    virtual Box inbox() const = 0;
    virtual Box outbox() const = 0;
    virtual void call(Call const &c) = 0;
    virtual std::unique_ptr<Plan> moved() = 0; // the same plan after a move construction
    virtual bool assign(Plan &){ return false; } // move assignment from a plan of the same type, false for another type
};
std::unique_ptr<Plan> make_plan(PlanSpec const &s);
std::unique_ptr<Plan> make_plan_stock(PlanSpec const &s);
std::unique_ptr<Plan> make_plan_fftw(PlanSpec const &s);
std::unique_ptr<Plan> make_plan_mkl(PlanSpec const &s);
std::unique_ptr<Plan> make_plan_stock_w(PlanSpec const &s);
std::unique_ptr<Plan> make_plan_fftw_w(PlanSpec const &s);
//! Default options of the backend.
PlanOpts default_opts(int kind, int backend, int r2r);
#endif
