// C18: the Fortran modules (compiled by gfortran, wrappers by the C++ compiler) against the defining sums and the native plans.
#include "tcall.h"
#include "heffte_plan_logic.h"
using pbt::Gen; using pbt::Case; using pbt::fail;

#define DECL(B) extern "C" { void* fs_create_##B(int, int, int const*, int, int, int, int, int); void fs_destroy_##B(void*); void fs_sizes_##B(void*, long*, double*); void fs_run_##B(void*, int, int, int, int, int, int, long, long, long, void const*, void*, void*); }
DECL(stock) DECL(fftw) DECL(mkl)
struct Entry { void* (*create)(int, int, int const*, int, int, int, int, int); void (*destroy)(void*); void (*sizes)(void*, long*, double*); void (*run)(void*, int, int, int, int, int, int, long, long, long, void const*, void*, void*); };
#define ENTRY(B) {fs_create_##B, fs_destroy_##B, fs_sizes_##B, fs_run_##B}
static const Entry entries[3] = {ENTRY(stock), ENTRY(fftw), ENTRY(mkl)};

std::unique_ptr<Plan> make_plan(PlanSpec const &s){ return s.backend == STOCK ? make_plan_stock(s) : (s.backend == FFTW ? make_plan_fftw(s) : make_plan_mkl(s)); }
static void sim_failed(std::string const &m){ fail("MPI protocol: " + m); }

//! A plan held by Fortran; ctor 0: 6 integers per box, 1: 9 integers per box, 2: with the options.
struct FortranPlan : Plan {
    Entry e; void *h; long s[4]; double f[3]; Box bi, bo; bool drop_scale; // a call without scaling uses the form without the argument
    FortranPlan(PlanSpec const &p, int ctor, bool ds) : e(entries[p.backend]), bi(p.in), bo(p.out), drop_scale(ds) {
        int b[18]; for(int d=0; d<3; d++){ b[d] = p.in.lo[d]; b[3+d] = p.in.hi[d]; b[6+d] = p.in.order[d]; b[9+d] = p.out.lo[d]; b[12+d] = p.out.hi[d]; b[15+d] = p.out.order[d]; }
        typedef heffte::reshape_algorithm A; A alg = p.opts.algorithm == 0 ? A::alltoall : (p.opts.algorithm == 1 ? A::alltoallv : (p.opts.algorithm == 2 ? A::p2p : A::p2p_plined));
        h = e.create(p.kind == R2C, ctor, b, p.r2c_dir, MPI_Comm_c2f(p.comm), p.opts.reorder, (int) alg, p.opts.pencils);
        e.sizes(h, s, f);
    }
    ~FortranPlan() override{ e.destroy(h); }
    long size_inbox() const override{ return s[0]; }
    long size_outbox() const override{ return s[1]; }
    long size_workspace() const override{ return s[2]; }
    long size_comm() const override{ return s[3]; }
    double factor(int k) const override{ return f[k]; }
    Box inbox() const override{ return bi; }
    Box outbox() const override{ return bo; }
    void call(Call const &c) override{
        static const int plain[4] = {0, 2, 5, 7}, scaled[4] = {1, 3, 4, 6};
        int form = (c.scale == 0 and drop_scale) ? plain[c.form] : scaled[c.form];
        e.run(h, c.forward, c.dbl, c.real_side, form, c.batch, c.scale, c.batch * (c.forward ? s[0] : s[1]), c.batch * (c.forward ? s[1] : s[0]), c.batch * s[2], c.in, c.out, c.ws);
    }
    std::unique_ptr<Plan> moved() override{ return nullptr; }
};
static void c18(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, R2C}; go.max_volume = 1200; go.allow_tight = false; go.subranks = false;
    Problem p = gen_problem(g, go); p.opts.subranks = -1; p.opts.use_default = false;
    int ctor = g.weighted({2, 2, 4}); bool ds = g.chance(1, 2);
    if (ctor == 0){ for(auto &b : p.in) b.order = {0,1,2}; for(auto &b : p.out) b.order = {0,1,2}; }
    if (ctor < 2) p.opts.use_default = true;
    std::vector<TCall> calls; int nc = g.range(1, 3);
    for(int i=0; i<nc; i++){ calls.push_back(gen_call(g, p)); TCall &t = calls.back(); if (t.c.form == 4) t.c.form = g.below(2); }
    c.desc << p.str() << " constructor=" << ctor << (ds ? " short" : ""); for(auto const &t : calls) c.desc << " " << t.str();
    label_problem(c, p); c.label("constructor:" + std::to_string(ctor)); for(auto const &t : calls){ if (t.c.batch > 1) c.label("batch"); c.label(std::string(t.c.forward ? "forward" : "backward") + (t.c.dbl ? ":double" : ":float") + (t.c.real_side or p.kind == R2C ? ":real" : ":complex")); }
    pbt::publish(c); for(auto &t : calls) prepare(t, p);
    simmpi::failure_handler = sim_failed; simmpi::record_ops(true);
    std::vector<std::vector<simmpi::Op>> ops[2]; std::vector<std::array<long,4>> sizes[2]; std::vector<std::array<double,2>> fac[2]; std::vector<std::vector<std::vector<char>>> res[2];
    for(int w=0; w<2; w++){
        ops[w].resize(p.nranks); sizes[w].resize(p.nranks); fac[w].resize(p.nranks); res[w].assign(nc, std::vector<std::vector<char>>(p.nranks));
        simmpi::run(p.nranks, p.sched, [&](int r){
            std::unique_ptr<Plan> plan; if (w) plan.reset(new FortranPlan(p.spec(r), ctor, ds)); else plan = make_plan(p.spec(r));
            sizes[w][r] = {plan->size_inbox(), plan->size_outbox(), plan->size_workspace(), plan->size_comm()}; fac[w][r] = {plan->factor(1), plan->factor(2)};
            for(int i=0; i<nc; i++) res[w][i][r] = execute(calls[i], p, *plan, r, w ? "Fortran transform" : "native transform");
            plan.reset(); ops[w][r] = simmpi::ops();
            if (simmpi::live_objects() != 0) fail("MPI objects are alive after the plan was released on rank " + std::to_string(r));
        });
    }
    simmpi::record_ops(false);
    for(int r=0; r<p.nranks; r++){
        if (sizes[0][r] != sizes[1][r]) fail("Fortran and native plans report different sizes on rank " + std::to_string(r));
        if (fac[0][r] != fac[1][r]) fail("Fortran and native plans report different scale factors on rank " + std::to_string(r));
        if (p.backend != MKL) for(int i=0; i<nc; i++) if (res[0][i][r] != res[1][i][r]) fail("Fortran and native plans give different results on rank " + std::to_string(r));
        if (ops[0][r].size() != ops[1][r].size()) fail("the Fortran plan communicates differently from the native plan with the same options on rank " + std::to_string(r));
        for(size_t i=0; i<ops[0][r].size(); i++) if (ops[0][r][i].fn != ops[1][r][i].fn or ops[0][r][i].count != ops[1][r][i].count or ops[0][r][i].peer != ops[1][r][i].peer) fail("the Fortran plan communicates differently (" + ops[1][r][i].fn + " instead of " + ops[0][r][i].fn + ") from the native plan with the same options on rank " + std::to_string(r));
    }
    c.weight = 2 * nc; c.nontrivial = p.n[0] * p.n[1] * p.n[2] > 1;
}
int main(int argc, char **argv){ return pbt::run(argc, argv, {{"c18", c18, 15000, 200000}}); }
