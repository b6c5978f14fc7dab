// Every CPU build configuration of the library (compiled once per configuration, HAVE_* say what is built in).
#include "tcall.h"
#include "heffte.h"
#include "plan_c.h"
using pbt::Gen; using pbt::Case; using pbt::fail;
#ifndef HAVE_FFTW
#define HAVE_FFTW 0
#endif
#ifndef HAVE_MKL
#define HAVE_MKL 0
#endif

std::unique_ptr<Plan> make_plan(PlanSpec const &s){
#if HAVE_FFTW
    if (s.backend == FFTW) return make_plan_fftw(s);
#endif
#if HAVE_MKL
    if (s.backend == MKL) return make_plan_mkl(s);
#endif
    return make_plan_stock(s);
}
static void sim_failed(std::string const &m){ fail("MPI protocol: " + m); }

static void transform(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2C, R2R}; go.backends = {STOCK};
#if HAVE_FFTW
    go.backends.push_back(FFTW);
#endif
#if HAVE_MKL
    go.backends.push_back(MKL);
#endif
    go.max_volume = 3000; go.max_ranks = 9; go.big = true;
    Problem p = gen_problem(g, go);
    if (p.kind != R2R and p.opts.pencils and g.chance(1, 6)){ p.opts = PlanOpts(); p.opts.use_default = true; p.opts.algorithm = 1; }
    bool by_c = p.kind != R2R and p.opts.subranks < 0 and p.opts.subcomm.empty() and (p.opts.use_default or p.opts.algorithm > 0) and g.chance(1, 4);
    std::vector<TCall> calls; int nc = g.range(1, 2); for(int i=0; i<nc; i++) { TCall t = gen_call(g, p, not by_c); if (by_c and t.c.form == 4) t.c.form = 0; calls.push_back(t); }
    c.desc << p.str(); if (by_c) c.desc << " C-interface"; for(auto const &t : calls) c.desc << " " << t.str();
    label_problem(c, p); if (by_c) c.label("C-interface"); for(auto const &t : calls){ if (t.c.batch > 1) c.label("batch"); c.label(t.c.forward ? "forward" : "backward"); }
    pbt::publish(c);
    for(auto &t : calls) prepare(t, p);
    std::vector<std::string> refused(p.nranks); std::vector<char> ok(p.nranks, 0);
    simmpi::failure_handler = sim_failed;
    simmpi::run(p.nranks, p.sched, [&](int r){
        std::unique_ptr<Plan> plan;
        if (by_c){
            Box const &bi = p.in[r], &bo = p.out[r]; int v[4] = {p.opts.reorder, shim_algorithm(p.opts.algorithm), p.opts.pencils, 0}; void *h = nullptr;
            int e = shim_create(p.kind == R2C, shim_backend(p.backend), bi.lo.data(), bi.hi.data(), bi.order.data(), bo.lo.data(), bo.hi.data(), bo.order.data(), p.r2c_dir, MPI_COMM_WORLD, p.opts.use_default ? nullptr : v, &h);
            if (e != shim_success()){ refused[r] = "code " + std::to_string(e); return; }
            plan.reset(new PlanC(h, p.kind == R2C));
        }else try { plan = make_plan(p.spec(r)); } catch(std::runtime_error &e){ refused[r] = e.what(); return; }
        ok[r] = 1; for(auto const &t : calls) execute(t, p, *plan, r, "transform");
    });
    int n = 0; for(char x : ok) n += x;
    if (n > 0 and n < p.nranks) fail("plan creation refused on some processes only");
    if (n == 0 and not p.tight) fail("plan creation refused a valid problem: " + refused[0]);
    c.nontrivial = n > 0 and p.n[0] * p.n[1] * p.n[2] > 1 and (p.nranks > 1 or p.in[0].order != p.out[0].order);
}

template<typename tag> void enabled(char const *name, bool expected){
    if (heffte::backend::is_enabled<tag>::value != expected) fail(std::string(name) + (expected ? " is built in but reported as not enabled" : " is not built in but reported as enabled"));
}
//! The engines that are reported, the default engine, and the answers of the C interface.
static void interface(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, R2C}; go.backends = {STOCK}; go.max_volume = 200; go.max_ranks = 4; go.allow_tight = false; go.subranks = false; go.subcomm = false;
    Problem p = gen_problem(g, go); int code = g.pick({0, 0, 1, 1, 1, 2, 2, 2, 10, 11}); bool have = code == 0 or (code == 1 and HAVE_FFTW) or (code == 2 and HAVE_MKL); bool null_options = g.chance(1, 3);
    c.desc << "interface backend=" << code << (null_options ? " null-options " : " ") << p.str(); c.label(have ? "interface:available" : "interface:unavailable"); pbt::publish(c);
    namespace hb = heffte::backend;
    enabled<hb::stock>("stock", true); enabled<hb::stock_cos>("stock_cos", true); enabled<hb::stock_sin>("stock_sin", true); enabled<hb::stock_cos1>("stock_cos1", true);
    enabled<hb::fftw>("fftw", HAVE_FFTW); enabled<hb::fftw_cos>("fftw_cos", HAVE_FFTW); enabled<hb::fftw_sin>("fftw_sin", HAVE_FFTW); enabled<hb::fftw_cos1>("fftw_cos1", HAVE_FFTW); enabled<hb::fftw_sin1>("fftw_sin1", HAVE_FFTW);
    enabled<hb::mkl>("mkl", HAVE_MKL); enabled<hb::mkl_cos>("mkl_cos", HAVE_MKL); enabled<hb::mkl_sin>("mkl_sin", HAVE_MKL);
    enabled<hb::cufft>("cufft", false); enabled<hb::rocfft>("rocfft", false); enabled<hb::onemkl>("onemkl", false);
    typedef hb::default_backend<heffte::tag::cpu>::type D;
#if HAVE_MKL
    typedef hb::mkl E;
#elif HAVE_FFTW
    typedef hb::fftw E;
#else
    typedef hb::stock E;
#endif
    if (not std::is_same<D, E>::value) fail("the default engine of the processor is " + hb::name<D>() + ", expected " + hb::name<E>());
    std::vector<int> codes(p.nranks, -1); simmpi::failure_handler = sim_failed;
    simmpi::run(p.nranks, p.sched, [&](int r){
        int v[4] = {-5, -5, -5, -5}; int e = shim_defaults(code, v);
        if (have != (e == shim_success())) fail("heffte_set_default_options() returns " + std::to_string(e) + " for an engine that is " + (have ? "built in" : "not built in"));
        int values[4] = {p.opts.reorder, shim_algorithm(p.opts.algorithm == 0 ? 1 : p.opts.algorithm), p.opts.pencils, 0}; Box const &bi = p.in[r], &bo = p.out[r]; void *h = nullptr;
        e = shim_create(p.kind == R2C, code, bi.lo.data(), bi.hi.data(), bi.order.data(), bo.lo.data(), bo.hi.data(), bo.order.data(), p.r2c_dir, MPI_COMM_WORLD, (null_options and have) ? nullptr : values, &h);
        if (have and e != shim_success()) fail("the C interface refuses an engine that is built in with code " + std::to_string(e));
        if (not have and e != 1) fail("the C interface answers " + std::to_string(e) + " for an engine that is not built in, expected 1");
        if (e == shim_success()){
            if (shim_size(h, 3) != code or shim_size(h, 0) != p.in[r].count() or shim_size(h, 1) != p.out[r].count()) fail("the C plan reports a wrong engine or wrong sizes");
            if (shim_destroy(h) != shim_success()) fail("the C plan is not destroyed");
        }
    });
    c.nontrivial = true;
}
static void c25(Gen &g, Case &c){ if (g.chance(1, 12)) interface(g, c); else transform(g, c); }

int main(int argc, char **argv){ return pbt::run(argc, argv, {{"c25", c25, 9000, 150000}}); }
