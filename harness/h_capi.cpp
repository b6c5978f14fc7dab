// The C interface against the C++ interface, and the rejection of invalid requests by both.
#include "tcall.h"
#include "plan_c.h"
#include "heffte.h"
#include <sanitizer/allocator_interface.h>
using pbt::Gen; using pbt::Case; using pbt::fail;

std::unique_ptr<Plan> make_plan(PlanSpec const &s){ return s.backend == STOCK ? make_plan_stock(s) : (s.backend == FFTW ? make_plan_fftw(s) : make_plan_mkl(s)); }
static void sim_failed(std::string const &m){ fail("MPI protocol: " + m); }

struct COpts { bool null_options = false, null_in = false, null_out = false; int gpu = 1; };
static int backend_code(int b){ return shim_backend(b); }
static int create_c(Problem const &p, int r, COpts const &o, int algorithm, void **plan){
    Box const &bi = p.in[r], &bo = p.out[r];
    int v[4] = {p.opts.reorder, algorithm, p.opts.pencils, o.gpu};
    return shim_create(p.kind == R2C, backend_code(p.backend), bi.lo.data(), bi.hi.data(), o.null_in ? nullptr : bi.order.data(), bo.lo.data(), bo.hi.data(), o.null_out ? nullptr : bo.order.data(), p.r2c_dir, MPI_COMM_WORLD, o.null_options ? nullptr : v, plan);
}
static COpts gen_copts(Gen &g, Problem &p){
    COpts o; if (p.opts.algorithm == 0) p.opts.algorithm = 1; p.opts.subranks = -1; I3 id{0,1,2};
    o.null_options = g.chance(1, 4); o.null_in = p.in[0].order == id and g.chance(1, 2); o.null_out = p.out[0].order == id and g.chance(1, 2); o.gpu = g.below(2);
    if (o.null_options) p.opts.use_default = true;
    return o;
}
static bool fits_all(Problem const &p){
    bool slabs = not p.opts.pencils and not p.opts.use_default; int eff = p.opts.workers(p.nranks);
    return roomy(p.n, eff, slabs) and roomy(p.nout, eff, slabs);
}
//! Memory held after repeating a complete history must not keep growing.
static void no_growth(std::function<void()> const &history, char const *what){
    size_t a[5];
    for(int i=0; i<5; i++){ history(); a[i] = __sanitizer_get_current_allocated_bytes(); }
    bool growing = true; for(int i=1; i<5; i++) if (not (a[i] > a[i-1])) growing = false;
    if (growing){ std::ostringstream o; o << what << ": the memory held after each identical history keeps growing:"; for(size_t x : a) o << " " << x; fail(o.str()); }
}
static int gen_bad_backend(Gen &g){ return g.pick({3, 4, 9, 10, 11, 12, 100, -1, -2, 1 << 20}); }

// ---- C16 -----------------------------------------------------------------------------------------------------------
static void c16(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, R2C}; go.max_volume = 1500; go.max_ranks = 8; go.subranks = false;
    Problem p = gen_problem(g, go); COpts co = gen_copts(g, p); p.tight = not fits_all(p);
    std::vector<TCall> calls; int nc = g.range(1, 3);
    for(int i=0; i<nc; i++){ TCall t = gen_call(g, p, false); if (t.c.form == 4) t.c.form = 0; t.c.dbl = not g.chance(1, 2); calls.push_back(t); }
    bool tamper = g.chance(1, 8), growth = g.chance(1, 8) and p.backend != MKL;
    c.desc << p.str() << (co.null_options ? " null-options" : "") << (co.null_in ? " null-in-order" : "") << (co.null_out ? " null-out-order" : "") << " gpu=" << co.gpu; for(auto const &t : calls) c.desc << " " << t.str(); if (tamper) c.desc << " tamper"; if (growth) c.desc << " growth";
    label_problem(c, p); if (co.null_options) c.label("null-options"); if (co.null_in or co.null_out) c.label("null-order"); if (growth) c.label("memory-growth");
    for(auto const &t : calls) c.label(std::string(t.c.forward ? "forward" : "backward") + (p.kind == R2C ? "-r2c" : (t.c.real_side ? "-real" : "-complex")) + (t.c.dbl ? "-double" : "-float") + (t.c.form ? "-buffered" : ""));
    pbt::publish(c); for(auto &t : calls) prepare(t, p);
    simmpi::failure_handler = sim_failed; bool refused = false; std::vector<int> said(p.nranks);
    // options
    int v[4]; if (shim_defaults(backend_code(p.backend), v) != shim_success()) fail("the default options of a valid backend are refused");
    heffte::plan_options d = p.backend == STOCK ? heffte::default_options<heffte::backend::stock>() : (p.backend == FFTW ? heffte::default_options<heffte::backend::fftw>() : heffte::default_options<heffte::backend::mkl>());
    int da = d.algorithm == heffte::reshape_algorithm::alltoallv ? 1 : (d.algorithm == heffte::reshape_algorithm::p2p ? 2 : (d.algorithm == heffte::reshape_algorithm::p2p_plined ? 3 : 0));
    if ((v[0] != 0) != d.use_reorder or v[1] != da or (v[2] != 0) != d.use_pencils or (v[3] != 0) != d.use_gpu_aware or v[0] == -7 or v[2] == -7 or v[3] == -7) fail("the default options differ from those of C++: reorder " + std::to_string(v[0]) + " algorithm " + std::to_string(v[1]) + " pencils " + std::to_string(v[2]) + " gpu-aware " + std::to_string(v[3]));
    simmpi::run(p.nranks, p.sched, [&](int r){
        std::unique_ptr<Plan> cpp; std::string why;
        try { cpp = make_plan(p.spec(r)); } catch(std::exception &e){ why = e.what(); }
        void *h = nullptr; int e = create_c(p, r, co, shim_algorithm(p.opts.algorithm), &h); said[r] = e;
        if ((e == shim_success()) != (cpp != nullptr)) fail("the C interface returns " + std::to_string(e) + " on rank " + std::to_string(r) + " where C++ " + (cpp ? "creates the plan" : "throws: " + why));
        if (not cpp){ refused = true; if (e != 2) fail("a failed plan creation returns " + std::to_string(e) + " instead of 2"); if (h != nullptr) fail("a failed plan creation leaves a plan behind"); return; }
        PlanC plan(h, p.kind == R2C);
        if (plan.size_inbox() != cpp->size_inbox() or plan.size_outbox() != cpp->size_outbox() or plan.size_workspace() != cpp->size_workspace()) fail("sizes differ from those of C++ on rank " + std::to_string(r) + ": inbox " + std::to_string(plan.size_inbox()) + "/" + std::to_string(cpp->size_inbox()) + " outbox " + std::to_string(plan.size_outbox()) + "/" + std::to_string(cpp->size_outbox()) + " workspace " + std::to_string(plan.size_workspace()) + "/" + std::to_string(cpp->size_workspace()));
        if (shim_size(h, 3) != backend_code(p.backend)) fail("the plan reports the wrong backend"); if (shim_size(h, 4) != (p.kind == R2C ? 1 : 0)) fail("the plan reports the wrong kind");
        for(auto const &t : calls){
            std::vector<char> a = execute(t, p, plan, r, "C call"), b = execute(t, p, *cpp, r, "C++ call");
            if (p.backend != MKL and a != b) fail("the C and C++ calls " + t.str() + " give different bits on rank " + std::to_string(r));
        }
        if (tamper){ shim_tamper(h, 77); if (shim_destroy(h) != 3) fail("destroying a corrupted plan does not return 3"); shim_tamper(h, backend_code(p.backend)); }
        int k = plan.destroy(); if (k != shim_success()) fail("destroying the plan returns " + std::to_string(k));
    });
    for(int r=0; r<p.nranks; r++) if (said[r] != said[0]) fail("the processes get different return codes");
    if (refused and not p.tight) fail("plan creation refused a valid problem");
    if (growth and not refused) no_growth([&](){ simmpi::run(p.nranks, p.sched, [&](int r){ void *h = nullptr; if (create_c(p, r, co, shim_algorithm(p.opts.algorithm), &h) != shim_success()) fail("plan creation failed when repeated"); PlanC plan(h, p.kind == R2C); TCall t = calls[0]; t.misalign = 0; execute(t, p, plan, r, "C call"); }); }, "destroying a plan does not release everything");
    if (refused) c.label("refused"); c.nontrivial = not refused and p.n[0] * p.n[1] * p.n[2] > 1; c.weight = (long) calls.size() + 1;
}

// ---- C19 -----------------------------------------------------------------------------------------------------------
static Box bounds(std::vector<Box> const &v){
    Box w; bool first = true; for(auto const &b : v) if (not b.empty()){ for(int d=0; d<3; d++){ w.lo[d] = first ? b.lo[d] : std::min(w.lo[d], b.lo[d]); w.hi[d] = first ? b.hi[d] : std::max(w.hi[d], b.hi[d]); } first = false; } return w;
}
static bool is_partition(std::vector<Box> const &v, Box const &w){
    long n = 0; for(size_t i=0; i<v.size(); i++){ if (v[i].empty()) continue; n += v[i].count(); for(size_t j=0; j<i; j++) if (not v[j].empty() and not intersect(v[i], v[j]).empty()) return false; } return n == w.count();
}
//! Changes the boxes so that they overlap or leave a hole while their bounding box stays the same; false when no attempt succeeded.
static bool spoil(Gen &g, std::vector<Box> &v, std::string &how){
    Box w = bounds(v); int p = (int) v.size();
    for(int tries=0; tries<12; tries++){
        std::vector<Box> u = v; int steps = g.range(1, 2); std::string h;
        for(int s=0; s<steps; s++){
            Box &b = u[g.below(p)]; int d = g.below(3), op = g.below(6);
            switch(op){
                case 0: if (b.size(d) > 1) b.hi[d]--; h += "shrink-high "; break;
                case 1: if (b.size(d) > 1) b.lo[d]++; h += "shrink-low "; break;
                case 2: if (b.hi[d] < w.hi[d]) b.hi[d]++; h += "grow-high "; break;
                case 3: if (b.lo[d] > w.lo[d]) b.lo[d]--; h += "grow-low "; break;
                case 4: { int k = g.pick({1, -1}); if (b.lo[d] + k >= w.lo[d] and b.hi[d] + k <= w.hi[d]){ b.lo[d] += k; b.hi[d] += k; } h += "shift "; break; }
                default: { Box const &o = u[g.below(p)]; b = o; h += "duplicate "; break; }
            }
        }
        bool empty = false; for(auto const &b : u) empty = empty or b.empty();
        if (empty or not bounds(u).same(w) or is_partition(u, w)) continue;
        v = u; how = h; return true;
    }
    return false;
}
static void c19(Gen &g, Case &c){
    int what = g.weighted({4, 5, 4, 5, 2}); static const char *nm[] = {"short-vectors", "bad-boxes", "too-small-grid", "C-requests", "C-valid-and-invalid-mixed"};
    bool use_c = what >= 3;
    GenOpts go; if (use_c) go.kinds = {C2C, R2C}; else go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 400; go.max_ranks = what == 2 ? 16 : 8; go.max_dim = 12; go.subranks = not use_c;
    Problem p = gen_problem(g, go);
    if (what == 2 or (use_c and g.chance(1, 4))){ // few indexes for many processes
        int lo = (p.kind == R2R and p.r2r == 2) ? 2 : 1; for(int d=0; d<3; d++) p.n[d] = g.range(lo, 5); p.nout = p.kind == R2C ? half_dims(p.n, p.r2c_dir) : p.n;
        long vol = std::min((long) p.n[0] * p.n[1] * p.n[2], (long) p.nout[0] * p.nout[1] * p.nout[2]); p.nranks = (int) std::min<long>(vol, g.range(1, go.max_ranks));
        p.in = gen_partition(g, p.n, p.nranks, p.in_style); p.out = gen_partition(g, p.nout, p.nranks, p.out_style); if (p.opts.subranks > p.nranks) p.opts.subranks = p.nranks; p.opts.subcomm.clear();
    }
    COpts co; if (use_c) co = gen_copts(g, p);
    TCall t = gen_call(g, p, not use_c); if (use_c and t.c.form == 4) t.c.form = 0;
    Problem bad = p; bool spoiled = false; std::string how; int bad_backend = 0, bad_algorithm = 0, flaw = 0, cut = 1;
    if (what == 1 or use_c){
        flaw = what == 1 ? 1 : g.range(1, 4); // 1 boxes 2 offset world 3 backend 4 algorithm
        if (what == 1 and g.chance(1, 6)) flaw = 2;
        if (flaw == 1){ bool out_side = g.chance(1, 2); spoiled = spoil(g, out_side ? bad.out : bad.in, how); if (spoiled) how += out_side ? "(output)" : "(input)"; if (not spoiled) flaw = 2; }
        if (flaw == 2){ int d = g.below(3), k = g.pick({1, 2, 5, -1, -3}); for(auto *v : {&bad.in, &bad.out}) for(auto &b : *v){ b.lo[d] += k; b.hi[d] += k; } how = "offset-world"; }
        if (flaw == 3){ bad_backend = gen_bad_backend(g); how = "backend=" + std::to_string(bad_backend); }
        if (flaw == 4){ bad_algorithm = g.pick({3, 4, -1, 17, 1000}); how = "algorithm=" + std::to_string(bad_algorithm); co.null_options = false; bad.opts.use_default = p.opts.use_default = false; }
    }
    if (what == 0) cut = g.chance(1, 2) ? 1 : g.range(1, 40);
    p.tight = not fits_all(p);
    c.desc << nm[what] << " " << how << " cut=" << cut << " " << p.str() << " " << t.str(); if (flaw == 1) c.desc << " bad-in=" << boxes_str(bad.in) << " bad-out=" << boxes_str(bad.out);
    c.label(nm[what]); if (flaw) c.label(flaw == 1 ? "flaw:boxes" : (flaw == 2 ? "flaw:offset" : (flaw == 3 ? "flaw:backend" : "flaw:algorithm"))); label_problem(c, p); pbt::publish(c); prepare(t, p);
    simmpi::failure_handler = sim_failed; bool refused_valid = false; std::vector<int> ok(p.nranks, 0);
    auto history = [&](){ simmpi::run(p.nranks, p.sched, [&](int r){
        long live0 = simmpi::live_objects();
        auto valid = [&](){ // the request without the flaw is served on the same communicator
            if (use_c){
                void *h = nullptr; int e = create_c(p, r, co, shim_algorithm(p.opts.algorithm), &h);
                if (e != shim_success()){ refused_valid = true; if (e != 2) fail("plan creation returns " + std::to_string(e)); if (h) fail("a failed plan creation leaves a plan behind"); return; }
                ok[r] = 1; PlanC plan(h, p.kind == R2C); execute(t, p, plan, r, "valid request after a rejected one"); return; }
            std::unique_ptr<Plan> plan;
            try { plan = make_plan(p.spec(r)); } catch(std::runtime_error &){ refused_valid = true; return; }
            ok[r] = 1; execute(t, p, *plan, r, "valid request after a rejected one");
            if (what == 0){
                // vectors that are too small, on all processes
                for(int dir=0; dir<2; dir++){
                    Call k = t.c; k.forward = dir == 0; k.form = 4; k.batch = 1; long need = k.forward ? plan->size_inbox() : plan->size_outbox(); k.vec_count = std::max(0L, need - cut);
                    std::unique_ptr<char[]> in(new char[k.vec_count * 16 + 1]), out(new char[std::max(p.in[r].count(), p.out[r].count()) * 16 + 1]); std::memset(in.get(), 0, k.vec_count * 16); k.in = in.get(); k.out = out.get();
                    bool thrown = false; try { plan->call(k); } catch(std::exception &){ thrown = true; }
                    if (not thrown) fail(std::string("a ") + (k.forward ? "forward" : "backward") + " input vector of " + std::to_string(k.vec_count) + " entries was accepted on rank " + std::to_string(r) + " where " + std::to_string(need) + " are needed");
                }
                execute(t, p, *plan, r, "call after a rejected one");
            }
        };
        if (what == 1){
            bool thrown = false; std::unique_ptr<Plan> plan;
            try { plan = make_plan(bad.spec(r)); } catch(std::exception &){ thrown = true; }
            if (not thrown) fail("boxes that are no partition (" + how + ") were accepted on rank " + std::to_string(r));
            if (simmpi::live_objects() != live0) fail("a rejected plan creation leaves communicators, groups or requests behind");
        }
        if (use_c){
            int marker = 0; void *h = &marker, *before = h; int code = backend_code(p.backend); int v[4] = {p.opts.reorder, flaw == 4 ? bad_algorithm : shim_algorithm(p.opts.algorithm), p.opts.pencils, co.gpu};
            if (flaw == 3){ code = bad_backend; int dv[4]; if (shim_defaults(bad_backend, dv) != 1) fail("default options of an unavailable backend are not refused with code 1"); }
            Box const &bi = bad.in[r], &bo = bad.out[r];
            int e = shim_create(p.kind == R2C, code, bi.lo.data(), bi.hi.data(), co.null_in ? nullptr : bi.order.data(), bo.lo.data(), bo.hi.data(), co.null_out ? nullptr : bo.order.data(), p.r2c_dir, MPI_COMM_WORLD, co.null_options ? nullptr : v, &h);
            int expect = flaw == 3 ? 1 : 2;
            if (e != expect) fail("the invalid request (" + how + ") returns " + std::to_string(e) + " instead of " + std::to_string(expect) + " on rank " + std::to_string(r));
            if (h != nullptr and not (flaw == 3 and h == before)) fail("the rejected request (" + how + ") leaves a plan behind");
            if (simmpi::live_objects() != live0) fail("a rejected request leaves communicators, groups or requests behind");
        }
        valid();
        if (simmpi::live_objects() != live0) fail("communicators, groups or requests are left behind");
    }); };
    bool growth = p.backend != MKL and g.chance(1, 10); if (growth){ t.misalign = 0; c.label("memory-growth"); no_growth(history, "rejected requests leak"); } else history();
    int n = 0; for(int x : ok) n += x;
    if (n != 0 and n != p.nranks) fail("a valid request was refused on some processes only");
    if (refused_valid and not p.tight) fail("a valid request was refused");
    if (refused_valid) c.label("refused-too-small");
    c.nontrivial = what == 2 ? p.tight : true;
}
int main(int argc, char **argv){ return pbt::run(argc, argv, {{"c16", c16, 12000, 200000}, {"c19", c19, 40000, 400000}}); }
