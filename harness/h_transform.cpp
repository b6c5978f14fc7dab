// Properties of complete transforms on the simulated machine.
#include "tcall.h"
using pbt::Gen; using pbt::Case; using pbt::fail;

std::unique_ptr<Plan> make_plan(PlanSpec const &s){
    if (s.wide) return s.backend == STOCK ? make_plan_stock_w(s) : make_plan_fftw_w(s);
    return s.backend == STOCK ? make_plan_stock(s) : (s.backend == FFTW ? make_plan_fftw(s) : make_plan_mkl(s));
}
static void sim_failed(std::string const &m){ fail("MPI protocol: " + m); }

//! Runs the body on all ranks; a documented refusal (grid too small for the number of processes) must be common to all ranks.
static bool run_problem(Problem const &p, std::function<void(int, Plan&)> const &body, simmpi::Stats *st = nullptr){
    std::vector<std::string> refused(p.nranks); std::vector<char> ok(p.nranks, 0);
    simmpi::failure_handler = sim_failed;
    simmpi::Stats s = simmpi::run(p.nranks, p.sched, [&](int r){
        std::unique_ptr<Plan> plan;
        try { plan = make_plan(p.spec(r)); } catch(std::runtime_error &e){ refused[r] = e.what(); return; }
        ok[r] = 1; body(r, *plan);
    });
    if (st) *st = s;
    int n = 0; for(char c : ok) n += c;
    if (n == p.nranks) return true;
    if (n > 0) fail("plan creation refused on some processes only: " + refused[std::find(ok.begin(), ok.end(), 0) - ok.begin()]);
    if (not p.tight) fail("plan creation refused a valid problem: " + refused[0]);
    return false;
}
static void sizes_ok(Problem const &p, Plan &plan, int r){
    if (plan.size_inbox() != p.in[r].count() or plan.size_outbox() != p.out[r].count()) fail("plan reports wrong box sizes on rank " + std::to_string(r));
    if (not plan.inbox().same(p.in[r]) or not plan.outbox().same(p.out[r]) or plan.inbox().order != p.in[r].order or plan.outbox().order != p.out[r].order) fail("plan reports wrong boxes on rank " + std::to_string(r));
}
static bool moves_data(Problem const &p){ return p.nranks > 1 or p.in[0].order != p.out[0].order; }

static void transform_prop(Gen &g, Case &c, std::vector<int> kinds){
    GenOpts go; go.kinds = kinds; go.big = true;
    Problem p = gen_problem(g, go);
    std::vector<TCall> calls; int nc = g.range(1, 2); for(int i=0; i<nc; i++) calls.push_back(gen_call(g, p));
    c.desc << p.str(); for(auto const &t : calls) c.desc << " " << t.str();
    label_problem(c, p); for(auto const &t : calls){ if (t.c.batch > 1) c.label("batch"); if (t.inplace) c.label("inplace"); if (t.c.real_side) c.label("real-side"); c.label(t.c.forward ? "forward" : "backward"); }
    pbt::publish(c);
    for(auto &t : calls) prepare(t, p);
    bool done = run_problem(p, [&](int r, Plan &plan){ sizes_ok(p, plan, r); for(auto const &t : calls) execute(t, p, plan, r, "transform"); });
    if (not done) c.label("refused");
    c.nontrivial = done and p.n[0] * p.n[1] * p.n[2] > 1 and moves_data(p);
}
static void c01(Gen &g, Case &c){ transform_prop(g, c, {C2C}); }
static void c02(Gen &g, Case &c){ transform_prop(g, c, {R2C}); }
static void c03(Gen &g, Case &c){ transform_prop(g, c, {R2R}); }


// ---- C04: scaling --------------------------------------------------------------------------------------------------
static void c04(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 3000; go.big = true;
    Problem p = gen_problem(g, go);
    int s1 = g.below(3); int s2 = (s1 == 0) ? 1 : (s1 == 1 ? 0 : 2);
    TCall a = gen_call(g, p); a.c.scale = g.below(3);
    TCall f = gen_call(g, p); f.c.forward = true; f.c.scale = s1; f.inplace = false; f.c.real_side = false; if (f.c.form == 4) f.c.form = 0;
    int bform = g.below(4), nb = f.c.batch; if (nb > 1) bform = 2 + bform % 2;
    c.desc << p.str() << " " << a.str() << " roundtrip " << f.str() << " then scale " << s2 << " form " << bform; label_problem(c, p);
    c.label("scale:" + std::to_string(a.c.scale)); c.label("roundtrip:" + std::to_string(s1));
    pbt::publish(c); prepare(a, p); prepare(f, p);
    double N = logical_count(p) * convention(p, false);
    bool done = run_problem(p, [&](int r, Plan &plan){
        double full = plan.factor(1), sym = plan.factor(2);
        if (not (std::abs(full * N - 1.0) < 1e-13)) { std::ostringstream o; o.precision(17); o << "full scale factor " << full << " on rank " << r << ", expected 1/" << N; fail(o.str()); }
        if (not (std::abs(sym * std::sqrt(N) - 1.0) < 1e-13)) { std::ostringstream o; o.precision(17); o << "symmetric scale factor " << sym << " on rank " << r << ", expected 1/sqrt(" << N << ")"; fail(o.str()); }
        execute(a, p, plan, r, "scaled transform");
        std::vector<char> spec = execute(f, p, plan, r, "scaled forward");
        // round trip: the distributed spectrum goes straight back
        bool rr = (p.kind == R2R), rout = (p.kind != C2C);
        Arr in(p.out[r].count() * nb, p.dbl, not rr), out(p.in[r].count() * nb, p.dbl, not rout); if (in.bytes()) std::memcpy(in.p, spec.data(), in.bytes());
        Arr ws((bform == 1 or bform == 2) ? plan.size_workspace() * nb : 0, p.dbl, p.kind != R2R);
        Call b; b.forward = false; b.dbl = p.dbl; b.form = bform; b.batch = nb; b.scale = s2; b.in = in.p; b.out = out.p; b.ws = ws.p;
        plan.call(b);
        for(int k=0; k<nb; k++){
            Mismatch m; compare_box(m, out, k * p.in[r].count(), f.x[k], 1.0, p.in[r], rout, r); double tol = tolerance(p.dbl, f.x[k], 1.0) * 4;
            if (m.nan or not (std::sqrt(m.err2) <= tol)) fail("forward then backward with total scaling 1/N does not return the input: " + m.where);
        }
    });
    if (not done) c.label("refused");
    c.nontrivial = done and N > 1;
}
// ---- C05: options --------------------------------------------------------------------------------------------------
static double box_diff(std::vector<char> const &a, std::vector<char> const &b, bool dbl){
    if (a.size() != b.size()) fail("results of different sizes");
    double e = 0; size_t n = a.size() / (dbl ? 8 : 4);
    for(size_t i=0; i<n; i++){ double x = dbl ? ((double const*) a.data())[i] - ((double const*) b.data())[i] : (double) ((float const*) a.data())[i] - ((float const*) b.data())[i]; e += x * x; }
    return std::sqrt(e);
}
static void c05(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 3000; go.allow_tight = true; go.big = true;
    Problem p = gen_problem(g, go);
    TCall t = gen_call(g, p);
    std::vector<PlanOpts> opts; { PlanOpts d; d.use_default = true; opts.push_back(d); }
    int k = g.range(2, 5);
    for(int i=0; i<k; i++){ PlanOpts o; o.algorithm = g.below(4); o.pencils = not g.chance(1, 2); o.reorder = not g.chance(1, 2); if (g.chance(1, 3)){ o.subranks = g.range(1, p.nranks); if (g.chance(1, 3)){ o.subcomm = gen_subcomm(g, p.nranks, o.subranks); if (g.chance(1, 2)) o.late = g.range(0, p.nranks + 1); } } if (g.chance(1, 4)) o.gpu_aware = false; opts.push_back(o); }
    c.desc << p.str() << " " << t.str() << " options:"; for(auto const &o : opts) c.desc << " {" << opts_str(o) << "}";
    label_problem(c, p); pbt::publish(c); prepare(t, p);
    std::vector<std::vector<std::vector<char>>> res(opts.size(), std::vector<std::vector<char>>(p.nranks)); std::vector<char> have(opts.size(), 0);
    int good = 0;
    for(size_t i=0; i<opts.size(); i++){
        Problem q = p; q.opts = opts[i]; q.sched.seed += i;
        int eff = q.opts.workers(q.nranks); bool slabs = not q.opts.pencils and not q.opts.use_default;
        // a refusal is legal only when the intermediate distributions may not exist
        auto fits = [&](int n){ return roomy(q.n, n, slabs) and roomy(q.nout, n, slabs); };
        q.tight = not fits(eff);
        have[i] = run_problem(q, [&](int r, Plan &plan){ res[i][r] = execute(t, q, plan, r, "options {" + opts_str(opts[i]) + "}"); });
        if (have[i]){
            good++;
            for(size_t j=0; j<i; j++) if (have[j]){
                for(int r=0; r<p.nranks; r++){ double tol = 0; for(auto const &x : t.ref) tol += tolerance(p.dbl, x, t.factor); if (not (box_diff(res[i][r], res[j][r], p.dbl) <= 2 * tol)) fail("results differ between options {" + opts_str(opts[i]) + "} and {" + opts_str(opts[j]) + "} on rank " + std::to_string(r)); }
                break;
            }
        }else c.label("refused");
    }
    c.weight = (long) opts.size(); c.nontrivial = good >= 2 and moves_data(p) and p.n[0] * p.n[1] * p.n[2] > 1;
}
// ---- C06: batches --------------------------------------------------------------------------------------------------
static void c06(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 1200; go.allow_tight = false;
    Problem p = gen_problem(g, go);
    TCall t = gen_call(g, p); t.c.form = 2 + g.below(2); t.c.batch = g.range(1, 7); if (g.chance(1, 8)) t.c.batch = (int) std::min<long>(g.range(8, 48), std::max<long>(7, 2500 / ((long) p.n[0] * p.n[1] * p.n[2]))); t.inplace = false;
    c.desc << p.str() << " " << t.str(); label_problem(c, p); c.label("batch:" + std::string(t.c.batch < 8 ? std::to_string(t.c.batch) : "8+")); pbt::publish(c); prepare(t, p);
    bool done = run_problem(p, [&](int r, Plan &plan){
        std::vector<char> all = execute(t, p, plan, r, "batch");
        size_t one = all.size() / t.c.batch;
        for(int b=0; b<t.c.batch; b++){
            TCall s = t; s.c.form = t.c.form == 2 ? 1 : 0; s.c.batch = 1; s.x = {t.x[b]}; s.ref = {t.ref[b]};
            std::vector<char> single = execute(s, p, plan, r, "single");
            std::vector<char> part(all.begin() + b * one, all.begin() + (b + 1) * one);
            if (not (box_diff(single, part, p.dbl) <= tolerance(p.dbl, t.ref[b], t.factor))) fail("batch entry " + std::to_string(b) + " differs from the single transform on rank " + std::to_string(r));
        }
    });
    c.weight = t.c.batch + 1; c.nontrivial = done and t.c.batch > 1 and p.n[0] * p.n[1] * p.n[2] > 1;
}
// ---- C07: memory ---------------------------------------------------------------------------------------------------
//! An array with guard zones on both sides, filled with a pattern.
struct Guarded {
    std::vector<char> buf; size_t bytes; static const size_t zone = 512;
    explicit Guarded(size_t b, bool nan, uint64_t seed) : buf(b + 2 * zone), bytes(b) { Rng r(seed); for(auto &x : buf) x = (char) 0xff; if (not nan) for(size_t i=0; i<b; i++) buf[zone + i] = (char) (0x3c + r.next() % 4); }
    char* data(){ return buf.data() + zone; }
    bool intact() const{ for(size_t i=0; i<zone; i++) if (buf[i] != (char) 0xff or buf[zone + bytes + i] != (char) 0xff) return false; return true; }
};
static void c07(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 2500;
    Problem p = gen_problem(g, go);
    TCall t = gen_call(g, p); t.inplace = false; if (t.c.form == 4) t.c.form = 1;
    bool guard = g.chance(1, 2);
    bool try_inplace = (p.kind == C2C and not t.c.real_side);
    if (try_inplace and t.c.batch > 1) for(int r=0; r<p.nranks; r++) if (p.in[r].count() != p.out[r].count()) try_inplace = false;
    c.desc << p.str() << " " << t.str() << (guard ? " guarded" : " exact") << (try_inplace ? " +inplace" : ""); label_problem(c, p); c.label(guard ? "guard-zones" : "sanitizer-bounds"); if (try_inplace) c.label("inplace-compared"); pbt::publish(c); prepare(t, p);
    bool done = run_problem(p, [&](int r, Plan &plan){
        Box const &bi = t.c.forward ? p.in[r] : p.out[r], &bo = t.c.forward ? p.out[r] : p.in[r]; int nb = t.c.batch;
        bool rin = in_is_real(p, t.c), rout = out_is_real(p, t.c);
        auto with = [&](int form, bool nan, uint64_t seed)->std::vector<char>{
            if (not guard){ TCall s = t; s.c.form = form; s.finite_prefill = not nan; s.seed = t.seed; return execute(s, p, plan, r, "transform"); }
            Arr in(bi.count() * nb, p.dbl, not rin); for(int b=0; b<nb; b++) fill_box(in, b * bi.count(), t.x[b], bi);
            Guarded gi(in.bytes(), true, 1), go(bo.count() * nb * Arr::esize(p.dbl, not rout), nan, seed), gw((form == 1 or form == 2) ? plan.size_workspace() * nb * Arr::esize(p.dbl, p.kind != R2R) : 0, nan, seed + 1);
            if (in.bytes()) std::memcpy(gi.data(), in.p, in.bytes());
            Call k = t.c; k.form = form; k.in = gi.data(); k.out = go.data(); k.ws = gw.data(); plan.call(k);
            if (not in.same_bytes(std::vector<char>(gi.data(), gi.data() + gi.bytes))) fail("the input array was modified on rank " + std::to_string(r));
            if (not gi.intact()) fail("write outside the input array on rank " + std::to_string(r));
            if (not go.intact()) fail("write outside the output array on rank " + std::to_string(r));
            if (not gw.intact()) fail("write outside the workspace of the reported size on rank " + std::to_string(r));
            Arr res(bo.count() * nb, p.dbl, not rout); if (res.bytes()) std::memcpy(res.p, go.data(), res.bytes());
            for(int b=0; b<nb; b++){ Mismatch m; compare_box(m, res, b * bo.count(), t.ref[b], t.factor, bo, rout, r); if (m.nan or not (std::sqrt(m.err2) <= tolerance(p.dbl, t.ref[b], t.factor) * 2)) fail("wrong result with guarded arrays: " + m.where); }
            return std::vector<char>(res.p, res.p + res.bytes());
        };
        double tol = 0; for(auto const &x : t.ref) tol += 2 * tolerance(p.dbl, x, t.factor);
        int form = t.c.form, other = form ^ 1; // the same call with / without a user workspace
        if (form >= 2) other = form == 2 ? 3 : 2;
        std::vector<char> r1 = with(form, true, 3), r2 = with(form, false, 5), r3 = with(other, g.tape.size() % 2 == 0, 7);
        if (not (box_diff(r1, r2, p.dbl) <= tol)) fail("the result depends on the prior contents of output or workspace on rank " + std::to_string(r));
        if (not (box_diff(r1, r3, p.dbl) <= tol)) fail("user and library workspace give different results on rank " + std::to_string(r));
        if (try_inplace){ TCall s = t; s.inplace = true; std::vector<char> r4 = execute(s, p, plan, r, "in-place transform"); if (not (box_diff(r1, r4, p.dbl) <= tol)) fail("in-place and out-of-place results differ on rank " + std::to_string(r)); }
    });
    c.weight = 3 + try_inplace; if (not done) c.label("refused"); c.nontrivial = done and p.n[0] * p.n[1] * p.n[2] > 1;
}
// ---- C14: schedules ------------------------------------------------------------------------------------------------
static void c14(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 1000; go.backends = {STOCK, STOCK, FFTW}; go.max_ranks = 16; go.big = g.chance(1, 3);
    Problem p = gen_problem(g, go);
    std::vector<TCall> calls; int nc = g.range(1, 3); for(int i=0; i<nc; i++) calls.push_back(gen_call(g, p));
    std::vector<simmpi::Schedule> sch; int ns = g.range(2, 6); for(int i=0; i<ns; i++) sch.push_back(gen_schedule(g, true));
    c.desc << p.str(); for(auto const &t : calls) c.desc << " " << t.str(); c.desc << " schedules:"; for(auto const &s : sch) c.desc << " " << sched_str(s);
    label_problem(c, p); pbt::publish(c); for(auto &t : calls) prepare(t, p);
    std::vector<std::vector<std::vector<char>>> base; bool done = true; long p2p = 0, sync = 0, late = 0, coll = 0, choices = 0, switches = 0;
    for(size_t i=0; i<sch.size(); i++){
        Problem q = p; q.sched = sch[i]; std::vector<std::vector<std::vector<char>>> res(p.nranks); simmpi::Stats st;
        done = run_problem(q, [&](int r, Plan &plan){ for(auto const &t : calls) res[r].push_back(execute(t, q, plan, r, "schedule " + sched_str(q.sched))); }, &st);
        if (not done) break;
        p2p += st.p2p; sync += st.p2p_sync; late += st.late; coll += st.collectives; choices += st.waitany_choices; switches += st.switches;
        if (i == 0) base = res;
        else for(int r=0; r<p.nranks; r++) for(size_t k=0; k<calls.size(); k++) if (res[r][k] != base[r][k]) fail("the result of " + calls[k].str() + " on rank " + std::to_string(r) + " depends on the schedule: " + sched_str(sch[i]) + " against " + sched_str(sch[0]));
    }
    if (sync) c.label("synchronous-sends"); if (late) c.label("late-delivery"); if (choices) c.label("waitany-choice"); if (p2p) c.label("point-to-point"); if (coll) c.label("collectives");
    c.weight = ns; c.nontrivial = done and p.nranks > 1 and (p2p + coll) > 0 and switches > 4;
}
// ---- C15: histories ------------------------------------------------------------------------------------------------
static void c15(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 500; go.allow_tight = false; go.max_ranks = 6;
    int np = 0, nprob = g.range(1, 3);
    std::vector<Problem> probs;
    for(int i=0; i<nprob; i++){ Problem p = gen_problem(g, go); probs.push_back(p); }
    for(auto const &p : probs) np = std::max(np, p.nranks);
    struct Op { int what = 0, slot = 0, prob = 0, from = -1; TCall t; };  // 0 call, 1 create, 2 destroy, 3 move, 4 short vector, 5 move assignment from slot `from` to another live plan of the same type
    std::vector<Op> ops; std::vector<int> slot; // problem of each live slot, -1 none
    // every problem runs on the first nranks processes through its own communicator
    slot.assign(4, -1); int nops = g.chance(1, 10) ? g.range(15, 60) : g.range(3, 14), ncalls = 0, live = 0; std::vector<int> last_dir;
    bool mixed = false; int kinds_of_calls = 0;
    for(int k=0; k<nops; k++){
        Op o; int w = live == 0 ? 1 : g.weighted({8, 2, 1, 1, 1, 2});
        if (w == 1){ o.what = 1; o.slot = g.below(4); o.prob = g.below(nprob); if (slot[o.slot] < 0) live++; slot[o.slot] = o.prob; ops.push_back(o); continue; }
        std::vector<int> al; for(int i=0; i<4; i++) if (slot[i] >= 0) al.push_back(i);
        o.slot = g.pick(al); o.prob = slot[o.slot];
        if (w == 0){
            Problem const &p = probs[o.prob]; o.t = gen_call(g, p); o.t.c.dbl = not g.chance(1, 2); ncalls++; if (o.t.c.dbl != p.dbl) mixed = true; kinds_of_calls |= o.t.c.forward ? 1 : 2;
        }else if (w == 2){ o.what = 2; slot[o.slot] = -1; live--; }
        else if (w == 3){ o.what = 3; }
        else if (w == 5){
            std::vector<int> same; Problem const &p = probs[o.prob];
            for(int i : al){ Problem const &q = probs[slot[i]]; if (i != o.slot and q.nranks == p.nranks and q.kind == p.kind and q.backend == p.backend and q.r2r == p.r2r and q.wide == p.wide) same.push_back(i); }
            if (same.empty()){ // make another plan of the same type first
                Op n = o; n.what = 1; n.slot = (o.slot + 1 + g.below(3)) % 4; if (slot[n.slot] < 0) live++; slot[n.slot] = o.prob; ops.push_back(n); same.push_back(n.slot);
            }
            o.what = 5; o.from = g.pick(same); slot[o.slot] = slot[o.from]; o.prob = slot[o.slot]; slot[o.from] = -1; live--;
        }
        else { o.what = 4; Problem const &p = probs[o.prob]; o.t.c.forward = not g.chance(1, 2); o.t.c.dbl = not g.chance(1, 2); o.t.c.form = 4; (void) p; }
        ops.push_back(o);
    }
    for(auto const &p : probs) c.desc << "{" << p.str() << "} "; c.desc << "history:";
    static const char *nm[] = {"call", "create", "destroy", "move", "short-vector", "move-assign"};
    for(auto const &o : ops){ c.desc << " " << nm[o.what] << "(" << o.slot; if (o.what == 1) c.desc << "=P" << o.prob; if (o.what == 0) c.desc << "," << o.t.str(); if (o.what == 5) c.desc << "<-" << o.from; c.desc << ")"; c.label(std::string("op:") + nm[o.what]); }
    pbt::publish(c);
    for(auto &o : ops) if (o.what == 0) prepare(o.t, probs[o.prob]);
    simmpi::failure_handler = sim_failed;
    simmpi::Schedule sc = probs[0].sched;
    simmpi::run(np, sc, [&](int r){
        std::vector<MPI_Comm> comms;
        for(auto const &p : probs){ MPI_Comm cm; MPI_Comm_split(MPI_COMM_WORLD, r < p.nranks ? 0 : MPI_UNDEFINED, r, &cm); comms.push_back(cm); }
        std::unique_ptr<Plan> plans[4];
        for(auto const &o : ops){
            Problem const &p = probs[o.prob]; if (r >= p.nranks) { if (o.what == 1) plans[o.slot].reset(); continue; }
            auto &pl = plans[o.slot];
            switch(o.what){
                case 1: { PlanSpec s = p.spec(r); s.comm = comms[o.prob]; pl = make_plan(s); break; }
                case 2: pl.reset(); break;
                case 3: pl = pl->moved(); break;
                case 5: if (not pl->assign(*plans[o.from])) throw std::logic_error("harness: plans of different types"); plans[o.from].reset(); break;
                case 4: {
                    // one entry less than required; must be refused before any communication
                    Call k = o.t.c; long need = k.forward ? pl->size_inbox() : pl->size_outbox();
                    bool guard_present = true; std::vector<char> in(need * 16), out(std::max(p.in[r].count(), p.out[r].count()) * 16); k.in = in.data(); k.out = out.data(); k.vec_count = need - 1;
                    bool thrown = false; try { if (guard_present) pl->call(k); } catch(std::invalid_argument &){ thrown = true; }
                    if (not thrown) fail("a vector that is too small was accepted on rank " + std::to_string(r)); break; }
                default: execute(o.t, p, *pl, r, "history step"); break;
            }
        }
        for(auto &pl : plans) pl.reset();
        for(auto &cm : comms) if (cm != MPI_COMM_NULL) MPI_Comm_free(&cm);
    });
    if (mixed) c.label("mixed-precision"); if (nprob > 1) c.label("several-plans");
    c.weight = (long) ops.size(); c.nontrivial = ncalls >= 2;
}
// ---- C21: 64-bit indexes -------------------------------------------------------------------------------------------
static void c21(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.backends = {STOCK, FFTW}; go.max_volume = 1500;
    Problem p = gen_problem(g, go); TCall t = gen_call(g, p), t2 = gen_call(g, p);
    c.desc << p.str() << " " << t.str() << " " << t2.str(); label_problem(c, p); pbt::publish(c); prepare(t, p); prepare(t2, p);
    std::vector<std::vector<char>> res[2]; std::vector<std::array<long,4>> sizes[2]; bool done[2];
    for(int w=0; w<2; w++){
        Problem q = p; q.wide = (w == 1); res[w].resize(2 * p.nranks); sizes[w].resize(p.nranks);
        done[w] = run_problem(q, [&](int r, Plan &plan){
            sizes[w][r] = {plan.size_inbox(), plan.size_outbox(), plan.size_workspace(), plan.size_comm()};
            res[w][r] = execute(t, q, plan, r, w ? "64-bit plan" : "32-bit plan"); res[w][p.nranks + r] = execute(t2, q, plan, r, w ? "64-bit plan" : "32-bit plan"); });
    }
    if (done[0] != done[1]) fail("32-bit and 64-bit plans disagree on whether the problem is accepted");
    if (done[0]) for(int r=0; r<p.nranks; r++){
        if (sizes[0][r] != sizes[1][r]) fail("32-bit and 64-bit plans report different sizes on rank " + std::to_string(r));
        if (res[0][r] != res[1][r] or res[0][p.nranks + r] != res[1][p.nranks + r]) fail("32-bit and 64-bit plans give different results on rank " + std::to_string(r));
    }
    c.weight = 2; c.nontrivial = done[0] and p.n[0] * p.n[1] * p.n[2] > 1;
}
// ---- C23: communicators --------------------------------------------------------------------------------------------
static void c23(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 500; go.allow_tight = false; go.max_ranks = 6;
    // several problems on several communicators over one set of processes
    int total = g.range(2, 10); int nplan = g.range(1, 3);
    struct Use { Problem p; std::vector<int> members; TCall t, t2; int how; };
    std::vector<Use> uses;
    for(int i=0; i<nplan; i++){
        Use u; GenOpts q = go; q.max_ranks = std::min(total, 6); u.p = gen_problem(g, q);
        std::vector<int> all(total); for(int k=0; k<total; k++) all[k] = k; for(size_t k=all.size(); k>1; k--) std::swap(all[k-1], all[g.below((uint32_t) k)]);
        if (not g.chance(2, 3)) { std::sort(all.begin(), all.end()); int off = g.range(0, total - u.p.nranks); std::rotate(all.begin(), all.begin() + off, all.end()); }
        u.members.assign(all.begin(), all.begin() + u.p.nranks); u.how = g.below(2); u.t = gen_call(g, u.p); u.t2 = gen_call(g, u.p); uses.push_back(u);
    }
    simmpi::Schedule sc = gen_schedule(g, true);
    int interleave = g.below(2);
    c.desc << "processes=" << total << " " << sched_str(sc) << (interleave ? " interleaved" : " sequential"); for(auto const &u : uses){ c.desc << " {" << u.p.str() << " members="; for(int m : u.members) c.desc << m << ","; c.desc << (u.how ? " group" : " split") << " " << u.t.str() << " " << u.t2.str() << "}"; if (u.p.opts.workers(u.p.nranks) < u.p.nranks) c.label("subranks"); }
    bool reordered = false, partial = false, overlap = false;
    for(auto const &u : uses){ if (not std::is_sorted(u.members.begin(), u.members.end())) reordered = true; if ((int) u.members.size() < total) partial = true; for(auto const &v : uses) if (&u != &v) for(int m : u.members) if (std::find(v.members.begin(), v.members.end(), m) != v.members.end()) overlap = true; }
    if (reordered) c.label("reordered"); if (partial) c.label("sub-group"); if (overlap) c.label("overlapping");
    pbt::publish(c); for(auto &u : uses){ prepare(u.t, u.p); prepare(u.t2, u.p); }
    simmpi::failure_handler = sim_failed;
    simmpi::run(total, sc, [&](int r){
        std::vector<MPI_Comm> comms; std::vector<std::unique_ptr<Plan>> plans(uses.size()); std::vector<int> me;
        for(auto const &u : uses){
            MPI_Comm cm = MPI_COMM_NULL; int k = (int) (std::find(u.members.begin(), u.members.end(), r) - u.members.begin()); if (k == (int) u.members.size()) k = -1; me.push_back(k);
            if (u.how == 0) MPI_Comm_split(MPI_COMM_WORLD, k >= 0 ? 1 : MPI_UNDEFINED, k, &cm);
            else { MPI_Group w, s; MPI_Comm_group(MPI_COMM_WORLD, &w); MPI_Group_incl(w, (int) u.members.size(), u.members.data(), &s); MPI_Comm_create(MPI_COMM_WORLD, s, &cm); MPI_Group_free(&s); MPI_Group_free(&w); }
            comms.push_back(cm);
        }
        auto create = [&](size_t i){ if (me[i] < 0) return; PlanSpec s = uses[i].p.spec(me[i]); s.comm = comms[i]; plans[i] = make_plan(s); };
        auto first = [&](size_t i){ if (me[i] >= 0) execute(uses[i].t, uses[i].p, *plans[i], me[i], "plan " + std::to_string(i)); };
        auto second = [&](size_t i){ if (me[i] >= 0) execute(uses[i].t2, uses[i].p, *plans[i], me[i], "plan " + std::to_string(i)); };
        if (interleave){ for(size_t i=0; i<uses.size(); i++) create(i); for(size_t i=uses.size(); i>0; i--) first(i-1); for(size_t i=0; i<uses.size(); i++) second(i); for(auto &p : plans) p.reset(); }
        else for(size_t i=0; i<uses.size(); i++){ create(i); first(i); second(i); plans[i].reset(); }
        for(auto &cm : comms) if (cm != MPI_COMM_NULL) MPI_Comm_free(&cm);
    });
    c.weight = nplan * 2; c.nontrivial = reordered or partial or overlap or nplan > 1;
}

//! A process outside of the requested ones may only hand out its input box and take its output box.
static void c23s(Gen &g, Case &c){
    GenOpts go; go.kinds = {C2C, C2C, R2C, R2R}; go.max_volume = 600; go.allow_tight = false; go.max_ranks = 12;
    Problem p = gen_problem(g, go);
    if (p.opts.workers(p.nranks) >= p.nranks){
        p.opts.subcomm.clear(); p.opts.late = -1; p.opts.subranks = p.nranks > 1 ? g.range(1, p.nranks - 1) : 1; bool slabs = not p.opts.pencils;
        while(p.opts.subranks > 1 and not (roomy(p.nout, p.opts.subranks, slabs) and roomy(p.n, p.opts.subranks, slabs))) p.opts.subranks--;
        if (g.chance(1, 2)){ p.opts.subcomm = gen_subcomm(g, p.nranks, p.opts.subranks); if (g.chance(1, 2)) p.opts.late = g.range(0, p.nranks + 1); }
    }
    if (p.opts.algorithm == 0) p.opts.algorithm = 1 + g.below(3); // alltoall pads its messages
    TCall t = gen_call(g, p);
    c.desc << "confinement " << p.str() << " " << t.str(); label_problem(c, p); pbt::publish(c); prepare(t, p);
    std::vector<char> works(p.nranks, 0); if (p.opts.subcomm.empty()) for(int i=0; i<p.opts.workers(p.nranks); i++) works[i] = 1; else for(int i : p.opts.subcomm) works[i] = 1;
    simmpi::Stats st; bool done = run_problem(p, [&](int r, Plan &plan){ execute(t, p, plan, r, "transform"); }, &st);
    long e = Arr::esize(p.dbl, p.kind != R2R) * t.c.batch;
    if (done) for(int r=0; r<p.nranks; r++) if (not works[r]){
        long in = (t.c.forward ? p.in[r] : p.out[r]).count() * e, out = (t.c.forward ? p.out[r] : p.in[r]).count() * e;
        if (st.sent_bytes[r] > in) fail("rank " + std::to_string(r) + " is not one of the requested processes but sent " + std::to_string(st.sent_bytes[r]) + " bytes, its input box holds " + std::to_string(in));
        if (st.received_bytes[r] > out) fail("rank " + std::to_string(r) + " is not one of the requested processes but received " + std::to_string(st.received_bytes[r]) + " bytes, its output box holds " + std::to_string(out));
    }
    c.nontrivial = done and p.opts.workers(p.nranks) < p.nranks and p.in_style != "slab" and p.out_style != "slab";
}

int main(int argc, char **argv){
    return pbt::run(argc, argv, {
        {"c01", c01, 25000, 400000}, {"c02", c02, 25000, 400000}, {"c03", c03, 25000, 400000}, {"c04", c04, 20000, 250000},
        {"c05", c05, 14000, 120000}, {"c06", c06, 20000, 200000}, {"c07", c07, 26000, 160000}, {"c14", c14, 15000, 150000},
        {"c15", c15, 22000, 200000}, {"c21", c21, 10000, 150000}, {"c23", c23, 10000, 150000}, {"c23s", c23s, 20000, 300000},
    });
}
