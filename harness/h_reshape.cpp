// Data movement between two distributions on the simulated machine.
#include "common.h"
#include "heffte.h"
using pbt::Gen; using pbt::Case; using pbt::fail;
std::unique_ptr<Plan> make_plan(PlanSpec const &){ return nullptr; }
static void sim_failed(std::string const &m){ fail("MPI protocol: " + m); }

struct Move { int type = 0, batch = 1; bool inplace = false; };
struct RProblem { int p = 1; I3 n{1,1,1}; std::vector<Box> in, out; int alg = 0; bool wide = false; simmpi::Schedule sched; std::vector<Move> moves; };

//! Some value unique for (batch, index), exact in every element type.
static double code(RProblem const &q, int b, I3 const &p){ return 1.0 + (((double) b * q.n[2] + p[2]) * q.n[1] + p[1]) * q.n[0] + p[0]; }
template<typename T> struct mk { static T of(double v){ return (T) v; } };
template<typename T> struct mk<std::complex<T>> { static std::complex<T> of(double v){ return std::complex<T>((T) v, (T) (-0.5 * v)); } };

template<typename T, typename index>
void one_move(RProblem const &q, Move const &m, int r, heffte::reshape3d_base<index> const *shaper){
    Box const &bi = q.in[r], &bo = q.out[r]; long ni = bi.count(), no = bo.count(); int nb = m.batch;
    T nan = mk<T>::of(std::nan(""));
    std::unique_ptr<T[]> src(new T[m.inplace ? std::max(ni, no) * nb : ni * nb]), dst(new T[m.inplace ? 0 : no * nb]), ws(new T[shaper ? shaper->size_workspace() * nb : 0]);
    if (m.inplace) std::fill_n(src.get(), std::max(ni, no) * nb, nan);
    std::fill_n(ws.get(), shaper ? shaper->size_workspace() * nb : 0, nan); if (not m.inplace) std::fill_n(dst.get(), no * nb, nan);
    for(int b=0; b<nb; b++) bi.each([&](I3 const &p, long k){ src[b * ni + k] = mk<T>::of(code(q, b, p)); });
    std::vector<T> keep(src.get(), src.get() + ni * nb);
    if (shaper) shaper->apply(nb, src.get(), m.inplace ? src.get() : dst.get(), ws.get());
    else if (no > 0) fail("no data movement was created on rank " + std::to_string(r) + " although it owns data");
    T *res = m.inplace ? src.get() : dst.get();
    for(int b=0; b<nb; b++) bo.each([&](I3 const &p, long k){
        T e = mk<T>::of(code(q, b, p)), v = res[b * no + k];
        if (not (v == e)){ std::ostringstream o; o << "rank " << r << " batch entry " << b << " index " << pbt::str(p) << " holds " << v << " instead of " << e; fail(o.str()); } });
    if (not m.inplace) for(long k=0; k<ni * nb; k++) if (not (src[k] == keep[k])) fail("the data movement changed its source on rank " + std::to_string(r));
}
template<typename index> heffte::box3d<index> H(Box const &b){ return heffte::box3d<index>({(index) b.lo[0], (index) b.lo[1], (index) b.lo[2]}, {(index) b.hi[0], (index) b.hi[1], (index) b.hi[2]}, {b.order[0], b.order[1], b.order[2]}); }
static bool identical(RProblem const &q){ for(int r=0; r<q.p; r++) if (not q.in[r].same(q.out[r])) return false; return q.in[0].order == q.out[0].order; }

template<typename index> void run_reshape(RProblem const &q, simmpi::Stats &st){
    std::vector<heffte::box3d<index>> bi, bo; for(int r=0; r<q.p; r++){ bi.push_back(H<index>(q.in[r])); bo.push_back(H<index>(q.out[r])); }
    heffte::plan_options o = heffte::default_options<heffte::backend::stock>();
    o.algorithm = q.alg == 0 ? heffte::reshape_algorithm::alltoall : (q.alg == 1 ? heffte::reshape_algorithm::alltoallv : (q.alg == 2 ? heffte::reshape_algorithm::p2p : heffte::reshape_algorithm::p2p_plined));
    simmpi::failure_handler = sim_failed; bool same = identical(q);
    st = simmpi::run(q.p, q.sched, [&](int r){
        auto shaper = heffte::make_reshape3d<heffte::backend::stock, index>(nullptr, bi, bo, MPI_COMM_WORLD, o);
        if (same){ if (shaper) fail("a data movement was created although the distributions are identical"); return; }
        if (shaper and ((long) shaper->size_intput() != q.in[r].count() or (long) shaper->size_output() != q.out[r].count())) fail("wrong sizes reported on rank " + std::to_string(r));
        for(auto const &m : q.moves) switch(m.type){
            case 0: one_move<double, index>(q, m, r, shaper.get()); break;
            case 1: one_move<std::complex<double>, index>(q, m, r, shaper.get()); break;
            case 2: one_move<float, index>(q, m, r, shaper.get()); break;
            default: one_move<std::complex<float>, index>(q, m, r, shaper.get()); break; }
    });
}
//! A partition in which some of the processes own nothing.
static std::vector<Box> sparse_partition(Gen &g, I3 const &n, int p, std::string &style){
    long vol = (long) n[0] * n[1] * n[2]; int used = p; if (p > 1 and g.chance(1, 3)) used = g.range(1, p); used = (int) std::min<long>(used, vol);
    std::vector<Box> b = gen_partition(g, n, used, style); I3 o = b[0].order;
    Box e; e.order = o; while((int) b.size() < p) b.push_back(e);
    if (used < p) for(size_t i=b.size(); i>1; i--) std::swap(b[i-1], b[g.below((uint32_t) i)]);
    return b;
}
static void c08(Gen &g, Case &c){
    RProblem q; q.p = g.weighted({1, 8}) == 0 ? 1 : g.range(2, 16); int cls = g.below(5); long lim = 6000;
    for(int d=0; d<3; d++){ q.n[d] = std::min<int>(gen_dim(g, cls, 1, g.chance(1, 12) ? 90 : 20), (int) lim); lim = std::max<long>(1, lim / q.n[d]); }
    while((long) q.n[0] * q.n[1] * q.n[2] < q.p) q.p--;
    std::string s1, s2; q.in = sparse_partition(g, q.n, q.p, s1);
    int rel = g.weighted({6, 1, 1});
    if (rel == 1){ q.out = q.in; s2 = "same"; I3 o = gen_order(g); for(auto &b : q.out) b.order = o; }
    else if (rel == 2){ q.out = q.in; s2 = "shifted"; std::rotate(q.out.begin(), q.out.begin() + 1, q.out.end()); I3 o = gen_order(g); for(auto &b : q.out) b.order = o; }
    else { q.out = sparse_partition(g, q.n, q.p, s2); if (g.chance(1, 3)) for(auto &b : q.out) b.order = q.in[0].order; }
    q.alg = g.below(4); q.wide = g.chance(1, 4); q.sched = gen_schedule(g, true);
    int nm = g.range(1, 3); for(int i=0; i<nm; i++){ Move m; m.type = g.below(4); m.batch = g.chance(1, 3) ? g.range(2, 5) : 1; m.inplace = g.chance(1, 3); q.moves.push_back(m); }
    static const char *tn[] = {"double", "cdouble", "float", "cfloat"};
    c.desc << "grid=" << pbt::str(q.n) << " ranks=" << q.p << " " << alg_name(q.alg) << (q.wide ? " idx64" : "") << " in=" << boxes_str(q.in) << " out=" << boxes_str(q.out) << " " << sched_str(q.sched);
    bool holes = false; for(int r=0; r<q.p; r++) if (q.in[r].empty() or q.out[r].empty()) holes = true;
    for(auto const &m : q.moves){ c.desc << " " << tn[m.type] << "x" << m.batch << (m.inplace ? "/inplace" : ""); c.label(tn[m.type]); if (m.batch > 1) c.label("batch"); if (m.inplace) c.label("inplace"); }
    c.label(alg_name(q.alg)); c.label("in:" + s1); c.label("out:" + s2); if (holes) c.label("empty-boxes"); if (q.in[0].order != q.out[0].order) c.label("order-change");
    pbt::publish(c);
    simmpi::Stats st; if (q.wide) run_reshape<long long>(q, st); else run_reshape<int>(q, st);
    c.weight = nm; c.nontrivial = not identical(q) and (long) q.n[0] * q.n[1] * q.n[2] > 1;
}
int main(int argc, char **argv){ return pbt::run(argc, argv, {{"c08", c08, 60000, 1200000}}); }
