// One transform call with its inputs and expected outputs, executed by a rank of the simulated machine.
#ifndef TCALL_H
#define TCALL_H
#include "common.h"

struct TCall {
    Call c; bool inplace = false; uint64_t seed = 1; bool finite_prefill = false;
    std::vector<Grid> x, ref; double factor = 1.0; bool no_input_check = false; int data = 0, expo = 0, spread = 0; // pattern of the input, decimal magnitude, larger magnitude of every second array of a batch
    int misalign = 0; // arrays start at addresses aligned only to their real elements
    int magnitude(int entry) const{ return (c.dbl ? expo : std::max(-8, std::min(8, expo))) + ((entry & 1) ? spread : 0); }
    std::string str() const{
        std::ostringstream o; static const char *f[] = {"plain", "ws", "batch-ws", "batch", "vector"}; static const char *s[] = {"none", "full", "symmetric"};
        o << (c.forward ? "fwd" : "bwd") << (c.dbl ? "/d" : "/f") << "/" << f[c.form] << "/" << s[c.scale]; if (c.batch != 1) o << "/batch=" << c.batch; if (c.real_side) o << "/real"; if (c.alien) o << "/library-complex"; if (inplace) o << "/inplace"; if (misalign) o << "/unaligned" << misalign; if (data) o << "/data=" << data_name(data); if (expo) o << "/1e" << expo; if (spread and c.batch > 1) o << "/spread=" << spread; return o.str();
    }
};
//! Number of logical indexes of the transform.
inline double logical_count(Problem const &p){
    double N = 1;
    for(int d=0; d<3; d++) N *= (p.kind == R2R) ? (p.r2r == 2 ? 2.0 * (p.n[d] - 1) : (p.r2r == 3 ? 2.0 * (p.n[d] + 1) : 2.0 * p.n[d])) : p.n[d];
    return N;
}
//! The stock and MKL real-to-real backward transforms carry one more factor of two per dimension, as reported by their scale factor.
inline double convention(Problem const &p, bool forward){
    if (p.kind != R2R) return 1.0;
    if (p.backend != FFTW and not forward) return 8.0;
    return 1.0;
}
inline double scale_value(Problem const &p, int scale){ double full = 1.0 / (logical_count(p) * convention(p, false)); return scale == 0 ? 1.0 : (scale == 1 ? full : std::sqrt(full)); }

inline bool in_is_real(Problem const &p, Call const &c){ return p.kind == R2R or (c.forward ? (p.kind == R2C or c.real_side) : false); }
inline bool out_is_real(Problem const &p, Call const &c){ return p.kind == R2R or (not c.forward and (p.kind == R2C or c.real_side)); }

inline TCall gen_call(pbt::Gen &g, Problem const &p, bool allow_batch = true){
    TCall t; t.c.dbl = p.dbl; t.c.forward = not g.chance(2, 5);
    t.c.form = g.weighted({3, 3, allow_batch ? 3 : 0, allow_batch ? 2 : 0, 2});
    t.c.scale = g.below(3);
    if (p.kind == C2C) t.c.real_side = g.chance(1, 4);
    if (t.c.form == 2 or t.c.form == 3) { t.c.batch = g.range(1, 4); if (g.chance(1, 12)) t.c.batch = (int) std::min<long>(g.range(5, 40), std::max<long>(4, 4000 / ((long) p.n[0] * p.n[1] * p.n[2]))); }
    if (p.kind == C2C and not t.c.real_side and t.c.form != 4 and g.chance(1, 5)){
        t.inplace = true;
        if (t.c.batch > 1) for(int r=0; r<p.nranks; r++) if (p.in[r].count() != p.out[r].count()) t.c.batch = 1;
    }
    t.finite_prefill = g.chance(1, 4);
    t.seed = g.seed64();
    if (g.chance(1, 4)) t.misalign = g.range(1, 7);
    t.data = gen_pattern(g);
    if (g.chance(1, 5)) t.expo = t.c.dbl ? g.range(-60, 60) : g.range(-8, 8);
    if (t.c.batch > 1 and g.chance(1, 4)) t.spread = g.range(1, 10);
    if (p.kind != R2R and g.chance(1, 6)) t.c.alien = true;
    return t;
}
//! Computes the inputs and the expected outputs.
inline void prepare(TCall &t, Problem const &p){
    t.x.clear(); t.ref.clear();
    for(int b=0; b<t.c.batch; b++){
        uint64_t s = t.seed + 7919 * b;
        if (p.kind == R2C and not t.c.forward){
            Grid y = pattern_grid(p.n, s, true, t.c.dbl, t.data, t.magnitude(b)); t.x.push_back(oracle::keep_half(oracle::dft(y, -1), p.r2c_dir));
            double N = (double) y.v.size(); for(auto &v : y.v) v *= N; t.ref.push_back(y);
        }else{
            bool real_in = in_is_real(p, t.c);
            t.x.push_back(pattern_grid(t.c.forward ? p.n : p.nout, s, real_in, t.c.dbl, t.data, t.magnitude(b))); t.ref.push_back(reference(p, t.c.forward, t.x.back()));
        }
    }
    t.factor = scale_value(p, t.c.scale) * convention(p, t.c.forward);
}
//! Executes on the calling rank; the result bytes are returned, mismatches are reported as failures.
inline std::vector<char> execute(TCall const &t, Problem const &p, Plan &plan, int rank, std::string const &what, bool check = true){
    Box const &bi = t.c.forward ? p.in[rank] : p.out[rank], &bo = t.c.forward ? p.out[rank] : p.in[rank];
    bool rin = in_is_real(p, t.c), rout = out_is_real(p, t.c); int nb = t.c.batch;
    long ni = bi.count(), no = bo.count();
    Arr a((t.inplace ? std::max(ni, no) : ni) * nb, t.c.dbl, not rin, t.misalign & 1);
    for(int b=0; b<nb; b++) fill_box(a, b * ni, t.x[b], bi);
    std::vector<char> before; if (not t.inplace) before = a.copy();
    Arr out(t.inplace ? 0 : no * nb, t.c.dbl, not rout, (t.misalign >> 1) & 1);
    Arr ws((t.c.form == 1 or t.c.form == 2) ? plan.size_workspace() * nb : 0, t.c.dbl, p.kind != R2R, (t.misalign >> 2) & 1);
    if (t.finite_prefill){ Rng r(t.seed ^ 0x55); for(long i=0; i<out.n; i++) out.set(i, cplx(r.unit() * 1000, r.unit() * 1000)); for(long i=0; i<ws.n; i++) ws.set(i, cplx(r.unit() * 1000, r.unit() * 1000)); }
    Call c = t.c; c.in = a.p; c.out = t.inplace ? a.p : out.p; c.ws = ws.p;
    plan.call(c);
    if (not t.inplace and not a.same_bytes(before)) pbt::fail(what + " modified its input array on rank " + std::to_string(rank));
    Arr &res = t.inplace ? a : out;
    if (check){
        for(int b=0; b<nb; b++){
            Mismatch m; compare_box(m, res, b * no, t.ref[b], t.factor, bo, rout, rank);
            double tol = tolerance(t.c.dbl, t.ref[b], t.factor);
            if (rout and p.kind == C2C){ double s = 0; for(auto const &v : t.ref[b].v) s += std::norm(v); tol = (t.c.dbl ? 2e-12 : 2e-4) * std::sqrt(s) * std::abs(t.factor) + 1e-300; }
            if (m.nan or not (std::sqrt(m.err2) <= tol)){ std::ostringstream o; o << what << " (" << t.str() << ") wrong result in batch entry " << b << ": " << m.where << " (error norm " << std::sqrt(m.err2) << " allowed " << tol << ")"; pbt::fail(o.str()); }
        }
    }
    return std::vector<char>(res.p, res.p + no * nb * Arr::esize(t.c.dbl, not rout));
}
#endif
