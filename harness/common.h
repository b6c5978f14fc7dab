// Generators of transform problems and helpers shared by the harnesses.
#ifndef COMMON_H
#define COMMON_H
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <memory>
#include "pbt.h"
#include "simmpi.h"
#include "oracle.h"
#include "plan.h"

// ---- partitions -----------------------------------------------------------------------------------------------------
inline std::vector<std::array<int,3>> grids_of(int p, I3 const &n){
    std::vector<std::array<int,3>> r;
    for(int a=1; a<=p; a++) if (p % a == 0) for(int b=1; b<=p/a; b++) if ((p/a) % b == 0){ int c = p / a / b; if (a <= n[0] and b <= n[1] and c <= n[2]) r.push_back({a,b,c}); }
    return r;
}
inline std::vector<int> even_cuts(int n, int p){ std::vector<int> c(p+1); for(int i=0; i<=p; i++) c[i] = i * (n / p) + std::min(i, n % p); return c; }
inline std::vector<int> random_cuts(pbt::Gen &g, int n, int p){ // strictly increasing
    std::vector<int> c{0}; for(int i=1; i<p; i++) c.push_back(g.range(c.back() + 1, n - (p - i))); c.push_back(n); return c;
}
inline std::vector<Box> grid_split(std::vector<int> const &x, std::vector<int> const &y, std::vector<int> const &z){
    std::vector<Box> r;
    for(size_t k=0; k+1<z.size(); k++) for(size_t j=0; j+1<y.size(); j++) for(size_t i=0; i+1<x.size(); i++){ Box b; b.lo = {x[i], y[j], z[k]}; b.hi = {x[i+1]-1, y[j+1]-1, z[k+1]-1}; r.push_back(b); }
    return r;
}
inline void bisect(pbt::Gen &g, Box const &b, int p, std::vector<Box> &out){
    if (p == 1){ out.push_back(b); return; }
    std::vector<int> dims; for(int d=0; d<3; d++) if (b.size(d) > 1) dims.push_back(d);
    int d = g.pick(dims), n = b.size(d); long rest = b.count() / n;
    int left = g.range(1, p - 1);
    // choose a cut with enough indexes on both sides
    int cmin = 1, cmax = n - 1;
    while(cmin * rest < left) cmin++;
    while((n - cmax) * rest < p - left) cmax--;
    if (cmin > cmax){ // rebalance: give each side what fits
        cmin = cmax = std::max(1, std::min(n - 1, cmin)); left = std::max<long>(1, std::min<long>({(long) left, cmin * rest, (long) p - 1})); if ((n - cmin) * rest < p - left) left = (int)(p - (n - cmin) * rest);
    }
    int cut = g.range(cmin, cmax);
    Box l = b, r = b; l.hi[d] = b.lo[d] + cut - 1; r.lo[d] = b.lo[d] + cut;
    bisect(g, l, left, out); bisect(g, r, p - left, out);
}
inline void permute_boxes(pbt::Gen &g, std::vector<Box> &b){
    switch(g.weighted({4, 1, 3})){
        case 1: std::reverse(b.begin(), b.end()); break;
        case 2: for(size_t i=b.size(); i>1; i--) std::swap(b[i-1], b[g.below((uint32_t) i)]); break;
        default: break;
    }
}
inline I3 gen_order(pbt::Gen &g){
    static const I3 o[6] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    return g.chance(2, 3) ? o[g.below(6)] : o[0];
}
//! A partition of the world into p non-empty boxes; style is reported through the label.
inline std::vector<Box> gen_partition(pbt::Gen &g, I3 const &n, int p, std::string &style){
    std::vector<Box> r;
    auto grids = grids_of(p, n);
    int st = g.weighted({4, 3, 4, 2, 2});
    if (grids.empty() and st != 2) st = 2;
    if (st == 3){ // pencils: one whole dimension
        std::vector<std::array<int,3>> pen; for(auto q : grids) if (q[0] == 1 or q[1] == 1 or q[2] == 1) pen.push_back(q);
        if (pen.empty()) st = 0; else { grids = pen; style = "pencil"; }
    }
    if (st == 4){ // slabs
        std::vector<std::array<int,3>> sl; for(auto q : grids) if ((q[0] == 1) + (q[1] == 1) + (q[2] == 1) >= 2) sl.push_back(q);
        if (sl.empty()) st = 0; else { grids = sl; style = "slab"; }
    }
    if (st == 2){ bisect(g, world_box(n), p, r); style = "bisect"; }
    else {
        auto q = g.pick(grids);
        if (st == 0){ style = "even"; r = grid_split(even_cuts(n[0], q[0]), even_cuts(n[1], q[1]), even_cuts(n[2], q[2])); }
        else if (st == 1 or g.chance(1, 2)){ if (st == 1) style = "uneven"; auto x = random_cuts(g, n[0], q[0]); auto y = random_cuts(g, n[1], q[1]); auto z = random_cuts(g, n[2], q[2]); r = grid_split(x, y, z); }
        else r = grid_split(even_cuts(n[0], q[0]), even_cuts(n[1], q[1]), even_cuts(n[2], q[2]));
    }
    permute_boxes(g, r);
    I3 o = gen_order(g); for(auto &b : r) b.order = o;
    return r;
}

// ---- problems --------------------------------------------------------------------------------------------------------
struct Problem {
    int kind = C2C, backend = STOCK, r2r = 0, r2c_dir = 0, nranks = 1; bool dbl = true;
    I3 n{1,1,1}, nout{1,1,1};
    std::vector<Box> in, out; PlanOpts opts; simmpi::Schedule sched; std::string in_style, out_style; bool tight = false; bool wide = false; int ctor = 0;
    PlanSpec spec(int rank) const{ PlanSpec s; s.kind = kind; s.backend = backend; s.r2r = r2r; s.r2c_dir = r2c_dir; s.wide = wide; s.ctor = ctor; s.in = in[rank]; s.out = out[rank]; s.opts = opts; s.comm = MPI_COMM_WORLD; return s; }
    std::string str() const;
};
inline const char* alg_name(int a){ static const char *n[] = {"alltoall", "alltoallv", "p2p", "p2p_plined"}; return n[a]; }
inline std::string backend_name(int kind, int b, int r2r){ std::string s = b == STOCK ? "stock" : (b == FFTW ? "fftw" : "mkl"); if (kind == R2R){ static const char *n[] = {"_cos", "_sin", "_cos1", "_sin1"}; s += n[r2r]; } return s; }
inline std::string boxes_str(std::vector<Box> const &v){ std::string s; for(auto const &b : v) s += b.str(); return s; }
inline std::string opts_str(PlanOpts const &o){ if (o.use_default) return "default"; return std::string(alg_name(o.algorithm)) + (o.pencils ? " pencils" : " slabs") + (o.reorder ? " reorder" : " strided") + (o.subranks != -1 ? " sub=" + std::to_string(o.subranks) : "") + (o.subcomm.empty() ? "" : " subcomm=" + pbt::str(o.subcomm)) + (o.late != -1 and not o.subcomm.empty() ? " then sub=" + std::to_string(o.late) : "") + (o.gpu_aware ? "" : " gpu-aware off"); }
inline std::string sched_str(simmpi::Schedule const &s){ return "sched{seed=" + std::to_string(s.seed % 1000003) + " policy=" + std::to_string(s.policy) + " send=" + std::to_string(s.send_mode) + " delivery=" + std::to_string(s.delivery) + " wait=" + std::to_string(s.wait_order) + "}"; }
inline std::string Problem::str() const{
    std::ostringstream o;
    o << (kind == C2C ? "c2c " : (kind == R2C ? "r2c(" + std::to_string(r2c_dir) + ") " : "r2r ")) << backend_name(kind, backend, r2r) << (dbl ? " double" : " float") << (wide ? " idx64" : "") << " grid=" << pbt::str(n) << " ranks=" << nranks
      << (ctor == 2 ? " ctor=stream" : (ctor == 3 ? " ctor=make" : "")) << " opts{" << opts_str(opts) << "} in=" << boxes_str(in) << " out=" << boxes_str(out) << " " << sched_str(sched);
    return o.str();
}
inline bool pair_ok(int p, int a, int b){ for(int i=1; i<=p; i++) if (p % i == 0 and i <= a and p / i <= b) return true; return false; }
//! True when every intermediate distribution the library may need exists with non-empty boxes for p processes.
inline bool roomy(I3 const &n, int p, bool slabs){
    for(int d=0; d<3; d++) if (not pair_ok(p, n[(d+1)%3], n[(d+2)%3])) return false;
    if (slabs and not (n[0] == 1 or n[1] == 1 or n[2] == 1)) for(int d=0; d<3; d++) if (p > n[d]) return false;
    return true;
}
struct GenOpts {
    std::vector<int> kinds{C2C}; std::vector<int> backends{STOCK, FFTW, MKL};
    int max_ranks = 12; long max_volume = 4000; int max_dim = 24; bool allow_tight = true; bool subranks = true, subcomm = true; int min_dim = 1; bool big = false; // big: now and then large grids and many processes
};
inline int gen_dim(pbt::Gen &g, int cls, int lo, int hi){
    int v;
    switch(cls){
        case 0: v = g.range(1, 8); break;
        case 1: v = g.range(2, hi); break;
        case 2: v = g.pick({1, 2, 3, 5, 7, 11, 13, 17, 19, 23}); break;
        case 3: v = g.pick({1, 2, 4, 8, 16, 6, 12, 9, 10, 15}); break;
        default: v = g.range(1, 4); break;
    }
    return std::max(lo, std::min(hi, v));
}
inline simmpi::Schedule gen_schedule(pbt::Gen &g, bool full = false){
    simmpi::Schedule s;
    s.policy = g.below(full ? 5 : 2); s.send_mode = g.below(3); s.delivery = g.below(3); s.wait_order = g.below(3); s.sync_free = g.chance(1, 3);
    s.seed = g.seed64();
    return s;
}
inline I3 half_dims(I3 n, int d){ n[d] = n[d] / 2 + 1; return n; }
inline std::vector<int> gen_subcomm(pbt::Gen &g, int np, int size){
    std::vector<int> r(np); for(int i=0; i<np; i++) r[i] = i;
    for(int i=np; i>1; i--) std::swap(r[i-1], r[g.below((uint32_t) i)]);
    r.resize(size); if (not g.chance(1, 2)) std::sort(r.begin(), r.end()); return r;
}
inline Problem gen_problem(pbt::Gen &g, GenOpts const &go){
    Problem p;
    p.kind = g.pick(go.kinds); p.backend = g.pick(go.backends);
    p.dbl = not g.chance(2, 5);
    if (p.kind == R2R) p.r2r = p.backend == MKL ? g.below(2) : (p.backend == STOCK ? g.below(3) : g.below(4));
    int lo = std::max(go.min_dim, (p.kind == R2R and p.r2r == 2) ? 2 : 1);
    int cls = g.weighted({3, 4, 2, 2, 1});
    bool two = g.chance(1, 8);
    for(int d=0; d<3; d++) p.n[d] = gen_dim(g, cls, lo, go.max_dim);
    if (two and lo == 1) p.n[g.below(3)] = 1;
    if (g.chance(1, 8)) p.n[1] = p.n[2] = p.n[0];
    if (go.max_dim >= 24 and g.chance(1, 10)){ // one long dimension
        int d = g.below(3); for(int k=0; k<3; k++) p.n[k] = gen_dim(g, 4, lo, 6); p.n[d] = g.chance(1, 2) ? g.range(25, 400) : g.pick({27, 32, 49, 64, 81, 97, 100, 121, 125, 128, 169, 210, 243, 256, 257, 289, 300, 343, 360, 512});
    }
    long max_volume = go.max_volume;
    if (go.big and g.chance(1, 60)){ for(int d=0; d<3; d++) p.n[d] = g.pick({20, 24, 27, 30, 32, 35, 37, 40, 45, 48, 64, 66}); max_volume = 70000; }
    while((long) p.n[0] * p.n[1] * p.n[2] > max_volume){ int d = (p.n[0] >= p.n[1] and p.n[0] >= p.n[2]) ? 0 : (p.n[1] >= p.n[2] ? 1 : 2); p.n[d] = std::max(lo, p.n[d] * 2 / 3); }
    if (p.kind == R2C) p.r2c_dir = g.below(3);
    p.nout = p.kind == R2C ? half_dims(p.n, p.r2c_dir) : p.n;
    // processes
    static const int want[] = {1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12, 12, 16};
    int np = std::min(go.max_ranks, want[g.below(16)]);
    if (go.big and g.chance(1, 25)) np = g.range(13, 32);
    long vol = std::min((long) p.n[0] * p.n[1] * p.n[2], (long) p.nout[0] * p.nout[1] * p.nout[2]);
    p.opts.algorithm = g.below(4); p.opts.pencils = not g.chance(1, 3); p.opts.reorder = not g.chance(1, 2);
    p.tight = go.allow_tight and g.chance(1, 10);
    while(np > vol) np--;
    int sub = (go.subranks and g.chance(1, 5)) ? g.range(1, np + 1) : -1;
    if (not p.tight) while(np > 1 and not (roomy(p.nout, np, not p.opts.pencils) and roomy(p.n, np, not p.opts.pencils))) np--;
    if (sub > 0 and not p.tight) while(sub > 1 and sub < np and not (roomy(p.nout, sub, not p.opts.pencils) and roomy(p.n, sub, not p.opts.pencils))) sub--;
    if (sub > np) sub = np;
    p.nranks = np; p.opts.subranks = sub;
    if (sub > 0 and go.subcomm and g.chance(1, 3)) { p.opts.subcomm = gen_subcomm(g, np, sub); if (g.chance(1, 3)){ p.opts.late = g.range(0, np + 1); p.opts.subranks = -1; } }
    else if (go.subranks and g.chance(1, 12)) p.opts.subranks = g.pick({0, -2, np, np + 1, 2 * np + 5}); // all ranks
    if (g.chance(1, 6)) p.opts.gpu_aware = false;
    p.in = gen_partition(g, p.n, np, p.in_style);
    if (p.kind != R2C and g.chance(1, 8)){ p.out = p.in; p.out_style = "same"; if (g.chance(1, 2)){ I3 o = gen_order(g); for(auto &b : p.out) b.order = o; } }
    else p.out = gen_partition(g, p.nout, np, p.out_style);
    p.sched = gen_schedule(g);
    int ct = g.below(4); p.ctor = ct == 1 ? 2 : (ct == 2 ? 3 : 0);
    return p;
}
inline void label_problem(pbt::Case &c, Problem const &p){
    c.label("kind:" + std::string(p.kind == C2C ? "c2c" : (p.kind == R2C ? "r2c" : "r2r")) + ":" + backend_name(p.kind, p.backend, p.r2r));
    c.label(std::string("ranks:") + (p.nranks == 1 ? "1" : (p.nranks <= 4 ? "2-4" : (p.nranks <= 8 ? "5-8" : (p.nranks <= 16 ? "9-16" : "17+")))));
    c.label("alg:" + std::string(alg_name(p.opts.algorithm))); c.label(p.opts.pencils ? "pencils" : "slabs"); c.label(p.opts.reorder ? "reorder" : "strided");
    c.label("in:" + p.in_style); c.label("out:" + p.out_style);
    if (p.opts.workers(p.nranks) < p.nranks) c.label("subranks"); if (not p.opts.subcomm.empty()) c.label("subcomm"); if (p.ctor) c.label("ctor:" + std::to_string(p.ctor));
    if (p.n[0] == 1 or p.n[1] == 1 or p.n[2] == 1) c.label("flat-grid");
    if (p.tight) c.label("tight");
    if ((long) p.n[0] * p.n[1] * p.n[2] > 8000) c.label("large-grid");
    if (not p.dbl) c.label("float");
    if (p.in[0].order != p.out[0].order) c.label("order-change");
}

// ---- arrays ----------------------------------------------------------------------------------------------------------
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x) {} uint64_t next(){ s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } double unit(){ return 2.0 * (double)(next() >> 11) / 9007199254740992.0 - 1.0; } };
//! An exactly sized heap array of float/double, real/complex.
struct Arr {
    bool dbl, cpx; long n; char *base, *p;
    //! The array starts shift real elements after an aligned address.
    Arr(long count, bool d, bool c, int shift = 0) : dbl(d), cpx(c), n(count), base((char*) std::malloc(count * esize(d, c) + shift * esize(d, false))), p(base + shift * esize(d, false)) { poison(); }
    Arr(Arr &&o) : dbl(o.dbl), cpx(o.cpx), n(o.n), base(o.base), p(o.p) { o.base = o.p = nullptr; }
    Arr(Arr const&) = delete; Arr& operator=(Arr const&) = delete;
    ~Arr(){ std::free(base); }
    static long esize(bool d, bool c){ return (d ? 8 : 4) * (c ? 2 : 1); }
    long bytes() const{ return n * esize(dbl, cpx); }
    void poison(){ std::memset(p, 0xff, bytes()); } // all entries are NaN
    void set(long i, cplx const &v){
        if (dbl){ double *d = (double*) p; if (cpx){ d[2*i] = v.real(); d[2*i+1] = v.imag(); } else d[i] = v.real(); }
        else { float *d = (float*) p; if (cpx){ d[2*i] = (float) v.real(); d[2*i+1] = (float) v.imag(); } else d[i] = (float) v.real(); }
    }
    cplx get(long i) const{
        if (dbl){ double const *d = (double const*) p; return cpx ? cplx(d[2*i], d[2*i+1]) : cplx(d[i], 0); }
        float const *d = (float const*) p; return cpx ? cplx(d[2*i], d[2*i+1]) : cplx(d[i], 0);
    }
    bool same_bytes(std::vector<char> const &o) const{ return (long) o.size() == bytes() and (bytes() == 0 or std::memcmp(o.data(), p, bytes()) == 0); }
    std::vector<char> copy() const{ return std::vector<char>(p, p + bytes()); }
};
inline void fill_box(Arr &a, long shift, Grid const &g, Box const &b){ b.each([&](I3 const &p, long k){ a.set(shift + k, g.at(p)); }); }
inline Grid random_grid(I3 const &n, uint64_t seed, bool real, bool dbl){
    Grid g(n); Rng r(seed);
    for(auto &x : g.v){ double a = r.unit(), b = real ? 0.0 : r.unit(); if (not dbl){ a = (float) a; b = (float) b; } x = cplx(a, b); }
    return g;
}
//! Random input with a pattern and a decimal magnitude.
inline char const* data_name(int d){ static const char *n[] = {"dense", "sparse", "constant", "wave", "block", "integers", "zero"}; return n[d]; }
inline int gen_pattern(pbt::Gen &g){ return g.chance(1, 4) ? 1 + g.weighted({5, 1, 2, 3, 2, 1}) : 0; }
inline Grid pattern_grid(I3 const &n, uint64_t seed, bool real, bool dbl, int data, int e){
    Grid x = random_grid(n, seed, real, dbl); Rng r(seed * 31 + 17); long k = (long) x.v.size();
    switch(data){
        case 1: { Grid y(n); int m = 1 + (int) (r.next() % 4); for(int i=0; i<m; i++){ long j = (long) (r.next() % (uint64_t) k); y.v[j] = x.v[j]; } x = y; break; }
        case 2: { cplx a = x.v[0]; for(auto &v : x.v) v = a; break; }
        case 3: { I3 f; for(int d=0; d<3; d++) f[d] = (int) (r.next() % (uint64_t) n[d]);
            for(int c=0; c<n[2]; c++) for(int b=0; b<n[1]; b++) for(int a=0; a<n[0]; a++){ double w = 2 * M_PI * ((double) ((long) f[0] * a % n[0]) / n[0] + (double) ((long) f[1] * b % n[1]) / n[1] + (double) ((long) f[2] * c % n[2]) / n[2]); x.at({a, b, c}) = cplx(std::cos(w), real ? 0.0 : std::sin(w)); }
            break; }
        case 4: { I3 lo, hi; for(int d=0; d<3; d++){ lo[d] = (int) (r.next() % (uint64_t) n[d]); hi[d] = (int) (r.next() % (uint64_t) n[d]); if (lo[d] > hi[d]) std::swap(lo[d], hi[d]); }
            bool inside = r.next() % 2; for(int c=0; c<n[2]; c++) for(int b=0; b<n[1]; b++) for(int a=0; a<n[0]; a++){ I3 q{a, b, c}; bool in = true; for(int d=0; d<3; d++) in = in and lo[d] <= q[d] and q[d] <= hi[d]; if (in != inside) x.at(q) = 0; }
            break; }
        case 5: for(auto &v : x.v) v = cplx(std::round(3 * v.real()), real ? 0.0 : std::round(3 * v.imag())); break;
        case 6: for(auto &v : x.v) v = 0; break;
        default: break;
    }
    if (e != 0){ double f = std::pow(10.0, e); for(auto &v : x.v) v *= f; }
    if (not dbl) for(auto &v : x.v) v = cplx((float) v.real(), (float) v.imag());
    return x;
}
//! Compares the entries of a box with the reference grid times a factor; returns an empty string when it agrees.
struct Mismatch { double err2 = 0; double worst = -1; std::string where; bool nan = false; };
inline void compare_box(Mismatch &m, Arr const &a, long shift, Grid const &ref, double factor, Box const &b, bool real_only, int rank){
    b.each([&](I3 const &p, long k){
        cplx v = a.get(shift + k), r = ref.at(p) * factor; if (real_only) r = cplx(r.real(), 0);
        double e = std::abs(v - r);
        if (not (e == e)){ if (not m.nan){ m.nan = true; std::ostringstream o; o << "rank " << rank << " index " << pbt::str(p) << " is not a number, expected " << r; m.where = o.str(); } return; }
        m.err2 += e * e;
        if (e > m.worst){ m.worst = e; if (not m.nan){ std::ostringstream o; o << "rank " << rank << " index " << pbt::str(p) << " got " << v << " expected " << r; m.where = o.str(); } }
    });
}
//! Tolerance on the 2-norm of the error of one box relative to the norm of the whole reference.
inline double tolerance(bool dbl, Grid const &ref, double factor){ double s = ref.norm2() * std::abs(factor); return (dbl ? 2e-12 : 2e-4) * s * 1.0 + 1e-300; }

//! Mathematical result of one transform in the unscaled convention of the backend.
inline Grid reference(Problem const &p, bool forward, Grid const &x){
    if (p.kind == C2C) return oracle::dft(x, forward ? -1 : 1);
    if (p.kind == R2C) return forward ? oracle::keep_half(oracle::dft(x, -1), p.r2c_dir) : x;
    return oracle::r2r(x, p.r2r, forward);
}
#endif
