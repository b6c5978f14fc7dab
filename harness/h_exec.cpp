// C13: the local executors of every backend against the defining sums along the requested dimensions.
#include "common.h"
#include "heffte.h"
#include "pbt.h"

namespace {
struct ExecSpec { int kind = C2C, backend = STOCK, r2r = 0; std::vector<int> dims; Box box; bool wide = false; };
typedef std::unique_ptr<heffte::executor_base> Exec;

template<typename index> heffte::box3d<index> hbox(Box const &b){
    return heffte::box3d<index>({(index) b.lo[0], (index) b.lo[1], (index) b.lo[2]}, {(index) b.hi[0], (index) b.hi[1], (index) b.hi[2]}, {b.order[0], b.order[1], b.order[2]});
}
template<typename tag, typename index> Exec make_nd(ExecSpec const &s){
    if (s.dims.size() == 3) return heffte::make_executor<tag>(nullptr, hbox<index>(s.box));
    if (s.dims.size() == 2) return heffte::make_executor<tag>(nullptr, hbox<index>(s.box), s.dims[0], s.dims[1]);
    return heffte::make_executor<tag>(nullptr, hbox<index>(s.box), s.dims[0]);
}
template<typename tag, typename index> Exec make_1d(ExecSpec const &s){ return heffte::make_executor<tag>(nullptr, hbox<index>(s.box), s.dims[0]); }
template<typename tag, typename index> Exec make_rc(ExecSpec const &s){ return heffte::make_executor_r2c<tag>(nullptr, hbox<index>(s.box), s.dims[0]); }
template<typename index> Exec make(ExecSpec const &s){
    namespace b = heffte::backend;
    if (s.kind == R2C) return s.backend == STOCK ? make_rc<b::stock, index>(s) : (s.backend == FFTW ? make_rc<b::fftw, index>(s) : make_rc<b::mkl, index>(s));
    if (s.kind == C2C) return s.backend == STOCK ? make_1d<b::stock, index>(s) : (s.backend == FFTW ? make_nd<b::fftw, index>(s) : make_nd<b::mkl, index>(s));
    if (s.backend == FFTW) switch(s.r2r){ case 0: return make_nd<b::fftw_cos, index>(s); case 1: return make_nd<b::fftw_sin, index>(s); case 2: return make_nd<b::fftw_cos1, index>(s); default: return make_nd<b::fftw_sin1, index>(s); }
    if (s.backend == STOCK) return s.r2r == 0 ? make_1d<b::stock_cos, index>(s) : (s.r2r == 1 ? make_1d<b::stock_sin, index>(s) : make_1d<b::stock_cos1, index>(s));
    return s.r2r == 0 ? make_1d<b::mkl_cos, index>(s) : make_1d<b::mkl_sin, index>(s);
}
template<typename T> void run(heffte::executor_base &e, int kind, int call, void *in, void *out, void *ws){ // call: 0 in-place forward, 1 in-place backward, 2 real to complex, 3 complex to real
    typedef std::complex<T> C;
    if (kind == R2R){ if (call == 0) e.forward((T*) in, (T*) ws); else e.backward((T*) in, (T*) ws); return; }
    switch(call){
        case 0: e.forward((C*) in, (C*) ws); break;
        case 1: e.backward((C*) in, (C*) ws); break;
        case 2: e.forward((T const*) in, (C*) out, (C*) ws); break;
        default: e.backward((C*) in, (T*) out, (C*) ws); break;
    }
}
void compare(Arr const &a, Grid const &ref, Box const &local, bool real_only, bool dbl, std::string const &what){
    double e = 0, worst = -1; I3 at{0,0,0}; cplx got = 0, want = 0; bool nan = false;
    local.each([&](I3 const &p, long k){ cplx v = a.get(k), r = ref.at(p); if (real_only) r = r.real(); double d = std::abs(v - r); if (not (d == d)) nan = true; if (not (d <= worst) and not (worst != worst)){ worst = d; at = p; got = v; want = r; } e += d * d; });
    double tol = (dbl ? 2e-12 : 2e-4) * ref.norm2() + 1e-300;
    if (nan or not (std::sqrt(e) <= tol)){ std::ostringstream o; o << what << ": index " << pbt::str(at) << " got " << got << " expected " << want << " (error norm " << std::sqrt(e) << " allowed " << tol << ")"; pbt::fail(o.str()); }
}

void prop(pbt::Gen &g, pbt::Case &c){
    ExecSpec s; s.kind = g.pick({C2C, C2C, R2C, R2R}); s.backend = g.below(3); s.wide = g.chance(1, 4);
    int nd = 1; bool multi = s.backend != STOCK and s.kind != R2C and not (s.kind == R2R and s.backend == MKL);
    if (s.kind == R2R) s.r2r = s.backend == MKL ? g.below(2) : (s.backend == STOCK ? g.below(3) : g.below(4));
    if (multi) nd = g.weighted({3, 3, 2}) + 1;
    int cls = g.weighted({3, 4, 2, 2, 1}); I3 n;
    int lo = (s.kind == R2R and s.r2r == 2) ? 2 : 1;
    for(int d=0; d<3; d++) n[d] = gen_dim(g, cls, lo, 40);
    if (g.chance(1, 6)) n[g.below(3)] = g.range(30, 90);
    if (g.chance(1, 25)) n[g.below(3)] = g.range(90, 700);
    long volume = g.chance(1, 30) ? 60000 : 6000;
    if (lo == 1 and g.chance(1, 6)) n[g.below(3)] = 1;
    while((long) n[0] * n[1] * n[2] > volume){ int d = (n[0] >= n[1] and n[0] >= n[2]) ? 0 : (n[1] >= n[2] ? 1 : 2); n[d] = std::max(lo, n[d] * 2 / 3); }
    for(int d=0; d<3; d++){ s.box.lo[d] = g.chance(1, 2) ? g.range(0, 50) : 0; s.box.hi[d] = s.box.lo[d] + n[d] - 1; }
    s.box.order = gen_order(g);
    bool empty = g.chance(1, 40); if (empty){ int d = g.below(3); s.box.hi[d] = s.box.lo[d] - 1; }
    int d0 = (s.kind == R2R and s.backend != FFTW) ? s.box.order[0] : g.below(3); // the stock and MKL cosine/sine executors work on contiguous lines only
    s.dims = {d0}; if (nd >= 2){ s.dims.push_back((d0 + 1 + (int) g.below(2)) % 3); } if (nd == 3) s.dims = {0, 1, 2};
    int calls = g.range(1, 4);
    static const char *kn[] = {"c2c", "r2c", "r2r"};
    c.desc << kn[s.kind] << " " << backend_name(s.kind, s.backend, s.r2r) << (s.wide ? " idx64" : "") << " box=" << s.box.str() << " dims="; for(int d : s.dims) c.desc << d;
    c.label(std::string(kn[s.kind]) + ":" + backend_name(s.kind, s.backend, s.r2r)); c.label("dims:" + std::to_string(nd)); c.label("order:" + std::to_string(s.box.order[0]) + std::to_string(s.box.order[1]) + std::to_string(s.box.order[2]));
    c.label("position of the first dimension in the order: " + std::to_string(s.box.order[0] == s.dims[0] ? 0 : (s.box.order[1] == s.dims[0] ? 1 : 2)));
    c.nontrivial = not empty and n[s.dims[0]] > 1;
    struct One { int call; bool dbl; int shift; uint64_t seed; bool finite; int data, expo; }; std::vector<One> list;
    for(int k=0; k<calls; k++){
        One o; o.dbl = not g.chance(2, 5); o.shift = g.chance(1, 4) ? g.range(1, 3) : 0; o.seed = g.seed64(); o.finite = g.chance(1, 3); o.data = gen_pattern(g); o.expo = g.chance(1, 5) ? (o.dbl ? g.range(-60, 60) : g.range(-8, 8)) : 0;
        if (s.kind == R2C) o.call = 2 + g.below(2); else if (s.kind == R2R) o.call = g.below(2); else o.call = g.weighted({3, 3, 1, 1});
        c.desc << " " << (o.call % 2 ? "bwd" : "fwd") << (o.dbl ? "/d" : "/f") << (o.call >= 2 ? "/real" : "") << (o.shift ? "/shift" + std::to_string(o.shift) : ""); if (o.data) c.desc << "/data=" << data_name(o.data); if (o.expo) c.desc << "/1e" << o.expo; list.push_back(o);
    }
    pbt::publish(c);
    Exec e = s.wide ? make<long long>(s) : make<int>(s);
    if (empty){ if (e) pbt::fail("an executor was made for an empty box"); return; }
    if (not e) pbt::fail("no executor for a non-empty box");
    Box local; local.hi = {n[0]-1, n[1]-1, n[2]-1}; local.order = s.box.order;
    Box half = local; I3 nh = n; if (s.kind == R2C){ nh[d0] = n[d0] / 2 + 1; half.hi[d0] = nh[d0] - 1; }
    if (e->box_size() != local.count()) pbt::fail("box_size() is " + std::to_string(e->box_size()) + " expected " + std::to_string(local.count()));
    if (e->complex_size() != half.count()) pbt::fail("complex_size() is " + std::to_string(e->complex_size()) + " expected " + std::to_string(half.count()));
    auto transform = [&](Grid x, int sign)->Grid{
        for(int d : s.dims){ int m = n[d];
            if (s.kind == R2R) x = oracle::along(x, d, m, [=](int k, int j){ return oracle::r2r_entry(s.r2r, sign < 0, m, k, j); });
            else x = oracle::along(x, d, m, [=](int k, int j){ return oracle::root((long) sign * k * j, m); }); }
        return x; };
    auto fill = [](Arr &a, Grid const &x, Box const &b){ b.each([&](I3 const &p, long k){ a.set(k, x.at(p)); }); };
    int number = 0;
    for(One const &o : list){
        number++; std::string what = "call " + std::to_string(number);
        Arr ws((long) e->workspace_size(), o.dbl, s.kind != R2R, o.shift % 2);
        if (o.finite){ Rng r(o.seed ^ 77); for(long i=0; i<ws.n; i++) ws.set(i, cplx(r.unit() * 1000, r.unit() * 1000)); }
        bool fwd = o.call % 2 == 0;
        if (o.call < 2){ // in place
            Grid x = pattern_grid(n, o.seed, s.kind == R2R, o.dbl, o.data, o.expo), y = transform(x, fwd ? -1 : 1);
            if (s.kind == R2R and s.backend != FFTW and not fwd) for(auto &v : y.v) v *= 2.0;
            Arr a(local.count(), o.dbl, s.kind != R2R, o.shift); fill(a, x, local);
            if (o.dbl) run<double>(*e, s.kind, o.call, a.p, nullptr, ws.p); else run<float>(*e, s.kind, o.call, a.p, nullptr, ws.p);
            compare(a, y, local, s.kind == R2R, o.dbl, what);
        }else{
            Arr re(local.count(), o.dbl, false, o.shift), cx(half.count(), o.dbl, true, o.shift);
            Grid x(n), y(n); // real data and complex data
            if (fwd){
                x = pattern_grid(n, o.seed, true, o.dbl, o.data, o.expo); y = transform(x, -1); if (s.kind == R2C) y = oracle::keep_half(y, d0); fill(re, x, local);
                std::vector<char> before = re.copy();
                if (o.dbl) run<double>(*e, s.kind, 2, re.p, cx.p, ws.p); else run<float>(*e, s.kind, 2, re.p, cx.p, ws.p);
                if (not re.same_bytes(before)) pbt::fail(what + ": the real input of the forward transform was modified");
                compare(cx, y, half, false, o.dbl, what);
            }else{
                if (s.kind == R2C){ y = pattern_grid(n, o.seed, true, o.dbl, o.data, o.expo); x = oracle::keep_half(transform(y, -1), d0); for(auto &v : y.v) v *= n[d0]; }
                else { x = pattern_grid(n, o.seed, false, o.dbl, o.data, o.expo); y = transform(x, 1); }
                fill(cx, x, half);
                if (o.dbl) run<double>(*e, s.kind, 3, cx.p, re.p, ws.p); else run<float>(*e, s.kind, 3, cx.p, re.p, ws.p);
                compare(re, y, local, true, o.dbl, what);
            }
        }
    }
}
}
int main(int argc, char **argv){ return pbt::run(argc, argv, {{"c13", prop, 100000, 1200000}}); }
