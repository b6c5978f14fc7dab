// C12: the built-in 1-D FFT against the defining sums; C22: vector complex arithmetic against scalar complex arithmetic.
#include "heffte.h"
#include "pbt.h"
#include "oracle.h"
#include <fftw3.h>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <type_traits>

namespace {
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x) {} uint64_t next(){ s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } double unit(){ return 2.0 * (double)(next() >> 11) / 9007199254740992.0 - 1.0; } };
template<typename F> double unit_eps(){ return std::is_same<F, float>::value ? 5.97e-8 : 1.12e-16; }

//! Reference DFT of one line: the defining sum for short lines, FFTW for long ones.
std::vector<cplx> dft_line(std::vector<cplx> const &x, int sign){
    int n = (int) x.size(); std::vector<cplx> y(n);
    if (n <= 200){
        std::vector<cplx> w(n); for(int k=0; k<n; k++) w[k] = oracle::root((long) sign * k, n);
        for(int k=0; k<n; k++){ cplx s = 0; long q = 0; for(int j=0; j<n; j++){ s += x[j] * w[q]; q += k; if (q >= n) q -= n; } y[k] = s; }
    }else{
        std::vector<cplx> in = x;
        fftw_plan p = fftw_plan_dft_1d(n, reinterpret_cast<fftw_complex*>(in.data()), reinterpret_cast<fftw_complex*>(y.data()), sign < 0 ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
        fftw_execute(p); fftw_destroy_plan(p);
    }
    return y;
}
double norm2(std::vector<cplx> const &v){ double s = 0; for(auto const &x : v) s += std::norm(x); return std::sqrt(s); }

bool is_prime(long n){ if (n < 2) return false; for(long k=2; k*k<=n; k++) if (n % k == 0) return false; return true; }
//! Lengths weighted towards the branches of the factorisation.
int gen_length(pbt::Gen &g, pbt::Case &c){
    int kind = g.weighted({6, 2, 2, 2, 3, 2, 2, 2, 1, 1}); bool longer = g.chance(1, 10);
    int n = 1; const char *what = "";
    switch(kind){
        case 0: n = g.range(1, 64); what = "short"; break;
        case 1: n = 1 << g.range(1, longer ? 16 : 12); what = "power of 2"; break;
        case 2: { n = 1; int k = g.range(1, longer ? 10 : 7); for(int i=0; i<k; i++) n *= 3; what = "power of 3"; break; }
        case 3: { n = 1; int a = g.range(0, 6), b = g.range(0, 3), d = g.range(0, 2), e = g.range(0, 2); for(int i=0; i<a; i++) n *= 2; for(int i=0; i<b; i++) n *= 3; for(int i=0; i<d; i++) n *= 5; for(int i=0; i<e; i++) n *= 7; while(n > (longer ? 60000 : 6000)) n /= n % 2 == 0 ? 2 : n % 3 == 0 ? 3 : n % 5 == 0 ? 5 : 7; what = "smooth"; break; }
        case 4: { n = g.range(2, longer ? 1200 : 600); while(not is_prime(n)) n++; what = "prime"; break; }
        case 5: { int p = g.range(2, longer ? 130 : 60); while(not is_prime(p)) p++; n = p * p; what = "prime square"; break; }
        case 6: { int p = g.range(2, longer ? 130 : 60), q = g.range(2, longer ? 130 : 60); while(not is_prime(p)) p++; while(not is_prime(q)) q++; n = p * q; what = "product of primes"; break; }
        case 7: { int p = g.range(60, 400); while(not is_prime(p)) p++; n = p * g.range(2, 12); what = "multiple of a prime"; break; }
        case 8: { n = g.range(1200, longer ? 3200 : 2600); while(not is_prime(n)) n++; what = "long prime"; break; }
        default: n = longer ? g.range(3000, 6000) : g.range(65, 3000); what = "any"; break;
    }
    c.label(std::string("length: ") + what); if (n > 6000) c.label("length above 6000");
    return n;
}
template<typename F> struct Buf { // exact heap array
    long n; F *p; explicit Buf(long count) : n(count), p((F*) std::malloc(count * sizeof(F))) { std::memset(p, 0xff, count * sizeof(F)); } ~Buf(){ std::free(p); } Buf(Buf const&) = delete;
};
template<typename F> void check_line(std::vector<cplx> const &got, std::vector<cplx> const &want, int n, double scale, int line, pbt::Case &c){
    double e = 0, s = scale, worst = -1; size_t at = 0;
    for(size_t k=0; k<want.size(); k++){ double d = std::abs(got[k] - want[k]); if (not (d <= worst)){ worst = d; at = k; } e += d * d; }
    e = std::sqrt(e); double tol = unit_eps<F>() * (32.0 + 2.0 * n) * s + 1e-300;
    if (not (e <= tol)){ std::ostringstream o; o << "line " << line << " entry " << at << " got " << got[at] << " expected " << want[at] << " (error norm " << e << " allowed " << tol << ")"; pbt::fail(o.str()); }
    (void) c;
}
struct Layout { int n, many, stride, dist; };
//! Interleaved (dist 1) or consecutive lines, as the executors use them, and with gaps.
Layout gen_layout(pbt::Gen &g, int n, int nc, pbt::Case &c){
    Layout l; l.n = n; int m = n > 6000 ? 2 : n > 1500 ? 3 : (n > 300 ? 9 : 19); l.many = g.range(1, m);
    if (g.chance(1, 2)){ l.stride = 1; l.dist = (l.many == 1 or not g.chance(1, 4)) ? nc : nc + g.range(1, 3); c.label("consecutive lines"); }
    else { l.dist = 1; l.stride = l.many + (g.chance(1, 3) ? g.range(1, 3) : 0); c.label("interleaved lines"); }
    return l;
}
long span(Layout const &l, int count, int dist){ return (long)(count - 1) * l.stride + (long)(l.many - 1) * dist + 1; }

template<typename F> void c2c_case(pbt::Gen &g, pbt::Case &c, bool fwd){
    int n = gen_length(g, c); Layout l = gen_layout(g, n, n, c); uint64_t seed = g.seed64(); bool wide = g.chance(1, 3); int reps = g.range(1, 2);
    c.desc << "c2c " << (std::is_same<F, float>::value ? "float" : "double") << (fwd ? " forward" : " backward") << " n=" << n << " lines=" << l.many << " stride=" << l.stride << " dist=" << l.dist << (wide ? " wide-range" : "") << " reps=" << reps << " seed=" << seed % 100003;
    c.nontrivial = n > 1; pbt::publish(c);
    long total = span(l, n, l.dist); Buf<std::complex<F>> a(total);
    heffte::plan_stock_fft<std::complex<F>, heffte::direction::forward> pf(n, l.many, l.stride, l.dist);
    heffte::plan_stock_fft<std::complex<F>, heffte::direction::backward> pb(n, l.many, l.stride, l.dist);
    for(int rep=0; rep<reps; rep++){
        std::vector<char> touched(total, 0); std::vector<std::vector<cplx>> x(l.many, std::vector<cplx>(n)); Rng r(seed + rep);
        for(int k=0; k<l.many; k++){ double s = wide ? std::pow(10.0, (double)((int)(r.next() % 13) - 6)) : 1.0; for(int i=0; i<n; i++){ long q = (long) i * l.stride + (long) k * l.dist; std::complex<F> v((F)(s * r.unit()), (F)(s * r.unit())); a.p[q] = v; x[k][i] = cplx(v.real(), v.imag()); touched[q] = 1; } }
        if (fwd) pf.execute(a.p); else pb.execute(a.p);
        std::vector<cplx> got(n);
        for(int k=0; k<l.many; k++){ for(int i=0; i<n; i++){ auto v = a.p[(long) i * l.stride + (long) k * l.dist]; got[i] = cplx(v.real(), v.imag()); } check_line<F>(got, dft_line(x[k], fwd ? -1 : 1), n, norm2(x[k]) * std::sqrt((double) n), k, c); }
        for(long q=0; q<total; q++) if (not touched[q]){ unsigned char *b = (unsigned char*) &a.p[q]; for(size_t i=0; i<sizeof(a.p[q]); i++) if (b[i] != 0xff) pbt::fail("an element between the lines was modified at offset " + std::to_string(q)); }
    }
}
template<typename F> void r2c_case(pbt::Gen &g, pbt::Case &c, bool fwd){
    int n = gen_length(g, c), nc = n / 2 + 1; Layout l = gen_layout(g, n, n, c); int rdist = l.dist, cdist = l.dist == 1 ? 1 : nc + (l.dist - n); uint64_t seed = g.seed64(); bool wide = g.chance(1, 3);
    if (l.many == 1 and l.dist != 1) cdist = nc;
    if (n == 1 and l.dist == 1 and l.stride == 1) {}
    c.desc << (fwd ? "r2c " : "c2r ") << (std::is_same<F, float>::value ? "float" : "double") << " n=" << n << " lines=" << l.many << " stride=" << l.stride << " rdist=" << rdist << " cdist=" << cdist << (wide ? " wide-range" : "") << " seed=" << seed % 100003;
    c.nontrivial = n > 1; pbt::publish(c);
    long rt = span(l, n, rdist), ct = span(l, nc, cdist); Buf<F> a(rt); Buf<std::complex<F>> b(ct);
    std::vector<char> tr(rt, 0), tc(ct, 0); std::vector<std::vector<cplx>> x(l.many, std::vector<cplx>(n)); Rng r(seed);
    for(int k=0; k<l.many; k++){ double s = wide ? std::pow(10.0, (double)((int)(r.next() % 13) - 6)) : 1.0; for(int i=0; i<n; i++){ long q = (long) i * l.stride + (long) k * rdist; F v = (F)(s * r.unit()); x[k][i] = v; tr[q] = 1; if (fwd) a.p[q] = v; } for(int i=0; i<nc; i++) tc[(long) i * l.stride + (long) k * cdist] = 1; }
    if (fwd){
        std::vector<F> before(a.p, a.p + rt);
        heffte::plan_stock_fft<F, heffte::direction::forward> p(n, l.many, l.stride, rdist, cdist); p.execute(static_cast<F const*>(a.p), b.p);
        if (std::memcmp(before.data(), a.p, rt * sizeof(F)) != 0) pbt::fail("the real input was modified");
        for(int k=0; k<l.many; k++){ auto w = dft_line(x[k], -1); w.resize(nc); std::vector<cplx> got(nc); for(int i=0; i<nc; i++){ auto v = b.p[(long) i * l.stride + (long) k * cdist]; got[i] = cplx(v.real(), v.imag()); } check_line<F>(got, w, n, norm2(x[k]) * std::sqrt((double) n), k, c); }
        for(long q=0; q<ct; q++) if (not tc[q]){ unsigned char *m = (unsigned char*) &b.p[q]; for(size_t i=0; i<sizeof(b.p[q]); i++) if (m[i] != 0xff) pbt::fail("an element between the lines was modified at offset " + std::to_string(q)); }
    }else{
        std::vector<std::vector<cplx>> full(l.many);
        for(int k=0; k<l.many; k++){ auto w = dft_line(x[k], -1);
            w[0] = w[0].real(); if (n % 2 == 0) w[n/2] = w[n/2].real();
            for(int i=0; i<nc; i++){ std::complex<F> v((F) w[i].real(), (F) w[i].imag()); b.p[(long) i * l.stride + (long) k * cdist] = v; w[i] = cplx(v.real(), v.imag()); if (i > 0) w[n-i] = std::conj(w[i]); }
            full[k] = w; }
        heffte::plan_stock_fft<F, heffte::direction::backward> p(n, l.many, l.stride, rdist, cdist); p.execute(static_cast<std::complex<F> const*>(b.p), a.p);
        for(int k=0; k<l.many; k++){ auto w = dft_line(full[k], 1); std::vector<cplx> got(n); for(int i=0; i<n; i++){ got[i] = a.p[(long) i * l.stride + (long) k * rdist]; w[i] = w[i].real(); } check_line<F>(got, w, n, norm2(full[k]) * std::sqrt((double) n), k, c); }
        for(long q=0; q<rt; q++) if (not tr[q]){ unsigned char *m = (unsigned char*) &a.p[q]; for(size_t i=0; i<sizeof(F); i++) if (m[i] != 0xff) pbt::fail("an element between the lines was modified at offset " + std::to_string(q)); }
    }
}
template<typename F> struct main_width {
#ifdef Heffte_ENABLE_AVX
    static const int L = heffte::pack_size<F>::size;
#else
    static const int L = 1;
#endif
};
#ifndef HARNESS_MINIMAL // parts that call internal functions of the tree, left out when those have another form
template<typename F> void rader_case(pbt::Gen &g, pbt::Case &c){
    using namespace heffte; const int L = main_width<F>::L;
    int p = g.range(3, g.chance(1, 10) ? 400 : 120); while(not is_prime(p)) p++; bool fwd = not g.chance(1, 2); int sin = g.range(1, 3), sout = g.range(1, 3); uint64_t seed = g.seed64();
    c.desc << "rader " << (std::is_same<F, float>::value ? "float" : "double") << " p=" << p << (fwd ? " forward" : " backward") << " strides=" << sin << "," << sout << " seed=" << seed % 100003; c.nontrivial = true; c.label("rader"); pbt::publish(c);
    size_t a = stock::primeRoot(p), ainv = stock::modPow(a, p - 2, p);
    if ((a * ainv) % p != 1) pbt::fail("the inverse of the primitive root is wrong");
    std::vector<char> seen(p, 0); size_t v = 1; for(int i=0; i<p-1; i++){ if (seen[v]) pbt::fail("the primitive root does not generate the group"); seen[v] = 1; v = v * a % p; }
    std::unique_ptr<stock::biFuncNode<F,L>[]> root(new stock::biFuncNode<F,L>[1 + stock::getNumNodes(p - 1)]);
    root[0] = stock::biFuncNode<F,L>(p, a, ainv); root[0].left = 1; size_t used = stock::init_fft_tree(root.get() + 1, p - 1);
    if (used > stock::getNumNodes(p - 1)) pbt::fail("the tree uses more nodes than are allocated");
    stock::complex_vector<F,L> x((p - 1) * sin + 1), y((p - 1) * sout + 1); const int lanes = L == 1 ? 1 : L / 2;
    std::vector<std::vector<cplx>> in(lanes, std::vector<cplx>(p)); Rng r(seed);
    for(int i=0; i<p; i++){ std::complex<F> t[lanes]; for(int k=0; k<lanes; k++){ t[k] = std::complex<F>((F) r.unit(), (F) r.unit()); in[k][i] = cplx(t[k].real(), t[k].imag()); } x[i*sin] = stock::Complex<F,L>(t, 1); }
    root[0].fptr(x.data(), y.data(), sin, sout, root.get(), fwd ? direction::forward : direction::backward);
    std::vector<cplx> got(p);
    for(int k=0; k<lanes; k++){ for(int i=0; i<p; i++) got[i] = cplx(y[i*sout][k].real(), y[i*sout][k].imag()); check_line<F>(got, dft_line(in[k], fwd ? -1 : 1), 8 * p, norm2(in[k]) * std::sqrt((double) p), k, c); }
}
void tree_case(pbt::Gen &g, pbt::Case &c){
    using namespace heffte;
    size_t n = g.chance(1, 3) ? (size_t) g.range(1, 2000) : (size_t) g.range(1, 3000000);
    if (g.chance(1, 4)){ size_t p = g.range(2, 1700); while(not is_prime(p)) p++; n = p * p; }
    c.desc << "factorisation of n=" << n; c.nontrivial = n > 1; c.label("factorisation"); pbt::publish(c);
    size_t f = stock::factor(n);
    if (f == 0 or n % f != 0) pbt::fail("factor() returned " + std::to_string(f));
    if (n > 1 and f <= 1) pbt::fail("factor() returned 1");
    auto t = stock::fptrFactorHelper(n); bool prime = is_prime(n);
    auto pow_of = [](size_t m, size_t b){ if (m < b) return false; while(m % b == 0) m /= b; return m == 1; };
    for(size_t b : {2, 3, 4}) if (stock::power_of(n, b) != pow_of(n, b)) pbt::fail("power_of(" + std::to_string(n) + "," + std::to_string(b) + ") is wrong");
    if (t.first == stock::rader and not prime) pbt::fail("Rader's algorithm is selected for a composite length");
    if (t.first == stock::composite and (t.second <= 1 or t.second >= n or n % t.second != 0)) pbt::fail("composite length is split by " + std::to_string(t.second));
    if (t.first == stock::pow2 and not pow_of(n, 2)) pbt::fail("not a power of two");
    if (t.first == stock::pow4 and not pow_of(n, 4)) pbt::fail("not a power of four");
    if (t.first == stock::pow3 and not pow_of(n, 3)) pbt::fail("not a power of three");
    std::function<size_t(size_t)> count = [&](size_t m) -> size_t { auto q = stock::fptrFactorHelper(m); if (q.first == stock::composite) return 1 + count(q.second) + count(m / q.second); if (q.first == stock::rader) return 1 + count(m - 1); return 1; };
    if (stock::getNumNodes(n) < count(n)) pbt::fail("the tree needs " + std::to_string(count(n)) + " nodes but " + std::to_string(stock::getNumNodes(n)) + " are allocated");
}
#endif
void c12(pbt::Gen &g, pbt::Case &c){
    int what = g.weighted({5, 3, 3, 1, 1}); bool dbl = g.chance(1, 2);
    c.label(dbl ? "double" : "float");
    switch(what){
        case 0: { bool fwd = not g.chance(1, 2); c.label("c2c"); if (dbl) c2c_case<double>(g, c, fwd); else c2c_case<float>(g, c, fwd); break; }
        case 1: c.label("r2c"); if (dbl) r2c_case<double>(g, c, true); else r2c_case<float>(g, c, true); break;
        case 2: c.label("c2r"); if (dbl) r2c_case<double>(g, c, false); else r2c_case<float>(g, c, false); break;
#ifdef HARNESS_MINIMAL
        default: c.label("c2c"); if (dbl) c2c_case<double>(g, c, true); else c2c_case<float>(g, c, true); break;
#else
        case 3: if (dbl) rader_case<double>(g, c); else rader_case<float>(g, c); break;
        default: tree_case(g, c); break;
#endif
    }
}

// ---- C22 -------------------------------------------------------------------------------------------------------------
template<typename F> F gen_value(pbt::Gen &g){
    static const double fixed[] = {0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 1e-6, -1e6};
    if (g.chance(1, 3)) return (F) fixed[g.below(8)];
    double m = ((double) g.below(200001) - 100000.0) / 100000.0; int e = g.range(0, 8); static const double ten[] = {1, 10, 0.1, 100, 0.01, 1000, 0.001, 1e4, 1e-4}; return (F)(m * ten[e]);
}
// values of moderate size times a power of two, so that every product and squared modulus stays a normal number
template<typename F> F gen_scaled(pbt::Gen &g, int e){ if (g.chance(1, 8)) return 0; double m = (double) (1 + g.below(1000)) / 1000.0; if (m < 0.25) m = 1.0 - m; return std::ldexp((F)(g.chance(1, 2) ? m : -m), e); }
template<typename F> int gen_exponent(pbt::Gen &g, int other, int low, int high){ // the products and quotients with 2^other stay in the range
    const int top = std::is_same<F, float>::value ? 126 : 1022, bottom = std::is_same<F, float>::value ? -110 : -950;
    for(int t=0; t<20; t++){ int e = g.chance(1, 3) ? high - g.below(3) : g.chance(1, 3) ? low + g.below(3) : g.range(low, high); if (e + other <= top and e - other <= top and e + other >= bottom and e - other >= bottom) return e; }
    return 0;
}
template<typename F, int L> struct Lanes { static const int n = L == 1 ? 1 : L / 2; };
template<typename F, int L> void close(heffte::stock::Complex<F,L> const &v, std::vector<cplx> const &want, std::vector<double> const &scale, std::string const &what){
    for(int k=0; k<Lanes<F,L>::n; k++){
        cplx got(v[k].real(), v[k].imag()); double tol = unit_eps<F>() * 16 * scale[k];
        if (not (std::abs(got.real() - want[k].real()) <= tol and std::abs(got.imag() - want[k].imag()) <= tol)){ std::ostringstream o; o.precision(17); o << what << " lane " << k << " got " << got << " expected " << want[k] << " allowed " << tol; pbt::fail(o.str()); }
    }
}
template<typename F, int L> void get_modulus(heffte::stock::Complex<F,L> &x, F *m, std::false_type){ x.modulus(m); }
template<typename F, int L> void get_modulus(heffte::stock::Complex<F,L> &x, F *m, std::true_type){ m[0] = x.modulus().real(); }
template<typename F, int L> void vec_case(pbt::Gen &g, pbt::Case &c){
    using namespace heffte::stock; typedef Complex<F,L> V; const int n = Lanes<F,L>::n;
    int stride = g.range(1, 5); F s = gen_value<F>(g); int load = g.below(4);
    std::vector<std::complex<F>> a(n), b(n), d(n);
    bool scaled = g.chance(1, 3); int ex = 0, ey = 0, es = 0;
    if (scaled){ // large and small magnitudes
        const int hi = std::is_same<F, float>::value ? 63 : 511, lo = std::is_same<F, float>::value ? -50 : -450;
        ey = gen_exponent<F>(g, 0, lo, hi); ex = gen_exponent<F>(g, ey, lo, hi); es = gen_exponent<F>(g, ex, lo, hi); s = gen_scaled<F>(g, es); c.label("scaled by powers of two");
    }
    for(auto *v : {&a, &b, &d}) for(auto &x : *v){ int e = v == &a ? ex : v == &b ? ey : ex + ey - 1; F re = scaled ? gen_scaled<F>(g, e) : gen_value<F>(g), im = scaled ? gen_scaled<F>(g, e) : gen_value<F>(g); x = {re, im}; }
    c.label(std::string(std::is_same<F, float>::value ? "float x " : "double x ") + std::to_string(L)); static const char *loads[] = {"complex", "strided", "reals", "pair"};
    c.label(std::string("load ") + loads[load]);
    c.desc << (std::is_same<F, float>::value ? "float" : "double") << " width " << L << " load=" << loads[load] << " stride=" << stride << " s=" << s << " x="; for(auto &x : a) c.desc << x; c.desc << " y="; for(auto &x : b) c.desc << x; c.desc << " z="; for(auto &x : d) c.desc << x;
    c.nontrivial = true; c.weight = 25; pbt::publish(c);
    std::vector<cplx> A(n), B(n), D(n);
    if (load == 3){ for(int k=1; k<n; k++) a[k] = a[0]; }
    for(int k=0; k<n; k++){ A[k] = cplx(a[k].real(), a[k].imag()); B[k] = cplx(b[k].real(), b[k].imag()); D[k] = cplx(d[k].real(), d[k].imag()); }
    auto make = [&](std::vector<std::complex<F>> const &v) -> V {
        if (load == 0) { Buf<std::complex<F>> m(n); for(int k=0; k<n; k++) m.p[k] = v[k]; return V(static_cast<std::complex<F> const*>(m.p)); }
        if (load == 2) { Buf<F> m(2 * n); for(int k=0; k<n; k++){ m.p[2*k] = v[k].real(); m.p[2*k+1] = v[k].imag(); } return V(m.p); }
        Buf<std::complex<F>> m((n - 1) * stride + 1); for(int k=0; k<n; k++) m.p[k * stride] = v[k]; return V(static_cast<std::complex<F> const*>(m.p), stride);
    };
    V x = load == 3 ? V(a[0].real(), a[0].imag()) : make(a); V y = make(b), z = make(d);
    double S = (double) s;
    auto W = [&](std::function<cplx(int)> f){ std::vector<cplx> r(n); for(int k=0; k<n; k++) r[k] = f(k); return r; };
    auto T = [&](std::function<double(int)> f){ std::vector<double> r(n); for(int k=0; k<n; k++) r[k] = f(k); return r; };
    auto m = [](cplx const &v){ return std::abs(v); };
    auto exact = T([](int){ return 0.0; });
    close<F,L>(x, A, exact, "load"); close<F,L>(y, B, exact, "load"); close<F,L>(V(), W([](int){ return cplx(0); }), exact, "default");
    if (n > 1 or L == 1){ V q{std::complex<F>(a[0])}; close<F,L>(q, W([&](int){ return A[0]; }), exact, "broadcast list"); }
    auto sum = T([&](int k){ return m(A[k]) + m(B[k]); }), mul = T([&](int k){ return m(A[k]) * m(B[k]); });
    close<F,L>(x + y, W([&](int k){ return A[k] + B[k]; }), sum, "x + y");
    close<F,L>(x - y, W([&](int k){ return A[k] - B[k]; }), sum, "x - y");
    close<F,L>(x * y, W([&](int k){ return A[k] * B[k]; }), mul, "x * y");
    auto fm = T([&](int k){ return m(A[k]) * m(B[k]) + m(D[k]); });
    close<F,L>(x.fmadd(y, z), W([&](int k){ return A[k] * B[k] + D[k]; }), fm, "x y + z");
    close<F,L>(x.fmsub(y, z), W([&](int k){ return A[k] * B[k] - D[k]; }), fm, "x y - z");
    close<F,L>(-x, W([&](int k){ return -A[k]; }), exact, "-x");
    close<F,L>(x.conjugate(), W([&](int k){ return std::conj(A[k]); }), exact, "conjugate");
    close<F,L>(x.__mul_i(), W([&](int k){ return cplx(-A[k].imag(), A[k].real()); }), exact, "i x");
    close<F,L>(x.__mul_neg_i(), W([&](int k){ return cplx(A[k].imag(), -A[k].real()); }), exact, "-i x");
    { Buf<F> q(std::max(1, n)); get_modulus<F,L>(x, q.p, std::integral_constant<bool, L == 1>()); for(int k=0; k<n; k++) if (not (std::abs(q.p[k] - m(A[k])) <= 16 * unit_eps<F>() * m(A[k]))) pbt::fail("modulus of lane " + std::to_string(k) + " is " + std::to_string(q.p[k])); }
    { Buf<F> q(L == 1 ? 2 : L); x.get(q.p); for(int k=0; k<n; k++) if (q.p[2*k] != a[k].real() or q.p[2*k+1] != a[k].imag()) pbt::fail("store of lane " + std::to_string(k) + " is wrong"); }
    auto ss = T([&](int k){ return m(A[k]) + std::abs(S); }), sm = T([&](int k){ return m(A[k]) * std::abs(S); });
    close<F,L>(x + s, W([&](int k){ return A[k] + S; }), ss, "x + real"); close<F,L>(x - s, W([&](int k){ return A[k] - S; }), ss, "x - real"); close<F,L>(x * s, W([&](int k){ return A[k] * S; }), sm, "x * real");
    { V t = x; t += y; close<F,L>(t, W([&](int k){ return A[k] + B[k]; }), sum, "x += y"); } { V t = x; t -= y; close<F,L>(t, W([&](int k){ return A[k] - B[k]; }), sum, "x -= y"); }
    { V t = x; t *= y; close<F,L>(t, W([&](int k){ return A[k] * B[k]; }), mul, "x *= y"); } { V t = x; t *= t; close<F,L>(t, W([&](int k){ return A[k] * A[k]; }), T([&](int k){ return std::norm(A[k]); }), "x *= x"); }
    { V t = x; t += s; close<F,L>(t, W([&](int k){ return A[k] + S; }), ss, "x += real"); } { V t = x; t -= s; close<F,L>(t, W([&](int k){ return A[k] - S; }), ss, "x -= real"); } { V t = x; t *= s; close<F,L>(t, W([&](int k){ return A[k] * S; }), sm, "x *= real"); }
    if (std::abs(S) > (scaled ? 0 : 1e-5)){ auto sd = T([&](int k){ return m(A[k]) / std::abs(S); }); close<F,L>(x / s, W([&](int k){ return A[k] / S; }), sd, "x / real"); V t = x; t /= s; close<F,L>(t, W([&](int k){ return A[k] / S; }), sd, "x /= real"); }
    { // division: lanes with a (nearly) zero divisor are replaced, the others must not be influenced
        std::vector<std::complex<F>> bb = b; std::vector<cplx> BB = B; for(int k=0; k<n; k++) if (m(BB[k]) <= (scaled ? 0 : 1e-4)){ bb[k] = {(F) std::ldexp(0.5, ey), (F) -std::ldexp(0.25, ey)}; BB[k] = cplx(bb[k].real(), bb[k].imag()); }
        V q = make(bb); auto sd = T([&](int k){ return m(A[k]) / m(BB[k]); });
        close<F,L>(x / q, W([&](int k){ return A[k] / BB[k]; }), sd, "x / y"); V t = x; t /= q; close<F,L>(t, W([&](int k){ return A[k] / BB[k]; }), sd, "x /= y");
    }
    if (n > 1){ // a special value in one lane must not reach the other lanes
        int lane = g.below(n); static const double special[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 0.0, -std::numeric_limits<double>::infinity()};
        std::complex<F> w((F) special[g.below(4)], (F) special[g.below(4)]); int which = g.range(1, 7);
        auto put = [&](std::vector<std::complex<F>> v, bool yes) -> std::vector<std::complex<F>> { if (yes) v[lane] = w; return v; };
        std::vector<std::complex<F>> e = a; if (load == 3) for(int k=0; k<n; k++) e[k] = a[0];
        V p = make(put(e, false)), q = make(put(b, false)), r = make(put(d, false)), p2 = make(put(e, which & 1)), q2 = make(put(b, which & 2)), r2 = make(put(d, which & 4));
        auto same = [&](V const &u, V const &v, char const *what){ for(int k=0; k<n; k++) if (k != lane){ std::complex<F> f = u[k], h = v[k]; if (std::memcmp(&f, &h, sizeof(f)) != 0 and not (f != f and h != h)) pbt::fail(std::string("the result of ") + what + " in lane " + std::to_string(k) + " depends on the operands in lane " + std::to_string(lane)); } };
        same(p + q, p2 + q2, "x + y"); same(p - q, p2 - q2, "x - y"); same(p * q, p2 * q2, "x * y"); same(p / q, p2 / q2, "x / y"); same(p.fmadd(q, r), p2.fmadd(q2, r2), "x y + z"); same(p.fmsub(q, r), p2.fmsub(q2, r2), "x y - z");
        same(-p, -p2, "-x"); same(p.conjugate(), p2.conjugate(), "conjugate"); same(p.__mul_i(), p2.__mul_i(), "i x"); same(p.__mul_neg_i(), p2.__mul_neg_i(), "-i x"); same(p * s, p2 * s, "x * real"); same(p / s, p2 / s, "x / real"); same(p + s, p2 + s, "x + real");
        Buf<F> m1(n), m2(n); get_modulus<F,L>(p, m1.p, std::integral_constant<bool, L == 1>()); get_modulus<F,L>(p2, m2.p, std::integral_constant<bool, L == 1>()); for(int k=0; k<n; k++) if (k != lane and m1.p[k] != m2.p[k] and m1.p[k] == m1.p[k]) pbt::fail("the modulus in one lane depends on another lane");
    }
    close<F,L>(x, A, exact, "operand after use"); close<F,L>(y, B, exact, "operand after use"); // operands unchanged
}
void c22(pbt::Gen &g, pbt::Case &c){
#if defined(Heffte_ENABLE_AVX512)
    switch(g.below(8)){ case 0: vec_case<float,16>(g, c); break; case 1: vec_case<double,8>(g, c); break; case 2: vec_case<float,8>(g, c); break; case 3: vec_case<float,4>(g, c); break; case 4: vec_case<double,4>(g, c); break; case 5: vec_case<double,2>(g, c); break; case 6: vec_case<float,1>(g, c); break; default: vec_case<double,1>(g, c); }
#elif defined(Heffte_ENABLE_AVX)
    switch(g.below(6)){ case 0: vec_case<float,8>(g, c); break; case 1: vec_case<float,4>(g, c); break; case 2: vec_case<double,4>(g, c); break; case 3: vec_case<double,2>(g, c); break; case 4: vec_case<float,1>(g, c); break; default: vec_case<double,1>(g, c); }
#else
    if (g.chance(1, 2)) vec_case<float,1>(g, c); else vec_case<double,1>(g, c);
#endif
}
}
int main(int argc, char **argv){
    std::vector<pbt::Property> p;
    p.push_back({"c12", c12, 25000, 120000}); p.push_back({"c22", c22, 300000, 6000000});
    return pbt::run(argc, argv, p);
}
