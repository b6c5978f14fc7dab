// Reference mathematics and geometry, written from the definitions only.
#ifndef ORACLE_H
#define ORACLE_H
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

typedef std::array<int,3> I3;
typedef std::complex<double> cplx;

//! An axis aligned box of indexes with a storage order (order[0] is the fastest dimension).
struct Box {
    I3 lo{0,0,0}, hi{-1,-1,-1}; I3 order{0,1,2};
    int size(int d) const{ return hi[d] - lo[d] + 1; }
    bool empty() const{ return size(0) <= 0 or size(1) <= 0 or size(2) <= 0; }
    long count() const{ return empty() ? 0 : (long) size(0) * size(1) * size(2); }
    bool has(I3 const &p) const{ for(int d=0; d<3; d++) if (p[d] < lo[d] or p[d] > hi[d]) return false; return true; }
    //! Local offset of a global index.
    long offset(I3 const &p) const{
        int a = order[0], b = order[1], c = order[2];
        return ((long)(p[c] - lo[c]) * size(b) + (p[b] - lo[b])) * size(a) + (p[a] - lo[a]);
    }
    //! Visits all indexes in storage order.
    template<typename F> void each(F const &f) const{
        if (empty()) return;
        long k = 0; I3 p;
        for(p[order[2]] = lo[order[2]]; p[order[2]] <= hi[order[2]]; p[order[2]]++)
            for(p[order[1]] = lo[order[1]]; p[order[1]] <= hi[order[1]]; p[order[1]]++)
                for(p[order[0]] = lo[order[0]]; p[order[0]] <= hi[order[0]]; p[order[0]]++) f(p, k++);
    }
    bool same(Box const &b) const{ return lo == b.lo and hi == b.hi; }
    std::string str() const{
        std::ostringstream o; o << "[" << lo[0] << "," << lo[1] << "," << lo[2] << ":" << hi[0] << "," << hi[1] << "," << hi[2] << "|" << order[0] << order[1] << order[2] << "]"; return o.str();
    }
};
inline Box intersect(Box const &a, Box const &b){ Box r; for(int d=0; d<3; d++){ r.lo[d] = std::max(a.lo[d], b.lo[d]); r.hi[d] = std::min(a.hi[d], b.hi[d]); } r.order = a.order; return r; }
inline Box world_box(I3 const &n){ Box b; b.hi = {n[0]-1, n[1]-1, n[2]-1}; return b; }

//! A global array in (0,1,2) order, index 0 fastest.
struct Grid {
    I3 n; std::vector<cplx> v;
    explicit Grid(I3 const &nn = {0,0,0}) : n(nn), v((size_t) nn[0] * nn[1] * nn[2]) {}
    cplx& at(I3 const &p){ return v[((size_t) p[2] * n[1] + p[1]) * n[0] + p[0]]; }
    cplx const& at(I3 const &p) const{ return v[((size_t) p[2] * n[1] + p[1]) * n[0] + p[0]]; }
    double norm2() const{ double s = 0; for(auto const &x : v) s += std::norm(x); return std::sqrt(s); }
    double max() const{ double s = 0; for(auto const &x : v) s = std::max(s, std::abs(x)); return s; }
};

namespace oracle {
const double pi = 3.14159265358979323846264338327950288;
//! Applies a (m x n) matrix along dimension d.
inline Grid along(Grid const &g, int d, int m, std::function<cplx(int,int)> const &entry){
    int n = g.n[d]; std::vector<cplx> mat((size_t) m * n);
    for(int k=0; k<m; k++) for(int j=0; j<n; j++) mat[(size_t) k * n + j] = entry(k, j);
    I3 rn = g.n; rn[d] = m; Grid r(rn);
    I3 p; int a = (d + 1) % 3, b = (d + 2) % 3;
    size_t st[3] = {1, (size_t) g.n[0], (size_t) g.n[0] * g.n[1]}, rs[3] = {1, (size_t) rn[0], (size_t) rn[0] * rn[1]};
    (void) p;
    std::vector<cplx> line(n);
    for(int i=0; i<g.n[a]; i++) for(int j=0; j<g.n[b]; j++){
        size_t o = i * st[a] + j * st[b], q = i * rs[a] + j * rs[b];
        for(int x=0; x<n; x++) line[x] = g.v[o + x * st[d]];
        for(int k=0; k<m; k++){ cplx s = 0; cplx const *row = &mat[(size_t) k * n]; for(int x=0; x<n; x++) s += row[x] * line[x]; r.v[q + k * rs[d]] = s; }
    }
    return r;
}
inline cplx root(long num, long den){ // exp(2 pi i num / den) with exact reduction
    num %= den; if (num < 0) num += den;
    long double t = 2.0L * 3.14159265358979323846264338327950288L * (long double) num / (long double) den;
    return cplx((double) cosl(t), (double) sinl(t));
}
inline Grid dft(Grid g, int sign){
    for(int d=0; d<3; d++){ int n = g.n[d]; g = along(g, d, n, [=](int k, int j){ return root((long) sign * k * j, n); }); }
    return g;
}
//! Full Hermitian spectrum of a half spectrum shortened in dimension d with logical length n.
inline Grid keep_half(Grid const &g, int d){
    I3 n = g.n; n[d] = n[d] / 2 + 1; Grid r(n); Box b = world_box(n); b.each([&](I3 const &p, long){ r.at(p) = g.at(p); }); return r;
}
// r2r kinds: 0 cosine (DCT-II / DCT-III), 1 sine (DST-II / DST-III), 2 cosine type 1 (DCT-I), 3 sine type 1 (DST-I); in the FFTW unnormalised convention
inline cplx r2r_entry(int kind, bool forward, int n, int k, int j){
    auto c = [](long num, long den){ return root(num, den).real(); };
    auto s = [](long num, long den){ return root(num, den).imag(); };
    switch(kind){
        case 0: if (forward) return 2.0 * c((long) k * (2 * j + 1), 4L * n);                       // REDFT10: 2 sum x_j cos(pi (j+1/2) k / n)
                else return (j == 0) ? 1.0 : 2.0 * c((long) j * (2 * k + 1), 4L * n);              // REDFT01
        case 1: if (forward) return 2.0 * s((long) (k + 1) * (2 * j + 1), 4L * n);                 // RODFT10
                else return (j == n - 1) ? ((k % 2) ? -1.0 : 1.0) : 2.0 * s((long) (j + 1) * (2 * k + 1), 4L * n); // RODFT01
        case 2: return (j == 0) ? 1.0 : ((j == n - 1) ? ((k % 2) ? -1.0 : 1.0) : 2.0 * c((long) j * k, 2L * (n - 1))); // REDFT00
        default: return 2.0 * s((long) (j + 1) * (k + 1), 2L * (n + 1));                           // RODFT00
    }
}
inline Grid r2r(Grid g, int kind, bool forward){
    for(int d=0; d<3; d++){ int n = g.n[d]; g = along(g, d, n, [=](int k, int j){ return r2r_entry(kind, forward, n, k, j); }); }
    return g;
}
}
#endif
