// Independent reference for demonstrations: separable direct DFT of a global array and extraction of boxes.
#include "heffte.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <random>
using namespace heffte;
typedef std::complex<double> zc;
struct grid { std::array<int, 3> n; std::vector<zc> v;
    grid(std::array<int, 3> m) : n(m), v((size_t)m[0] * m[1] * m[2]) {}
    zc &at(int i, int j, int k) { return v[((size_t)k * n[1] + j) * n[0] + i]; } };
inline grid random_grid(std::array<int, 3> n, bool real, int seed = 1) { grid g(n); std::mt19937 r(seed); std::uniform_real_distribution<double> u(-1, 1);
    for (auto &x : g.v) { double a = u(r), b = u(r); x = zc(a, real ? 0.0 : b); } return g; }
inline grid dft(grid g, int sign) {
    for (int d = 0; d < 3; d++) { grid o(g.n); int n = g.n[d];
        for (int k = 0; k < g.n[2]; k++) for (int j = 0; j < g.n[1]; j++) for (int i = 0; i < g.n[0]; i++) {
            int c[3] = {i, j, k}, f = c[d]; zc s = 0;
            for (int t = 0; t < n; t++) { c[d] = t; s += g.at(c[0], c[1], c[2]) * std::polar(1.0, sign * 2 * M_PI * (double)((long long)f * t % n) / n); }
            o.at(i, j, k) = s; }
        g = o; }
    return g; }
template<class T> T cast(zc z);
template<> inline zc cast<zc>(zc z) { return z; }
template<> inline std::complex<float> cast<std::complex<float>>(zc z) { return std::complex<float>((float)z.real(), (float)z.imag()); }
template<> inline double cast<double>(zc z) { return z.real(); }
template<> inline float cast<float>(zc z) { return (float)z.real(); }
template<class T, class I> std::vector<T> extract(grid &g, box3d<I> b) { std::vector<T> r; std::array<int, 3> c; auto o = b.order;
    for (c[o[2]] = b.low[o[2]]; c[o[2]] <= b.high[o[2]]; c[o[2]]++) for (c[o[1]] = b.low[o[1]]; c[o[1]] <= b.high[o[1]]; c[o[1]]++) for (c[o[0]] = b.low[o[0]]; c[o[0]] <= b.high[o[0]]; c[o[0]]++)
        r.push_back(cast<T>(g.at(c[0], c[1], c[2])));
    return r; }
template<class T> double error(std::vector<T> const &a, std::vector<T> const &b) { if (a.size() != b.size()) return 1e30; double e = 0, m = 1e-300;
    for (size_t i = 0; i < a.size(); i++) { double d = std::abs(a[i] - b[i]); if (!(d == d)) return 1e30; e = std::max(e, d); m = std::max(m, (double)std::abs(b[i])); }
    return e / m; }
// error over all processes of the forward and backward complex transform, batch copies with different data
template<class B, class I = int> double c2c_error(std::vector<box3d<I>> in, std::vector<box3d<I>> out, plan_options opt, MPI_Comm comm, int batch = 1) {
    int me = mpi::comm_rank(comm); auto w = find_world(in); std::array<int, 3> n = {(int)w.size[0], (int)w.size[1], (int)w.size[2]};
    fft3d<B, I> fft(in[me], out[me], comm, opt); std::vector<zc> x, y, f, g;
    for (int b = 0; b < batch; b++) { grid a = random_grid(n, false, 5 + b), af = dft(a, -1), ab = dft(a, +1);
        auto e = extract<zc>(a, in[me]); x.insert(x.end(), e.begin(), e.end()); e = extract<zc>(af, out[me]); f.insert(f.end(), e.begin(), e.end());
        e = extract<zc>(a, out[me]); y.insert(y.end(), e.begin(), e.end()); e = extract<zc>(ab, in[me]); g.insert(g.end(), e.begin(), e.end()); }
    std::vector<zc> r(f.size()), q(g.size());
    if (batch == 1) { fft.forward(x.data(), r.data()); fft.backward(y.data(), q.data()); }
    else { fft.forward(batch, x.data(), r.data()); fft.backward(batch, y.data(), q.data()); }
    double e = std::max(error(r, f), error(q, g)), t; MPI_Allreduce(&e, &t, 1, MPI_DOUBLE, MPI_MAX, comm); return t; }
template<class B, class I = int> double r2c_error(std::vector<box3d<I>> in, std::vector<box3d<I>> out, int dir, plan_options opt, MPI_Comm comm, int batch = 1) {
    int me = mpi::comm_rank(comm); auto w = find_world(in); std::array<int, 3> n = {(int)w.size[0], (int)w.size[1], (int)w.size[2]};
    fft3d_r2c<B, I> fft(in[me], out[me], dir, comm, opt); std::vector<double> x, g; std::vector<zc> f;
    double total = (double)n[0] * n[1] * n[2];
    for (int b = 0; b < batch; b++) { grid a = random_grid(n, true, 5 + b), af = dft(a, -1);
        auto e = extract<double>(a, in[me]); x.insert(x.end(), e.begin(), e.end()); auto z = extract<zc>(af, out[me]); f.insert(f.end(), z.begin(), z.end()); }
    for (auto t : x) g.push_back(t * total);
    std::vector<zc> r(f.size()); std::vector<double> q(g.size());
    if (batch == 1) { fft.forward(x.data(), r.data()); fft.backward(f.data(), q.data()); }
    else { fft.forward(batch, x.data(), r.data()); fft.backward(batch, f.data(), q.data()); }
    double e = std::max(error(r, f), error(q, g)), t; MPI_Allreduce(&e, &t, 1, MPI_DOUBLE, MPI_MAX, comm); return t; }
template<class I = int> std::vector<box3d<I>> split(std::array<int, 3> n, std::array<int, 3> p, std::array<int, 3> order = {0, 1, 2}) {
    return split_world(box3d<I>({0, 0, 0}, {(I)(n[0] - 1), (I)(n[1] - 1), (I)(n[2] - 1)}, order), p); }
inline int verdict(double e, double tol = 1e-10) { if (mpi::world_rank(0)) { printf("largest relative error %g\n", e); fflush(stdout); } MPI_Finalize(); return e <= tol ? 0 : 1; }
