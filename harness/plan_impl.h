#ifndef PLAN_IMPL_H
#define PLAN_IMPL_H
#include "heffte.h"
#include "plan.h"

template<typename index> heffte::box3d<index> to_heffte(Box const &b){
    return heffte::box3d<index>({(index) b.lo[0], (index) b.lo[1], (index) b.lo[2]}, {(index) b.hi[0], (index) b.hi[1], (index) b.hi[2]}, {b.order[0], b.order[1], b.order[2]});
}
template<typename index> Box from_heffte(heffte::box3d<index> const &b){
    Box r; for(int d=0; d<3; d++){ r.lo[d] = (int) b.low[d]; r.hi[d] = (int) b.high[d]; r.order[d] = b.order[d]; } return r;
}
inline heffte::scale to_scale(int s){ return s == 0 ? heffte::scale::none : (s == 1 ? heffte::scale::full : heffte::scale::symmetric); }
template<typename backend_tag, bool r2c = false> heffte::plan_options to_options(PlanOpts const &o){
    if (o.use_default) return heffte::default_options<backend_tag>();
    heffte::plan_options p = heffte::default_options<backend_tag>();
    p.use_reorder = o.reorder; p.use_pencils = o.pencils;
    p.algorithm = o.algorithm == 0 ? heffte::reshape_algorithm::alltoall : (o.algorithm == 1 ? heffte::reshape_algorithm::alltoallv : (o.algorithm == 2 ? heffte::reshape_algorithm::p2p : heffte::reshape_algorithm::p2p_plined));
    if (o.subranks != -1) p.use_num_subranks(o.subranks);
    p.use_gpu_aware = o.gpu_aware;
    return p;
}
//! Options with a sub-communicator, which lives only while the plan is constructed.
template<typename backend_tag, bool r2c = false> struct Options {
    heffte::plan_options o; MPI_Comm sub = MPI_COMM_NULL;
    Options(PlanSpec const &s) : o(to_options<backend_tag, r2c>(s.opts)) {
        if (s.opts.subcomm.empty()) return;
        MPI_Group all, g; MPI_Comm_group(s.comm, &all); MPI_Group_incl(all, (int) s.opts.subcomm.size(), s.opts.subcomm.data(), &g); MPI_Comm_create(s.comm, g, &sub); MPI_Group_free(&g); MPI_Group_free(&all);
        o.use_subcomm(sub); if (s.opts.late != -1) o.use_num_subranks(s.opts.late);
    }
    ~Options(){ if (sub != MPI_COMM_NULL) MPI_Comm_free(&sub); }
};
template<typename T> std::vector<T> to_vector(void const *p, long n){ T const *t = reinterpret_cast<T const*>(p); return std::vector<T>(t, t + n); }

template<typename F, typename in_t, typename out_t, typename ws_t>
void raw_forward(F &f, Call const &c){
    in_t const *in = reinterpret_cast<in_t const*>(c.in); out_t *out = reinterpret_cast<out_t*>(c.out); ws_t *ws = reinterpret_cast<ws_t*>(c.ws);
    heffte::scale s = to_scale(c.scale);
    switch(c.form){
        case 0: if (c.scale == 0) f.forward(in, out); else f.forward(in, out, s); break;
        case 1: f.forward(in, out, ws, s); break;
        case 2: f.forward(c.batch, in, out, ws, s); break;
        case 3: f.forward(c.batch, in, out, s); break;
        default: break;
    }
}
template<typename F, typename in_t, typename out_t, typename ws_t>
void raw_backward(F &f, Call const &c){
    in_t const *in = reinterpret_cast<in_t const*>(c.in); out_t *out = reinterpret_cast<out_t*>(c.out); ws_t *ws = reinterpret_cast<ws_t*>(c.ws);
    heffte::scale s = to_scale(c.scale);
    switch(c.form){
        case 0: if (c.scale == 0) f.backward(in, out); else f.backward(in, out, s); break;
        case 1: f.backward(in, out, ws, s); break;
        case 2: f.backward(c.batch, in, out, ws, s); break;
        case 3: f.backward(c.batch, in, out, s); break;
        default: break;
    }
}
template<typename F, typename in_t, typename out_t> void vector_forward(F &f, Call const &c){
    auto v = to_vector<in_t>(c.in, c.vec_count < 0 ? f.size_inbox() : c.vec_count); auto r = f.forward(v, to_scale(c.scale));
    static_assert(std::is_same<typename std::decay<decltype(r[0])>::type, out_t>::value, "vector API output type"); std::copy(r.begin(), r.end(), reinterpret_cast<out_t*>(c.out));
}
//! Complex types other than std::complex that the library accepts with each backend; tag is 0 stock, 1 FFTW, 2 MKL.
template<typename F, typename R> struct alien { typedef std::complex<R> type; };
template<typename T> struct UserComplex { T re, im; };
namespace heffte { template<> struct is_ccomplex<UserComplex<float>> : std::true_type {}; template<> struct is_zcomplex<UserComplex<double>> : std::true_type {}; }
template<typename index, typename R> struct alien<heffte::fft3d<heffte::backend::stock, index>, R> { typedef UserComplex<R> type; };
template<typename index, typename R> struct alien<heffte::fft3d_r2c<heffte::backend::stock, index>, R> { typedef UserComplex<R> type; };
#ifdef PLAN_ALIEN_F
template<typename index> struct alien<heffte::fft3d<PLAN_ALIEN_TAG, index>, float> { typedef PLAN_ALIEN_F type; };
template<typename index> struct alien<heffte::fft3d<PLAN_ALIEN_TAG, index>, double> { typedef PLAN_ALIEN_D type; };
template<typename index> struct alien<heffte::fft3d_r2c<PLAN_ALIEN_TAG, index>, float> { typedef PLAN_ALIEN_F type; };
template<typename index> struct alien<heffte::fft3d_r2c<PLAN_ALIEN_TAG, index>, double> { typedef PLAN_ALIEN_D type; };
#endif
template<typename F> struct PlanBase : Plan {
    F f;
    explicit PlanBase(F &&g) : f(std::move(g)) {}
    long size_inbox() const override{ return (long) f.size_inbox(); }
    long size_outbox() const override{ return (long) f.size_outbox(); }
    long size_workspace() const override{ return (long) f.size_workspace(); }
    long size_comm() const override{ return (long) f.size_comm_buffers(); }
    double factor(int s) const override{ return f.get_scale_factor(to_scale(s)); }
    Box inbox() const override{ return from_heffte(f.inbox()); }
    Box outbox() const override{ return from_heffte(f.outbox()); }
};
template<typename F, typename T> void c2c_call(F &f, Call const &c){
    typedef std::complex<T> C; typedef typename alien<F, T>::type A;
    if (c.form == 4){
        if (c.forward){ if (c.real_side) vector_forward<F, T, C>(f, c); else vector_forward<F, C, C>(f, c); return; }
        auto v = to_vector<C>(c.in, c.vec_count < 0 ? f.size_outbox() : c.vec_count);
        if (c.real_side){ auto r = f.backward_real(v, to_scale(c.scale)); std::copy(r.begin(), r.end(), reinterpret_cast<T*>(c.out)); }
        else { auto r = f.backward(v, to_scale(c.scale)); std::copy(r.begin(), r.end(), reinterpret_cast<C*>(c.out)); }
    }else if (c.alien){
        if (c.forward){ if (c.real_side) raw_forward<F, T, A, A>(f, c); else raw_forward<F, A, A, A>(f, c); }
        else { if (c.real_side) raw_backward<F, A, T, A>(f, c); else raw_backward<F, A, A, A>(f, c); }
    }else if (c.forward){
        if (c.real_side) raw_forward<F, T, C, C>(f, c); else raw_forward<F, C, C, C>(f, c);
    }else{
        if (c.real_side) raw_backward<F, C, T, C>(f, c); else raw_backward<F, C, C, C>(f, c);
    }
}
template<typename F> struct PlanC2C : PlanBase<F> {
    using PlanBase<F>::PlanBase;
    void call(Call const &c) override{ if (c.dbl) c2c_call<F, double>(this->f, c); else c2c_call<F, float>(this->f, c); }
    std::unique_ptr<Plan> moved() override{ return std::unique_ptr<Plan>(new PlanC2C<F>(std::move(this->f))); }
    bool assign(Plan &other) override{ auto *o = dynamic_cast<PlanC2C<F>*>(&other); if (o == nullptr) return false; this->f = std::move(o->f); return true; }
};
template<typename F, typename T> void r2c_call(F &f, Call const &c){
    typedef std::complex<T> C; typedef typename alien<F, T>::type A;
    if (c.form == 4){
        if (c.forward){ vector_forward<F, T, C>(f, c); return; }
        auto v = to_vector<C>(c.in, c.vec_count < 0 ? f.size_outbox() : c.vec_count); auto r = f.backward(v, to_scale(c.scale)); std::copy(r.begin(), r.end(), reinterpret_cast<T*>(c.out));
    }else if (c.alien){ if (c.forward) raw_forward<F, T, A, A>(f, c); else raw_backward<F, A, T, A>(f, c); }
    else if (c.forward) raw_forward<F, T, C, C>(f, c);
    else raw_backward<F, C, T, C>(f, c);
}
template<typename F> struct PlanR2C : PlanBase<F> {
    using PlanBase<F>::PlanBase;
    void call(Call const &c) override{ if (c.dbl) r2c_call<F, double>(this->f, c); else r2c_call<F, float>(this->f, c); }
    std::unique_ptr<Plan> moved() override{ return std::unique_ptr<Plan>(new PlanR2C<F>(std::move(this->f))); }
    bool assign(Plan &other) override{ auto *o = dynamic_cast<PlanR2C<F>*>(&other); if (o == nullptr) return false; this->f = std::move(o->f); return true; }
};
template<typename F, typename T> void r2r_call(F &f, Call const &c){
    if (c.form == 4 and c.forward) vector_forward<F, T, T>(f, c);
    else if (c.forward) raw_forward<F, T, T, T>(f, c);
    else if (c.form == 4){ auto v = to_vector<T>(c.in, c.vec_count < 0 ? f.size_outbox() : c.vec_count); auto r = f.backward(v, to_scale(c.scale)); std::copy(r.begin(), r.end(), reinterpret_cast<T*>(c.out)); }
    else raw_backward<F, T, T, T>(f, c);
}
template<typename F> struct PlanR2R : PlanBase<F> {
    using PlanBase<F>::PlanBase;
    void call(Call const &c) override{ if (c.dbl) r2r_call<F, double>(this->f, c); else r2r_call<F, float>(this->f, c); }
    std::unique_ptr<Plan> moved() override{ return std::unique_ptr<Plan>(new PlanR2R<F>(std::move(this->f))); }
    bool assign(Plan &other) override{ auto *o = dynamic_cast<PlanR2R<F>*>(&other); if (o == nullptr) return false; this->f = std::move(o->f); return true; }
};
template<typename tag, typename index, template<typename> class P> std::unique_ptr<Plan> build3d(PlanSpec const &s){
    typedef heffte::fft3d<tag, index> F;
    Options<tag> opt(s); heffte::plan_options const &o = opt.o;
    if (s.ctor == 1 and sizeof(index) == sizeof(int))
        return std::unique_ptr<Plan>(new P<F>(F(s.in.lo[0], s.in.lo[1], s.in.lo[2], s.in.hi[0], s.in.hi[1], s.in.hi[2], s.in.order[0], s.in.order[1], s.in.order[2],
            s.out.lo[0], s.out.lo[1], s.out.lo[2], s.out.hi[0], s.out.hi[1], s.out.hi[2], s.out.order[0], s.out.order[1], s.out.order[2], s.comm, o.use_reorder, (int) o.algorithm, o.use_pencils)));
    if (s.ctor == 2) return std::unique_ptr<Plan>(new P<F>(F(nullptr, to_heffte<index>(s.in), to_heffte<index>(s.out), s.comm, o)));
    if (s.ctor == 3) return std::unique_ptr<Plan>(new P<F>(heffte::make_fft3d<tag, index>(to_heffte<index>(s.in), to_heffte<index>(s.out), s.comm, o)));
    return std::unique_ptr<Plan>(new P<F>(F(to_heffte<index>(s.in), to_heffte<index>(s.out), s.comm, o)));
}
template<typename tag, typename index> std::unique_ptr<Plan> build_r2c(PlanSpec const &s){
    typedef heffte::fft3d_r2c<tag, index> F;
    Options<tag, true> opt(s); heffte::plan_options const &o = opt.o;
    if (s.ctor == 2) return std::unique_ptr<Plan>(new PlanR2C<F>(F(nullptr, to_heffte<index>(s.in), to_heffte<index>(s.out), s.r2c_dir, s.comm, o)));
    if (s.ctor == 3) return std::unique_ptr<Plan>(new PlanR2C<F>(heffte::make_fft3d_r2c<tag, index>(to_heffte<index>(s.in), to_heffte<index>(s.out), s.r2c_dir, s.comm, o)));
    return std::unique_ptr<Plan>(new PlanR2C<F>(F(to_heffte<index>(s.in), to_heffte<index>(s.out), s.r2c_dir, s.comm, o)));
}
template<typename index, typename tag, typename tag_cos, typename tag_sin, typename tag_cos1> std::unique_ptr<Plan> build_any(PlanSpec const &s){
    switch(s.kind){
        case C2C: return build3d<tag, index, PlanC2C>(s);
        case R2C: return build_r2c<tag, index>(s);
        default: return s.r2r == 0 ? build3d<tag_cos, index, PlanR2R>(s) : (s.r2r == 1 ? build3d<tag_sin, index, PlanR2R>(s) : build3d<tag_cos1, index, PlanR2R>(s));
    }
}
#endif
