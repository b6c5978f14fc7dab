#define PLAN_ALIEN_F fftwf_complex
#define PLAN_ALIEN_D fftw_complex
#define PLAN_ALIEN_TAG heffte::backend::fftw
#include "plan_impl.h"
#ifdef PLAN_WIDE
std::unique_ptr<Plan> make_plan_fftw_w(PlanSpec const &s){ return (s.kind == R2R and s.r2r == 3) ? build3d<heffte::backend::fftw_sin1, long long, PlanR2R>(s) : build_any<long long, heffte::backend::fftw, heffte::backend::fftw_cos, heffte::backend::fftw_sin, heffte::backend::fftw_cos1>(s); }
#else
std::unique_ptr<Plan> make_plan_fftw(PlanSpec const &s){ return (s.kind == R2R and s.r2r == 3) ? build3d<heffte::backend::fftw_sin1, int, PlanR2R>(s) : build_any<int, heffte::backend::fftw, heffte::backend::fftw_cos, heffte::backend::fftw_sin, heffte::backend::fftw_cos1>(s); }
#endif
