// Compiled twice: with tracing (namespace renamed by a macro, TRACED defined) and without.
#include "heffte.h"
#include "trace_shim.h"
#include <vector>
#ifdef TRACED
std::unique_ptr<Plan> make_plan_traced_stock(PlanSpec const &s); std::unique_ptr<Plan> make_plan_traced_fftw(PlanSpec const &s); std::unique_ptr<Plan> make_plan_traced_mkl(PlanSpec const &s);
std::unique_ptr<Plan> make_traced_plan(PlanSpec const &s){ return s.backend == STOCK ? make_plan_traced_stock(s) : (s.backend == FFTW ? make_plan_traced_fftw(s) : make_plan_traced_mkl(s)); }
void traced_init(std::string const &root){ heffte::init_tracing(root); }
void traced_finalize(){ heffte::finalize_tracing(); }
typedef decltype(heffte::event_log) log_type;
static std::vector<log_type> logs; static std::vector<std::string> names;
void traced_reset(int nranks){ logs.assign(nranks, log_type()); names.assign(nranks, std::string()); heffte::event_log = log_type(); heffte::log_filename.clear(); }
void traced_switch(int from, int to){
    if (from >= 0){ std::swap(logs[from], heffte::event_log); std::swap(names[from], heffte::log_filename); }
    if (to >= 0){ std::swap(logs[to], heffte::event_log); std::swap(names[to], heffte::log_filename); }
}
#else
void untraced_init(std::string const &root){ heffte::init_tracing(root); }
void untraced_finalize(){ heffte::finalize_tracing(); }
#endif
