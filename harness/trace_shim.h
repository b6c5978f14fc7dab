// The traced copy of the library (compiled with tracing in a renamed namespace) next to the untraced one.
#ifndef TRACE_SHIM_H
#define TRACE_SHIM_H
#include <string>
#include "plan.h"
std::unique_ptr<Plan> make_traced_plan(PlanSpec const &s);
void traced_init(std::string const &root);
void traced_finalize();
//! Exchanges the trace state of the library (one per process in reality) between simulated ranks.
void traced_switch(int from, int to);
void traced_reset(int nranks);
// the same calls in the untraced copy, where they do nothing
void untraced_init(std::string const &root);
void untraced_finalize();
#endif
